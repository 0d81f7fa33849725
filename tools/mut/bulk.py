LT="crates/common/src/direct_access/list/list_table.rs"
BT="crates/common/src/direct_access/block/block_table.rs"
M=[
("s05",[(LT,"b.list.filter(|l| removed.contains(l)).map(|_| {","b.list.filter(|l| ids.first() == Some(l)).map(|_| {")],{"C43":1}),
("skip1",[(LT,"            for id in ids {\n                map.remove(id);","            for id in ids.iter().take(64) {\n                map.remove(id);")],{"C43":1}),
("brk",[(BT,"            if let Some(block) = map.get_mut(&id) {\n                write_field(block, field, ids);\n            }","            if let Some(block) = map.get_mut(&id) {\n                write_field(block, field, ids);\n            } else { break; }")],{"C43":1}),
("cont",[(BT,"            if let Some(block) = map.get_mut(&id) {\n                write_field(block, field, ids);\n            }","            if ids.is_empty() { continue; }\n            if let Some(block) = map.get_mut(&id) {\n                write_field(block, field, ids);\n            }")],{"C43":1}),
("neutral-iter",[(LT,"            for id in ids {\n                map.remove(id);\n            }","            ids.iter().for_each(|id| { map.remove(id); });")],{"C43":0,"C24":0}),
("neutral-while",[(LT,"            for id in ids {\n                map.remove(id);\n            }","            let mut it = ids.iter();\n            while let Some(id) = it.next() {\n                map.remove(id);\n            }")],{"C43":0,"C24":0}),
("neutral-index",[(LT,"            for id in ids {\n                map.remove(id);\n            }","            for i in 0..ids.len() {\n                map.remove(&ids[i]);\n            }")],{"C43":0,"C24":0}),
]
