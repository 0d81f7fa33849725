R="crates/common/src/database/rope_helpers.rs"
E="crates/document_editing/src/use_cases/"
M=[
("anchor-threshold",[(R,"            insert_pos + 1,\n            target_idx + 1,\n            insert_pos + 1,\n            4i32,","            insert_pos + 1,\n            target_idx + 1,\n            insert_pos,\n            4i32,")],{"C15":1}),
("split-threshold",[(R,"        .shift_after(split_byte + 1, 1);","        .shift_after(split_byte, 1);")],{"C15":1}),
("split-entry",[(R,"        OffsetMarker::Block(new_block_id),\n        split_byte + 1,","        OffsetMarker::Block(new_block_id),\n        split_byte,")],{"C15":1}),
("no-total",[(R,"    offsets.push_block(block_id, byte_start);\n    offsets.set_total_bytes(new_total);","    offsets.push_block(block_id, byte_start);\n    let _ = new_total;")],{"C15":1}),
("vec-pos",[(R,".position(|(_, bs)| *bs > byte_pos)",".position(|(_, bs)| *bs >= byte_pos)")],{"C15":1}),
("remove-threshold",[(R,"        .shift_after(remove_end, -(deleted_bytes as i32));\n}\n\n/// Replace","        .shift_after(remove_start, -(deleted_bytes as i32));\n}\n\n/// Replace")],{"C15":1}),
("merge-drain",[(R,"        offsets.drain_inclusive(start_idx + 1, end_idx);","        offsets.drain_inclusive(start_idx + 1, end_idx - 1);")],{"C15":1}),
("successor",[(R,"        let content_bytes = if has_successor && end > start {","        let content_bytes = if end < offsets.total_bytes() && has_successor {")],{"C15":1}),
("no-split-register",[(E+"insert_list_uc.rs","        rope_split_block(&store, current.id, current_len, created_block.id);","        let _ = (current_len, &store);")],{"C15":1}),
("no-remove",[(E+"delete_text_uc.rs","rope_merge_block_range(","rope_merge_block_range_off(")],{}),
("n-let",[(R,"    let split_byte = block_start + byte_offset_in_block;\n","    let base = block_start;\n    let split_byte = byte_offset_in_block + base;\n")],{"C15":0}),
("n-pred",[(R,".position(|(_, bs)| *bs > byte_pos)",".position(|(_, bs)| byte_pos < *bs)")],{"C15":0}),
("n-order",[(R,"    offsets.push_block(block_id, byte_start);\n    offsets.set_total_bytes(new_total);","    offsets.set_total_bytes(new_total);\n    offsets.push_block(block_id, byte_start);")],{"C15":0}),
("n-guardname",[(R,"    let mut offsets = store.block_offsets.write().unwrap();\n    offsets.push_block(block_id, byte_start);","    let mut index = store.block_offsets.write().unwrap();\n    let offsets = &mut *index;\n    offsets.push_block(block_id, byte_start);")],{"C15":0}),
("n-extract",[(R,"    let deleted_bytes = remove_end - remove_start;\n\n    {\n        let mut rope = store.rope.write().unwrap();\n        let char_start = rope.byte_to_char(remove_start as usize);\n        let char_end = rope.byte_to_char(remove_end as usize);\n        rope.remove(char_start..char_end);\n    }\n    {","    let deleted_bytes = remove_end - remove_start;\n\n    cut_text(store, remove_start, remove_end);\n    {"),(R,"/// Remove a registered block from the rope: drops","fn cut_text(store: &Store, from: u32, to: u32) {\n    let mut rope = store.rope.write().unwrap();\n    let char_start = rope.byte_to_char(from as usize);\n    let char_end = rope.byte_to_char(to as usize);\n    rope.remove(char_start..char_end);\n}\n\n/// Remove a registered block from the rope: drops")],{"C15":0}),
]
M+=[
("no-drain",[(R,"        offsets.drain_inclusive(start_idx + 1, end_idx);","        let _ = (&mut offsets, start_idx, end_idx);")],{"C15":1}),
("n-boundary",[(R,"    let content_end = if has_successor && be > bs { be - 1 } else { be };\n    drop(offsets);\n    let rope = store.rope.read().unwrap();\n    rope.byte_slice","    let content_end = match has_successor {\n        true if be > bs => be - 1,\n        _ => be,\n    };\n    drop(offsets);\n    let rope = store.rope.read().unwrap();\n    rope.byte_slice")],{"C15":0}),
("n-is-last",[(R,"        let Some((start, end, has_successor)) = offsets.range_with_successor(marker) else {\n            return;\n        };","        let Some((start, end)) = offsets.range_of(marker) else {\n            return;\n        };\n        let at = offsets.position_of(marker).unwrap();\n        let has_successor = at + 1 < offsets.entries.len();")],{"C15":0}),
]
_RH="crates/common/src/database/rope_helpers.rs"
_CB='''        let mut combined = String::with_capacity(1 + text.len());
        combined.push('\\n');
        combined.push_str(text);
        rope.insert(char_idx, &combined);
'''
_I=lambda e: '        rope.insert(char_idx, &%s);\n'%e
M+=[
("n-str-format",[(_RH,_CB,_I('format!("\\n{text}")'))],{"C15":0}),
("n-str-format2",[(_RH,_CB,_I('format!("{}{}", "\\n", text)'))],{"C15":0}),
("n-str-concat",[(_RH,_CB,_I('["\\n", text].concat()'))],{"C15":0}),
("n-str-add",[(_RH,_CB,_I('("\\n".to_string() + text)'))],{"C15":0}),
("str-format",[(_RH,_CB,_I('format!("{text}\\n")'))],{"C15":1}),
("str-format2",[(_RH,_CB,_I('format!("\\n{text}\\n")'))],{"C15":1}),
("str-trim",[(_RH,_CB,_I('format!("\\n{}", text.trim_end())'))],{"C15":1}),
]
_VP='''        let offsets = store.block_offsets.read().unwrap();
        offsets
            .entries
            .iter()
            .position(|(_, bs)| *bs > byte_pos)
            .unwrap_or(offsets.entries.len())
'''
_H='        let offsets = store.block_offsets.read().unwrap();\n        '
M+=[
("n-vp-take",[(_RH,_VP,_H+"offsets.entries.iter().take_while(|(_, s)| *s <= byte_pos).count()\n")],{"C15":0}),
("n-vp-filter",[(_RH,_VP,_H+"offsets.entries.iter().filter(|(_, s)| *s <= byte_pos).count()\n")],{"C15":0}),
("n-vp-pp",[(_RH,_VP,_H+"offsets.entries.partition_point(|(_, s)| *s <= byte_pos)\n")],{"C15":0}),
("n-vp-loop",[(_RH,_VP,_H+"let mut at = 0;\n        while at < offsets.entries.len() && offsets.entries[at].1 <= byte_pos {\n            at += 1;\n        }\n        at\n")],{"C15":0}),
("n-vp-for",[(_RH,_VP,_H+"let mut at = offsets.entries.len();\n        for (i, (_, start)) in offsets.entries.iter().enumerate() {\n            if *start > byte_pos {\n                at = i;\n                break;\n            }\n        }\n        at\n")],{"C15":0}),
("vp-take",[(_RH,_VP,_H+"offsets.entries.iter().take_while(|(_, s)| *s < byte_pos).count()\n")],{"C15":1}),
("vp-end",[(_RH,_VP,_H+"offsets.entries.len()\n")],{"C15":1}),
]
