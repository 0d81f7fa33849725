E="crates/document_editing/src/use_cases/"
IB=E+"insert_block_uc.rs"
IH=E+"insert_html_at_position_uc.rs"
IF=E+"insert_frame_uc.rs"
IT=E+"insert_table_uc.rs"
IL=E+"insert_list_uc.rs"
MD="crates/document_io/src/use_cases/import_markdown_uc.rs"
TX="crates/common/src/database/transactions.rs"
RH="crates/common/src/database/rope_helpers.rs"
V={"C17":1}
N={"C17":0}
INS="    updated_frame\n        .child_order\n        .insert(co_idx, created_block.id as i64);\n"
POS="        .child_order\n        .iter()\n        .position(|&e| e > 0 && e as EntityId == current_block.id)\n        .map(|i| i + 1)\n        .unwrap_or(updated_frame.child_order.len());\n"
LET="    let co_idx = updated_frame\n"+POS
HT="        let new_child_ids: Vec<i64> = new_block_ids.iter().map(|id| *id as i64).collect();\n        for (i, id) in new_child_ids.iter().enumerate() {\n            updated_frame\n                .child_order\n                .insert(child_order_insert_pos + i, *id);\n        }\n"
ANCH="    updated_parent\n        .child_order\n        .insert(idx, -(created_anchor.id as i64));\n"
PUSH="                frame_stack\n                    .last_mut()\n                    .unwrap()\n                    .child_order\n                    .push(created_block.id as i64);\n"
BYTES="        crate::database::rope_helpers::recompute_all_frame_byte_ranges(&self.store);\n"
PO="        crate::database::rope_helpers::recompute_all_block_positions(&self.store);\n"
CO="        crate::database::rope_helpers::recompute_document_counts(&self.store);\n"
M=[
("unlinked",[(IB,LET+INS,"")],V),
("wrong-index",[(IB,LET,"    let co_idx = (block_idx + 1).min(updated_frame.child_order.len());\n")],V),
("html-index",[(IH,"        let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);\n        let new_child_ids","        let child_order_insert_pos = block_idx + 1;\n        let new_child_ids")],V),
("blocks-search",[(IB,LET,"    let co_idx = block_ids_pos(&updated_frame.blocks, current_block.id)\n        .unwrap_or(updated_frame.child_order.len());\n"),(IB,"fn execute_insert_block(","fn block_ids_pos(ids: &[EntityId], id: EntityId) -> Option<usize> {\n    ids.iter().position(|&e| e == id).map(|i| i + 1)\n}\n\nfn execute_insert_block(")],V),
("positive-anchor",[(IT,ANCH,ANCH.replace("-(created_anchor.id as i64)","created_anchor.id as i64"))],V),
("negative-block",[(IL,"        .insert(child_order_insert_pos, created_block.id as i64);","        .insert(child_order_insert_pos, -(created_block.id as i64));")],V),
("unsaved",[(IT,ANCH+"    updated_parent.updated_at = now;\n    uow.update_frame(&updated_parent)?;\n",ANCH+"    updated_parent.updated_at = now;\n    if updated_parent.child_order.len() > 1 {\n        uow.update_frame(&updated_parent)?;\n    }\n")],V),
("stale-save",[(IL,"        uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;\n    uow.update_frame(&updated_frame)?;","        uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;\n    uow.update_frame(&frame)?;")],V),
("import-lost",[(MD,PUSH,"")],V),
("import-sub",[(MD,"        frame_entity.child_order = finished.child_order;\n        uow.update_frame(&frame_entity)?;\n    }\n\n    // Step 5","        frame_entity.child_order = finished.child_order;\n    }\n\n    // Step 5")],V),
("commit-pos",[(TX,PO,"")],V),
("commit-count",[(TX,CO,"")],V),
("commit-range",[(TX,BYTES,"")],V),
("commit-cond",[(TX,CO,"        if self.savepoint.is_none() {\n    "+CO+"        }\n")],V),
("n-helper",[(IB,LET+INS,"    let co_idx = place_behind(&updated_frame, current_block.id);\n"+INS),(IB,"fn execute_insert_block(","fn place_behind(frame: &common::entities::Frame, id: EntityId) -> usize {\n    for (i, &e) in frame.child_order.iter().enumerate() {\n        if e > 0 && e as EntityId == id {\n            return i + 1;\n        }\n    }\n    frame.child_order.len()\n}\n\nfn execute_insert_block(")],N),
("n-inshelper",[(IB,LET+INS,"    enter(&mut updated_frame.child_order, current_block.id, created_block.id);\n"),(IB,"fn execute_insert_block(","fn enter(order: &mut Vec<i64>, after: EntityId, id: EntityId) {\n    let at = order\n        .iter()\n        .position(|&e| e > 0 && e as EntityId == after)\n        .map_or(order.len(), |i| i + 1);\n    order.insert(at, id as i64);\n}\n\nfn execute_insert_block(")],N),
("n-inshelper2",[(IB,LET+INS,"    enter(&mut updated_frame, current_block.id, created_block.id);\n"),(IB,"fn execute_insert_block(","fn enter(frame: &mut common::entities::Frame, after: EntityId, id: EntityId) {\n    let at = frame\n        .child_order\n        .iter()\n        .position(|&e| e > 0 && e as EntityId == after)\n        .map_or(frame.child_order.len(), |i| i + 1);\n    frame.child_order.insert(at, id as i64);\n}\n\nfn execute_insert_block(")],N),
("n-match",[(IB,LET,"    let found = updated_frame\n        .child_order\n        .iter()\n        .position(|&e| e > 0 && e as EntityId == current_block.id);\n    let co_idx = match found {\n        Some(i) => i + 1,\n        None => updated_frame.child_order.len(),\n    };\n")],N),
("n-loop",[(IB,LET,"    let mut co_idx = updated_frame.child_order.len();\n    for i in 0..updated_frame.child_order.len() {\n        if updated_frame.child_order[i] == current_block.id as i64 {\n            co_idx = i + 1;\n            break;\n        }\n    }\n")],N),
("n-splice",[(IH,HT,"        updated_frame.child_order.splice(\n            child_order_insert_pos..child_order_insert_pos,\n            new_block_ids.iter().map(|id| *id as i64),\n        );\n")],N),
("n-while",[(IH,HT,"        let mut at = child_order_insert_pos;\n        for id in &new_block_ids {\n            updated_frame.child_order.insert(at, *id as i64);\n            at += 1;\n        }\n")],N),
("n-rev",[(IH,HT,"        for id in new_block_ids.iter().rev() {\n            updated_frame\n                .child_order\n                .insert(child_order_insert_pos, *id as i64);\n        }\n")],N),
("n-neg",[(IT,ANCH,"    let entry = created_anchor.id as i64;\n    updated_parent.child_order.insert(idx, 0 - entry);\n")],N),
("n-neghelper",[(IT,ANCH,"    updated_parent\n        .child_order\n        .insert(idx, frame_entry(created_anchor.id));\n"),(IT,"fn execute_insert_table(","fn frame_entry(id: EntityId) -> i64 {\n    -(id as i64)\n}\n\nfn execute_insert_table(")],N),
("n-rebuild",[(IT,ANCH,"    let mut order = updated_parent.child_order.clone();\n    order.insert(idx, -(created_anchor.id as i64));\n    updated_parent.child_order = order;\n")],N),
("n-struct",[(IT,"    let mut updated_parent = parent_frame.clone();\n    let idx = child_order_insert_idx.min(updated_parent.child_order.len());","    let mut updated_parent = parent_frame;\n    let idx = std::cmp::min(child_order_insert_idx, updated_parent.child_order.len());")],N),
("n-settle",[(TX,BYTES+PO+CO,"        self.settle();\n"),(TX,"    pub fn commit(","    fn settle(&self) {\n"+BYTES+CO+PO+"    }\n\n    pub fn commit(")],N),
("n-upd",[(IL,"    uow.update_frame(&updated_frame)?;\n","    let stored = uow.update_frame(&updated_frame);\n    stored?;\n")],N),
("n-multi",[(IT,"    updated_parent.updated_at = now;\n    uow.update_frame(&updated_parent)?;\n","    updated_parent.updated_at = now;\n    let parents = vec![updated_parent];\n    for p in &parents {\n        uow.update_frame(p)?;\n    }\n")],N),
]
