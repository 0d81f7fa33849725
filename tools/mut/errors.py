E="crates/document_editing/src/use_cases/"
T=E+"remove_table_uc.rs"
L=E+"insert_list_uc.rs"
D="crates/public_api/src/document.rs"
C="crates/public_api/src/cursor.rs"
V={"C38":1}
N={"C38":0}
OLDFOR="    for fid in &cell_frame_ids {\n        uow.remove_frame(fid)?;\n    }"
M=[
("let_",[(T,"        uow.remove_frame(&anchor_id)?;","        let _ = uow.remove_frame(&anchor_id);")],V),
("ok",[(T,"    uow.update_document(&updated_doc)?;","    uow.update_document(&updated_doc).ok();")],V),
("iflet",[(L,"        uow.update_block_multi(&blocks_to_update)?;","        if let Ok(done) = uow.update_block_multi(&blocks_to_update) {\n            debug_assert!(!done.is_empty());\n        }")],V),
("cont",[(L,"        let ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;","        let Ok(ids) = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks) else {\n            continue;\n        };")],V),
("default",[(L,"uow.get_block_multi(&ids)?.into_iter().flatten()","uow.get_block_multi(&ids).unwrap_or_default().into_iter().flatten()")],V),
("flatmap",[(T,OLDFOR,"    let done: Vec<()> = cell_frame_ids.iter().flat_map(|fid| uow.remove_frame(fid)).collect();\n    debug_assert!(done.len() <= cell_frame_ids.len());")],V),
("filtermap",[(T,OLDFOR,"    let done = cell_frame_ids.iter().filter_map(|fid| uow.remove_frame(fid).ok()).count();\n    debug_assert!(done <= cell_frame_ids.len());")],V),
("foreach",[(T,OLDFOR,"    cell_frame_ids.iter().for_each(|fid| {\n        uow.remove_frame(fid).unwrap_or_else(|e| eprintln!(\"{e}\"));\n    });")],V),
("log",[(T,OLDFOR,"    for fid in &cell_frame_ids {\n        if let Err(e) = uow.remove_frame(fid) {\n            eprintln!(\"{e}\");\n        }\n    }")],V),
("commit",[(T,"        uow.commit()?;\n        Ok(())\n    }\n","        uow.commit().or_else(|_| uow.rollback())\n    }\n")],V),
("isok",[(L,"        uow.update_block_multi(&blocks_to_update)?;","        let done = uow.update_block_multi(&blocks_to_update).is_ok();\n        debug_assert!(done);")],V),
("api-undo",[(D,"            result?;\n            inner.modified = true;\n            inner.rehighlight_all();\n            emit_undo_redo_change_events(&mut inner, &before);","            if result.is_ok() {\n            inner.modified = true;\n            inner.rehighlight_all();\n            emit_undo_redo_change_events(&mut inner, &before);\n            }")],V),
("api-table",[(C,"            document_editing_commands::remove_table(&inner.ctx, Some(inner.stack_id), &dto)?;","            document_editing_commands::remove_table(&inner.ctx, Some(inner.stack_id), &dto).unwrap_or_default();")],V),
("n-match",[(T,"        uow.remove_frame(&anchor_id)?;","        match uow.remove_frame(&anchor_id) {\n            Ok(()) => {}\n            Err(e) => return Err(e),\n        }")],N),
("n-try",[(T,OLDFOR,"    cell_frame_ids.iter().try_for_each(|fid| uow.remove_frame(fid))?;")],N),
("n-coll",[(T,OLDFOR,"    cell_frame_ids\n        .iter()\n        .map(|fid| uow.remove_frame(fid))\n        .collect::<Result<Vec<_>>>()?;")],N),
("n-iferr",[(T,OLDFOR,"    for fid in &cell_frame_ids {\n        let done = uow.remove_frame(fid);\n        if done.is_err() {\n            return Err(anyhow!(\"cannot remove a frame\"));\n        }\n    }")],N),
("n-tail",[(T,"        uow.commit()?;\n        Ok(())\n    }\n","        uow.commit()\n    }\n")],N),
("n-and",[(T,"        uow.commit()?;\n        Ok(())\n    }\n","        let done = uow.commit().map_err(|e| e.context(\"commit\"));\n        done?;\n        Ok(())\n    }\n")],N),
("n-last",[(T,OLDFOR,"    let mut failure = None;\n    for fid in &cell_frame_ids {\n        if let Err(e) = uow.remove_frame(fid) {\n            failure = Some(e);\n            break;\n        }\n    }\n    if let Some(e) = failure {\n        return Err(e);\n    }")],N),
("n-helper",[(T,OLDFOR,"    fn drop_all(uow: &dyn RemoveTableUnitOfWorkTrait, ids: &[EntityId]) -> Result<()> {\n        for fid in ids {\n            uow.remove_frame(fid)?;\n        }\n        Ok(())\n    }\n    drop_all(uow.as_ref(), &cell_frame_ids)?;")],N),
]
