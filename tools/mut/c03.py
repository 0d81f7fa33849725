IT="crates/document_editing/src/use_cases/insert_text_uc.rs"
IB="crates/document_editing/src/use_cases/insert_block_uc.rs"
DT="crates/document_editing/src/use_cases/delete_text_uc.rs"
M=[
("nosave",[(IB,"        self.undo_snapshot = Some(snapshot);\n        self.last_dto = Some(dto.clone());\n","        self.last_dto = Some(dto.clone());\n        let _ = snapshot;\n")],{"C03":1}),
("late-snapshot",[(IB,"    let snapshot = uow.snapshot_document(&[doc_id])?;\n",""),(IB,"    Ok((\n        InsertBlockResultDto {","    let snapshot = uow.snapshot_document(&[doc_id])?;\n    Ok((\n        InsertBlockResultDto {")],{"C03":1}),
("undo-nothing",[(IB,"        uow.restore_document(&snapshot)?;\n","        let _ = &snapshot;\n")],{"C03":1}),
("no-char-len",[(IT,"            self_undo.inserted_char_len += other_undo.inserted_char_len;\n","")],{"C03":1}),
("no-images",[(IT,"                store\n                    .block_images\n                    .write()\n                    .unwrap()\n                    .insert(data.block_id, data.original_block_images.clone());\n","")],{"C03":1}),
("no-shift",[(IT,"                shift_following_blocks(\n                    &mut uow,\n                    data.doc_id,\n                    &data.original_block,\n                    -data.inserted_char_len,\n                )?;\n","")],{"C03":1}),
("del-merge-snap",[(DT,"        self.last_dto = Some(combined_dto);","        self.undo_snapshot = other_cmd.undo_snapshot.clone();\n        self.last_dto = Some(combined_dto);")],{"C03":1}),
("redo-no-save",[(IB,"        let (_, snapshot) = execute_insert_block(&mut uow, &dto)?;\n        self.undo_snapshot = Some(snapshot);","        let (_, _snapshot) = execute_insert_block(&mut uow, &dto)?;")],{"C03":0}),
("char-count",[(IT,"                doc.character_count = data.original_character_count;\n","")],{"C03":1}),
# neutral
("n-helper",[(IB,"        self.undo_snapshot = Some(snapshot);\n        self.last_dto = Some(dto.clone());\n","        self.remember(snapshot, dto);\n"),(IB,"    pub fn execute(&mut self,","    fn remember(&mut self, s: EntityTreeSnapshot, dto: &InsertBlockDto) {\n        self.last_dto = Some(dto.clone());\n        self.undo_snapshot.replace(s);\n    }\n    pub fn execute(&mut self,")],{"C03":0}),
("n-take-put",[(IB,"            .undo_snapshot\n            .as_ref()\n            .ok_or_else(|| anyhow!(\"No snapshot available for undo\"))?\n            .clone();","            .undo_snapshot\n            .clone()\n            .ok_or_else(|| anyhow!(\"No snapshot available for undo\"))?;")],{"C03":0}),
("n-iflet",[(IB,"        let snapshot = self\n            .undo_snapshot\n            .as_ref()\n            .ok_or_else(|| anyhow!(\"No snapshot available for undo\"))?\n            .clone();","        let Some(snapshot) = self.undo_snapshot.clone() else {\n            return Err(anyhow!(\"No snapshot available for undo\"));\n        };")],{"C03":0}),
("n-undohelper",[(IB,"        uow.restore_document(&snapshot)?;\n        uow.commit()?;\n        Ok(())\n    }\n\n    fn redo","        put_back(&mut uow, &snapshot)?;\n        uow.commit()?;\n        Ok(())\n    }\n\n    fn redo"),(IB,"impl InsertBlockUseCase {","fn put_back(uow: &mut Box<dyn InsertBlockUnitOfWorkTrait>, s: &EntityTreeSnapshot) -> Result<()> {\n    uow.restore_document(s)\n}\n\nimpl InsertBlockUseCase {")],{"C03":0}),
]
