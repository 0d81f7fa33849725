D="crates/public_api/src/document.rs"
H="crates/public_api/src/highlight.rs"
I="crates/public_api/src/inner.rs"
X="crates/document_inspection/src/use_cases/get_document_stats_uc.rs"
M=[
("query-dirty",[(D,"        let dto = document_inspection_commands::get_document_stats(&inner.ctx)\n","        let mut inner = inner;\n        inner.modified = false;\n        let dto = document_inspection_commands::get_document_stats(&inner.ctx)\n")],{"C19":1}),
("query-event",[(D,"        let mut inner = self.inner.lock();\n        Ok(inner.plain_text()?.to_string())","        let mut inner = self.inner.lock();\n        inner.queue_event(DocumentEvent::DocumentReset);\n        Ok(inner.plain_text()?.to_string())")],{"C19":1}),
("hl-dirty",[(H,"        hl.blocks.clear();\n\n        let blocks = ordered_block_ids(self);","        hl.blocks.clear();\n        self.modified = true;\n\n        let blocks = ordered_block_ids(self);")],{"C20":1}),
("hl-invalidate",[(H,"        hl.blocks.clear();\n\n        let blocks = ordered_block_ids(self);","        hl.blocks.clear();\n        self.invalidate_text_cache();\n\n        let blocks = ordered_block_ids(self);")],{"C20":0,"C19":0}),
("n-let",[(D,"        let dto = document_inspection_commands::get_document_stats(&inner.ctx)\n            .expect(\"get_document_stats should not fail\");\n","        let ctx = &inner.ctx;\n        let dto = document_inspection_commands::get_document_stats(ctx)\n            .expect(\"get_document_stats should not fail\");\n")],{"C19":0,"C20":0}),
("query-txn",[("crates/document_inspection/src/units_of_work/get_document_stats_uow.rs","begin_read_transaction(&self.context)?","begin_write_transaction(&self.context)?")],{"C19":1}),
]
