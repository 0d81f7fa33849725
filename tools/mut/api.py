C="crates/public_api/src/cursor.rs"
D="crates/public_api/src/document.rs"
I="crates/public_api/src/inner.rs"
FE="        inner.modified = true;\n        inner.invalidate_text_cache();\n        inner.rehighlight_affected(edit_pos);\n"
OWN="        {\n            let mut d = self.data.lock();\n            d.position = new_pos;\n            d.anchor = new_pos;\n        }\n        inner.modified = true;"
UND="            let result = undo_redo_commands::undo(&inner.ctx, Some(inner.stack_id));\n            inner.invalidate_text_cache();\n            result?;\n"
RT="            inner.invalidate_text_cache();\n"
M=[
("cache-cond",[(C,FE,FE.replace("        inner.invalidate_text_cache();\n","        if added > 0 || removed > 0 {\n            inner.invalidate_text_cache();\n        }\n"))],{"C10":1}),
("cache-err",[(C,"    if result.is_err() {\n        // The deletion may have been applied before the insertion failed.\n        inner.invalidate_text_cache();\n    }\n","")],{"C10":1}),
("cache-undo-err",[(D,UND,"            undo_redo_commands::undo(&inner.ctx, Some(inner.stack_id))?;\n            inner.invalidate_text_cache();\n")],{"C10":0}),
("cache-table",[(C,"            document_editing_commands::merge_table_cells(&inner.ctx, Some(inner.stack_id), &dto)?;\n            inner.modified = true;\n            inner.invalidate_text_cache();\n","            document_editing_commands::merge_table_cells(&inner.ctx, Some(inner.stack_id), &dto)?;\n            inner.modified = true;\n")],{"C10":1,"C12":0}),
("cache-fill",[(D,"            document_io_commands::import_plain_text(&inner.ctx, &dto)?;\n            undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);\n            inner.invalidate_text_cache();\n","            document_io_commands::import_plain_text(&inner.ctx, &dto)?;\n            undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);\n            inner.plain_text_cache = Some(text.to_string());\n")],{"C10":1,"C09":1}),
("n-cache-inline",[(C,FE,FE.replace("inner.invalidate_text_cache()","inner.plain_text_cache = None"))],{"C10":0,"C12":0}),
("n-cache-before-mod",[(C,FE,"        inner.invalidate_text_cache();\n        inner.modified = true;\n        inner.rehighlight_affected(edit_pos);\n")],{"C10":0,"C11":0,"C12":0}),
("own-anchor",[(C,OWN,OWN.replace("            d.anchor = new_pos;\n","            if removed == 0 {\n                d.anchor = new_pos;\n            }\n"))],{"C11":1}),
("own-edit",[(C,OWN,OWN.replace("d.anchor = new_pos","d.anchor = edit_pos"))],{"C11":1}),
("adj-skip",[(C,"        inner.adjust_cursors(edit_pos, removed, added);\n        {","        if removed != added {\n            inner.adjust_cursors(edit_pos, removed, added);\n        }\n        {")],{"C11":1}),
("adj-anchor",[(I,"                data.anchor = adjust_offset(data.anchor, edit_pos, removed, added);\n","                if data.anchor > edit_pos + removed {\n                    data.anchor = adjust_offset(data.anchor, edit_pos, removed, added);\n                }\n")],{"C11":1}),
("adj-take",[(I,"for weak in &self.cursors {\n            if let","for weak in self.cursors.iter().take(16) {\n            if let")],{"C11":1}),
("adj-trylock",[(I,"                let mut data = cursor.lock();\n                data.position","                let Some(mut data) = cursor.try_lock() else { continue };\n                data.position")],{"C11":1}),
("told-diff",[(C,"        inner.queue_event(DocumentEvent::ContentsChanged {\n            position: edit_pos,\n            chars_removed: removed,\n            chars_added: added,","        inner.queue_event(DocumentEvent::ContentsChanged {\n            position: edit_pos,\n            chars_removed: removed,\n            chars_added: new_pos,")],{"C11":1}),
("clone-unreg",[(C,"            inner.cursors.push(Arc::downgrade(&data));\n            data\n","            if position != 0 {\n                inner.cursors.push(Arc::downgrade(&data));\n            }\n            data\n")],{"C11":1}),
("prune-live",[(I,"self.cursors.retain(|w| w.strong_count() > 0);","self.cursors.retain(|w| w.strong_count() > 1);")],{"C11":1}),
("n-adj-foreach",[(I,"        for weak in &self.cursors {\n            if let Some(cursor) = weak.upgrade() {\n","        for cursor in self.cursors.iter().filter_map(|w| w.upgrade()) {\n            {\n")],{"C11":0}),
("n-adj-let",[(I,"                data.position = adjust_offset(data.position, edit_pos, removed, added);\n                data.anchor = adjust_offset(data.anchor, edit_pos, removed, added);\n","                let moved = |o: usize| adjust_offset(o, edit_pos, removed, added);\n                data.anchor = moved(data.anchor);\n                data.position = moved(data.position);\n")],{"C11":0}),
("n-adj-helper",[(I,"                let mut data = cursor.lock();\n                data.position = adjust_offset(data.position, edit_pos, removed, added);\n                data.anchor = adjust_offset(data.anchor, edit_pos, removed, added);\n                // Cell selection override references table coordinates that may be\n                // invalidated by the edit, so always clear it.\n                data.cell_selection_override = None;\n","                shift_cursor(&mut cursor.lock(), edit_pos, removed, added);\n"),(I,"/// Shift an offset after","fn shift_cursor(data: &mut CursorData, edit_pos: usize, removed: usize, added: usize) {\n    data.position = adjust_offset(data.position, edit_pos, removed, added);\n    data.anchor = adjust_offset(data.anchor, edit_pos, removed, added);\n    data.cell_selection_override = None;\n}\n\n/// Shift an offset after")],{"C11":0,"C12":0}),
("n-adj-feach",[(I,"        for weak in &self.cursors {\n            if let Some(cursor) = weak.upgrade() {\n","        self.cursors.iter().for_each(|weak| {\n            if let Some(cursor) = weak.upgrade() {\n"),(I,"                data.cell_selection_override = None;\n            }\n        }\n","                data.cell_selection_override = None;\n            }\n        });\n")],{"C11":0}),
("n-own-helper",[(C,OWN,"        self.put(new_pos);\n        inner.modified = true;"),(C,"    fn finish_edit_ext(","    fn put(&self, at: usize) {\n        let mut d = self.data.lock();\n        d.position = at;\n        d.anchor = at;\n    }\n\n    fn finish_edit_ext(")],{"C11":0}),
("mod-table",[(C,"            document_editing_commands::remove_table(&inner.ctx, Some(inner.stack_id), &dto)?;\n            inner.modified = true;\n","            document_editing_commands::remove_table(&inner.ctx, Some(inner.stack_id), &dto)?;\n")],{"C12":1,"C10":0}),
("ev-cond",[(C,"        inner.check_block_count_changed();\n        if flow_may_change {","        if blocks_affected > 1 {\n            inner.check_block_count_changed();\n        }\n        if flow_may_change {")],{"C12":1}),
("flow-false",[(C,"self.finish_edit_ext(inner, edit_pos, removed, new_pos, blocks_affected, true)","self.finish_edit_ext(inner, edit_pos, removed, new_pos, blocks_affected, false)")],{"C12":1}),
("flow-not-set",[(C,"                    flow_may_change = true;\n","")],{"C12":1}),
("late-queue",[(D,"                inner.queue_event(DocumentEvent::UndoRedoChanged { can_undo, can_redo });\n            }\n            (count, inner.take_queued_events())","                let q = inner.take_queued_events();\n                inner.queue_event(DocumentEvent::UndoRedoChanged { can_undo, can_redo });\n                drop(inner);\n                crate::inner::dispatch_queued_events(q);\n                return Ok(count);\n            }\n            (count, inner.take_queued_events())")],{"C12":1}),
("no-dispatch",[(C,"        crate::inner::dispatch_queued_events(queued.1);","        if !queued.0.is_empty() {\n            crate::inner::dispatch_queued_events(queued.1);\n        }")],{"C12":1}),
("n-rt-cond",[(D,"            inner.invalidate_text_cache();\n            if count > 0 {\n","            if count > 0 {\n                inner.invalidate_text_cache();\n")],{"C12":0,"C10":0}),
("n-rt-early",[(D,"            if count > 0 {\n                inner.modified = true;","            if count == 0 {\n                let q = inner.take_queued_events();\n                drop(inner);\n                crate::inner::dispatch_queued_events(q);\n                return Ok(0);\n            }\n            {\n                inner.modified = true;")],{"C12":0,"C10":0}),
("rt-wrong",[(D,"            if count > 0 {\n                inner.modified = true;","            if count > 1 {\n                inner.modified = true;")],{"C12":1}),
("n-finish-helper",[(C,FE,"        Self::mark(inner, edit_pos);\n"),(C,"    fn finish_edit_ext(","    fn mark(inner: &mut TextDocumentInner, at: usize) {\n        inner.modified = true;\n        inner.invalidate_text_cache();\n        inner.rehighlight_affected(at);\n    }\n\n    fn finish_edit_ext(")],{"C12":0,"C10":0,"C11":0}),
("reset-no-clear",[(D,"            document_io_commands::import_plain_text(&inner.ctx, &dto)?;\n            undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);\n","            document_io_commands::import_plain_text(&inner.ctx, &dto)?;\n            if undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id)) {\n                undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);\n            }\n")],{"C09":1}),
("reset-child",[(D,"                            inner.reset_cached_child_order();\n","")],{"C09":1}),
("reset-late",[(D,"                            inner.queue_event(DocumentEvent::DocumentReset);\n                            inner.check_block_count_changed();\n","                            inner.check_block_count_changed();\n")],{"C09":1}),
("n-reset-helper",[(D,"                            inner.invalidate_text_cache();\n                            inner.rehighlight_all();\n                            inner.queue_event(DocumentEvent::DocumentReset);\n                            inner.check_block_count_changed();\n                            inner.reset_cached_child_order();\n","                            document_replaced(&mut inner);\n"),(D,"/// Parse ","fn document_replaced(inner: &mut TextDocumentInner) {\n    inner.invalidate_text_cache();\n    inner.rehighlight_all();\n    inner.queue_event(DocumentEvent::DocumentReset);\n    inner.check_block_count_changed();\n    inner.reset_cached_child_order();\n}\n\n/// Parse ")],{"C09":0,"C12":0}),
]
