RS="crates/common/src/database/rope_store.rs"
TX="crates/common/src/database/transactions.rs"
IN="crates/public_api/src/inner.rs"
EC="crates/document_editing/src/document_editing_controller.rs"
STF="crates/document_formatting/src/use_cases/set_text_format_uc.rs"
RWC="        *self.block_offsets.write().unwrap() = snap.block_offsets.clone();\n        // counters intentionally not restored\n"
BEGIN="    let mut uc = InsertBlockUseCase::new(Box::new(uow_context));\n    let return_dto = uc.execute(dto)?;\n    undo_redo_manager.add_command_to_stack(Box::new(uc), stack_id)?;\n"
def both(*p): return {x:1 for x in p}
M=[
# C01
("c01-swap",[(RS,"            format_runs: self.format_runs.read().unwrap().clone(),","            format_runs: self.format_runs.read().unwrap().iter().filter(|(_, r)| !r.is_empty()).map(|(k, r)| (*k, r.clone())).collect(),")],{"C01":1}),
("c01-partial",[(RS,"            block_images: self.block_images.read().unwrap().clone(),","            block_images: self.block_images.read().unwrap().iter().filter(|(_, r)| r.len() < 2).map(|(k, r)| (*k, r.clone())).collect(),")],{"C01":1}),
("c01-cond",[(RS,RWC,"        if !snap.block_offsets.is_empty() {\n            *self.block_offsets.write().unwrap() = snap.block_offsets.clone();\n        }\n")],{"C01":1}),
("c01-extend",[(RS,"        *self.resources.write().unwrap() = snap.resources.clone();\n        *self.tables.write().unwrap() = snap.tables.clone();\n        *self.table_cells.write().unwrap() = snap.table_cells.clone();\n        *self.format_runs.write().unwrap() = snap.format_runs.clone();\n        *self.block_images.write().unwrap() = snap.block_images.clone();\n"+RWC,"        {\n            let mut live = self.resources.write().unwrap();\n            for (id, r) in snap.resources.iter() {\n                live.insert(*id, r.clone());\n            }\n        }\n        *self.tables.write().unwrap() = snap.tables.clone();\n        *self.table_cells.write().unwrap() = snap.table_cells.clone();\n        *self.format_runs.write().unwrap() = snap.format_runs.clone();\n        *self.block_images.write().unwrap() = snap.block_images.clone();\n"+RWC)],{"C01":1}),
("c01-helper-n",[(RS,RWC,"        put_back(&self.block_offsets, &snap.block_offsets);\n"),(RS,"impl RopeStore {","fn put_back<T: Clone>(live: &std::sync::RwLock<T>, saved: &T) {\n    let mut guard = live.write().unwrap();\n    *guard = saved.clone();\n}\n\nimpl RopeStore {")],{"C01":0,"C05":0,"C15":0}),
# C05
("c05-drop-flag",[(TX,"        // Safety net: if the transaction was not committed or rolled back,\n        // restore the auto-savepoint to undo any partial mutations.\n        if let Some(sp) = self.savepoint.take() {\n            self.store.restore_savepoint(sp);","        // Safety net: if the transaction was not committed or rolled back,\n        // restore the auto-savepoint to undo any partial mutations.\n        if let Some(sp) = self.savepoint.take() {\n            self.store.discard_savepoint(sp);")],{"C05":1}),
("c05-commit-first",[(TX,"        crate::database::rope_helpers::recompute_document_counts(&self.store);\n        // Discard the auto-savepoint — mutations are now permanent\n        if let Some(sp) = self.savepoint.take() {","        crate::database::rope_helpers::recompute_document_counts(&self.store);\n        // Discard the auto-savepoint — mutations are now permanent\n        if let Some(sp) = self.savepoint {")],{"C05":1}),
("c05-sp-id",[(RS,"        self.savepoints.write().unwrap().insert(id, snap);","        self.savepoints.write().unwrap().entry(id).or_insert(snap);")],{"C05":0}),
("c05-sp-reuse",[(RS,"        let snap = self.snapshot();\n        let mut id_counter","        let snap = self.savepoints.read().unwrap().values().next().cloned().unwrap_or_else(|| self.snapshot());\n        let mut id_counter")],{"C05":1}),
("c05-sp-same-id",[(RS,"        *id_counter += 1;\n","")],{"C05":1}),
("c05-restore-nocount",[(RS,"            .clone();\n        self.restore(&snap);","            .clone();\n        self.restore_without_counters(&snap);")],{"C05":1}),
# C02
("c02-cond-record",[(EC,BEGIN,BEGIN.replace("    undo_redo_manager.add","    if return_dto.new_position != dto.position {\n        undo_redo_manager.add").replace("stack_id)?;","stack_id)?;\n    }"))],{"C02":1}),
("c02-default-stack",[(EC,BEGIN,BEGIN.replace("stack_id)?;","stack_id.filter(|s| *s > 1))?;"))],{"C02":1}),
("c02-swallow",[(EC,BEGIN,BEGIN.replace("undo_redo_manager.add_command_to_stack(Box::new(uc), stack_id)?","let _ = undo_redo_manager.add_command_to_stack(Box::new(uc), stack_id)"))],{"C02":1}),
("c02-n",[(EC,BEGIN,BEGIN.replace("    let return_dto = uc.execute(dto)?;\n    undo_redo_manager.add_command_to_stack(Box::new(uc), stack_id)?;\n","    let outcome = uc.execute(dto);\n    let return_dto = match outcome {\n        Ok(dto) => dto,\n        Err(e) => return Err(e),\n    };\n    let command: Box<dyn common::undo_redo::UndoRedoCommand> = Box::new(uc);\n    undo_redo_manager.add_command_to_stack(command, stack_id)?;\n"))],{"C02":0,"C38":0,"C06":0}),
# C44
("c44-alive",[(IN,"        new_events\n            .into_iter()\n            .map(","        new_events\n            .into_iter()\n            .rev()\n            .map(")],{"C44":1}),
("c44-dup",[(IN,"        self.poll_cursor = self.pending_events.len();\n        self.trim_delivered_events();\n        events","        self.poll_cursor = self.poll_cursor.max(self.callback_cursor);\n        self.trim_delivered_events();\n        events")],{"C44":1}),
("c44-trim-order",[(IN,"        self.poll_cursor = self.pending_events.len();\n        self.trim_delivered_events();\n        events","        self.trim_delivered_events();\n        self.poll_cursor = self.pending_events.len();\n        self.trim_delivered_events();\n        events")],{"C44":0}),
("c44-zip",[(IN,"            .map(|e| (e, live_callbacks.clone()))","            .map(|e| (e, live_callbacks.iter().take(16).cloned().collect()))")],{"C44":1}),
# C12
("c12-flow-once",[(IN,"        self.last_child_order = current;\n    }\n\n    /// Reset","        if removed_count > 0 || inserted_count > 1 {\n            self.last_child_order = current;\n        }\n    }\n\n    /// Reset")],{"C12":1}),
("c12-count-noset",[(IN,"                self.last_block_count = new_count;\n                self.queue","                self.last_block_count = self.last_block_count.max(new_count);\n                self.queue")],{"C12":1}),
("c12-flow-index",[(IN,"        if inserted_count > 0 {\n            self.queue_event(crate::DocumentEvent::FlowElementsInserted {\n                flow_index: prefix_len,","        if inserted_count > 0 {\n            self.queue_event(crate::DocumentEvent::FlowElementsInserted {\n                flow_index: prefix_len + removed_count,")],{"C12":0}),
# C10
("c10-keep",[(IN,"        self.plain_text_cache = None;","        if self.plain_text_cache.as_ref().is_some_and(|t| !t.is_empty()) {\n            self.plain_text_cache = None;\n        }")],{"C10":1}),
# C03 / C18 set_text_format
("c03-inverse-range",[(STF,"            byte_range: (byte_start, byte_end),\n            prior_runs,","            byte_range: (byte_start, byte_end),\n            prior_runs: if prior_runs.len() > 1 { prior_runs } else { Vec::new() },")],{"C03":1}),
("c03-redo-stale",[(STF,"        let inverse = execute_set_text_format(&mut uow, &dto)?;\n        self.inverse = Some(inverse);\n        uow.commit()?;","        let inverse = execute_set_text_format(&mut uow, &dto)?;\n        self.inverse.get_or_insert(inverse);\n        uow.commit()?;")],{"C03":0}),
("c03-images-skip",[(STF,"            if let Some(images) = images_map.get_mut(&entry.block_id) {\n                for (byte","            if let Some(images) = images_map.get_mut(&entry.block_id)\n                && entry.prior_runs.is_empty()\n            {\n                for (byte")],{"C03":1}),
("c03-inv-first",[(STF,"    for entry in inverse {\n        {","    for entry in inverse.iter().take(64) {\n        {")],{"C03":1}),
("c43-inv-skip",[(STF,"        if byte_start >= byte_end {\n            continue;\n        }\n\n        // Capture","        if byte_start >= byte_end {\n            break;\n        }\n\n        // Capture")],{"C43":0}),
]
RF="        *self.rope.write().unwrap() = snap.rope.clone();\n        *self.roots.write().unwrap() = snap.roots.clone();\n        *self.documents.write().unwrap() = snap.documents.clone();\n        *self.frames.write().unwrap() = snap.frames.clone();\n        *self.blocks.write().unwrap() = snap.blocks.clone();\n        *self.lists.write().unwrap() = snap.lists.clone();\n        *self.resources.write().unwrap() = snap.resources.clone();\n        *self.tables.write().unwrap() = snap.tables.clone();\n        *self.table_cells.write().unwrap() = snap.table_cells.clone();\n        *self.format_runs.write().unwrap() = snap.format_runs.clone();\n        *self.block_images.write().unwrap() = snap.block_images.clone();\n        *self.block_offsets.write().unwrap() = snap.block_offsets.clone();\n"
M+=[("n-restore-shared",[(RS,RF+"        *self.counters","        self.restore_without_counters(snap);\n        *self.counters")],{"C01":0,"C05":0}),
("n-restore-helper",[(RS,RF+"        *self.counters.write().unwrap() = snap.counters.clone();\n","        self.put_back(snap);\n        let mut counters = self.counters.write().unwrap();\n        counters.clone_from(&snap.counters);\n"),(RS,RF+"        // counters intentionally not restored\n    }\n","        self.put_back(snap);\n    }\n\n    fn put_back(&self, snap: &RopeStoreSnapshot) {\n"+RF+"    }\n")],{"C01":0,"C05":0}),
("n-flag",[(RS,RF+"        *self.counters.write().unwrap() = snap.counters.clone();\n","        self.put_back(snap, true);\n"),(RS,RF+"        // counters intentionally not restored\n    }\n","        self.put_back(snap, false);\n    }\n\n    fn put_back(&self, snap: &RopeStoreSnapshot, counters: bool) {\n"+RF+"        if counters {\n            *self.counters.write().unwrap() = snap.counters.clone();\n        }\n    }\n")],{"C01":0,"C05":0}),
("n-sp-clone",[(RS,"        let snap = self.snapshot();\n        let mut id_counter = self.next_savepoint_id.write().unwrap();\n        let id = *id_counter;\n        *id_counter += 1;\n","        let id = {\n            let mut next = self.next_savepoint_id.write().unwrap();\n            let id = *next;\n            *next = id + 1;\n            id\n        };\n        let snap = self.snapshot();\n")],{"C01":0,"C05":0}),
("n-rb-match",[(TX,"        if let Some(sp) = self.savepoint.take() {\n            self.store.restore_savepoint(sp);\n        }\n        Ok(())","        self.abandon();\n        Ok(())"),(TX,"    fn drop(&mut self) {\n        // Safety net: if the transaction was not committed or rolled back,\n        // restore the auto-savepoint to undo any partial mutations.\n        if let Some(sp) = self.savepoint.take() {\n            self.store.restore_savepoint(sp);\n        }\n","    fn drop(&mut self) {\n        self.abandon();\n"),(TX,"    pub fn get_store(","    fn abandon(&mut self) {\n        match self.savepoint.take() {\n            Some(kept) => self.store.restore_savepoint(kept),\n            None => {}\n        }\n    }\n\n    pub fn get_store(")],{"C01":0,"C05":0,"C04":0}),
]
M+=[("n-base-early",[(IN,"            let new_count = doc.block_count as usize;\n            if new_count != self.last_block_count {\n                self.last_block_count = new_count;\n                self.queue_event(crate::DocumentEvent::BlockCountChanged(new_count));\n            }","            let new_count = doc.block_count as usize;\n            let old = std::mem::replace(&mut self.last_block_count, new_count);\n            if new_count == old {\n                return;\n            }\n            self.queue_event(crate::DocumentEvent::BlockCountChanged(new_count));")],{"C12":0,"C09":0}),
("n-base-after",[(IN,"                self.last_block_count = new_count;\n                self.queue_event(crate::DocumentEvent::BlockCountChanged(new_count));","                let event = crate::DocumentEvent::BlockCountChanged(new_count);\n                self.queue_event(event);\n                self.last_block_count = new_count;")],{"C12":0,"C09":0}),
("n-flow-diff",[(IN,"        let old = &self.last_child_order;\n        let new = &current;\n","        let previous = std::mem::replace(&mut self.last_child_order, current.clone());\n        let old = &previous;\n        let new = &current;\n"),(IN,"        self.last_child_order = current;\n    }\n\n    /// Reset","    }\n\n    /// Reset")],{"C12":0,"C09":0}),
("n-flow-helper",[(IN,"        if removed_count > 0 {\n            self.queue_event(","        self.last_child_order = current.clone();\n        if removed_count > 0 {\n            self.queue_event("),(IN,"        self.last_child_order = current;\n    }\n\n    /// Reset","    }\n\n    /// Reset")],{"C12":0,"C09":0}),
]
