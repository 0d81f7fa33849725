U="crates/document_editing/src/units_of_work/insert_block_uow.rs"
CT="crates/document_editing/src/document_editing_controller.rs"
UR="crates/common/src/undo_redo.rs"
EV="crates/common/src/event.rs"
FR="crates/common/src/direct_access/frame/frame_repository.rs"
C="        self.transaction.take().unwrap().commit()?;\n        for event in self.event_buffer.get_mut().flush() {\n            self.event_hub.send_event(event);\n        }\n"
M=[
("send-first",[(U,C,"        for event in self.event_buffer.get_mut().flush() {\n            self.event_hub.send_event(event);\n        }\n        self.transaction.take().unwrap().commit()?;\n")],{"C06":1}),
("no-send",[(U,C,"        self.transaction.take().unwrap().commit()?;\n        let _ = self.event_buffer.get_mut().flush();\n")],{"C06":1}),
("ignore-err",[(U,C,C.replace("commit()?","commit().ok()"))],{"C06":1}),
("rb-keep",[(U,"        self.transaction.take().unwrap().rollback()?;\n        self.event_buffer.get_mut().discard();\n","        self.transaction.take().unwrap().rollback()?;\n")],{"C06":1}),
("nobegin",[(U,"        self.event_buffer.get_mut().begin_buffering();\n","")],{"C06":1}),
("cap",[(EV,"        if self.buffering {\n            self.pending.push(event);","        if self.buffering && self.pending.len() < 1024 {\n            self.pending.push(event);")],{"C06":1}),
# neutral
("n-foreach",[(U,C,"        self.transaction.take().unwrap().commit()?;\n        let hub = self.event_hub.clone();\n        let evs = self.event_buffer.get_mut().flush();\n        evs.into_iter().for_each(|e| hub.send_event(e));\n")],{"C06":0}),
("n-helper",[(U,C,"        self.transaction.take().unwrap().commit()?;\n        self.publish();\n"),(U,"impl CommandUnitOfWork for InsertBlockUnitOfWork {","impl InsertBlockUnitOfWork {\n    fn publish(&mut self) {\n        let v = self.event_buffer.get_mut().flush();\n        for e in v { self.event_hub.send_event(e); }\n    }\n}\n\nimpl CommandUnitOfWork for InsertBlockUnitOfWork {")],{"C06":0}),
("n-match",[(U,"        self.transaction.take().unwrap().commit()?;\n        for event","        match self.transaction.take().unwrap().commit() {\n            std::result::Result::Ok(_) => {}\n            Err(e) => return Err(e),\n        }\n        for event")],{"C06":0}),
("n-earlyret",[(EV,"        if self.buffering {\n            self.pending.push(event);\n        }","        if !self.buffering {\n            return;\n        }\n        self.pending.push(event);")],{"C06":0}),
]
SB="    let return_dto = uc.execute(dto)?;\n    undo_redo_manager.add_command_to_stack(Box::new(uc), stack_id)?;\n    // Notify that the handling manifest has been loaded\n    event_hub.send_event(Event {\n        origin: Origin::DocumentEditing(InsertBlock),\n        ids: vec![],\n        data: None,\n    });\n"
M+=[
("wrong-ev",[(CT,"Origin::DocumentEditing(InsertBlock)","Origin::DocumentEditing(InsertFrame)")],{"C06":1}),
("ev-first",[(CT,SB,SB.replace("    let return_dto = uc.execute(dto)?;\n    undo_redo_manager.add_command_to_stack(Box::new(uc), stack_id)?;\n","")+"    let return_dto = uc.execute(dto)?;\n    undo_redo_manager.add_command_to_stack(Box::new(uc), stack_id)?;\n")],{"C06":1}),
("undo-ev-always",[(UR,"origin: Origin::UndoRedo(UndoRedoEvent::Undone)","origin: Origin::UndoRedo(UndoRedoEvent::Redone)")],{"C06":1}),
("repo-sends",[("crates/macros/src/lib.rs","zzz","zzz")],{}),
("n-evhelper",[(CT,SB,"    let return_dto = uc.execute(dto)?;\n    undo_redo_manager.add_command_to_stack(Box::new(uc), stack_id)?;\n    announce(event_hub, Origin::DocumentEditing(InsertBlock));\n"),(CT,"pub fn insert_block(","fn announce(event_hub: &Arc<EventHub>, origin: Origin) {\n    event_hub.send_event(Event { origin, ids: vec![], data: None });\n}\n\npub fn insert_block(")],{"C06":0}),
]
M=[m for m in M if m[0]!="repo-sends"]
