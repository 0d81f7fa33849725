C="crates/public_api/src/cursor.rs"
I="crates/public_api/src/inner.rs"
H="crates/frontend/src/event_hub_client.rs"
R="crates/common/src/database/rope_helpers.rs"
O="crates/common/src/long_operation.rs"
CL="        let (position, anchor) = {\n            let d = self.data.lock();\n            (d.position, d.anchor)\n        };\n        let data = {\n            let mut inner = self.doc.lock();\n"
CB="                        let callbacks: Vec<_> = {\n                            let subs = subscribers.lock().unwrap();\n                            subs.get(&event.origin)\n                                .map(|list| list.iter().map(|(_id, cb)| Arc::clone(cb)).collect())\n                                .unwrap_or_default()\n                        };\n                        for callback in callbacks {\n                            (callback.lock().unwrap())(event.clone());\n                        }\n"
RI="    let block_byte_start = {\n        let offsets = store.block_offsets.read().unwrap();\n        let Some((start, _end)) = offsets.range_of_block(block_id) else {\n            return;\n        };\n        start\n    };\n    let rope_byte = block_byte_start + byte_offset_in_block;\n    {\n        let mut rope = store.rope.write().unwrap();\n        let char_idx = rope.byte_to_char(rope_byte as usize);\n        rope.insert(char_idx, text);\n    }\n"
M=[
("clone-order",[(C,CL,"        let d = self.data.lock();\n        let (position, anchor) = (d.position, d.anchor);\n        let data = {\n            let mut inner = self.doc.lock();\n")],{"C14":1,"C13":0}),
("clone-temp",[(C,"            inner.cursors.push(Arc::downgrade(&data));\n            data\n        };\n        TextCursor {\n            doc: self.doc.clone(),\n            data,\n        }","            inner.cursors.push(Arc::downgrade(&data));\n            if inner.modified && self.data.lock().position != position {\n                data.lock().anchor = self.position();\n            }\n            data\n        };\n        TextCursor {\n            doc: self.doc.clone(),\n            data,\n        }")],{"C14":0}),
("self-relock",[(C,"        let mut d = self.data.lock();\n        d.anchor = d.position;","        let mut d = self.data.lock();\n        d.anchor = self.position();")],{"C14":1}),
("boundary-order",[(C,"        let pos = self.position();\n        let inner = self.doc.lock();\n        let dto = frontend::document_inspection::GetBlockAtPositionDto {","        let d = self.data.lock();\n        let pos = d.position;\n        let inner = self.doc.lock();\n        let dto = frontend::document_inspection::GetBlockAtPositionDto {")],{"C14":1}),
("cb-temp",[(H,CB,"                        if let Some(list) = subscribers.lock().unwrap().get(&event.origin) {\n                            for (_id, callback) in list {\n                                (callback.lock().unwrap())(event.clone());\n                            }\n                        }\n")],{"C13":1}),
("n-cb-helper",[(H,CB,"                        for callback in listeners(&subscribers, &event) {\n                            (callback.lock().unwrap())(event.clone());\n                        }\n"),(H,"/// Opaque handle returned","fn listeners(\n    subscribers: &Mutex<HashMap<Origin, SubscriberList>>,\n    event: &Event,\n) -> Vec<Arc<Mutex<Box<dyn Fn(Event) + Send>>>> {\n    let subs = subscribers.lock().unwrap();\n    let Some(list) = subs.get(&event.origin) else {\n        return Vec::new();\n    };\n    list.iter().map(|(_id, cb)| Arc::clone(cb)).collect()\n}\n\n/// Opaque handle returned")],{"C13":0,"C14":0}),
("cb-dispatch-temp",[(C,"            self.queue_undo_redo_event(&mut inner)\n        };\n        crate::inner::dispatch_queued_events(queued);","            let queued = self.queue_undo_redo_event(&mut inner);\n            crate::inner::dispatch_queued_events(queued);\n            Vec::new()\n        };\n        crate::inner::dispatch_queued_events(queued);")],{"C13":1}),
("rope-order",[(R,RI,"    let mut rope = store.rope.write().unwrap();\n    let block_byte_start = {\n        let offsets = store.block_offsets.read().unwrap();\n        let Some((start, _end)) = offsets.range_of_block(block_id) else {\n            return;\n        };\n        start\n    };\n    let rope_byte = block_byte_start + byte_offset_in_block;\n    let char_idx = rope.byte_to_char(rope_byte as usize);\n    rope.insert(char_idx, text);\n    drop(rope);\n")],{"C14":0}),
("rope-order2",[(R,RI,"    let offsets = store.block_offsets.read().unwrap();\n    let Some((block_byte_start, _end)) = offsets.range_of_block(block_id) else {\n        return;\n    };\n    let rope_byte = block_byte_start + byte_offset_in_block;\n    {\n        let mut rope = store.rope.write().unwrap();\n        let char_idx = rope.byte_to_char(rope_byte as usize);\n        rope.insert(char_idx, text);\n    }\n    drop(offsets);\n")],{"C14":0}),
("n-clone-drop",[(C,CL,"        let d = self.data.lock();\n        let position = d.position;\n        let anchor = d.anchor;\n        drop(d);\n        let data = {\n            let mut inner = self.doc.lock();\n")],{"C14":0,"C13":0}),
("adj-doc",[(I,"                let mut data = cursor.lock();\n                data.position","                let mut data = cursor.lock();\n                let _peers = self.cursors.iter().filter_map(|w| w.upgrade()).filter(|c| c.try_lock().is_none()).count();\n                data.position")],{"C14":0}),
("adj-peers",[(I,"                let mut data = cursor.lock();\n                data.position","                let mut data = cursor.lock();\n                let _peers = self.cursors.iter().filter_map(|w| w.upgrade()).filter(|c| !Arc::ptr_eq(c, &cursor) && c.lock().position > 0).count();\n                data.position")],{"C14":1}),
]
