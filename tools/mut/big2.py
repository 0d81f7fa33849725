"""More whole-function refactorings that keep the behaviour; every check must stay quiet on each."""
exec(open("/verif/tools/mut/big.py").read())
ALL["C46"] = 0
DO_ = "crates/public_api/src/document.rs"
UR = "crates/common/src/undo_redo.rs"
LO = "crates/common/src/long_operation.rs"
INN = "crates/public_api/src/inner.rs"
HLF = "crates/public_api/src/highlight.rs"
TB = "crates/public_api/src/text_block.rs"

def hist(t):
    for w in ("undo", "redo"):
        a = t.index("    pub fn %s(&self) -> Result<()> {" % w)
        b = t.index("        crate::inner::dispatch_queued_events(queued);", a)
        e = t.index("\n    }\n", b) + 7
        t = t[:a] + "    pub fn %s(&self) -> Result<()> {\n        self.step_history(undo_redo_commands::%s)\n    }\n" % (w, w) + t[e:]
    k = t.index("    /// Undo the last operation.")
    return t[:k] + """    fn step_history(
        &self,
        step: impl FnOnce(&frontend::AppContext, Option<u64>) -> anyhow::Result<()>,
    ) -> Result<()> {
        let queued = {
            let mut inner = self.inner.lock();
            let before = capture_block_state(&inner);
            let stack = Some(inner.stack_id);
            let outcome = step(&inner.ctx, stack);
            inner.invalidate_text_cache();
            outcome?;
            inner.modified = true;
            inner.rehighlight_all();
            emit_undo_redo_change_events(&mut inner, &before);
            inner.check_block_count_changed();
            inner.check_flow_changed();
            queue_history_state(&mut inner);
            inner.take_queued_events()
        };
        crate::inner::dispatch_queued_events(queued);
        Ok(())
    }

""" + t[k:] + """
fn queue_history_state(inner: &mut TextDocumentInner) {
    let stack = Some(inner.stack_id);
    let can_undo = undo_redo_commands::can_undo(&inner.ctx, stack);
    let can_redo = undo_redo_commands::can_redo(&inner.ctx, stack);
    inner.queue_event(DocumentEvent::UndoRedoChanged { can_undo, can_redo });
}
"""

UNDO = """        if let Some(mut command) = stack.undo_stack.pop() {
            if let Err(e) = command.undo() {
                log::error!("Undo failed, re-pushing command to undo stack: {e}");
                stack.undo_stack.push(command);
                return Err(e);
            }
            stack.redo_stack.push(command);
            if let Some(event_hub) = &self.event_hub {
                event_hub.send_event(Event {
                    origin: Origin::UndoRedo(UndoRedoEvent::Undone),
                    ids: Vec::<EntityId>::new(),
                    data: None,
                });
            }
        }
        Ok(())
"""
ADD_A = "        // Try to merge with the last command if possible\n"
def addc(t):
    a = t.index(ADD_A); b = t.index("        Ok(())\n    }\n", a)
    return t[:a] + """        let merged = match stack.undo_stack.last_mut() {
            Some(last) if last.can_merge(&*command) => last.merge(&*command),
            _ => false,
        };
        if !merged {
            stack.undo_stack.push(command);
        }
        stack.redo_stack.clear();
""" + t[b:]

def lop(t):
    t = t.replace("""                *status = if cancel_flag_clone.load(Ordering::Relaxed) {
                    OperationStatus::Cancelled
                } else {
                    match &operation_result {
                        Ok(result) => {
                            // Store the result
                            if let Ok(serialized) = serde_json::to_string(result) {
                                let mut results = lock_or_recover(&results_clone);
                                results.insert(id_clone.clone(), serialized);
                            }
                            OperationStatus::Completed
                        }
                        Err(e) => OperationStatus::Failed(e.to_string()),
                    }
                };
                status.clone()
""", """                let settled = match operation_result {
                    _ if cancel_flag_clone.load(Ordering::Relaxed) => OperationStatus::Cancelled,
                    Ok(ref result) => {
                        if let Ok(serialized) = serde_json::to_string(result) {
                            lock_or_recover(&results_clone).insert(id_clone.clone(), serialized);
                        }
                        OperationStatus::Completed
                    }
                    Err(ref e) => OperationStatus::Failed(e.to_string()),
                };
                *status = settled.clone();
                settled
""")
    return t
def lop2(t):
    a = t.index("                event_hub.send_event(Event {\n                    origin: Origin::LongOperation(event),\n")
    b = t.index("                });\n", a) + len("                });\n")
    t = t[:a] + "                announce(event_hub, event, Some(data));\n" + t[b:]
    t = t.replace("""                event_hub.send_event(Event {
                    origin: Origin::LongOperation(LongOperationEvent::Cancelled),
                    ids: vec![],
                    data: Some(payload),
                });
""", "                announce(event_hub, LongOperationEvent::Cancelled, Some(payload));\n")
    k = t.index("fn lock_or_recover<")
    k = t.rfind("\n\n", 0, k) + 2
    return t[:k] + """fn announce(hub: &Arc<EventHub>, event: LongOperationEvent, data: Option<String>) {
    hub.send_event(Event {
        origin: Origin::LongOperation(event),
        ids: vec![],
        data,
    });
}

""" + t[k:]

TAKE = src(INN)
_a = TAKE.index("        let live_callbacks: Vec<Arc<dyn Fn(DocumentEvent)"); _b = TAKE.index("    }\n", TAKE.index("            .map(|e| (e, live_callbacks.clone()))"))
TK = """        let fresh = self.pending_events[self.callback_cursor..].to_vec();
        self.callback_cursor = self.pending_events.len();

        let mut live: Vec<Arc<dyn Fn(DocumentEvent) + Send + Sync>> = Vec::new();
        for entry in &self.callbacks {
            if let Some(alive) = entry.alive.upgrade()
                && alive.load(std::sync::atomic::Ordering::Relaxed)
            {
                live.push(Arc::clone(&entry.callback));
            }
        }
        if live.is_empty() {
            return Vec::new();
        }

        let mut out = Vec::with_capacity(fresh.len());
        for event in fresh {
            out.push((event, live.clone()));
        }
        out
"""
CNT = """            if new_count != self.last_block_count {
                self.last_block_count = new_count;
                self.queue_event(crate::DocumentEvent::BlockCountChanged(new_count));
            }
"""
def hlall(t):
    a = t.index("        for (block_id, text) in &blocks {\n            let bid = *block_id as usize;\n            let mut ctx = HighlightContext::new(bid, previous_state, None);")
    b = t.index("    /// Re-highlight starting from a specific block")
    return t[:a] + """        blocks.iter().for_each(|(block_id, text)| {
            let bid = *block_id as usize;
            let mut ctx = HighlightContext::new(bid, previous_state, None);
            highlighter.highlight_block(text, &mut ctx);
            let (spans, state, user_data) = ctx.into_parts();
            previous_state = state;
            if let Some(hl) = self.highlight.as_mut() {
                hl.blocks.insert(
                    bid,
                    BlockHighlightData {
                        spans,
                        state,
                        user_data,
                    },
                );
            }
        });
    }

""" + t[b:]
def hlmap(t):
    a = t.index("        for (block_id, text) in &blocks {\n            let bid = *block_id as usize;\n            let mut ctx = HighlightContext::new(bid, previous_state, None);")
    b = t.index("    /// Re-highlight starting from a specific block")
    return t[:a] + """        let mut fresh = std::collections::HashMap::with_capacity(blocks.len());
        for (block_id, text) in &blocks {
            let bid = *block_id as usize;
            let mut ctx = HighlightContext::new(bid, previous_state, None);
            highlighter.highlight_block(text, &mut ctx);
            let (spans, state, user_data) = ctx.into_parts();
            previous_state = state;
            fresh.insert(
                bid,
                BlockHighlightData {
                    spans,
                    state,
                    user_data,
                },
            );
        }
        self.highlight.as_mut().unwrap().blocks = fresh;
    }

""" + t[b:]

M = [
 ("history-helper", [ed(DO_, hist)], ALL),
 ("undo-match", [ed(UR, (UNDO, """        let Some(mut command) = stack.undo_stack.pop() else {
            return Ok(());
        };
        match command.undo() {
            Ok(()) => stack.redo_stack.push(command),
            Err(e) => {
                log::error!("Undo failed, re-pushing command to undo stack: {e}");
                stack.undo_stack.push(command);
                return Err(e);
            }
        }
        if let Some(hub) = self.event_hub.as_ref() {
            hub.send_event(Event {
                origin: Origin::UndoRedo(UndoRedoEvent::Undone),
                ids: Vec::new(),
                data: None,
            });
        }
        Ok(())
"""))], ALL),
 ("add-command", [ed(UR, addc)], ALL),
 ("long-settle", [ed(LO, lop)], ALL),
 ("long-announce", [ed(LO, lop2)], ALL),
 ("take-loops", [(INN, TAKE[_a:_b], TK)], ALL),
 ("count-replace", [ed(INN, (CNT, """            let old = std::mem::replace(&mut self.last_block_count, new_count);
            if old != new_count {
                self.queue_event(crate::DocumentEvent::BlockCountChanged(new_count));
            }
"""))], ALL),
 ("hl-foreach", [ed(HLF, hlall)], ALL),
 ("hl-map", [ed(HLF, hlmap)], ALL),
 ("frag-inline", [ed(TB, ("        build_fragments(&inner, self.block_id as u64)\n", "        let id = self.block_id as u64;\n        build_fragments_with_text(&inner, id, None)\n"))], ALL),
]
