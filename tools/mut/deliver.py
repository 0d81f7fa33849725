I="crates/public_api/src/inner.rs"
E="crates/public_api/src/events.rs"
NEW="        let new_events: Vec<DocumentEvent> = self.pending_events[self.callback_cursor..].to_vec();\n        self.callback_cursor = self.pending_events.len();\n"
TRIM="        let min_cursor = self.callback_cursor.min(self.poll_cursor);\n"
TB="            self.pending_events.drain(..min_cursor);\n            self.callback_cursor -= min_cursor;\n            self.poll_cursor -= min_cursor;\n"
POLL="        let events = self.pending_events[self.poll_cursor..].to_vec();\n        self.poll_cursor = self.pending_events.len();\n        self.trim_delivered_events();\n        events\n"
DISP="    for (event, callbacks) in queued {\n        for cb in &callbacks {\n            cb(event.clone());\n        }\n    }\n"
M=[
("trim-max",[(I,TRIM,TRIM.replace(".min(",".max("))],{"C44":1}),
("trim-poll",[(I,TRIM,"        let min_cursor = self.poll_cursor;\n")],{"C44":1}),
("trim-noshift",[(I,TB,TB.replace("            self.poll_cursor -= min_cursor;\n","            self.poll_cursor = 0;\n"))],{"C44":1}),
("poll-clears",[(I,"        self.trim_delivered_events();\n        events\n","        self.pending_events.clear();\n        self.poll_cursor = 0;\n        self.callback_cursor = 0;\n        events\n")],{"C44":1}),
("take-filter",[(I,"            .into_iter()\n            .map(|e| (e, live_callbacks.clone()))","            .into_iter()\n            .filter(|e| !matches!(e, DocumentEvent::DocumentReset))\n            .map(|e| (e, live_callbacks.clone()))")],{"C44":1}),
("cap-queue",[(I,"        self.pending_events.push(event);\n","        if self.pending_events.len() >= 256 {\n            self.pending_events.remove(0);\n            self.poll_cursor = self.poll_cursor.saturating_sub(1);\n            self.callback_cursor = self.callback_cursor.saturating_sub(1);\n        }\n        self.pending_events.push(event);\n")],{"C44":1}),
("coalesce",[(I,"        self.pending_events.push(event);\n","        if self.pending_events.len() < 256 {\n            self.pending_events.push(event);\n        }\n")],{"C44":1}),
("disp-first",[(I,DISP,DISP.replace("for cb in &callbacks","for cb in callbacks.iter().take(8)"))],{"C44":1}),
("disp-last",[(I,"            self.callback_cursor = self.pending_events.len();\n            return Vec::new();","            self.callback_cursor = self.pending_events.len();\n            self.poll_cursor = self.pending_events.len();\n            return Vec::new();")],{"C44":1}),
("retain-gt1",[(I,"retain(|entry| entry.alive.strong_count() > 0)","retain(|entry| entry.alive.strong_count() > 1)")],{"C44":1}),
("sub-cap",[(E,"    inner.callbacks.push(","    if inner.callbacks.len() > 8 {\n        inner.callbacks.remove(0);\n    }\n    inner.callbacks.push(")],{"C44":1}),
("off-by-one",[(I,"self.pending_events[self.callback_cursor..].to_vec()","self.pending_events[self.callback_cursor + 1..].to_vec()")],{"C44":1}),
("take-cursor-noadv",[(I,NEW,"        let new_events: Vec<DocumentEvent> = self.pending_events[self.callback_cursor..].to_vec();\n        self.callback_cursor += 1;\n")],{"C44":1}),
("n-branch-min",[(I,TRIM,"        let min_cursor = if self.callback_cursor < self.poll_cursor {\n            self.callback_cursor\n        } else {\n            self.poll_cursor\n        };\n")],{"C44":0}),
("branch-max",[(I,TRIM,"        let min_cursor = if self.callback_cursor > self.poll_cursor {\n            self.callback_cursor\n        } else {\n            self.poll_cursor\n        };\n")],{"C44":1}),
("n-stdmin",[(I,TRIM,"        let min_cursor = std::cmp::min(self.poll_cursor, self.callback_cursor);\n")],{"C44":0}),
("n-early-trim",[(I,"        if min_cursor > 0 {\n"+TB+"        }\n","        if min_cursor == 0 {\n            return;\n        }\n        self.callback_cursor -= min_cursor;\n        self.poll_cursor -= min_cursor;\n        self.pending_events.drain(..min_cursor);\n")],{"C44":0}),
("n-poll-iter",[(I,POLL,"        let from = self.poll_cursor;\n        let events: Vec<DocumentEvent> = self.pending_events[from..].iter().cloned().collect();\n        self.poll_cursor = self.pending_events.len();\n        self.trim_delivered_events();\n        events\n")],{"C44":0}),
("n-poll-skip",[(I,POLL,"        let events: Vec<DocumentEvent> = self.pending_events.iter().skip(self.poll_cursor).cloned().collect();\n        self.poll_cursor = self.pending_events.len();\n        self.trim_delivered_events();\n        events\n")],{"C44":0}),
("n-poll-if",[(I,"        if self.poll_cursor >= self.pending_events.len() {\n            self.trim_delivered_events();\n            return Vec::new();\n        }\n"+POLL,"        let mut events = Vec::new();\n        if self.poll_cursor < self.pending_events.len() {\n            events = self.pending_events[self.poll_cursor..].to_vec();\n            self.poll_cursor = self.pending_events.len();\n        }\n        self.trim_delivered_events();\n        events\n")],{"C44":0}),
("n-poll-noguard",[(I,"        if self.poll_cursor >= self.pending_events.len() {\n            self.trim_delivered_events();\n            return Vec::new();\n        }\n"+POLL,POLL)],{"C44":0}),
("n-poll-get",[(I,POLL,POLL.replace("self.pending_events[self.poll_cursor..].to_vec()","self.pending_events.get(self.poll_cursor..).unwrap_or_default().to_vec()"))],{"C44":0}),
("n-disp-iter",[(I,DISP,"    queued.into_iter().for_each(|(event, callbacks)| {\n        callbacks.iter().for_each(|cb| cb(event.clone()));\n    });\n")],{"C44":0}),
("n-disp-helper",[(I,DISP,"    for (event, callbacks) in queued {\n        deliver(&event, &callbacks);\n    }\n"),(I,"/// Shift an offset after","fn deliver(event: &DocumentEvent, callbacks: &[Arc<dyn Fn(DocumentEvent) + Send + Sync>]) {\n    for cb in callbacks {\n        cb(event.clone());\n    }\n}\n\n/// Shift an offset after")],{"C44":0,"C12":0}),
("n-new-ev-helper",[(I,NEW,"        let new_events = self.unseen();\n"),(I,"    /// Discard events that","    fn unseen(&mut self) -> Vec<DocumentEvent> {\n        let fresh = self.pending_events[self.callback_cursor..].to_vec();\n        self.callback_cursor = self.pending_events.len();\n        fresh\n    }\n\n    /// Discard events that")],{"C44":0}),
("n-live-helper",[(I,"        let live_callbacks: Vec<Arc<dyn Fn(DocumentEvent) + Send + Sync>> = self\n            .callbacks\n            .iter()\n            .filter_map(|entry| {\n                let alive = entry.alive.upgrade()?;\n                if alive.load(std::sync::atomic::Ordering::Relaxed) {\n                    Some(Arc::clone(&entry.callback))\n                } else {\n                    None\n                }\n            })\n            .collect();\n","        let mut live_callbacks: Vec<Arc<dyn Fn(DocumentEvent) + Send + Sync>> = Vec::new();\n        for entry in &self.callbacks {\n            if let Some(alive) = entry.alive.upgrade() {\n                if alive.load(std::sync::atomic::Ordering::Relaxed) {\n                    live_callbacks.push(Arc::clone(&entry.callback));\n                }\n            }\n        }\n")],{"C44":0}),
("live-cond",[(I,"                if alive.load(std::sync::atomic::Ordering::Relaxed) {\n","                if alive.load(std::sync::atomic::Ordering::Relaxed) && Arc::strong_count(&entry.callback) == 1 {\n")],{"C44":1}),
("n-sub",[(E,"    inner.callbacks.push(CallbackEntry {\n        alive: Arc::downgrade(&alive),\n        callback: Arc::new(callback),\n    });\n    Subscription { alive }","    let weak = Arc::downgrade(&alive);\n    let entry = CallbackEntry {\n        alive: weak,\n        callback: Arc::new(callback),\n    };\n    let handle = Subscription { alive };\n    inner.callbacks.push(entry);\n    handle")],{"C44":0}),
]
