L="crates/common/src/long_operation.rs"
H="crates/document_io/src/use_cases/import_html_uc.rs"
K="crates/document_io/src/use_cases/import_markdown_uc.rs"
O="crates/public_api/src/operation.rs"
V={"C27":1}
N={"C27":0}
CAN="        if matches!(*status, OperationStatus::Running) {\n            *status = OperationStatus::Cancelled;\n            return true;\n        }\n        false"
FLAG="            if cancel_flag.load(Ordering::Relaxed) {"
ISR="                if !matches!(*status, OperationStatus::Running) {\n                    // Already cancelled; the canceller reported it.\n                    return;\n                }\n"
LB="        if cancel_flag.load(Ordering::Relaxed) {\n            return Err(anyhow!(\"Operation was cancelled\"));\n        }\n"
M=[
("overwrite",[(L,CAN,"        let was = matches!(*status, OperationStatus::Running);\n        *status = OperationStatus::Cancelled;\n        was")],V),
("finish-over",[(L,ISR,"                if matches!(*status, OperationStatus::Failed(_)) {\n                    return;\n                }\n")],V),
("relock",[(L,ISR,ISR+"                drop(status);\n                let mut status = lock_or_recover(&status_clone);\n")],V),
("completed-err",[(L,"                        Err(e) => OperationStatus::Failed(e.to_string()),","                        Err(e) if e.to_string().is_empty() => OperationStatus::Completed,\n                        Err(e) => OperationStatus::Failed(e.to_string()),")],V),
("event-mix",[(L,"                    OperationStatus::Cancelled => (\n                        LongOperationEvent::Cancelled,","                    OperationStatus::Cancelled => (\n                        LongOperationEvent::Failed,")],V),
("cancel-silent",[(L,"            if handle.cancel()\n                && let Some","            if handle.cancel() && id.len() > 3\n                && let Some")],V),
("cancel-always",[(L,"            if handle.cancel()\n                && let Some(event_hub) = &self.event_hub","            handle.cancel();\n            if let Some(event_hub) = &self.event_hub")],V),
("noflag",[(L,"        self.cancel_flag.store(true, Ordering::Relaxed);\n","")],V),
("flag-late",[(L,"        self.cancel_flag.store(true, Ordering::Relaxed);\n",""),(L,"            *status = OperationStatus::Cancelled;\n            return true;","            *status = OperationStatus::Cancelled;\n            drop(status);\n            self.cancel_flag.store(true, Ordering::Relaxed);\n            return true;")],V),
("otherflag",[(L,"cancel_flag_clone.clone());","Arc::new(AtomicBool::new(false)));")],V),
("loop-blind",[(H,FLAG,"            if i == 0 && cancel_flag.load(Ordering::Relaxed) {")],V),
("loop-blind2",[(K,LB,"")],V),
("break",[(H,FLAG+"\n                uow.rollback()?;\n                return Err(anyhow!(\"Operation was cancelled\"));",FLAG+"\n                break;")],V),
("late-commit",[(K,"                if cancel_flag.load(Ordering::Relaxed) {\n                    uow.rollback()?;\n                    return Err(anyhow!(\"Operation was cancelled\"));\n                }\n","")],V),
("poll-cancel",[(O,'            Some(OperationStatus::Cancelled) => Some(Err(anyhow!("operation cancelled"))),\n',"")],V),
("poll-failed",[(O,"            Some(OperationStatus::Failed(error)) => Some(Err(anyhow!(error))),","            Some(OperationStatus::Failed(error)) if !error.is_empty() => Some(Err(anyhow!(error))),")],V),
("poll-done",[(O,"            _ => None,","            Some(OperationStatus::Completed) => Some(Err(anyhow!(\"no result\"))),\n            _ => None,")],N),
("n-eq",[(L,CAN,"        if *status == OperationStatus::Running {\n            *status = OperationStatus::Cancelled;\n            true\n        } else {\n            false\n        }")],N),
("n-match",[(L,CAN,"        match *status {\n            OperationStatus::Running => {\n                *status = OperationStatus::Cancelled;\n                true\n            }\n            _ => false,\n        }")],N),
("n-ret",[(L,CAN,"        let running = matches!(*status, OperationStatus::Running);\n        if running {\n            *status = OperationStatus::Cancelled;\n        }\n        running")],N),
("n-neg",[(L,CAN,"        if !matches!(*status, OperationStatus::Running) {\n            return false;\n        }\n        *status = OperationStatus::Cancelled;\n        true")],N),
("n-lock",[(L,"        let mut status = lock_or_recover(&self.status);\n        if matches","        let mut status = self.status.lock().unwrap_or_else(|p| p.into_inner());\n        if matches")],N),
("n-emit",[(L,"            if handle.cancel()\n                && let Some(event_hub) = &self.event_hub\n            {\n                let payload = serde_json::json!({\"id\": id}).to_string();\n                event_hub.send_event(Event {\n                    origin: Origin::LongOperation(LongOperationEvent::Cancelled),\n                    ids: vec![],\n                    data: Some(payload),\n                });\n            }\n","            if handle.cancel() {\n                self.tell(LongOperationEvent::Cancelled, serde_json::json!({\"id\": id}).to_string());\n            }\n"),(L,"    /// Check if an operation is finished\n","    fn tell(&self, event: LongOperationEvent, data: String) {\n        if let Some(hub) = &self.event_hub {\n            hub.send_event(Event {\n                origin: Origin::LongOperation(event),\n                ids: vec![],\n                data: Some(data),\n            });\n        }\n    }\n\n    /// Check if an operation is finished\n")],N),
("n-outcome",[(L,"                    match &operation_result {\n                        Ok(result) => {\n                            // Store the result\n                            if let Ok(serialized) = serde_json::to_string(result) {\n                                let mut results = lock_or_recover(&results_clone);\n                                results.insert(id_clone.clone(), serialized);\n                            }\n                            OperationStatus::Completed\n                        }\n                        Err(e) => OperationStatus::Failed(e.to_string()),\n                    }\n","                    outcome(&operation_result, &results_clone, &id_clone)\n"),(L,"// Concrete handle implementation\n","fn outcome<T: serde::Serialize>(\n    result: &Result<T>,\n    results: &Mutex<HashMap<String, String>>,\n    id: &str,\n) -> OperationStatus {\n    match result {\n        Ok(result) => {\n            if let Ok(serialized) = serde_json::to_string(result) {\n                lock_or_recover(results).insert(id.to_string(), serialized);\n            }\n            OperationStatus::Completed\n        }\n        Err(e) => OperationStatus::Failed(e.to_string()),\n    }\n}\n\n// Concrete handle implementation\n")],N),
("n-settle",[(L,ISR,"                let running = *status == OperationStatus::Running;\n                if !running {\n                    return;\n                }\n")],N),
("n-flaghelper",[(H,FLAG,"            if stopped(&cancel_flag) {"),(H,"impl LongOperation for","fn stopped(flag: &std::sync::atomic::AtomicBool) -> bool {\n    flag.load(std::sync::atomic::Ordering::Relaxed)\n}\n\nimpl LongOperation for")],N),
("n-closure",[(H,"        for (i, parsed_element) in parsed","        let stopped = || cancel_flag.load(Ordering::Relaxed);\n        for (i, parsed_element) in parsed"),(H,FLAG,"            if stopped() {")],N),
("n-while",[(K,"    for (i, parsed_element) in parsed_elements.iter().enumerate() {\n","    let mut rest = parsed_elements.iter().enumerate();\n    while let Some((i, parsed_element)) = rest.next() {\n")],N),
("n-clear",[(K,"                if cancel_flag.load(Ordering::Relaxed) {\n                    uow.rollback()?;\n                    return Err(anyhow!(\"Operation was cancelled\"));\n                }\n","                let stop = cancel_flag.load(Ordering::Acquire);\n                if stop {\n                    uow.rollback()?;\n                    return Err(anyhow!(\"Operation was cancelled\"));\n                }\n")],N),
]
