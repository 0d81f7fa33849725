U="crates/common/src/undo_redo.rs"
V={"C08":1}
N={"C08":0,"C02":0,"C06":0,"C03":0}
CU='''        for index in (0..self.commands.len()).rev() {
            if let Err(e) = self.commands[index].undo() {
                // Put back what this call already undid
                for command in &mut self.commands[index + 1..] {
                    command.redo()?;
                }
                return Err(e);
            }
        }
'''
CR='''            if let Err(e) = self.commands[index].redo() {
                // Take back what this call already redid
                for command in self.commands[..index].iter_mut().rev() {
                    command.undo()?;
                }
                return Err(e);
            }
'''
UN='''            if let Err(e) = command.undo() {
                log::error!("Undo failed, re-pushing command to undo stack: {e}");
                stack.undo_stack.push(command);
                return Err(e);
            }
            stack.redo_stack.push(command);
'''
PUSH="                stack.undo_stack.push(Box::new(composite));\n                stack.redo_stack.clear();\n"
REC="        stack.undo_stack.push(command);\n        stack.redo_stack.clear();\n        Ok(())\n"
M=[
("undo-last-only",[(U,"        for index in (0..self.commands.len()).rev() {\n            if let Err(e) = self.commands[index].undo() {","        for index in (1..self.commands.len()).rev() {\n            if let Err(e) = self.commands[index].undo() {")],V),
("rollback-wrong-range",[(U,"self.commands[index + 1..]","self.commands[index..]")],V),
("rollback-wrong-range2",[(U,"self.commands[..index].iter_mut()","self.commands[..index.saturating_sub(1)].iter_mut()")],V),
("rollback-order",[(U,"self.commands[..index].iter_mut().rev()","self.commands[..index].iter_mut()")],V),
("swallow",[(U,CR,CR.replace("                return Err(e);","                log::error!(\"{e}\");\n                return Ok(());"))],V),
("undo-failed-kept",[(U,UN,UN.replace("                stack.undo_stack.push(command);\n","                stack.redo_stack.push(command);\n"))],V),
("undo-insert0",[(U,UN,UN.replace("            stack.redo_stack.push(command);\n","            stack.redo_stack.insert(0, command);\n"))],V),
("undo-pop-front",[(U,"if let Some(mut command) = stack.redo_stack.pop() {","if !stack.redo_stack.is_empty() {\n            let mut command = stack.redo_stack.remove(0);")],V),
("undo-limit",[(U,REC,REC.replace("        Ok(())","        if stack.undo_stack.len() > 100 {\n            stack.undo_stack.remove(0);\n        }\n        Ok(())"))],{"C08":0}),
("no-clear-redo-composite",[(U,PUSH,"                stack.undo_stack.push(Box::new(composite));\n")],V),
("clear-cond",[(U,REC,"        stack.undo_stack.push(command);\n        if stack.redo_stack.len() > 1 {\n            stack.redo_stack.clear();\n        }\n        Ok(())\n")],V),
("composite-single",[(U,"        self.commands.push(command);","        self.commands.insert(0, command);")],V),
("stale-stack",[(U,"            // The group is over: the next one may target another stack\n            self.composite_stack_id = None;\n","")],V),
("clear-only-undo",[(U,"            stack.undo_stack.clear();\n            stack.redo_stack.clear();\n        }\n        // Commands","            stack.undo_stack.clear();\n        }\n        // Commands")],V),
("clear-all-open",[(U,"        self.in_progress_composite = None;\n        self.composite_nesting_level = 0;\n        self.composite_stack_id = None;\n    }\n\n    /// Creates","        self.composite_nesting_level = 0;\n        self.composite_stack_id = None;\n    }\n\n    /// Creates")],V),
("end-wrong-stack",[(U,"let target_stack_id = self.composite_stack_id.unwrap_or(0);","let target_stack_id = self.next_stack_id.saturating_sub(1);")],V),
("n-while",[(U,CU,'''        let mut index = self.commands.len();
        while index > 0 {
            index -= 1;
            let outcome = self.commands[index].undo();
            if let Err(e) = outcome {
                for command in self.commands.iter_mut().skip(index + 1) {
                    command.redo()?;
                }
                return Err(e);
            }
        }
''')],N),
("n-enum",[(U,"        for index in 0..self.commands.len() {\n"+CR+"        }\n",'''        let mut done = 0;
        let mut failure = None;
        for command in self.commands.iter_mut() {
            match command.redo() {
                Ok(()) => done += 1,
                Err(e) => {
                    failure = Some(e);
                    break;
                }
            }
        }
        if let Some(e) = failure {
            for command in self.commands[..done].iter_mut().rev() {
                command.undo()?;
            }
            return Err(e);
        }
''')],N),
("n-match",[(U,UN,'''            match command.undo() {
                Ok(()) => stack.redo_stack.push(command),
                Err(e) => {
                    log::error!("Undo failed, re-pushing command to undo stack: {e}");
                    stack.undo_stack.push(command);
                    return Err(e);
                }
            }
''')],N),
("n-helper",[(U,PUSH,"                stack.record(Box::new(composite));\n"),(U,REC,"        stack.record(command);\n        Ok(())\n"),(U,"impl fmt::Debug for StackData {","impl StackData {\n    fn record(&mut self, command: Box<dyn UndoRedoCommand>) {\n        self.redo_stack.clear();\n        self.undo_stack.push(command);\n    }\n}\n\nimpl fmt::Debug for StackData {")],N),
("n-clear-helper",[(U,"            stack.undo_stack.clear();\n            stack.redo_stack.clear();\n        }\n        // Commands","            stack.forget();\n        }\n        // Commands"),(U,"            stack.undo_stack.clear();\n            stack.redo_stack.clear();\n        }\n        self.in","            stack.forget();\n        }\n        self.in"),(U,"impl fmt::Debug for StackData {","impl StackData {\n    fn forget(&mut self) {\n        *self = Self::default();\n    }\n}\n\nimpl fmt::Debug for StackData {")],N),
("n-early",[(U,"        if let Some(mut command) = stack.undo_stack.pop() {\n"+UN,"        let Some(mut command) = stack.undo_stack.pop() else {\n            return Ok(());\n        };\n        {\n"+UN)],N),
("n-foreach",[(U,"        for stack in self.stacks.values_mut() {\n            stack.undo_stack.clear();\n            stack.redo_stack.clear();\n        }\n","        self.stacks.values_mut().for_each(|stack| {\n            stack.redo_stack.clear();\n            stack.undo_stack.clear();\n        });\n")],N),
("n-ev",[(U,"            stack.redo_stack.push(command);\n            if let Some(event_hub) = &self.event_hub {\n                event_hub.send_event(Event {\n                    origin: Origin::UndoRedo(UndoRedoEvent::Undone),\n                    ids: Vec::<EntityId>::new(),\n                    data: None,\n                });\n            }\n","            stack.redo_stack.push(command);\n            self.announce(UndoRedoEvent::Undone);\n"),(U,"    /// Redoes the most","    fn announce(&self, event: UndoRedoEvent) {\n        let Some(hub) = self.event_hub.as_ref() else {\n            return;\n        };\n        hub.send_event(Event {\n            origin: Origin::UndoRedo(event),\n            ids: Vec::new(),\n            data: None,\n        });\n    }\n\n    /// Redoes the most")],N),
("n-end-else",[(U,"            if let Some(composite) = self.in_progress_composite.take()\n                && !composite.is_empty()\n            {\n                let target_stack_id = self.composite_stack_id.unwrap_or(0);","            let open = self.in_progress_composite.take();\n            let target_stack_id = self.composite_stack_id.take().unwrap_or(0);\n            if let Some(composite) = open.filter(|c| !c.is_empty()) {")],N),
("n-merge-fn",[(U,'''        if let Some(last_command) = stack.undo_stack.last_mut()
            && last_command.can_merge(&*command)
            && last_command.merge(&*command)
        {
            // Successfully merged, no need to add the new command
            stack.redo_stack.clear();
            return Ok(());
        }

        // If we couldn't merge, just add the command normally
        stack.undo_stack.push(command);
        stack.redo_stack.clear();
        Ok(())
''','''        stack.redo_stack.clear();
        let merged = match stack.undo_stack.last_mut() {
            Some(last) if last.can_merge(&*command) => last.merge(&*command),
            _ => false,
        };
        if !merged {
            stack.undo_stack.push(command);
        }
        Ok(())
''')],N),
]
