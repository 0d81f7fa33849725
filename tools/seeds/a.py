S = [
dict(id="s01-rollback-keeps-cells", prop="C01", first=True,
 edits=[("crates/common/src/database/rope_store.rs", "        *self.table_cells.write().unwrap() = snap.table_cells.clone();\n", "")],
 needs="a transaction that created or changed a table cell and is then rolled back or dropped unfinished",
 breaks="The restore used by a rollback no longer puts the table cells back: cells made by the failed transaction stay in the store.",
 deps=["common"],
 main=r'''
use common::database::{db_context::DbContext, transactions::Transaction};
use common::direct_access::repository_factory;
use common::entities::TableCell;
use common::event::EventBuffer;

fn main() -> anyhow::Result<()> {
    let db = DbContext::new()?;
    let mut buf = EventBuffer::new();
    let id = {
        let txn = Transaction::begin_write_transaction(&db)?;
        let mut repo = repository_factory::write::create_table_cell_repository(&txn)?;
        let cell = repo.create_orphan(&mut buf, &TableCell::default())?;
        cell.id
        // dropped without a commit
    };
    let txn = Transaction::begin_read_transaction(&db)?;
    let repo = repository_factory::read::create_table_cell_repository(&txn)?;
    assert!(repo.get(&id)?.is_none(), "a cell of an abandoned transaction is still there");
    println!("ok");
    Ok(())
}
'''),
dict(id="s02-merge-keeps-redo", prop="C08",
 edits=[("crates/common/src/undo_redo.rs", """            // Successfully merged, no need to add the new command
            stack.redo_stack.clear();
            return Ok(());""", """            // Successfully merged, no need to add the new command
            return Ok(());""")],
 needs="an undone edit, followed by a new edit that merges into the command now on top of the undo history",
 breaks="Recording an edit that merges into the last one no longer empties the redo history, so redo applies an edit made for another document state.",
 deps=["common"],
 main=r'''
use common::undo_redo::{UndoRedoCommand, UndoRedoManager};
use std::any::Any;
use std::sync::{Arc, Mutex};

struct Type { doc: Arc<Mutex<String>>, text: String, mergeable: bool }
impl UndoRedoCommand for Type {
    fn undo(&mut self) -> anyhow::Result<()> {
        let mut d = self.doc.lock().unwrap();
        let n = d.len() - self.text.len();
        d.truncate(n);
        Ok(())
    }
    fn redo(&mut self) -> anyhow::Result<()> { self.doc.lock().unwrap().push_str(&self.text); Ok(()) }
    fn can_merge(&self, o: &dyn UndoRedoCommand) -> bool {
        self.mergeable && o.as_any().downcast_ref::<Type>().is_some_and(|t| t.mergeable)
    }
    fn merge(&mut self, o: &dyn UndoRedoCommand) -> bool {
        let o = o.as_any().downcast_ref::<Type>().unwrap();
        self.text.push_str(&o.text);
        true
    }
    fn as_any(&self) -> &dyn Any { self }
}

fn main() {
    let doc = Arc::new(Mutex::new(String::new()));
    let mut m = UndoRedoManager::new();
    let run = |m: &mut UndoRedoManager, s: &str, mergeable| {
        doc.lock().unwrap().push_str(s);
        m.add_command(Box::new(Type { doc: doc.clone(), text: s.into(), mergeable }));
    };
    run(&mut m, "a", true);
    run(&mut m, "B", false);
    m.undo(None).unwrap();
    run(&mut m, "c", true); // merges into "a"
    assert_eq!(*doc.lock().unwrap(), "ac");
    assert!(!m.can_redo(None), "redo offers an edit of a history that no longer exists");
    println!("ok");
}
'''),
dict(id="s03-panic-keeps-changes", prop="C05",
 edits=[("crates/common/src/database/transactions.rs", """        if let Some(sp) = self.savepoint.take() {
            self.store.restore_savepoint(sp);
        }
    }
}""", """        if let Some(sp) = self.savepoint.take() {
            if std::thread::panicking() {
                self.store.discard_savepoint(sp);
                return;
            }
            self.store.restore_savepoint(sp);
        }
    }
}""")],
 needs="a transaction that is abandoned because the code using it panics",
 breaks="A write transaction dropped while unwinding keeps its half-done changes instead of restoring the start state.",
 deps=["common"],
 main=r'''
use common::database::{db_context::DbContext, transactions::Transaction};
use common::direct_access::repository_factory;
use common::entities::List;
use common::event::EventBuffer;

fn main() -> anyhow::Result<()> {
    let db = DbContext::new()?;
    let db2 = db.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let txn = Transaction::begin_write_transaction(&db2).unwrap();
        let mut buf = EventBuffer::new();
        let mut repo = repository_factory::write::create_list_repository(&txn).unwrap();
        repo.create_orphan(&mut buf, &List::default()).unwrap();
        panic!("half way");
    }));
    assert!(r.is_err());
    let txn = Transaction::begin_read_transaction(&db)?;
    let repo = repository_factory::read::create_list_repository(&txn)?;
    assert_eq!(repo.get_all()?.len(), 0, "half-done changes survived");
    println!("ok");
    Ok(())
}
'''),
dict(id="s04-undo-announced-first", prop="C06",
 edits=[("crates/common/src/undo_redo.rs", """        if let Some(mut command) = stack.undo_stack.pop() {
            if let Err(e) = command.undo() {""", """        if let Some(mut command) = stack.undo_stack.pop() {
            if let Some(event_hub) = &self.event_hub {
                event_hub.send_event(Event {
                    origin: Origin::UndoRedo(UndoRedoEvent::Undone),
                    ids: Vec::<EntityId>::new(),
                    data: None,
                });
            }
            if let Err(e) = command.undo() {"""),
 ("crates/common/src/undo_redo.rs", """            stack.redo_stack.push(command);
            if let Some(event_hub) = &self.event_hub {
                event_hub.send_event(Event {
                    origin: Origin::UndoRedo(UndoRedoEvent::Undone),
                    ids: Vec::<EntityId>::new(),
                    data: None,
                });
            }
""", """            stack.redo_stack.push(command);
""")],
 needs="an undo that fails",
 breaks="Undone is announced before the undo ran, so also for an undo that failed.",
 deps=["common"],
 main=r'''
use common::event::{Event, EventHub, Origin, UndoRedoEvent};
use common::undo_redo::{UndoRedoCommand, UndoRedoManager};
use std::any::Any;
use std::sync::Arc;

struct Fails;
impl UndoRedoCommand for Fails {
    fn undo(&mut self) -> anyhow::Result<()> { Err(anyhow::anyhow!("no")) }
    fn redo(&mut self) -> anyhow::Result<()> { Ok(()) }
    fn as_any(&self) -> &dyn Any { self }
}

fn main() {
    let hub = Arc::new(EventHub::new());
    let rx = hub.subscribe_receiver();
    let mut m = UndoRedoManager::new();
    m.set_event_hub(&hub);
    m.add_command(Box::new(Fails));
    assert!(m.undo(None).is_err());
    let seen: Vec<Event> = rx.drain().collect();
    assert!(!seen.iter().any(|e| matches!(e.origin, Origin::UndoRedo(UndoRedoEvent::Undone))), "a failed undo was announced");
    println!("ok");
}
'''),
dict(id="s05-list-left-in-blocks", prop="C24",
 edits=[("crates/common/src/direct_access/list/list_table.rs", "                    b.list.filter(|l| removed.contains(l)).map(|_| {", "                    b.list.filter(|l| ids.first() == Some(l)).map(|_| {")],
 needs="two or more lists removed in one call, with blocks in the second one",
 breaks="Blocks of all but the first removed list keep pointing at a list that is gone.",
 deps=["common", "test_harness", "direct_access"],
 main=r'''
use common::database::transactions::Transaction;
use common::direct_access::repository_factory;
use common::entities::{Block, List};
use common::event::EventBuffer;

fn main() -> anyhow::Result<()> {
    let (db, _hub, _undo) = test_harness::setup()?;
    let mut txn = Transaction::begin_write_transaction(&db)?;
    let mut buf = EventBuffer::new();
    let (a, b, blk) = {
        let mut lists = repository_factory::write::create_list_repository(&txn)?;
        let a = lists.create_orphan(&mut buf, &List::default())?.id;
        let b = lists.create_orphan(&mut buf, &List::default())?.id;
        let mut blocks = repository_factory::write::create_block_repository(&txn)?;
        let blk = blocks.create_orphan(&mut buf, &Block { list: Some(b), ..Default::default() })?.id;
        (a, b, blk)
    };
    {
        let mut lists = repository_factory::write::create_list_repository(&txn)?;
        lists.remove_multi(&mut buf, &[a, b])?;
    }
    txn.commit()?;
    let txn = Transaction::begin_read_transaction(&db)?;
    let blocks = repository_factory::read::create_block_repository(&txn)?;
    assert_eq!(blocks.get(&blk)?.unwrap().list, None, "block points at a removed list");
    println!("ok");
    Ok(())
}
'''),
]
