from props_base import *

P("C01", "Snapshots and restores of the document store cover the whole document state",
  "Whenever the document store is snapshotted (for undo or for a transaction savepoint), every part of the document state "
  "(entities, relationships, text, formatting runs, images, block positions) is captured, and restoring the snapshot puts every "
  "captured part back into the part of the live store it came from. A restore done by undo never winds the id counters back; the "
  "restore done by a transaction rollback also resets them.",
  ["histories", "inputs"], "every document content and every edit history that ends in an undo, redo or rollback",
  "A test sees a missing part only if the edit it happens to undo touched exactly that part; a part added later is never covered.",
  [CU + "database/rope_store.rs", CU + "database/transactions.rs"],
  [("snapshot / restore / restore_document_state / restore_from_savepoint", CU + "database/rope_store.rs"),
   ("EntityTreeSnapshot restore in undo", DE + "use_cases")],
  "field-transfer dataflow over MIR (which store field is copied into which)",
  "Decides for every field of the store and every snapshot/restore routine that the field is copied to and from its own counterpart on every path.")

P("C02", "Every successful edit is recorded exactly once on the document's own history",
  "Whenever an undoable command succeeds, it is recorded exactly once on the undo history the caller asked for, and a command that fails "
  "is never recorded. Every public editing call of the document API changes the document only through a recorded command, through undo or "
  "redo, or through a whole-document replacement that clears the history, and always uses the document's own history.",
  ["inputs", "histories", "fault_sequences"], "every public editing call, argument and failure of the command it runs",
  "Tests record and undo a handful of calls; whether each of the ~110 command entry points records on success only is a statement about all of them.",
  [TD + "cursor.rs", TD + "document.rs", CU + "undo_redo.rs", "crates/frontend/src/commands"],
  [("add_command / add_command_to_stack after execute", "crates/*/src/*_controller.rs")],
  "path-sensitive dataflow over MIR: record follows execute on success paths only",
  "Decides the order and number of execute/record calls on every path of every function that runs a command.")

P("C04", "Writes happen inside a transaction that commits all or nothing",
  "Every change to the document made by a command, a background operation or the public API happens while a write transaction is open. "
  "The operation reports success only after that transaction was committed, nothing can fail after the commit, and an operation that fails "
  "never commits the work it had done so far.",
  ["inputs", "fault_sequences"], "every command, argument and error path",
  "The tests force very few of the ~1500 error exits; a write before begin or an early commit is invisible until one of them is taken.",
  [DE + "use_cases", "crates/document_formatting/src/use_cases", "crates/document_io/src/use_cases", CU + "direct_access", "crates/direct_access/src"],
  [("begin_transaction / commit around every mutation", "use_cases/*_uc.rs")],
  "interprocedural typestate of the write transaction over MIR paths",
  "Decides for every call path from a command, background operation or API entry whether a mutation can run with no transaction open, and for every exit whether commit came before success.")

P("C05", "Rolling back or abandoning a transaction restores its start state",
  "Starting a write transaction saves the full document state, and rolling the transaction back, or dropping it unfinished, puts exactly that "
  "state back. A committed transaction is never rolled back afterwards, and each unit of work's begin, commit, rollback and savepoint calls reach "
  "the matching operation of its own transaction.",
  ["inputs", "fault_sequences"], "every unit of work and every point at which a command can fail",
  "Rollback runs only when a command fails midway, which tests provoke for a few commands at best.",
  [CU + "database/transactions.rs", CU + "database/rope_store.rs", "crates/*/src/units_of_work"],
  [("Transaction::{begin_write_transaction, commit, rollback, drop}", CU + "database/transactions.rs")],
  "must-call / typestate dataflow over MIR plus delegation matching for all units of work",
  "Decides on every path of the transaction type and of all unit-of-work implementations that the operation reaches its counterpart.")

P("C07", "An undo group opened for an edit is always closed",
  "A document operation that opens an undo group around several edits closes that group before it returns, whether it succeeds or fails.",
  ["inputs", "fault_sequences"], "every operation that groups edits and every failure of an inner edit",
  "A leaked group shows only when an inner edit fails, after which all later edits silently join the open group.",
  [TD + "cursor.rs", TD + "document.rs", CU + "undo_redo.rs"],
  [("begin_composite / end_composite / cancel_composite", CU + "undo_redo.rs")],
  "path-sensitive pairing (open/close) over MIR exits",
  "Decides for every exit of every function that opens a group whether a close was passed.")

P("C08", "The undo and redo histories move commands correctly",
  "A successful undo moves exactly the undone command to the redo history, a successful redo moves it back, and a failed undo or redo leaves the "
  "command where it was. Recording a new edit always empties the redo history, and a group undoes its edits last-to-first, redoes them first-to-last, "
  "and when one of them fails puts the already processed ones back. Finishing, cancelling or clearing forgets the open group and the history it belonged to.",
  ["histories", "fault_sequences"], "every sequence of edits, undos, redos and groups, with any inner failure",
  "The number of histories is unbounded and the failing ones need an undo that errors, which no test produces.",
  [CU + "undo_redo.rs"],
  [("UndoRedoManager, CompositeCommand", CU + "undo_redo.rs")],
  "path-sensitive label dataflow over MIR (push/pop/clear of the two histories)",
  "Decides on every path of the undo manager which history a command ends in for each outcome.")

P("C03", "Every undoable command saves what its undo and redo need",
  "Every successful run of an undoable command saves what its undo and redo need; the old state is read before the command changes it, and a successful undo "
  "puts all of the saved state back and covers every kind of state the command changed. Saved state is not used up by an undo or redo that fails, and a command "
  "can be undone and redone any number of times. When two commands merge, the merged one redoes and undoes both, keeping the state from before the first.",
  ["inputs", "histories", "fault_sequences"], "every undoable command, every argument, and every sequence of undo, redo and merge",
  "Tests undo some commands once on small documents; forgotten state shows only when the lost part matters (images, table positions, second redo, failing undo).",
  [DE + "use_cases", "crates/document_formatting/src/use_cases", "crates/document_search/src/use_cases/replace_text_uc.rs", CU + "direct_access/use_cases"],
  [("undo_snapshot / undo_data / inverse fields and undo(), redo(), merge()", DE + "use_cases/*_uc.rs")],
  "path-sensitive must-assign and capture-before-write dataflow over MIR, backward slices",
  "Decides that saving, ordering, use and write-kind coverage hold on every path of all 36 command types; not that the restored values are arithmetically the old ones.")

P("C06", "Change notifications follow the commit, and only it",
  "The notifications a command queues are delivered after its transaction committed, all of them, and never before it; a command that fails or is rolled back "
  "delivers none of them. A feature command that succeeds announces itself exactly once, with its own event and after it ran, and one that fails does not. "
  "Undo and redo are announced, as what they are, only after they succeeded.",
  ["inputs", "fault_sequences", "histories"], "every command, unit of work and failure point",
  "Tests look at the events of successful calls; a notification sent before the commit or after a rollback needs a failing commit or command to show.",
  [CU + "event.rs", "crates/*/src/units_of_work", "crates/*/src/*_controller.rs", CU + "undo_redo.rs"],
  [("EventBuffer begin/push/flush/discard", CU + "event.rs"), ("CommandUnitOfWork::commit sends flushed events", DE + "units_of_work")],
  "path-sensitive ordering of commit, flush, send over MIR; who-may-send over the call graph",
  "Decides for all 40 units of work, 40 feature controllers and the undo manager on every path.")

DAC = "crates/common/src/direct_access"

P("C24", "Removing a part of the document leaves no orphans and no dangling references",
  "Removing an entity through its repository also removes everything it owns (Root the Document; Document its frames, lists, resources and tables; Frame its "
  "blocks; Table its cells), takes it out of its owner's list, and clears every relationship field that pointed at it; removing a block also drops its "
  "formatting runs and images. Creating an entity under an owner adds it to the owner's list without losing the entries already there.",
  ["inputs", "histories"], "every entity type, single and bulk operation, and document structure",
  "Tests remove a few entities in small documents; a forgotten relationship shows only for one entity type in one structure.",
  [DAC], [("<E>Repository::remove / remove_multi / create / create_multi", DAC + "/*/*_repository.rs"), ("<E>HashMapTable::remove_multi", DAC + "/*/*_table.rs")],
  "relationship-table-driven must-pass and field-write rules over MIR",
  "Decides for all 11 relationship fields and 8 entity types that the cleanup, cascade and owner updates are made on every successful path.")

P("C25", "Entity ids are never handed out twice",
  "A new entity gets a fresh id from its own kind's counter, which only grows; undo and redo never wind it back, only the rollback of the transaction that made the "
  "entities does. An explicit id that is already taken is refused instead of overwriting the entity that has it.",
  ["histories", "inputs"], "every history of creations, removals, undos and rollbacks",
  "A reused id shows only after a particular create, undo, create sequence, as silent aliasing of two entities.",
  [DAC, CU + "database/rope_store.rs"], [("RopeStore::next_id and counters", CU + "database/rope_store.rs"), ("<E>HashMapTable::create_multi", DAC + "/*/*_table.rs")],
  "who-may-write over the id counters, call-chain and must-precede rules over MIR",
  "Decides who can write the counters and that every insert of a new entity is preceded by a fresh id or a duplicate check.")

P("C39", "Every repository change queues the matching change event",
  "Every successful create, update, relationship change or removal of an entity through its repository queues the Created, Updated or Removed event of exactly that "
  "entity type, naming the entities concerned; a change that fails queues nothing. Restoring a snapshot queues events for the entities that came back.",
  ["inputs", "fault_sequences"], "every mutating repository method of every entity type and every outcome",
  "Tests look at a few events; a wrong or missing event for one method of one entity type leaves a stale view.",
  [DAC], [("<E>Repository methods pushing to EventBuffer", DAC + "/*/*_repository.rs")],
  "must-pass / must-precede rules over MIR with event-variant agreement",
  "Decides for all 96 table-change sites that the matching event follows on every successful path and never without the change.")

P("C40", "Units of work do what their operation names say, on the entity they name",
  "Every operation of a unit of work calls exactly the repository operation of the same name for the entity type it is named after, inside its own transaction, passes its parameters on in "
  "order and returns the repository's answer.",
  ["inputs"], "all 750 unit-of-work operations",
  "The operations are generated by a macro and by hand for forty units of work; a swapped entity or operation shows only in the one command that uses it.",
  ["crates/macros/src/lib.rs", "crates/*/src/units_of_work", "crates/direct_access/src/*/units_of_work.rs"],
  [("uow_action macro", "crates/macros/src/lib.rs"), ("XWriteUoW / XReadUoW", "crates/direct_access/src/*/units_of_work.rs")],
  "cross-checking of sibling implementations over resolved calls",
  "Decides name, argument order, result and transaction agreement for every operation.")

P("C41", "A relationship can only be set to entities that exist",
  "Setting a relationship, singly or in bulk, first looks every target up among the entities of that relationship's own type; if any is missing the call fails "
  "and nothing is written.",
  ["inputs"], "every relationship field, every list of target ids",
  "A test tries one missing id on one relationship; each of the 22 arms can be wrong on its own.",
  [DAC], [("<E>Repository::set_relationship(_multi)", DAC + "/*/*_repository.rs")],
  "per-variant must-precede rule over MIR",
  "Decides for every relationship variant and both setters that the lookup precedes the write on every path and a refusal excludes it.")

P("C42", "Plain updates keep relationships, relationship selectors touch their own field",
  "A plain update of an entity stores the caller's values but keeps the relationships that are in the store, whatever stale copy the caller holds; an update with "
  "relationships stores all of the caller's values. Reading or writing a relationship by its selector touches exactly the field it names.",
  ["inputs", "histories"], "every entity type, relationship field and stale copy",
  "A stale copy overwriting a relationship needs two interleaved edits of the same entity.",
  [DAC], [("update_multi, update_with_relationships_multi, read_field, write_field", DAC + "/*/*_table.rs")],
  "field-transfer dataflow over MIR, per-variant field agreement",
  "Decides for all 11 relationship fields and every scalar field which value reaches the store.")

import props_na  # noqa

P("C43", "Bulk operations treat every element they are given",
  "A bulk create, read, update, relationship change or removal of entities handles every element of the collection it is given: none is "
  "picked out, skipped or left over because of its place in the collection, and the operation does not stop early with success. Only elements "
  "that cannot be found in the store may be passed over.",
  ["inputs"], "every bulk call and every number of elements",
  "Tests call the bulk operations with one or two elements, and a wrong treatment of the others never shows.",
  [CU + "direct_access", "crates/direct_access/src"],
  [("*_multi of tables, repositories, use cases and controllers", CU + "direct_access/*/*_table.rs")],
  "loop-exit and collection-narrowing analysis over MIR of every bulk operation",
  "Decides that no bulk operation picks single elements of its input, leaves its loop early with success, or passes an element over other than after a failed lookup.")

P("C09", "Replacing the whole document leaves nothing of the old one behind",
  "After the whole document is replaced (plain text, Markdown, HTML or djot import, clear), the undo history of the old document is empty, the cached "
  "plain text is dropped, syntax highlighting is redone, DocumentReset is announced and the baselines used to detect later changes are taken from the new "
  "document. For an import running in the background the same holds by the time its completion is announced, and starting one clears the undo history at once.",
  ["inputs", "histories", "schedules"], "every replacing call, on success, with any earlier history",
  "Undoing into a document that no longer exists, or reading its cached text, needs a particular earlier call before the replacement.",
  [TD + "document.rs", TD + "inner.rs"], [("set_plain_text, set_markdown, set_html, clear, completion handler", TD + "document.rs")],
  "path-sensitive must-follow obligations over MIR, lifted through helpers and closures",
  "Decides for every call site of a whole-document replacement that every success exit carries each follow-up effect.")

P("C10", "The text returned is never a stale cached copy",
  "After any call that may change the document text has returned, successfully or with an error, the plain text, text length and anything computed from the cached text reflect "
  "the changed document: the cache is dropped on every path after a command that may have changed text, and is only ever filled with text exported from the document "
  "while the document is locked.",
  ["inputs", "histories", "fault_sequences"], "every editing call, every outcome, any earlier read of the text",
  "The stale copy shows only if the text was read before the edit and the edit took one particular path (an error after a partial change, an undo, a table command).",
  [TD + "cursor.rs", TD + "document.rs", TD + "inner.rs"], [("plain_text_cache, invalidate_text_cache", TD + "inner.rs")],
  "effect classification of commands plus path-sensitive must-follow obligations over MIR",
  "Decides for every command call site that may change text whether an exit exists on which the cache survives; over-approximates which commands change text.")

P("C11", "A text edit moves every cursor consistently",
  "After a text edit succeeds (insert, delete, paste, block, list, image, fragment, formatted text), the editing cursor's position and anchor are both at the position the edit reported, every other live cursor of the "
  "document has had both its position and anchor moved by the same rule for the same region, its cell selection cleared, and the region announced to listeners is the region the cursors were "
  "moved by: it starts at the smaller end of the selection and counts the selection as removed exactly when the edit removes it. A position at or in front of the region stays, one behind it "
  "moves by the change in length, one inside ends within the new text; every cursor handed out takes part.",
  ["inputs", "histories"], "every text edit, any number of cursors, anchors and selections",
  "Needs two cursors, one of them with a selection, and a particular edit; tests place few.",
  [TD + "cursor.rs", TD + "inner.rs"], [("finish_edit, adjust_cursors, register_cursor", TD + "cursor.rs")],
  "must-follow obligations over MIR, value identity of the adjusted and announced region, case analysis of the moving rule over affine forms and orders (difference bounds)",
  "Decides for every edit call site that the adjustment is made on every success path with the announced values, that the adjustment visits every registered cursor, that one position is moved right for every order of position and region, and that the region's start and removed length are the selection's. The added length is the reported new position minus the start and is not compared with the text (C34). "
  "insert_frame, replace and table-structure commands are outside the statement.")

P("C12", "Every successful edit marks the document modified and tells the listeners",
  "After every editing, formatting, replace, undo or redo call that succeeds, the document is marked modified, the matching change notification is queued (contents, format, undo/redo state, block count, "
  "inserted and removed flow elements where the command can cause them) and everything queued is handed to the subscribers before the call returns. A call that changed nothing may stay silent. "
  "The modified flag is only cleared by code that tells the listeners.",
  ["inputs", "histories"], "every public editing call and every path through it",
  "Each call has its own sequence of follow-ups; a missing one shows only as a stale view after one particular edit.",
  [TD + "cursor.rs", TD + "document.rs", TD + "text_list.rs", TD + "text_table.rs"], [("finish_edit_ext, queue_event, dispatch_queued_events", TD + "cursor.rs")],
  "effect classification of commands plus path-sensitive must-follow obligations over MIR",
  "Decides ~390 obligations: each command call site of the public API against each follow-up its effects demand. Table-structure commands owe no ContentsChanged.")

P("C44", "Each notification reaches every listener exactly once",
  "Every document notification that is queued is delivered exactly once to each delivery path: to every live callback subscribed when it is dispatched, in queue order, and to the next poll. "
  "Polling does not take notifications away from callbacks or the other way round, none is dropped, repeated or filtered, and a callback is only let go when its subscription was dropped.",
  ["histories", "schedules"], "every interleaving of edits, polls, subscriptions and unsubscriptions",
  "The two delivery paths share one queue with two read positions; a wrong trim loses events only for certain interleavings of poll and dispatch.",
  [TD + "inner.rs", TD + "events.rs"], [("queue_event, take_queued_events, drain_poll_events, trim_delivered_events, dispatch_queued_events, subscribe_inner", TD + "inner.rs")],
  "classification of every mutation of the queue, its read positions and the callback list over MIR",
  "Decides append-only use, trim by the smaller position with both positions shifted equally, read-from-own-position-to-end, and unfiltered delivery to every live callback.")

P("C13", "Listeners are never called while the library holds a lock",
  "No notification callback a user registered (document change callbacks, long-operation event callbacks) is ever called while the calling thread holds the document lock, a cursor lock, the undo history, the "
  "store, the subscriber map or any other lock of the library, except the mutex that guards that one callback: a callback may call back into the document, subscribe, unsubscribe or drop handles "
  "without deadlocking. (Syntax highlighters are not notifications: they run under the document lock by design.)",
  ["schedules", "histories"], "every path from a public call or the event thread to a callback, any callback behaviour",
  "A deadlock needs a callback that re-enters the library at the right moment; a test with a passive callback never blocks.",
  [TD + "inner.rs", TD + "events.rs", "crates/frontend/src/event_hub_client.rs"], [("dispatch_queued_events", TD + "inner.rs"), ("EventHubClient::start", "crates/frontend/src/event_hub_client.rs")],
  "held-lock dataflow over MIR guard lifetimes, interprocedural may-call-listener analysis",
  "Decides for every call that may run a listener which guards are alive there, temporaries included.")

P("C14", "Locks are taken in one consistent order and never twice",
  "No thread acquires a lock it already holds, and any two locks of the library that a thread may hold together are taken in a consistent order, so that threads editing, reading, importing in the background and "
  "delivering events cannot deadlock on each other; nothing waits for another thread, a channel or a timer while holding one.",
  ["schedules"], "every pair of lock acquisitions on every call path of every thread",
  "Deadlocks need two threads at two particular points; the tests are almost all single-threaded.",
  [TD + "cursor.rs", TD + "inner.rs", CU + "long_operation.rs", CU + "database/rope_store.rs", "crates/frontend/src/app_context.rs"],
  [("document, cursor, history, long-operation, event-buffer and store locks", TD + "inner.rs")],
  "interprocedural lock-order graph over MIR guard lifetimes, drops included; cycle search with read/write conflicts",
  "Lock classes are (lock kind, guarded type): two locks of one class count as the same lock. Two readers are taken not to block each other across different locks (a waiting writer in between is not modelled).")

P("C19", "Queries and exports never change the document",
  "Asking the document, a cursor, a block, frame, table, list, cell or a running operation about its content, moving a cursor, and exporting to any format leave the document content, the undo history, the "
  "modified flag and the notification queue exactly as they were (an internal cache of the plain text may be filled). Background exports never open a write transaction either.",
  ["inputs", "histories"], "every query, cursor movement and export of the public API, on every document",
  "A query that changes something is noticed only if a test compares the right part of the state around that very call.",
  [TD + "document.rs", TD + "cursor.rs", TD + "text_block.rs", "crates/document_inspection/src", "crates/document_io/src"],
  [("queries and exports", TD + "document.rs"), ("read-only units of work", "crates/document_inspection/src/units_of_work")],
  "interprocedural effect analysis over the MIR call graph (reachability of store writes, write transactions, history changes, flag stores and notifications)",
  "Decides each public query and export against each kind of effect; the effects of code run later by a completion handler on another thread are outside (the DOCX completion announces a reset).")

P("C20", "Highlighting is a layer of its own",
  "Attaching, removing or re-running a syntax highlighter changes no stored text or formatting, no undo history and no modified flag; text, statistics, searches, stored formats and exports are the same with and without "
  "a highlighter; nothing computed from highlights is ever written into the document.",
  ["inputs", "histories"], "every highlighter and every document, query and export",
  "Tests attach one or two highlighters and look at the flow snapshot only.",
  [TD + "highlight.rs", TD + "inner.rs"], [("HighlightData, rehighlight_all, merge_highlight_spans", TD + "highlight.rs")],
  "interprocedural effect and access analysis over the MIR call graph",
  "Decides which calls can reach a reader of the highlight layer and which effects the highlighter calls can reach.")

P("C22", "Applying a format changes only the requested attributes",
  "When a text, block, frame, table, cell or list format, or a highlight, is applied onto an existing format, every attribute the request sets takes its new value from that very attribute of the request, and every "
  "attribute it leaves unset keeps its previous value; whether one attribute is applied never depends on another, and no attribute that request and target share is ignored. Later overlapping highlights override "
  "earlier ones attribute by attribute.",
  ["inputs"], "every combination of set and unset attributes",
  "With 16 optional attributes there are 65536 combinations per merge; the tests set one or two attributes at a time.",
  ["crates/document_formatting/src/use_cases", TD + "highlight.rs"],
  [("merge_dto", "crates/document_formatting/src/use_cases/set_text_format_uc.rs"), ("apply_highlight, merge_overlapping_highlights", TD + "highlight.rs")],
  "attribute-wise value and control dependence (field slices and post-dominators) over MIR",
  "Decides value source, presence condition, precedence and coverage of each attribute. A request type that has no such attribute at all (MergeTextFormatDto carries 5 of 16) is outside.")

P("C23", "Attributes are never lost or mixed up in conversions",
  "Wherever one record is turned into another that has the same attributes (entities, transfer records, fragments, snapshots, options and formats of the public API), every shared attribute arrives, from its namesake and from nothing "
  "else; conversions between enumerations map every variant to its namesake. The same holds wherever a block, table or cell is created from a pasted fragment, a parsed Markdown or HTML block, or the block it was split from.",
  ["inputs"], "every record conversion and every value of every attribute",
  "There are over a hundred conversions of up to twenty attributes each; the tests compare a few attributes of a few.",
  [TD + "convert.rs", TD + "fragment.rs", "crates/direct_access/src", DE + "use_cases/insert_fragment_uc.rs", "crates/document_inspection/src/use_cases/extract_fragment_uc.rs"],
  [("From impls between entities and DTOs", "crates/direct_access/src"), ("BlockFormat / TextFormat / FindOptions conversions", TD + "convert.rs")],
  "field-transfer dataflow (value and control dependence of each field) over MIR, variant maps of matches",
  "Shared attributes are those with the same name, the fmt_ prefix aside. What a conversion does to the value itself (clamping, wrapping) is not judged.")

P("C15", "The document text and the index of block starts stay in step",
  "Whenever an edit changes the document text, it changes the index of block starts and the recorded total length by the same number of bytes, shifts the starts of exactly the blocks that lie behind the edit, and adds or "
  "removes the index entry of every block whose text it adds or removes, keeping the one-byte boundary between neighbouring blocks. Nothing else changes the text or the index. Every block that is created is entered in "
  "the text and every block that is removed is taken out of it, and stored block positions and table anchors are brought up to date by the edit that moved them.",
  ["inputs", "histories"], "every document, edit position, edit length and edit history",
  "An index that is off by one shows only after a later edit in another block; the tests edit small documents once or twice and rarely behind a table, an image or an empty last block.",
  [CU + "database/rope_helpers.rs", CU + "database/rope_store.rs", DE + "use_cases"],
  [("rope_insert_in_block, rope_delete_in_block, rope_insert_block_at, rope_split_block, rope_merge_blocks, rope_remove_block", CU + "database/rope_helpers.rs")],
  "affine symbolic dataflow over MIR (byte balance of text, index and total on every path) and ownership analysis of the two structures",
  "Lengths are compared as affine forms over the lengths and starts the code itself reads, path by path; a number of bytes that is wrong in both places alike (a wrong position given by the caller) is not judged.")

P("C16", "The index of block starts is consistent with itself",
  "The lookup table of the index of block starts gives every marker the place of its entry, no marker that is gone stays in it, the table anchor count equals the number of anchor entries, and byte ranges and lookups are "
  "those the entries define; every operation that adds, removes or shifts entries keeps all of this for every entry, at any place. Code that changes the entries itself rebuilds the lookup table.",
  ["inputs", "histories"], "every index content, position, range, threshold and shift",
  "A wrong place for one other marker shows only when that block is edited next; tests build indexes of two or three entries and touch the ends.",
  [CU + "database/block_offset_index.rs"],
  [("insert_at, push, remove_at, drain_inclusive, rebuild_marker_index, shift_after, range_of, marker_at_byte", CU + "database/block_offset_index.rs")],
  "abstract interpretation of MIR over affine forms and difference-bound matrices with a generic (summary) entry",
  "Methods are decided from a consistent index; that callers give byte starts in order is C15's matter. A method rewritten with constructs the interpreter does not model is reported as undecided, not as wrong.")

P("C18", "Formatting and images stay on the characters they belong to",
  "Inserting, deleting, replacing, splitting, joining and copying text keeps every character's format and every inline image on the character it belonged to: runs and images move by exactly the length of the change, are clipped "
  "or dropped exactly where their text is deleted, and split or joined text takes its formats along; ranges never overlap or get empty, and applying a format changes exactly the requested range. Every edit that changes a block's "
  "text gives the same place and length to the text, the runs and the images.",
  ["inputs", "histories"], "every run list, image list, edit position and edit length",
  "The case analysis is over the order of the edit's ends against every run's ends, equalities included; the tests sample a few orders.",
  [CU + "format_runs.rs", CU + "format_runs_helpers.rs", DE + "use_cases"],
  [("shift_for_insert, shift_for_delete, splice, split, coalesce", CU + "format_runs.rs")],
  "abstract interpretation of MIR over affine forms and difference-bound matrices with a generic (summary) run; must-pass dataflow at the call sites",
  "The routines are decided one generic run or image (and a neighbour where runs are joined) at a time over every ordering of its ends against the edit; at the call sites the rule compares the byte range given to text, runs and images.")

P("C27", "Background operations end exactly once and say how",
  "Every background operation (Markdown and HTML import, DOCX export) whose work returns ends exactly once, as completed, failed or cancelled, whatever the timing of a cancellation: an ending is never overwritten by another. "
  "Completed, with the stored result, is only reported for work that succeeded, failed for work that returned an error (with its text), cancelled for one that was cancelled; started is announced before the work runs, the matching event is sent "
  "for every ending, cancelling reaches the running work before its next piece of content and before it commits, and the handle returns a failure or cancellation as an error.",
  ["schedules", "inputs"], "every document, every moment of a cancel relative to the worker, every outcome of the work",
  "Tests cannot choose when a cancel arrives relative to the worker; the wrong overwrite or a missing event shows only in a narrow window.",
  [CU + "long_operation.rs", TD + "operation.rs", "crates/document_io/src/use_cases"],
  [("OperationHandle::cancel, LongOperationManager::start_operation / cancel_operation", CU + "long_operation.rs"), ("Operation::poll", TD + "operation.rs"), ("execute with its cancel flag", "crates/document_io/src/use_cases/import_*_uc.rs")],
  "typestate of the operation status and must-pass analysis of the cancel flag over MIR",
  "Decides for every status write that Running was found under the same guard, for every outcome and event the edge it is reached by, and for every loop and commit of an operation that the cancel flag is looked at.")

P("C38", "An operation that fails tells its caller",
  "When a step of an editing, formatting, search, import, export or inspection operation fails (reading or changing the document, opening or committing the transaction), the operation itself returns an error: no failed step is "
  "swallowed, defaulted, logged away or skipped, in a loop or otherwise, and every public call that runs a command returns the command's error to the user. (A lookup that only decides whether a shortcut is taken may fall back to the "
  "general way, and grouping calls that return nothing cannot report.)",
  ["inputs", "fault_sequences"], "every failing step of every operation",
  "Almost no test makes a store access fail; a swallowed error looks like success with half the work done.",
  [DE + "use_cases", "crates/document_formatting/src/use_cases", "crates/document_io/src/use_cases", "crates/document_search/src/use_cases", "crates/document_inspection/src/use_cases", TD],
  [("every call returning a Result", "crates/*/src/use_cases/*_uc.rs"), ("command calls", TD + "cursor.rs, document.rs and the other handles")],
  "path analysis of Result values over MIR: a failed step must reach an error return",
  "Decides for each of ~4100 fallible calls that no path from its error side reaches a success return, and for collected results that all are looked at.")

P("C45", "Text positions are never confused with byte offsets",
  "Positions and lengths the user sees (cursor positions, match positions, document and block lengths) count characters, while the stored text, formatting runs and image anchors are addressed in UTF-8 bytes. "
  "The two never meet without a conversion: no character count is used where a byte offset is expected, added to or compared with one, stored in its field, or returned as one, nor the other way round, so that text outside ASCII behaves as ASCII does.",
  ["inputs"], "every text, every position",
  "For ASCII text the two counts are equal, so nearly every test passes with any of the mix-ups.",
  [CU + "format_runs.rs", CU + "database/rope_helpers.rs", DE + "use_cases", "crates/document_search/src", TD],
  [("all arithmetic on str::len, chars().count(), char_indices, ropey calls and the fields they flow to", "crates/*/src")],
  "whole-program unit inference (unification) over MIR",
  "Decides for every function that the units of all values it joins with its callees, fields and literals are consistent.")

P("C46", "Highlighting follows the text",
  "After every edit, undo, redo or replacement of the text succeeds, the attached syntax highlighter has been run again from the changed place on, block by block in document order, each block with the state the block before it ended with. "
  "The walk goes on until a later block, highlighted before, comes out with the state it had; new blocks (a pasted paragraph, a table's cells) are never passed over, every result is kept, and every fragment list "
  "handed out shows the stored highlights.",
  ["inputs", "histories"], "every editing call, every document and highlighter",
  "A stop one block early, or a block without earlier result, shows only with a highlighter that carries state over several blocks and an edit that inserts or joins blocks in its middle.",
  [TD + "highlight.rs", TD + "cursor.rs", TD + "document.rs", TD + "text_block.rs"],
  [("rehighlight_all, rehighlight_from_block, rehighlight_affected", TD + "highlight.rs"), ("build_fragments_with_text", TD + "text_block.rs")],
  "path obligations after every text-changing command; loop-exit, guard and value-source analysis of the highlighting walk over MIR",
  "Decides for every command call that highlighting is redone on every success path, and for the walk under which conditions it may end, what state it hands on and that results are kept and shown; not what a highlighter computes.")

P("C17", "Content takes its place in the reading order where it was put",
  "Every block, sub-frame and table an operation creates is entered in the reading order of its frame (or in its table cell), at a place found in that same reading order, a block by its id and a frame by its negated id; the changed "
  "frame is stored on every successful path, and content removed from the store is taken out of the reading order. Whenever an edit is committed, the stored positions, the document's counts and the frames' text ranges are recomputed from "
  "the text.",
  ["inputs", "histories"], "every document structure, position and content",
  "A wrong place shows only in frames that mix paragraphs with tables or sub-frames, a missing entry only in parts no test walks afterwards; most tests look at flat documents.",
  [DE + "use_cases", "crates/document_io/src/use_cases", CU + "database/transactions.rs", CU + "direct_access/frame", CU + "direct_access/block"],
  [("child_order of Frame", "every use case that creates content"), ("Transaction::commit", CU + "database/transactions.rs")],
  "identity slices from creating calls to reading orders, value-source analysis of insertion indexes, must-store paths over MIR",
  "Decides for each of 45 creating calls that its id reaches a reading order or cell, for each insertion where its index comes from, for each changed frame that it is stored; not that the place found is behind the right block.")
