From e7a9dc83ea88786d377e064427482b1ebe231a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:32 +0000
Subject: [PATCH 01/38] fix: close the undo group when replacing a selection
 fails

insert_text, insert_formatted_text, insert_block, insert_fragment and
insert_image left the composite open when a step failed, so every later
edit was swallowed by it and could not be undone.
---
 crates/public_api/src/cursor.rs | 209 ++++++++++++--------------------
 1 file changed, 79 insertions(+), 130 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 8d7be8e..c8a2d96 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -24,6 +24,31 @@ use crate::{BlockFormat, FrameFormat, MoveMode, MoveOperation, SelectionType, Te
 
 use crate::document::get_main_frame_id;
 
+/// Delete the selection, then run `insert` at the resulting position, as a single undo unit.
+///
+/// The composite is ended on the error path too: left open, it would swallow every later
+/// edit of the document, which could then neither be undone on its own nor be seen by `undo()`.
+fn replace_selection<R>(
+    inner: &mut TextDocumentInner,
+    pos: usize,
+    anchor: usize,
+    insert: impl FnOnce(&TextDocumentInner, usize) -> Result<R>,
+) -> Result<R> {
+    undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
+    let del_dto = frontend::document_editing::DeleteTextDto {
+        position: to_i64(pos),
+        anchor: to_i64(anchor),
+    };
+    let result = document_editing_commands::delete_text(&inner.ctx, Some(inner.stack_id), &del_dto)
+        .and_then(|deleted| insert(inner, to_usize(deleted.new_position)));
+    undo_redo_commands::end_composite(&inner.ctx);
+    if result.is_err() {
+        // The deletion may have been applied before the insertion failed.
+        inner.invalidate_text_cache();
+    }
+    result
+}
+
 /// Compute the maximum valid cursor position from document stats.
 ///
 /// Cursor positions include block separators (one between each pair of adjacent
@@ -408,32 +433,18 @@ impl TextCursor {
                 Ok(r) => r,
                 Err(_) if pos != anchor => {
                     // Cross-block selection: compose delete + insert as a single undo unit
-                    undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-
-                    let del_dto = frontend::document_editing::DeleteTextDto {
-                        position: to_i64(pos),
-                        anchor: to_i64(anchor),
-                    };
-                    let del_result = document_editing_commands::delete_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &del_dto,
-                    )?;
-                    let del_pos = to_usize(del_result.new_position);
-
-                    let ins_dto = frontend::document_editing::InsertTextDto {
-                        position: to_i64(del_pos),
-                        anchor: to_i64(del_pos),
-                        text: text.into(),
-                    };
-                    let ins_result = document_editing_commands::insert_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &ins_dto,
-                    )?;
-
-                    undo_redo_commands::end_composite(&inner.ctx);
-                    ins_result
+                    replace_selection(&mut inner, pos, anchor, |inner, del_pos| {
+                        let ins_dto = frontend::document_editing::InsertTextDto {
+                            position: to_i64(del_pos),
+                            anchor: to_i64(del_pos),
+                            text: text.into(),
+                        };
+                        document_editing_commands::insert_text(
+                            &inner.ctx,
+                            Some(inner.stack_id),
+                            &ins_dto,
+                        )
+                    })?
                 }
                 Err(e) => return Err(e),
             };
@@ -479,27 +490,13 @@ impl TextCursor {
                 Ok(r) => r,
                 Err(_) if pos != anchor => {
                     // Cross-block selection: compose delete + insert as a single undo unit
-                    undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-
-                    let del_dto = frontend::document_editing::DeleteTextDto {
-                        position: to_i64(pos),
-                        anchor: to_i64(anchor),
-                    };
-                    let del_result = document_editing_commands::delete_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &del_dto,
-                    )?;
-                    let del_pos = to_usize(del_result.new_position);
-
-                    let ins_result = document_editing_commands::insert_formatted_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &make_dto(del_pos, del_pos),
-                    )?;
-
-                    undo_redo_commands::end_composite(&inner.ctx);
-                    ins_result
+                    replace_selection(&mut inner, pos, anchor, |inner, del_pos| {
+                        document_editing_commands::insert_formatted_text(
+                            &inner.ctx,
+                            Some(inner.stack_id),
+                            &make_dto(del_pos, del_pos),
+                        )
+                    })?
                 }
                 Err(e) => return Err(e),
             };
@@ -525,37 +522,21 @@ impl TextCursor {
         let queued = {
             let mut inner = self.doc.lock();
 
-            let (insert_pos, removed) = if pos != anchor {
-                // Selection active: delete first, then split (Word convention)
-                undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-                let del_dto = frontend::document_editing::DeleteTextDto {
-                    position: to_i64(pos),
-                    anchor: to_i64(anchor),
+            let insert = |inner: &TextDocumentInner, insert_pos: usize| {
+                let dto = frontend::document_editing::InsertBlockDto {
+                    position: to_i64(insert_pos),
+                    anchor: to_i64(insert_pos),
                 };
-                let del_result = document_editing_commands::delete_text(
-                    &inner.ctx,
-                    Some(inner.stack_id),
-                    &del_dto,
-                )?;
-                (
-                    to_usize(del_result.new_position),
-                    pos.max(anchor) - pos.min(anchor),
-                )
+                document_editing_commands::insert_block(&inner.ctx, Some(inner.stack_id), &dto)
+            };
+            let (result, removed) = if pos != anchor {
+                // Selection active: delete first, then split (Word convention)
+                let result = replace_selection(&mut inner, pos, anchor, insert)?;
+                (result, pos.max(anchor) - pos.min(anchor))
             } else {
-                (pos, 0)
+                (insert(&inner, pos)?, 0)
             };
 
-            let dto = frontend::document_editing::InsertBlockDto {
-                position: to_i64(insert_pos),
-                anchor: to_i64(insert_pos),
-            };
-            let result =
-                document_editing_commands::insert_block(&inner.ctx, Some(inner.stack_id), &dto)?;
-
-            if pos != anchor {
-                undo_redo_commands::end_composite(&inner.ctx);
-            }
-
             let edit_pos = pos.min(anchor);
             self.finish_edit(
                 &mut inner,
@@ -588,36 +569,20 @@ impl TextCursor {
         let queued = {
             let mut inner = self.doc.lock();
 
-            let (insert_pos, removed) = if pos != anchor {
-                undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-                let del_dto = frontend::document_editing::DeleteTextDto {
-                    position: to_i64(pos),
-                    anchor: to_i64(anchor),
+            let insert = |inner: &TextDocumentInner, insert_pos: usize| {
+                let dto = frontend::document_editing::InsertFragmentDto {
+                    position: to_i64(insert_pos),
+                    anchor: to_i64(insert_pos),
+                    fragment_data: fragment.raw_data().into(),
                 };
-                let del_result = document_editing_commands::delete_text(
-                    &inner.ctx,
-                    Some(inner.stack_id),
-                    &del_dto,
-                )?;
-                (
-                    to_usize(del_result.new_position),
-                    pos.max(anchor) - pos.min(anchor),
-                )
-            } else {
-                (pos, 0)
+                document_editing_commands::insert_fragment(&inner.ctx, Some(inner.stack_id), &dto)
             };
-
-            let dto = frontend::document_editing::InsertFragmentDto {
-                position: to_i64(insert_pos),
-                anchor: to_i64(insert_pos),
-                fragment_data: fragment.raw_data().into(),
+            let (result, removed) = if pos != anchor {
+                let result = replace_selection(&mut inner, pos, anchor, insert)?;
+                (result, pos.max(anchor) - pos.min(anchor))
+            } else {
+                (insert(&inner, pos)?, 0)
             };
-            let result =
-                document_editing_commands::insert_fragment(&inner.ctx, Some(inner.stack_id), &dto)?;
-
-            if pos != anchor {
-                undo_redo_commands::end_composite(&inner.ctx);
-            }
 
             let edit_pos = pos.min(anchor);
             self.finish_edit(
@@ -689,38 +654,22 @@ impl TextCursor {
         let queued = {
             let mut inner = self.doc.lock();
 
-            let (insert_pos, removed) = if pos != anchor {
-                undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-                let del_dto = frontend::document_editing::DeleteTextDto {
-                    position: to_i64(pos),
-                    anchor: to_i64(anchor),
+            let insert = |inner: &TextDocumentInner, insert_pos: usize| {
+                let dto = frontend::document_editing::InsertImageDto {
+                    position: to_i64(insert_pos),
+                    anchor: to_i64(insert_pos),
+                    image_name: name.into(),
+                    width: width as i64,
+                    height: height as i64,
                 };
-                let del_result = document_editing_commands::delete_text(
-                    &inner.ctx,
-                    Some(inner.stack_id),
-                    &del_dto,
-                )?;
-                (
-                    to_usize(del_result.new_position),
-                    pos.max(anchor) - pos.min(anchor),
-                )
-            } else {
-                (pos, 0)
+                document_editing_commands::insert_image(&inner.ctx, Some(inner.stack_id), &dto)
             };
-
-            let dto = frontend::document_editing::InsertImageDto {
-                position: to_i64(insert_pos),
-                anchor: to_i64(insert_pos),
-                image_name: name.into(),
-                width: width as i64,
-                height: height as i64,
+            let (result, removed) = if pos != anchor {
+                let result = replace_selection(&mut inner, pos, anchor, insert)?;
+                (result, pos.max(anchor) - pos.min(anchor))
+            } else {
+                (insert(&inner, pos)?, 0)
             };
-            let result =
-                document_editing_commands::insert_image(&inner.ctx, Some(inner.stack_id), &dto)?;
-
-            if pos != anchor {
-                undo_redo_commands::end_composite(&inner.ctx);
-            }
 
             let edit_pos = pos.min(anchor);
             self.finish_edit_ext(
-- 
2.43.0


From b62b3e280220bea0aa1cc103170dbf9ddb86fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:22 +0000
Subject: [PATCH 02/38] fix: forget the stack of a finished undo group

end_composite and clear_all_stacks kept composite_stack_id, so a later
begin_composite on another stack was refused although no group was open.
---
 crates/common/src/undo_redo.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index 1fe132a..64ecbc2 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -360,6 +360,8 @@ impl UndoRedoManager {
                 stack.undo_stack.push(Box::new(composite));
                 stack.redo_stack.clear();
             }
+            // The group is over: the next one may target another stack
+            self.composite_stack_id = None;
             // not sure if we want to send events for composites
             if let Some(event_hub) = &self.event_hub {
                 event_hub.send_event(Event {
@@ -486,6 +488,7 @@ impl UndoRedoManager {
         }
         self.in_progress_composite = None;
         self.composite_nesting_level = 0;
+        self.composite_stack_id = None;
     }
 
     /// Creates a new undo/redo stack and returns its ID.
-- 
2.43.0


From faa834ab242cfadd27a6e05b3279ace00b30432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:22 +0000
Subject: [PATCH 03/38] fix: keep the replaced selection when typing merges
 into it

Merging a keystroke into an insertion that replaced a selection collapsed
the stored anchor, so redo re-inserted the text without removing the
selected characters.
---
 crates/document_editing/src/use_cases/insert_text_uc.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/insert_text_uc.rs b/crates/document_editing/src/use_cases/insert_text_uc.rs
index da5cfed..3795f36 100644
--- a/crates/document_editing/src/use_cases/insert_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_text_uc.rs
@@ -643,7 +643,6 @@ impl UndoRedoCommand for InsertTextUseCase {
 
         if let (Some(self_dto), Some(other_dto)) = (&mut self.last_dto, &other_cmd.last_dto) {
             self_dto.text.push_str(&other_dto.text);
-            self_dto.anchor = self_dto.position;
         }
         if let Some(other_result) = &other_cmd.last_result {
             self.last_result = Some(other_result.clone());
-- 
2.43.0


From 478bf2a2100fcf4bb4896e53f07d86940ad3cdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:46 +0000
Subject: [PATCH 04/38] fix: shift block positions back when undoing an
 insertion next to a table

insert_text moves the stored positions of the blocks that follow when the
document has tables; undoing the insertion left them shifted.
---
 .../src/use_cases/insert_text_uc.rs           | 84 ++++++++++++-------
 1 file changed, 52 insertions(+), 32 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_text_uc.rs b/crates/document_editing/src/use_cases/insert_text_uc.rs
index 3795f36..df5abb1 100644
--- a/crates/document_editing/src/use_cases/insert_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_text_uc.rs
@@ -58,6 +58,7 @@ struct UndoData {
     /// undo to delete those bytes from the rope.
     inserted_byte_offset: u32,
     inserted_byte_len: u32,
+    inserted_char_len: i64,
 }
 
 enum InsertTextUndo {
@@ -269,6 +270,47 @@ fn execute_insert_with_selection(
     ))
 }
 
+/// Shift `document_position` for every block sitting *after* the
+/// edited one in document order — but only when the rope
+/// can't be used as the source of truth (tables present or
+/// sub-frames not mirrored). For rope-clean documents, readers
+/// derive positions directly from `BlockOffsetIndex`, so the O(N)
+/// walk here is unnecessary and dominated per-keystroke cost on
+/// /large/1000para benches. The catch-up logic in `insert_table_uc`
+/// brings stored values back into sync if a table is later added.
+fn shift_following_blocks(
+    uow: &mut Box<dyn InsertTextUnitOfWorkTrait>,
+    doc_id: EntityId,
+    block: &Block,
+    delta: i64,
+) -> Result<()> {
+    if !common::database::rope_helpers::rope_positions_match_flow(&uow.store()) {
+        let frame_ids =
+            uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
+        let mut all_blocks: Vec<Block> = Vec::new();
+        for fid in &frame_ids {
+            let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
+            if !block_ids.is_empty() {
+                let blocks_opt = uow.get_block_multi(&block_ids)?;
+                all_blocks.extend(blocks_opt.into_iter().flatten());
+            }
+        }
+        let mut blocks_to_update: Vec<Block> = Vec::new();
+        for b in all_blocks {
+            if b.id != block.id && b.document_position > block.document_position {
+                let mut ub = b;
+                ub.document_position += delta;
+                ub.updated_at = chrono::Utc::now();
+                blocks_to_update.push(ub);
+            }
+        }
+        if !blocks_to_update.is_empty() {
+            uow.update_block_multi(&blocks_to_update)?;
+        }
+    }
+    Ok(())
+}
+
 fn execute_insert_simple(
     uow: &mut Box<dyn InsertTextUnitOfWorkTrait>,
     dto: &InsertTextDto,
@@ -375,38 +417,7 @@ fn execute_insert_simple(
 
     rope_insert_in_block(&store, block.id, byte_offset, &dto.text);
 
-    // Shift `document_position` for every block sitting *after* the
-    // inserted-into one in document order — but only when the rope
-    // can't be used as the source of truth (tables present or
-    // sub-frames not mirrored). For rope-clean documents, readers
-    // derive positions directly from `BlockOffsetIndex`, so the O(N)
-    // walk here is unnecessary and dominated per-keystroke cost on
-    // /large/1000para benches. The catch-up logic in `insert_table_uc`
-    // brings stored values back into sync if a table is later added.
-    if !common::database::rope_helpers::rope_positions_match_flow(&store) {
-        let frame_ids =
-            uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
-        let mut all_blocks: Vec<Block> = Vec::new();
-        for fid in &frame_ids {
-            let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
-            if !block_ids.is_empty() {
-                let blocks_opt = uow.get_block_multi(&block_ids)?;
-                all_blocks.extend(blocks_opt.into_iter().flatten());
-            }
-        }
-        let mut blocks_to_update: Vec<Block> = Vec::new();
-        for b in all_blocks {
-            if b.id != block.id && b.document_position > block.document_position {
-                let mut ub = b;
-                ub.document_position += inserted_char_len;
-                ub.updated_at = chrono::Utc::now();
-                blocks_to_update.push(ub);
-            }
-        }
-        if !blocks_to_update.is_empty() {
-            uow.update_block_multi(&blocks_to_update)?;
-        }
-    }
+    shift_following_blocks(uow, doc_id, &block, inserted_char_len)?;
 
     let mut updated_doc = document.clone();
     updated_doc.character_count += inserted_char_len;
@@ -422,6 +433,7 @@ fn execute_insert_simple(
         original_character_count: document.character_count,
         inserted_byte_offset: byte_offset,
         inserted_byte_len,
+        inserted_char_len,
     };
 
     Ok((
@@ -556,6 +568,13 @@ impl UndoRedoCommand for InsertTextUseCase {
                     );
                 }
 
+                shift_following_blocks(
+                    &mut uow,
+                    data.doc_id,
+                    &data.original_block,
+                    -data.inserted_char_len,
+                )?;
+
                 let mut doc = uow
                     .get_document(&data.doc_id)?
                     .ok_or_else(|| anyhow!("Document not found"))?;
@@ -659,6 +678,7 @@ impl UndoRedoCommand for InsertTextUseCase {
             (&mut self.undo_data, &other_cmd.undo_data)
         {
             self_undo.inserted_byte_len += other_undo.inserted_byte_len;
+            self_undo.inserted_char_len += other_undo.inserted_char_len;
         }
 
         true
-- 
2.43.0


From e54c6a89356ea7baa2ff82a9af36a2b74253dcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:22 +0000
Subject: [PATCH 05/38] fix: clear the undo history when a Markdown or HTML
 import starts

set_markdown and set_html document that they clear the undo history, but
left the old commands in place; undoing one then edited blocks that the
import had replaced.
---
 crates/public_api/src/document.rs | 42 ++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 1fdd02d..52e1e1b 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -194,15 +194,24 @@ impl TextDocument {
     ///
     /// This is a **long operation**. Returns a typed [`Operation`] handle.
     pub fn set_markdown(&self, markdown: &str) -> Result<Operation<MarkdownImportResult>> {
-        let mut inner = self.inner.lock();
-        inner.invalidate_text_cache();
-        let dto = frontend::document_io::ImportMarkdownDto {
-            markdown_text: markdown.into(),
+        let (op_id, ctx, queued) = {
+            let mut inner = self.inner.lock();
+            inner.invalidate_text_cache();
+            let dto = frontend::document_io::ImportMarkdownDto {
+                markdown_text: markdown.into(),
+            };
+            let op_id = document_io_commands::import_markdown(&inner.ctx, &dto)?;
+            undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+            inner.queue_event(DocumentEvent::UndoRedoChanged {
+                can_undo: false,
+                can_redo: false,
+            });
+            (op_id, inner.ctx.clone(), inner.take_queued_events())
         };
-        let op_id = document_io_commands::import_markdown(&inner.ctx, &dto)?;
+        crate::inner::dispatch_queued_events(queued);
         Ok(Operation::new(
             op_id,
-            &inner.ctx,
+            &ctx,
             Box::new(|ctx, id| {
                 document_io_commands::get_import_markdown_result(ctx, id)
                     .ok()
@@ -227,15 +236,24 @@ impl TextDocument {
     ///
     /// This is a **long operation**. Returns a typed [`Operation`] handle.
     pub fn set_html(&self, html: &str) -> Result<Operation<HtmlImportResult>> {
-        let mut inner = self.inner.lock();
-        inner.invalidate_text_cache();
-        let dto = frontend::document_io::ImportHtmlDto {
-            html_text: html.into(),
+        let (op_id, ctx, queued) = {
+            let mut inner = self.inner.lock();
+            inner.invalidate_text_cache();
+            let dto = frontend::document_io::ImportHtmlDto {
+                html_text: html.into(),
+            };
+            let op_id = document_io_commands::import_html(&inner.ctx, &dto)?;
+            undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+            inner.queue_event(DocumentEvent::UndoRedoChanged {
+                can_undo: false,
+                can_redo: false,
+            });
+            (op_id, inner.ctx.clone(), inner.take_queued_events())
         };
-        let op_id = document_io_commands::import_html(&inner.ctx, &dto)?;
+        crate::inner::dispatch_queued_events(queued);
         Ok(Operation::new(
             op_id,
-            &inner.ctx,
+            &ctx,
             Box::new(|ctx, id| {
                 document_io_commands::get_import_html_result(ctx, id)
                     .ok()
-- 
2.43.0


From 731351305baf7ba1a5c4405d48cafc37d3687f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:23 +0000
Subject: [PATCH 06/38] fix: drop the cached text when a background import
 completes

Text read while set_markdown or set_html was still running stayed cached
and was returned after the import, and the highlighter was not re-run on
the imported blocks.
---
 crates/public_api/src/document.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 52e1e1b..1ddf004 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -106,6 +106,8 @@ impl TextDocument {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
                         let mut inner = inner.lock();
+                        inner.invalidate_text_cache();
+                        inner.rehighlight_all();
                         inner.queue_event(DocumentEvent::DocumentReset);
                         inner.check_block_count_changed();
                         inner.reset_cached_child_order();
-- 
2.43.0


From 0b2ac24d8965f9e793fce8b0d7c192a45221e6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:16 +0000
Subject: [PATCH 07/38] fix: deliver background-operation events to on_change
 subscribers

The bridge from backend long-operation events queued the document events
but never dispatched them, so callback subscribers saw progress and
completion only after some later, unrelated edit.
---
 crates/public_api/src/document.rs | 74 +++++++++++++++++++------------
 1 file changed, 45 insertions(+), 29 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 1ddf004..6cc2cd8 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -88,12 +88,16 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Progress), move |event| {
                     if let Some(inner) = w.upgrade() {
                         let (op_id, percent, message) = parse_progress_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::LongOperationProgress {
-                            operation_id: op_id,
-                            percent,
-                            message,
-                        });
+                        let queued = {
+                            let mut inner = inner.lock();
+                            inner.queue_event(DocumentEvent::LongOperationProgress {
+                                operation_id: op_id,
+                                percent,
+                                message,
+                            });
+                            inner.take_queued_events()
+                        };
+                        crate::inner::dispatch_queued_events(queued);
                     }
                 });
 
@@ -105,17 +109,21 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Completed), move |event| {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.invalidate_text_cache();
-                        inner.rehighlight_all();
-                        inner.queue_event(DocumentEvent::DocumentReset);
-                        inner.check_block_count_changed();
-                        inner.reset_cached_child_order();
-                        inner.queue_event(DocumentEvent::LongOperationFinished {
-                            operation_id: op_id,
-                            success: true,
-                            error: None,
-                        });
+                        let queued = {
+                            let mut inner = inner.lock();
+                            inner.invalidate_text_cache();
+                            inner.rehighlight_all();
+                            inner.queue_event(DocumentEvent::DocumentReset);
+                            inner.check_block_count_changed();
+                            inner.reset_cached_child_order();
+                            inner.queue_event(DocumentEvent::LongOperationFinished {
+                                operation_id: op_id,
+                                success: true,
+                                error: None,
+                            });
+                            inner.take_queued_events()
+                        };
+                        crate::inner::dispatch_queued_events(queued);
                     }
                 });
 
@@ -127,12 +135,16 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Cancelled), move |event| {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::LongOperationFinished {
-                            operation_id: op_id,
-                            success: false,
-                            error: Some("cancelled".into()),
-                        });
+                        let queued = {
+                            let mut inner = inner.lock();
+                            inner.queue_event(DocumentEvent::LongOperationFinished {
+                                operation_id: op_id,
+                                success: false,
+                                error: Some("cancelled".into()),
+                            });
+                            inner.take_queued_events()
+                        };
+                        crate::inner::dispatch_queued_events(queued);
                     }
                 });
 
@@ -143,12 +155,16 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Failed), move |event| {
                     if let Some(inner) = weak.upgrade() {
                         let (op_id, error) = parse_failed_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::LongOperationFinished {
-                            operation_id: op_id,
-                            success: false,
-                            error: Some(error),
-                        });
+                        let queued = {
+                            let mut inner = inner.lock();
+                            inner.queue_event(DocumentEvent::LongOperationFinished {
+                                operation_id: op_id,
+                                success: false,
+                                error: Some(error),
+                            });
+                            inner.take_queued_events()
+                        };
+                        crate::inner::dispatch_queued_events(queued);
                     }
                 });
 
-- 
2.43.0


From 942806bb1373f3baa5aeeff82cc9fb60a7195baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:30 +0000
Subject: [PATCH 08/38] fix: report failed and cancelled operations to their
 handle

Operation::wait looped forever, and is_done stayed false, when the
operation failed or was cancelled: only a stored result was looked for.
---
 crates/public_api/src/operation.rs | 32 +++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/crates/public_api/src/operation.rs b/crates/public_api/src/operation.rs
index 31770be..491914e 100644
--- a/crates/public_api/src/operation.rs
+++ b/crates/public_api/src/operation.rs
@@ -3,9 +3,10 @@
 use std::thread;
 use std::time::Duration;
 
-use anyhow::Result;
+use anyhow::{Result, anyhow};
 
 use frontend::AppContext;
+use frontend::common::long_operation::OperationStatus;
 
 /// Function that polls the long-operation manager for a result.
 type ResultFn<T> = Box<dyn Fn(&AppContext, &str) -> Option<Result<T>> + Send>;
@@ -72,7 +73,7 @@ impl<T> Operation<T> {
 
     /// Returns `true` if the operation has finished (success or failure).
     pub fn is_done(&self) -> bool {
-        (self.result_fn)(&self.state.ctx, &self.id).is_some()
+        self.poll().is_some()
     }
 
     /// Cancel the operation. No-op if already finished.
@@ -86,7 +87,7 @@ impl<T> Operation<T> {
     /// the typed result. Consumes the handle.
     pub fn wait(self) -> Result<T> {
         loop {
-            if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            if let Some(result) = self.poll() {
                 return result;
             }
             thread::sleep(Duration::from_millis(50));
@@ -98,7 +99,7 @@ impl<T> Operation<T> {
     pub fn wait_timeout(self, timeout: Duration) -> Option<Result<T>> {
         let deadline = std::time::Instant::now() + timeout;
         loop {
-            if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            if let Some(result) = self.poll() {
                 return Some(result);
             }
             if std::time::Instant::now() >= deadline {
@@ -112,7 +113,28 @@ impl<T> Operation<T> {
     /// Non-blocking: returns the result if the operation has completed,
     /// `None` if still running. Can be called repeatedly.
     pub fn try_result(&mut self) -> Option<Result<T>> {
-        (self.result_fn)(&self.state.ctx, &self.id)
+        self.poll()
+    }
+
+    /// The outcome of the operation, `None` while it is still running.
+    fn poll(&self) -> Option<Result<T>> {
+        if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            return Some(result);
+        }
+        let status = {
+            let mgr = self
+                .state
+                .ctx
+                .long_operation_manager
+                .lock()
+                .unwrap_or_else(|e| e.into_inner());
+            mgr.get_operation_status(&self.id)
+        };
+        match status {
+            Some(OperationStatus::Failed(error)) => Some(Err(anyhow!(error))),
+            Some(OperationStatus::Cancelled) => Some(Err(anyhow!("operation cancelled"))),
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From b19e7255151f1741eaced7a78e1d1e8d1d6d73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 09/38] fix: end every background operation exactly once

Cancelling a finished operation reported it cancelled again, and a
cancellation racing with completion could be overwritten or reported
twice.
---
 crates/common/src/long_operation.rs | 50 ++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/crates/common/src/long_operation.rs b/crates/common/src/long_operation.rs
index e763ebd..2e4e254 100644
--- a/crates/common/src/long_operation.rs
+++ b/crates/common/src/long_operation.rs
@@ -159,7 +159,8 @@ pub trait LongOperation: Send + 'static {
 trait OperationHandleTrait: Send {
     fn get_status(&self) -> OperationStatus;
     fn get_progress(&self) -> OperationProgress;
-    fn cancel(&self);
+    /// Request cancellation. Returns `true` if this call ended the operation.
+    fn cancel(&self) -> bool;
     fn is_finished(&self) -> bool;
 }
 
@@ -191,12 +192,14 @@ impl OperationHandleTrait for OperationHandle {
         lock_or_recover(&self.progress).clone()
     }
 
-    fn cancel(&self) {
+    fn cancel(&self) -> bool {
         self.cancel_flag.store(true, Ordering::Relaxed);
         let mut status = lock_or_recover(&self.status);
         if matches!(*status, OperationStatus::Running) {
             *status = OperationStatus::Cancelled;
+            return true;
         }
+        false
     }
 
     fn is_finished(&self) -> bool {
@@ -298,20 +301,30 @@ impl LongOperationManager {
 
             let operation_result = operation.execute(progress_callback, cancel_flag_clone.clone());
 
-            let final_status = if cancel_flag_clone.load(Ordering::Relaxed) {
-                OperationStatus::Cancelled
-            } else {
-                match &operation_result {
-                    Ok(result) => {
-                        // Store the result
-                        if let Ok(serialized) = serde_json::to_string(result) {
-                            let mut results = lock_or_recover(&results_clone);
-                            results.insert(id_clone.clone(), serialized);
+            // Settle the outcome while holding the status lock, so that a
+            // concurrent cancellation cannot end the operation a second time.
+            let final_status = {
+                let mut status = lock_or_recover(&status_clone);
+                if !matches!(*status, OperationStatus::Running) {
+                    // Already cancelled; the canceller reported it.
+                    return;
+                }
+                *status = if cancel_flag_clone.load(Ordering::Relaxed) {
+                    OperationStatus::Cancelled
+                } else {
+                    match &operation_result {
+                        Ok(result) => {
+                            // Store the result
+                            if let Ok(serialized) = serde_json::to_string(result) {
+                                let mut results = lock_or_recover(&results_clone);
+                                results.insert(id_clone.clone(), serialized);
+                            }
+                            OperationStatus::Completed
                         }
-                        OperationStatus::Completed
+                        Err(e) => OperationStatus::Failed(e.to_string()),
                     }
-                    Err(e) => OperationStatus::Failed(e.to_string()),
-                }
+                };
+                status.clone()
             };
 
             // Emit final status event
@@ -340,8 +353,6 @@ impl LongOperationManager {
                     data: Some(data),
                 });
             }
-
-            *lock_or_recover(&status_clone) = final_status;
         });
 
         let handle = OperationHandle {
@@ -372,9 +383,10 @@ impl LongOperationManager {
     pub fn cancel_operation(&self, id: &str) -> bool {
         let operations = lock_or_recover(&self.operations);
         if let Some(handle) = operations.get(id) {
-            handle.cancel();
-            // Emit cancelled event immediately
-            if let Some(event_hub) = &self.event_hub {
+            // Emit cancelled event immediately, unless the operation had ended
+            if handle.cancel()
+                && let Some(event_hub) = &self.event_hub
+            {
                 let payload = serde_json::json!({"id": id}).to_string();
                 event_hub.send_event(Event {
                     origin: Origin::LongOperation(LongOperationEvent::Cancelled),
-- 
2.43.0


From e62d6d980020f6543a3069df5a6fec28d9007504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:22 +0000
Subject: [PATCH 10/38] fix: forget the commands of an open undo group when its
 history is cleared

Replacing the document inside an edit block kept the commands recorded
before the replacement; closing the block put them on the history.
---
 crates/common/src/undo_redo.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index 64ecbc2..4aca910 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -478,6 +478,12 @@ impl UndoRedoManager {
             stack.undo_stack.clear();
             stack.redo_stack.clear();
         }
+        // Commands waiting in an open group are history too
+        if let Some(composite) = &mut self.in_progress_composite
+            && composite.stack_id == stack_id
+        {
+            composite.commands.clear();
+        }
     }
 
     /// Clears all undo and redo history from all stacks.
-- 
2.43.0


From fab17bfabab7309fb52ae77370feb242862ea712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:27 +0000
Subject: [PATCH 11/38] fix: undo or redo a group of commands as one unit

When a command in the middle of a group failed, the ones before it stayed
undone (or redone) although the whole group was put back on its stack.
---
 crates/common/src/undo_redo.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index 4aca910..392e28f 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -127,16 +127,28 @@ impl CompositeCommand {
 impl UndoRedoCommand for CompositeCommand {
     fn undo(&mut self) -> Result<()> {
         // Undo commands in reverse order
-        for command in self.commands.iter_mut().rev() {
-            command.undo()?;
+        for index in (0..self.commands.len()).rev() {
+            if let Err(e) = self.commands[index].undo() {
+                // Put back what this call already undid
+                for command in &mut self.commands[index + 1..] {
+                    command.redo()?;
+                }
+                return Err(e);
+            }
         }
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
         // Redo commands in original order
-        for command in self.commands.iter_mut() {
-            command.redo()?;
+        for index in 0..self.commands.len() {
+            if let Err(e) = self.commands[index].redo() {
+                // Take back what this call already redid
+                for command in self.commands[..index].iter_mut().rev() {
+                    command.undo()?;
+                }
+                return Err(e);
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 621ae1532bd36faabfeb1cb4d363c06bfa8cdb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:47 +0000
Subject: [PATCH 12/38] fix: let a relationship change be redone more than once

---
 .../common/src/direct_access/use_cases/move_relationship.rs  | 5 +++--
 .../common/src/direct_access/use_cases/set_relationship.rs   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/common/src/direct_access/use_cases/move_relationship.rs b/crates/common/src/direct_access/use_cases/move_relationship.rs
index 888852a..2a2b0e4 100644
--- a/crates/common/src/direct_access/use_cases/move_relationship.rs
+++ b/crates/common/src/direct_access/use_cases/move_relationship.rs
@@ -81,17 +81,18 @@ impl<RF: Clone + Send + 'static, F: WriteRelUoWFactory<RF> + Send + 'static> Und
     for UndoableMoveRelationshipUseCase<RF, F>
 {
     fn undo(&mut self) -> Result<()> {
-        if let Some(savepoint) = self.undo_stack.pop_back() {
+        if let Some(savepoint) = self.undo_stack.back().cloned() {
             let mut uow = self.uow_factory.create();
             uow.begin_transaction()?;
             uow.restore_to_savepoint(savepoint)?;
             uow.commit()?;
+            self.undo_stack.pop_back();
         }
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        if let Some((id, field, ids_to_move, new_index)) = self.redo_stack.pop_back() {
+        if let Some((id, field, ids_to_move, new_index)) = self.redo_stack.back().cloned() {
             let mut uow = self.uow_factory.create();
             uow.begin_transaction()?;
             let savepoint = uow.create_savepoint()?;
diff --git a/crates/common/src/direct_access/use_cases/set_relationship.rs b/crates/common/src/direct_access/use_cases/set_relationship.rs
index 5432b2e..8593f64 100644
--- a/crates/common/src/direct_access/use_cases/set_relationship.rs
+++ b/crates/common/src/direct_access/use_cases/set_relationship.rs
@@ -69,17 +69,18 @@ impl<RF: Clone + Send + 'static, F: WriteRelUoWFactory<RF> + Send + 'static> Und
     for UndoableSetRelationshipUseCase<RF, F>
 {
     fn undo(&mut self) -> Result<()> {
-        if let Some(savepoint) = self.undo_stack.pop_back() {
+        if let Some(savepoint) = self.undo_stack.back().cloned() {
             let mut uow = self.uow_factory.create();
             uow.begin_transaction()?;
             uow.restore_to_savepoint(savepoint)?;
             uow.commit()?;
+            self.undo_stack.pop_back();
         }
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        if let Some((id, field, right_ids)) = self.redo_stack.pop_back() {
+        if let Some((id, field, right_ids)) = self.redo_stack.back().cloned() {
             let mut uow = self.uow_factory.create();
             uow.begin_transaction()?;
             let savepoint = uow.create_savepoint()?;
-- 
2.43.0


From ee8a99bfad33f2e591a0ac4c56cc42d38b780f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:47 +0000
Subject: [PATCH 13/38] fix: keep the undo data of a command whose undo or redo
 fails

---
 .../src/direct_access/use_cases/create_orphan.rs     |  6 ++++--
 crates/common/src/direct_access/use_cases/update.rs  | 12 ++++++++----
 .../src/use_cases/insert_formatted_text_uc.rs        |  5 ++---
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/common/src/direct_access/use_cases/create_orphan.rs b/crates/common/src/direct_access/use_cases/create_orphan.rs
index b7106d8..65cf691 100644
--- a/crates/common/src/direct_access/use_cases/create_orphan.rs
+++ b/crates/common/src/direct_access/use_cases/create_orphan.rs
@@ -80,22 +80,24 @@ where
     F::Entity: 'static,
 {
     fn undo(&mut self) -> Result<()> {
-        if let Some(last_entities) = self.undo_stack.pop_back() {
+        if let Some(last_entities) = self.undo_stack.back().cloned() {
             let mut uow = self.uow_factory.create();
             uow.begin_transaction()?;
             uow.remove_multi(&last_entities.iter().map(|e| e.id()).collect::<Vec<_>>())?;
             uow.commit()?;
+            self.undo_stack.pop_back();
             self.redo_stack.push_back(last_entities);
         }
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        if let Some(last_entities) = self.redo_stack.pop_back() {
+        if let Some(last_entities) = self.redo_stack.back().cloned() {
             let mut uow = self.uow_factory.create();
             uow.begin_transaction()?;
             uow.create_orphan_multi(&last_entities)?;
             uow.commit()?;
+            self.redo_stack.pop_back();
             self.undo_stack.push_back(last_entities);
         }
         Ok(())
diff --git a/crates/common/src/direct_access/use_cases/update.rs b/crates/common/src/direct_access/use_cases/update.rs
index efad2ab..cc3eb1f 100644
--- a/crates/common/src/direct_access/use_cases/update.rs
+++ b/crates/common/src/direct_access/use_cases/update.rs
@@ -103,7 +103,7 @@ where
     F::Entity: 'static,
 {
     fn undo(&mut self) -> Result<()> {
-        if let Some(last_entities) = self.undo_stack.pop_back() {
+        if let Some(last_entities) = self.undo_stack.back().cloned() {
             let mut uow = self.uow_factory.create();
             uow.begin_transaction()?;
             // Capture current state before restoring, for redo
@@ -111,13 +111,14 @@ where
             let current: Vec<F::Entity> = uow.get_multi(&ids)?.into_iter().flatten().collect();
             uow.update_multi(&last_entities)?;
             uow.commit()?;
+            self.undo_stack.pop_back();
             self.redo_stack.push_back(current);
         }
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        if let Some(entities) = self.redo_stack.pop_back() {
+        if let Some(entities) = self.redo_stack.back().cloned() {
             let mut uow = self.uow_factory.create();
             uow.begin_transaction()?;
             // Capture current state before restoring, for undo
@@ -125,6 +126,7 @@ where
             let current: Vec<F::Entity> = uow.get_multi(&ids)?.into_iter().flatten().collect();
             uow.update_multi(&entities)?;
             uow.commit()?;
+            self.redo_stack.pop_back();
             self.undo_stack.push_back(current);
         }
         Ok(())
@@ -232,7 +234,7 @@ where
     F::Entity: 'static,
 {
     fn undo(&mut self) -> Result<()> {
-        if let Some(last_entities) = self.undo_stack.pop_back() {
+        if let Some(last_entities) = self.undo_stack.back().cloned() {
             let mut uow = self.uow_factory.create();
             uow.begin_transaction()?;
             // Capture current state before restoring, for redo
@@ -240,13 +242,14 @@ where
             let current: Vec<F::Entity> = uow.get_multi(&ids)?.into_iter().flatten().collect();
             uow.update_with_relationships_multi(&last_entities)?;
             uow.commit()?;
+            self.undo_stack.pop_back();
             self.redo_stack.push_back(current);
         }
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
-        if let Some(entities) = self.redo_stack.pop_back() {
+        if let Some(entities) = self.redo_stack.back().cloned() {
             let mut uow = self.uow_factory.create();
             uow.begin_transaction()?;
             // Capture current state before restoring, for undo
@@ -254,6 +257,7 @@ where
             let current: Vec<F::Entity> = uow.get_multi(&ids)?.into_iter().flatten().collect();
             uow.update_with_relationships_multi(&entities)?;
             uow.commit()?;
+            self.redo_stack.pop_back();
             self.undo_stack.push_back(current);
         }
         Ok(())
diff --git a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
index 0821eff..52495d1 100644
--- a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
@@ -450,13 +450,13 @@ impl UndoRedoCommand for InsertFormattedTextUseCase {
     fn undo(&mut self) -> Result<()> {
         let undo_data = self
             .undo_data
-            .take()
+            .as_ref()
             .ok_or_else(|| anyhow!("No undo data available"))?;
 
         let mut uow = self.uow_factory.create();
         uow.begin_transaction()?;
 
-        match &undo_data {
+        match undo_data {
             InsertFormattedTextUndo::Simple(data) => {
                 uow.update_block(&data.original_block)?;
                 let store = uow.store();
@@ -498,7 +498,6 @@ impl UndoRedoCommand for InsertFormattedTextUseCase {
         }
 
         uow.commit()?;
-        self.undo_data = Some(undo_data);
         Ok(())
     }
 
-- 
2.43.0


From 412855b992e62d9d9a5c3c5e60e8f6f6a67911f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:48 +0000
Subject: [PATCH 14/38] fix: run event subscribers without holding the
 subscriber map's lock

---
 crates/frontend/src/event_hub_client.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/frontend/src/event_hub_client.rs b/crates/frontend/src/event_hub_client.rs
index 57f75a8..345611a 100644
--- a/crates/frontend/src/event_hub_client.rs
+++ b/crates/frontend/src/event_hub_client.rs
@@ -11,8 +11,9 @@ pub type EventCallback = Box<dyn Fn(Event) + Send>;
 
 /// Internal storage: each subscriber entry pairs its id (for O(n) removal on
 /// token drop) with its callback. Vec preserves registration order so
-/// subscribers fire deterministically.
-type SubscriberList = Vec<(u64, EventCallback)>;
+/// subscribers fire deterministically. Callbacks are shared so that the event
+/// loop can run them without holding the lock of the subscribers map.
+type SubscriberList = Vec<(u64, Arc<Mutex<EventCallback>>)>;
 
 /// EventHubClient - handles event passing from backend to UI
 /// Subscribe callbacks to specific event origins and start the event loop.
@@ -46,7 +47,7 @@ impl EventHubClient {
             let mut subs = self.subscribers.lock().unwrap();
             subs.entry(origin.clone())
                 .or_default()
-                .push((id, Box::new(callback)));
+                .push((id, Arc::new(Mutex::new(Box::new(callback)))));
         }
         SubscriptionToken {
             subscribers: Arc::clone(&self.subscribers),
@@ -83,11 +84,17 @@ impl EventHubClient {
                 match outcome {
                     Ok(Some(event)) => {
                         log::debug!("EventHubClient received event: {:?}", event);
-                        let subs = subscribers.lock().unwrap();
-                        if let Some(callbacks) = subs.get(&event.origin) {
-                            for (_id, callback) in callbacks {
-                                callback(event.clone());
-                            }
+                        // Release the map before calling: a callback may
+                        // drop the last handle of a subscriber, whose
+                        // tokens lock the map again.
+                        let callbacks: Vec<_> = {
+                            let subs = subscribers.lock().unwrap();
+                            subs.get(&event.origin)
+                                .map(|list| list.iter().map(|(_id, cb)| Arc::clone(cb)).collect())
+                                .unwrap_or_default()
+                        };
+                        for callback in callbacks {
+                            (callback.lock().unwrap())(event.clone());
                         }
                     }
                     Ok(None) => {
-- 
2.43.0


From a57effc7a61810be695dc0d043e10c69fff3be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:13 +0000
Subject: [PATCH 15/38] fix: give the block created by insert_list its place in
 the text

---
 .../document_editing/src/use_cases/insert_list_uc.rs  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index 5a7d74d..c17f590 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -3,7 +3,9 @@ use crate::InsertListDto;
 use crate::InsertListResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::block_char_length;
+use common::database::rope_helpers::{
+    block_char_length, block_content_via_store, rope_split_block,
+};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -135,6 +137,13 @@ fn execute_insert_list(
     let insert_index = (block_idx + 1) as i32;
     let created_block = uow.create_block(&new_block, frame_id, insert_index)?;
 
+    // Mirror the new (empty) block into the rope, right after the current block. Without an
+    // entry in the offset index, text typed into the list item would be lost.
+    if let Some(current) = blocks.get(block_idx) {
+        let current_len = block_content_via_store(current, &store).len() as u32;
+        rope_split_block(&store, current.id, current_len, created_block.id);
+    }
+
     // Update frame's child_order
     let mut updated_frame = frame.clone();
     let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
-- 
2.43.0


From 69eff24f4fd2e3c797b99a358b04602ac5068a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:05 +0000
Subject: [PATCH 16/38] fix: announce the block inserted by insert_list as a
 flow change

---
 crates/public_api/src/cursor.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index c8a2d96..61053a9 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1647,13 +1647,12 @@ impl TextCursor {
                 document_editing_commands::insert_list(&inner.ctx, Some(inner.stack_id), &dto)?;
             let edit_pos = pos.min(anchor);
             let removed = pos.max(anchor) - edit_pos;
-            self.finish_edit_ext(
+            self.finish_edit(
                 &mut inner,
                 edit_pos,
                 removed,
                 to_usize(result.new_position),
                 1,
-                false,
             )
         };
         crate::inner::dispatch_queued_events(queued);
-- 
2.43.0


From bcca3007d24d00f659b6ce996abafe6db39cf0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:58 +0000
Subject: [PATCH 17/38] fix: mark the document as modified after undo and redo

---
 crates/public_api/src/document.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 6cc2cd8..e0fd7ed 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -835,6 +835,7 @@ impl TextDocument {
             let result = undo_redo_commands::undo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
             result?;
+            inner.modified = true;
             inner.rehighlight_all();
             emit_undo_redo_change_events(&mut inner, &before);
             inner.check_block_count_changed();
@@ -856,6 +857,7 @@ impl TextDocument {
             let result = undo_redo_commands::redo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
             result?;
+            inner.modified = true;
             inner.rehighlight_all();
             emit_undo_redo_change_events(&mut inner, &before);
             inner.check_block_count_changed();
-- 
2.43.0


From 179f259ce1e1fced76a25259e330be15685f05b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:56 +0000
Subject: [PATCH 18/38] fix: announce the blocks removed when typing over a
 multi-block selection

---
 crates/public_api/src/cursor.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 61053a9..ecd71b3 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -425,6 +425,7 @@ impl TextCursor {
 
         let queued = {
             let mut inner = self.doc.lock();
+            let mut flow_may_change = false;
             let result = match document_editing_commands::insert_text(
                 &inner.ctx,
                 Some(inner.stack_id),
@@ -433,6 +434,7 @@ impl TextCursor {
                 Ok(r) => r,
                 Err(_) if pos != anchor => {
                     // Cross-block selection: compose delete + insert as a single undo unit
+                    flow_may_change = true;
                     replace_selection(&mut inner, pos, anchor, |inner, del_pos| {
                         let ins_dto = frontend::document_editing::InsertTextDto {
                             position: to_i64(del_pos),
@@ -457,7 +459,7 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 to_usize(result.blocks_affected),
-                false,
+                flow_may_change,
             )
         };
         crate::inner::dispatch_queued_events(queued);
@@ -482,6 +484,7 @@ impl TextCursor {
 
         let queued = {
             let mut inner = self.doc.lock();
+            let mut flow_may_change = false;
             let result = match document_editing_commands::insert_formatted_text(
                 &inner.ctx,
                 Some(inner.stack_id),
@@ -490,6 +493,7 @@ impl TextCursor {
                 Ok(r) => r,
                 Err(_) if pos != anchor => {
                     // Cross-block selection: compose delete + insert as a single undo unit
+                    flow_may_change = true;
                     replace_selection(&mut inner, pos, anchor, |inner, del_pos| {
                         document_editing_commands::insert_formatted_text(
                             &inner.ctx,
@@ -509,7 +513,7 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 1,
-                false,
+                flow_may_change,
             )
         };
         crate::inner::dispatch_queued_events(queued);
@@ -653,6 +657,7 @@ impl TextCursor {
         let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let mut flow_may_change = false;
 
             let insert = |inner: &TextDocumentInner, insert_pos: usize| {
                 let dto = frontend::document_editing::InsertImageDto {
@@ -665,6 +670,7 @@ impl TextCursor {
                 document_editing_commands::insert_image(&inner.ctx, Some(inner.stack_id), &dto)
             };
             let (result, removed) = if pos != anchor {
+                flow_may_change = true;
                 let result = replace_selection(&mut inner, pos, anchor, insert)?;
                 (result, pos.max(anchor) - pos.min(anchor))
             } else {
@@ -678,7 +684,7 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 1,
-                false,
+                flow_may_change,
             )
         };
         crate::inner::dispatch_queued_events(queued);
-- 
2.43.0


From c80407cfb6e0126dc1c80da445030ff0e6deb676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 19/38] fix: keep code-block attributes when pasting parsed
 Markdown or HTML

---
 .../src/use_cases/insert_html_at_position_uc.rs      | 12 ++++++++----
 .../src/use_cases/insert_markdown_at_position_uc.rs  |  8 ++++----
 crates/public_api/src/fragment.rs                    |  4 ++--
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs b/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
index ec4c598..42827b0 100644
--- a/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
@@ -291,6 +291,8 @@ fn execute_content_insert(
             updated_current.fmt_non_breakable_lines = first_parsed.non_breakable_lines;
             updated_current.fmt_direction = first_parsed.direction.clone();
             updated_current.fmt_background_color = first_parsed.background_color.clone();
+            updated_current.fmt_is_code_block = first_parsed.is_code_block.then_some(true);
+            updated_current.fmt_code_language = first_parsed.code_language.clone();
             updated_current.updated_at = now;
             uow.update_block_with_relationships(&updated_current)?;
             // The old inline_elements list for this block is now stale;
@@ -402,8 +404,8 @@ fn execute_content_insert(
                 fmt_non_breakable_lines: parsed.non_breakable_lines,
                 fmt_direction: parsed.direction.clone(),
                 fmt_background_color: parsed.background_color.clone(),
-                fmt_is_code_block: None,
-                fmt_code_language: None,
+                fmt_is_code_block: parsed.is_code_block.then_some(true),
+                fmt_code_language: parsed.code_language.clone(),
             };
 
             let insert_index = (block_idx + 1 + new_block_ids.len()) as i32;
@@ -650,6 +652,8 @@ fn execute_content_insert(
             updated_current.fmt_non_breakable_lines = parsed.non_breakable_lines;
             updated_current.fmt_direction = parsed.direction.clone();
             updated_current.fmt_background_color = parsed.background_color.clone();
+            updated_current.fmt_is_code_block = parsed.is_code_block.then_some(true);
+            updated_current.fmt_code_language = parsed.code_language.clone();
             updated_current.updated_at = now;
             uow.update_block_with_relationships(&updated_current)?;
             write_block_state(uow, current_block.id, block_runs, Vec::new());
@@ -827,8 +831,8 @@ fn execute_content_insert(
                 fmt_non_breakable_lines: parsed.non_breakable_lines,
                 fmt_direction: parsed.direction.clone(),
                 fmt_background_color: parsed.background_color.clone(),
-                fmt_is_code_block: None,
-                fmt_code_language: None,
+                fmt_is_code_block: parsed.is_code_block.then_some(true),
+                fmt_code_language: parsed.code_language.clone(),
             };
 
             let created_block = uow.create_block(&new_block, frame_id, (block_idx + 1) as i32)?;
diff --git a/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs b/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
index 7590d02..7167e33 100644
--- a/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
@@ -346,8 +346,8 @@ fn execute_content_insert(
                 fmt_non_breakable_lines: None,
                 fmt_direction: None,
                 fmt_background_color: None,
-                fmt_is_code_block: None,
-                fmt_code_language: None,
+                fmt_is_code_block: parsed.is_code_block.then_some(true),
+                fmt_code_language: parsed.code_language.clone(),
             };
 
             let insert_index = (block_idx + 1 + new_block_ids.len()) as i32;
@@ -549,8 +549,8 @@ fn execute_content_insert(
             fmt_non_breakable_lines: None,
             fmt_direction: None,
             fmt_background_color: None,
-            fmt_is_code_block: None,
-            fmt_code_language: None,
+            fmt_is_code_block: parsed.is_code_block.then_some(true),
+            fmt_code_language: parsed.code_language.clone(),
         };
 
         let created_block = uow.create_block(&new_block, frame_id, (block_idx + 1) as i32)?;
diff --git a/crates/public_api/src/fragment.rs b/crates/public_api/src/fragment.rs
index 7544acd..04a5246 100644
--- a/crates/public_api/src/fragment.rs
+++ b/crates/public_api/src/fragment.rs
@@ -695,8 +695,8 @@ fn parsed_elements_to_fragment(parsed: Vec<ParsedElement>) -> DocumentFragment {
                     non_breakable_lines: pb.non_breakable_lines,
                     direction: pb.direction,
                     background_color: pb.background_color,
-                    is_code_block: None,
-                    code_language: None,
+                    is_code_block: pb.is_code_block.then_some(true),
+                    code_language: pb.code_language,
                 });
             }
             ParsedElement::Table(pt) => {
-- 
2.43.0


From 242dc8a310d6f5db8e1be68dd3398aa4296f52bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 20/38] fix: removing a table at the end of the document moved
 or lost the text before it

---
 crates/common/src/database/rope_helpers.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 7f715c4..4fed604 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -704,9 +704,9 @@ pub fn rope_append_table_anchor(store: &Store, table_id: EntityId) {
 /// Remove a TableAnchor sentinel from the rope, undoing the effect
 /// of `rope_insert_table_anchor`. Looks up the anchor's byte range
 /// (always 3 bytes for the U+FFFC plus 1 byte of inter-marker `\n`
-/// either before or after, depending on what's adjacent), removes
-/// those 4 bytes from the rope, drops the entry, shifts trailing
-/// entries by -4.
+/// either before or after, depending on what's adjacent, if there is
+/// one), removes those bytes from the rope, drops the entry, shifts
+/// trailing entries back by as many bytes.
 ///
 /// No-op if no TableAnchor for `table_id` exists.
 pub fn rope_remove_table_anchor(store: &Store, table_id: EntityId) {
@@ -726,16 +726,18 @@ pub fn rope_remove_table_anchor(store: &Store, table_id: EntityId) {
         (start, idx, is_last, has_pred)
     };
 
-    // Symmetric to insert_table_anchor. The 4 bytes to remove are:
+    // Symmetric to insert_table_anchor. The bytes to remove are:
     // - if anchor is last: [byte_start - 1 .. byte_start + 3) — the
     //   preceding `\n` + the 3-byte sentinel
+    // - if anchor is the only entry: just the 3-byte sentinel
     // - otherwise: [byte_start .. byte_start + 4) — the sentinel
     //   + the following `\n`
-    let (remove_start, remove_end) = if anchor_is_last && has_predecessor {
-        (anchor_byte_start - 1, anchor_byte_start + 3)
-    } else {
-        (anchor_byte_start, anchor_byte_start + 4)
+    let (remove_start, remove_end) = match (anchor_is_last, has_predecessor) {
+        (true, true) => (anchor_byte_start - 1, anchor_byte_start + 3),
+        (true, false) => (anchor_byte_start, anchor_byte_start + 3),
+        (false, _) => (anchor_byte_start, anchor_byte_start + 4),
     };
+    let deleted_bytes = remove_end - remove_start;
 
     {
         let mut rope = store.rope.write().unwrap();
@@ -751,7 +753,7 @@ pub fn rope_remove_table_anchor(store: &Store, table_id: EntityId) {
         .block_offsets
         .write()
         .unwrap()
-        .shift_after(remove_start, -4);
+        .shift_after(remove_end, -(deleted_bytes as i32));
 }
 
 /// Remove a registered block from the rope: drops its content bytes
-- 
2.43.0


From aa1bc017210ac1e174a9410e60048ea4327c8133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 21/38] fix: inserting a table after an empty last block moved
 that block behind the table

---
 crates/common/src/database/rope_helpers.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 4fed604..755d8d0 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -634,12 +634,13 @@ pub fn rope_insert_table_anchor(
     } else {
         // After target which is last: "\n\u{FFFC}" appended.
         // TableAnchor's byte_start sits 1 past the original
-        // total (after the new `\n`).
+        // total (after the new `\n`). An empty target starts at
+        // that total too and stays where it is.
         (
             "\n\u{FFFC}",
             insert_pos + 1,
             target_idx + 1,
-            insert_pos,
+            insert_pos + 1,
             4i32,
         )
     };
-- 
2.43.0


From b308489e1479598b8bc75d70517ddb15e3eca820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:19 +0000
Subject: [PATCH 22/38] fix: inserting an image in a table cell or sub-frame
 put it in another block

---
 .../document_editing/src/use_cases/insert_image_uc.rs  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_image_uc.rs b/crates/document_editing/src/use_cases/insert_image_uc.rs
index 9568420..f50ef88 100644
--- a/crates/document_editing/src/use_cases/insert_image_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_image_uc.rs
@@ -79,12 +79,12 @@ fn execute_insert_image(
 
     // Get frames
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
-    let frame_id = *frame_ids
-        .first()
-        .ok_or_else(|| anyhow!("Document has no frames"))?;
 
-    // Get block IDs from frame
-    let block_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
+    // Get block IDs from every frame, table cells and sub-frames included
+    let mut block_ids: Vec<EntityId> = Vec::new();
+    for frame_id in &frame_ids {
+        block_ids.extend(uow.get_frame_relationship(frame_id, &FrameRelationshipField::Blocks)?);
+    }
 
     // Get all blocks
     let blocks_opt = uow.get_block_multi(&block_ids)?;
-- 
2.43.0


From 204481f5282c6379eb8ac8c6dfec586cafcfcb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:19 +0000
Subject: [PATCH 23/38] fix: inserting a list item did not move the positions
 of table cells behind it

---
 .../src/use_cases/insert_list_uc.rs              | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index c17f590..c32dc89 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -155,13 +155,17 @@ fn execute_insert_list(
         uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
     uow.update_frame(&updated_frame)?;
 
-    // Update subsequent blocks' document_position (those after the new block)
+    // Update subsequent blocks' document_position (those after the new block, in any frame)
     let mut blocks_to_update: Vec<Block> = Vec::new();
-    for b in &blocks[(block_idx + 1)..] {
-        let mut ub = b.clone();
-        ub.document_position += 1; // block separator
-        ub.updated_at = now;
-        blocks_to_update.push(ub);
+    for fid in &frame_ids {
+        let ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
+        for mut ub in uow.get_block_multi(&ids)?.into_iter().flatten() {
+            if ub.id != created_block.id && ub.document_position >= new_block_position {
+                ub.document_position += 1; // block separator
+                ub.updated_at = now;
+                blocks_to_update.push(ub);
+            }
+        }
     }
     if !blocks_to_update.is_empty() {
         uow.update_block_multi(&blocks_to_update)?;
-- 
2.43.0


From 68852d4c75a6bf3e5714acc138145072f1b851a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:19 +0000
Subject: [PATCH 24/38] fix: inserting a frame did not move the positions of
 the blocks behind it

---
 .../src/units_of_work/insert_frame_uow.rs     |  1 +
 .../src/use_cases/insert_frame_uc.rs          | 59 +++++++++++++++----
 2 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/crates/document_editing/src/units_of_work/insert_frame_uow.rs b/crates/document_editing/src/units_of_work/insert_frame_uow.rs
index 6a5acbe..9eee892 100644
--- a/crates/document_editing/src/units_of_work/insert_frame_uow.rs
+++ b/crates/document_editing/src/units_of_work/insert_frame_uow.rs
@@ -98,6 +98,7 @@ impl CommandUnitOfWork for InsertFrameUnitOfWork {
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
 #[macros::uow_action(entity = "Block", action = "GetMulti")]
+#[macros::uow_action(entity = "Block", action = "UpdateMulti")]
 #[macros::uow_action(entity = "Block", action = "Create")]
 impl InsertFrameUnitOfWorkTrait for InsertFrameUnitOfWork {}
 
diff --git a/crates/document_editing/src/use_cases/insert_frame_uc.rs b/crates/document_editing/src/use_cases/insert_frame_uc.rs
index 26ef850..14ee049 100644
--- a/crates/document_editing/src/use_cases/insert_frame_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_frame_uc.rs
@@ -2,8 +2,9 @@ use crate::InsertFrameDto;
 use crate::InsertFrameResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::block_char_length;
-use common::database::rope_helpers::rope_append_empty_block;
+use common::database::rope_helpers::{
+    block_char_length, block_document_position, rope_append_empty_block, rope_positions_match_flow,
+};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -29,6 +30,7 @@ pub trait InsertFrameUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
 #[macros::uow_action(entity = "Block", action = "GetMulti")]
+#[macros::uow_action(entity = "Block", action = "UpdateMulti")]
 #[macros::uow_action(entity = "Block", action = "Create")]
 pub trait InsertFrameUnitOfWorkTrait: CommandUnitOfWork {}
 
@@ -40,13 +42,15 @@ pub struct InsertFrameUseCase {
 
 /// Find which frame contains the given document position by walking
 /// frames -> blocks and checking document_position ranges.
-/// Returns the frame and the block index within it closest to position.
+/// Returns the frame, the block index within it closest to position, and
+/// the position just behind that block.
 fn find_frame_at_position(
     uow: &dyn InsertFrameUnitOfWorkTrait,
     frame_ids: &[EntityId],
     position: i64,
-) -> Result<Option<(Frame, usize)>> {
+) -> Result<Option<(Frame, usize, i64)>> {
     let store = uow.store();
+    let from_rope = rope_positions_match_flow(&store);
     for frame_id in frame_ids {
         let frame = match uow.get_frame(frame_id)? {
             Some(f) => f,
@@ -58,6 +62,11 @@ fn find_frame_at_position(
         }
         let blocks_opt = uow.get_block_multi(&block_ids)?;
         let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+        for b in &mut blocks {
+            if from_rope {
+                b.document_position = block_document_position(b, &store);
+            }
+        }
         blocks.sort_by_key(|b| b.document_position);
 
         if let (Some(first), Some(last)) = (blocks.first(), blocks.last()) {
@@ -73,7 +82,9 @@ fn find_frame_at_position(
                     }
                     block_idx = i;
                 }
-                return Ok(Some((frame, block_idx)));
+                let block = &blocks[block_idx];
+                let behind = block.document_position + block_char_length(block, &store) + 1;
+                return Ok(Some((frame, block_idx, behind)));
             }
         }
     }
@@ -105,20 +116,48 @@ fn execute_insert_frame(
     // Determine the parent frame from the position
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
 
-    let (parent_frame_id, child_order_insert_idx) =
+    let (parent_frame_id, child_order_insert_idx, new_position) =
         match find_frame_at_position(&**uow, &frame_ids, dto.position)? {
-            Some((parent_frame, block_idx)) => {
+            Some((parent_frame, block_idx, behind)) => {
                 // Insert the new sub-frame into the parent's child_order
                 // after the block at block_idx
                 let insert_idx = (block_idx + 1).min(parent_frame.child_order.len());
-                (Some(parent_frame.id), insert_idx)
+                (Some(parent_frame.id), insert_idx, behind)
             }
             None => {
                 // Position doesn't fall in any frame — append as top-level
-                (None, 0)
+                (None, 0, dto.position)
             }
         };
 
+    // The new block moves every block behind it by one separator. Bring the
+    // stored positions up to date on the way: once a nested frame exists the
+    // rope can no longer derive them.
+    if parent_frame_id.is_some() {
+        let store = uow.store();
+        let from_rope = rope_positions_match_flow(&store);
+        let mut moved: Vec<Block> = Vec::new();
+        for fid in &frame_ids {
+            let ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
+            for mut b in uow.get_block_multi(&ids)?.into_iter().flatten() {
+                let current = if from_rope {
+                    block_document_position(&b, &store)
+                } else {
+                    b.document_position
+                };
+                let position = current + i64::from(current >= new_position);
+                if b.document_position != position {
+                    b.document_position = position;
+                    b.updated_at = now;
+                    moved.push(b);
+                }
+            }
+        }
+        if !moved.is_empty() {
+            uow.update_block_multi(&moved)?;
+        }
+    }
+
     // Create a new Frame with parent reference
     let new_frame = Frame {
         id: 0,
@@ -151,7 +190,7 @@ fn execute_insert_frame(
         created_at: now,
         updated_at: now,
         list: None,
-        document_position: dto.position,
+        document_position: new_position,
         ..Default::default()
     };
 
-- 
2.43.0


From 3700bff7f039570ba6d6d10c0e18d344888e15bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:19 +0000
Subject: [PATCH 25/38] fix: deleting text in a document with a table deleted
 other blocks than those selected

---
 .../src/use_cases/delete_text_uc.rs           | 24 ++++++-------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 57fa641..fe6fdc5 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -181,26 +181,16 @@ fn execute_delete(
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
 
-    // Refresh stored block positions from child_order + text_length, since
-    // insert_text's fast path leaves them stale. Cell-frame blocks remain
-    // in their cell-local position space.
-    let root_frame = uow
-        .get_frame(&frame_id)?
-        .ok_or_else(|| anyhow!("Root frame not found"))?;
+    // Refresh stored block positions, since insert_text's fast path leaves
+    // them stale. `all_block_ids` is in flow order, table cells included.
     let mut running: i64 = 0;
     let mut blocks_to_refresh: Vec<Block> = Vec::new();
-    for &entry in &root_frame.child_order {
-        if entry <= 0 {
-            continue;
-        }
-        let id = entry as EntityId;
-        if let Some(b) = blocks.iter_mut().find(|b| b.id == id) {
-            if b.document_position != running {
-                b.document_position = running;
-                blocks_to_refresh.push(b.clone());
-            }
-            running += block_char_length(b, &store) + 1;
+    for b in blocks.iter_mut() {
+        if b.document_position != running {
+            b.document_position = running;
+            blocks_to_refresh.push(b.clone());
         }
+        running += block_char_length(b, &store) + 1;
     }
     if !blocks_to_refresh.is_empty() {
         uow.update_block_multi(&blocks_to_refresh)?;
-- 
2.43.0


From 7131d3cee8e5d5a2c4e322b985aff674d9cf65f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:20 +0000
Subject: [PATCH 26/38] fix: deleting across tables left the removed blocks in
 the document text and later positions stale

---
 .../src/use_cases/delete_text_uc.rs           | 42 ++++++++++++++-----
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index fe6fdc5..fdaf35d 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -5,7 +5,9 @@ use crate::DeleteTextDto;
 use crate::DeleteTextResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::{block_char_length, block_content_via_store};
+use common::database::rope_helpers::{
+    block_char_length, block_content_via_store, rope_remove_block, rope_remove_table_anchor,
+};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -281,6 +283,7 @@ fn execute_delete(
             let extra_block_ids: Vec<EntityId> = cell_blocks[1..].iter().map(|b| b.id).collect();
             for &eid in &extra_block_ids {
                 drop_block_runs_and_images(uow.as_ref(), eid);
+                rope_remove_block(&store, eid);
                 uow.remove_block(&eid)?;
             }
 
@@ -321,10 +324,16 @@ fn execute_delete(
             if start < table_min_pos || end > table_max_pos {
                 for c in &cells {
                     if let Some(cf_id) = c.cell_frame {
+                        for bid in
+                            uow.get_frame_relationship(&cf_id, &FrameRelationshipField::Blocks)?
+                        {
+                            rope_remove_block(&store, bid);
+                        }
                         uow.remove_frame(&cf_id)?;
                     }
                     uow.remove_table_cell(&c.id)?;
                 }
+                rope_remove_table_anchor(&store, tid);
 
                 let root_frame = uow
                     .get_frame(&frame_id)?
@@ -421,6 +430,7 @@ fn execute_delete(
             } else {
                 total_chars_removed += block_char_length(block, &store);
                 drop_block_runs_and_images(uow.as_ref(), block.id);
+                rope_remove_block(&store, block.id);
                 uow.remove_block(&block.id)?;
                 non_cell_blocks_to_remove.push(block.id);
             }
@@ -511,7 +521,7 @@ fn execute_delete(
             }
         }
 
-        let remaining_block_count = {
+        let remaining_blocks: Vec<Block> = {
             let get_tcf = |table_id: &EntityId| -> anyhow::Result<Vec<EntityId>> {
                 let cids = uow.get_table_relationship(table_id, &TableRelationshipField::Cells)?;
                 let cs = uow.get_table_cell_multi(&cids)?;
@@ -526,9 +536,23 @@ fn execute_delete(
                 &frame_id,
             )?;
             let opts = uow.get_block_multi(&candidate_ids)?;
-            opts.into_iter().flatten().count()
+            opts.into_iter().flatten().collect()
         };
-        if remaining_block_count == 0 {
+        // Close the gaps the removed blocks left in the stored positions.
+        let mut running: i64 = 0;
+        let mut blocks_to_move: Vec<Block> = Vec::new();
+        for b in &remaining_blocks {
+            if b.document_position != running {
+                let mut moved = b.clone();
+                moved.document_position = running;
+                blocks_to_move.push(moved);
+            }
+            running += block_char_length(b, &store) + 1;
+        }
+        if !blocks_to_move.is_empty() {
+            uow.update_block_multi(&blocks_to_move)?;
+        }
+        if remaining_blocks.is_empty() {
             let empty_block = Block {
                 document_position: 0,
                 ..Block::default()
@@ -542,13 +566,9 @@ fn execute_delete(
             uf.updated_at = now;
             uow.update_frame(&uf)?;
 
-            // Cross-block delete can leave stale rope-offset entries (e.g.
-            // table-cell blocks that were cascade-removed via frame
-            // deletion never went through `rope_remove_block`, and the
-            // table-anchor sentinel can survive too). Now that every
-            // entity-store block is gone, drop everything in the rope and
-            // re-register a single empty block matching the entity we just
-            // created. No-op under default backend.
+            // Every entity-store block is gone: drop everything in the rope
+            // and re-register a single empty block matching the entity we
+            // just created.
             common::database::rope_helpers::rope_reset(&uow.store());
             common::database::rope_helpers::rope_append_empty_block(&uow.store(), created.id);
         }
-- 
2.43.0


From 5cb19ad410579e9bf90ef02041d4ee685b1149e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:47 +0000
Subject: [PATCH 27/38] fix: splitting a block inside a table cell moved its
 second half out of the table

---
 .../src/use_cases/insert_block_uc.rs          | 28 ++++---------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_block_uc.rs b/crates/document_editing/src/use_cases/insert_block_uc.rs
index a5c0266..e6b3548 100644
--- a/crates/document_editing/src/use_cases/insert_block_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_block_uc.rs
@@ -171,31 +171,15 @@ fn execute_insert_block(
         fmt_code_language: current_block.fmt_code_language.clone(),
     };
 
-    fn find_owner_frame(
-        uow: &dyn InsertBlockUnitOfWorkTrait,
-        fid: &EntityId,
-        target_block_id: EntityId,
-    ) -> Result<Option<EntityId>> {
-        let f = uow
-            .get_frame(fid)?
-            .ok_or_else(|| anyhow!("Frame not found"))?;
-        for &entry in &f.child_order {
-            if entry > 0 && entry as EntityId == target_block_id {
-                return Ok(Some(*fid));
-            } else if entry < 0 {
-                let sub = (-entry) as EntityId;
-                if let Some(owner) = find_owner_frame(uow, &sub, target_block_id)? {
-                    return Ok(Some(owner));
-                }
-            }
-        }
+    // The frame that owns the current block: a table cell's frame when inside a cell.
+    let mut owner_frame_id = frame_id;
+    for fid in &frame_ids {
         let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
-        if block_ids.contains(&target_block_id) {
-            return Ok(Some(*fid));
+        if block_ids.contains(&current_block.id) {
+            owner_frame_id = *fid;
+            break;
         }
-        Ok(None)
     }
-    let owner_frame_id = find_owner_frame(&**uow, &frame_id, current_block.id)?.unwrap_or(frame_id);
 
     let created_block = uow.create_block(&new_block, owner_frame_id, -1)?;
 
-- 
2.43.0


From 1d9b7d614b013383a6f362d7afbb9a4a46403f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:52 +0000
Subject: [PATCH 28/38] fix: stored positions in documents with tables went
 stale after table operations

---
 crates/common/src/database/rope_helpers.rs | 70 ++++++++++++++++++++++
 crates/common/src/database/transactions.rs |  1 +
 2 files changed, 71 insertions(+)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 755d8d0..f738a51 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -924,6 +924,76 @@ pub fn rope_delete_in_block(
         .shift_after(block_byte_start + 1, -(deleted_bytes as i32));
 }
 
+/// Recompute the stored `Block.document_position` of every block in flow
+/// order (table cells row by row) for documents with tables, whose flow
+/// positions cannot be derived from the rope. No-op without tables.
+///
+/// Called by `Transaction::commit`, so that the next command finds every
+/// block where the user sees it, whatever the last command changed.
+pub fn recompute_all_block_positions(store: &Store) {
+    if store.block_offsets.read().unwrap().table_anchor_count() == 0 {
+        return;
+    }
+    let root_frames: Vec<EntityId> = store
+        .documents
+        .read()
+        .unwrap()
+        .values()
+        .filter_map(|d| d.frames.first().copied())
+        .collect();
+    for root_frame in root_frames {
+        let mut flow: Vec<EntityId> = Vec::new();
+        collect_flow_blocks(store, root_frame, &mut flow);
+        let mut running: i64 = 0;
+        for block_id in flow {
+            let Some(block) = store.blocks.read().unwrap().get(&block_id).cloned() else {
+                continue;
+            };
+            let position = running;
+            running += block_char_length(&block, store) + 1;
+            if block.document_position != position {
+                let mut updated = block;
+                updated.document_position = position;
+                store.blocks.write().unwrap().insert(block_id, updated);
+            }
+        }
+    }
+}
+
+/// Block ids of a frame in flow order, sub-frames and table cells included.
+fn collect_flow_blocks(store: &Store, frame_id: EntityId, out: &mut Vec<EntityId>) {
+    let Some(frame) = store.frames.read().unwrap().get(&frame_id).cloned() else {
+        return;
+    };
+    if let Some(table_id) = frame.table {
+        let cell_ids = match store.tables.read().unwrap().get(&table_id) {
+            Some(table) => table.cells.clone(),
+            None => return,
+        };
+        let mut cells: Vec<_> = {
+            let all = store.table_cells.read().unwrap();
+            cell_ids
+                .iter()
+                .filter_map(|id| all.get(id).cloned())
+                .collect()
+        };
+        cells.sort_by_key(|c| (c.row, c.column));
+        for cell_frame in cells.iter().filter_map(|c| c.cell_frame) {
+            collect_flow_blocks(store, cell_frame, out);
+        }
+    } else if frame.child_order.is_empty() {
+        out.extend(&frame.blocks);
+    } else {
+        for entry in frame.child_order {
+            if entry > 0 {
+                out.push(entry as EntityId);
+            } else {
+                collect_flow_blocks(store, (-entry) as EntityId, out);
+            }
+        }
+    }
+}
+
 /// Recompute `Frame.byte_range` for every frame in `store.frames`
 /// based on current `block_offsets` and the frame tree structure.
 /// Plan §1.6 invariant: each frame's byte_range is the (min_start,
diff --git a/crates/common/src/database/transactions.rs b/crates/common/src/database/transactions.rs
index 3e3b035..92f5e60 100644
--- a/crates/common/src/database/transactions.rs
+++ b/crates/common/src/database/transactions.rs
@@ -40,6 +40,7 @@ impl Transaction {
         // Plan §1.6: refresh Frame.byte_range from current rope state
         // before the mutations become permanent. No-op under default.
         crate::database::rope_helpers::recompute_all_frame_byte_ranges(&self.store);
+        crate::database::rope_helpers::recompute_all_block_positions(&self.store);
         // Discard the auto-savepoint — mutations are now permanent
         if let Some(sp) = self.savepoint.take() {
             self.store.discard_savepoint(sp);
-- 
2.43.0


From 8cedb3902b93261b24a6cb1273d4b16a798d3352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:31 +0000
Subject: [PATCH 29/38] fix: pasting table cells over table cells did not
 replace their text

---
 .../src/use_cases/insert_fragment_uc.rs       | 46 ++++++++++++++++++-
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index c2d7ec0..fe38fa3 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -8,8 +8,8 @@ use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
 use common::database::rope_helpers::{
     block_char_length, rope_append_block, rope_delete_in_block, rope_insert_block_at,
-    rope_insert_block_boundary, rope_insert_in_block, rope_insert_table_anchor, rope_split_block,
-    top_level_frame_end_byte,
+    rope_insert_block_boundary, rope_insert_in_block, rope_insert_table_anchor, rope_remove_block,
+    rope_replace_block_content, rope_split_block, top_level_frame_end_byte,
 };
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -291,6 +291,9 @@ fn try_replace_table_cells(
 
     let now = chrono::Utc::now();
     let snapshot = uow.snapshot_document(&[doc_id])?;
+    let store = uow.store();
+    let mut chars_added: i64 = 0;
+    let mut blocks_added: i64 = 0;
 
     let cursor_cf = block_to_cell.get(&cursor_block.id).map(|(cf, _)| *cf);
     let cursor_cell = target_cells.iter().find(|c| c.cell_frame == cursor_cf);
@@ -328,10 +331,17 @@ fn try_replace_table_cells(
         let existing_blks_opt = uow.get_block_multi(&existing_blk_ids)?;
         let existing_blks: Vec<Block> = existing_blks_opt.into_iter().flatten().collect();
 
+        chars_added -= existing_blks
+            .iter()
+            .map(|b| block_char_length(b, &store))
+            .sum::<i64>();
+
         // Drop all blocks except the first (we'll reuse it).
         for blk in existing_blks.iter().skip(1) {
             clear_block_state(uow, blk.id);
+            rope_remove_block(&store, blk.id);
             uow.remove_block(&blk.id)?;
+            blocks_added -= 1;
         }
 
         if let Some(first_blk) = existing_blks.first() {
@@ -342,7 +352,11 @@ fn try_replace_table_cells(
                 let mut updated = first_blk.clone();
                 updated.updated_at = now;
                 uow.update_block(&updated)?;
+                rope_replace_block_content(&store, first_blk.id, &first_frag_blk.plain_text);
                 write_block_state(uow, first_blk.id, runs, images);
+                let mut cell_block_ids = vec![first_blk.id as i64];
+                let mut prev_id = first_blk.id;
+                let mut prev_byte_len = first_frag_blk.plain_text.len() as u32;
 
                 for extra_frag in &frag_cell.blocks[1..] {
                     let (xruns, ximages) = frag_block_state(extra_frag);
@@ -355,17 +369,45 @@ fn try_replace_table_cells(
                         ..Default::default()
                     };
                     let created = uow.create_block(&extra_block, cf_id, -1)?;
+                    rope_split_block(&store, prev_id, prev_byte_len, created.id);
+                    rope_insert_in_block(&store, created.id, 0, &extra_frag.plain_text);
                     write_block_state(uow, created.id, xruns, ximages);
+                    cell_block_ids.push(created.id as i64);
+                    blocks_added += 1;
+                    prev_id = created.id;
+                    prev_byte_len = extra_frag.plain_text.len() as u32;
+                }
+
+                if let Some(mut frame) = uow.get_frame(&cf_id)? {
+                    frame.child_order = cell_block_ids;
+                    frame.updated_at = now;
+                    uow.update_frame(&frame)?;
                 }
+                chars_added += frag_cell
+                    .blocks
+                    .iter()
+                    .map(|b| b.plain_text.chars().count() as i64)
+                    .sum::<i64>();
             } else {
                 let mut updated = first_blk.clone();
                 updated.updated_at = now;
                 uow.update_block(&updated)?;
+                rope_replace_block_content(&store, first_blk.id, "");
                 write_block_state(uow, first_blk.id, Vec::new(), Vec::new());
             }
         }
     }
 
+    if chars_added != 0 || blocks_added != 0 {
+        let mut updated_doc = uow
+            .get_document(&doc_id)?
+            .ok_or_else(|| anyhow!("Document not found"))?;
+        updated_doc.character_count += chars_added;
+        updated_doc.block_count += blocks_added;
+        updated_doc.updated_at = now;
+        uow.update_document(&updated_doc)?;
+    }
+
     Ok(Some((
         InsertFragmentResultDto {
             new_position: dto.position,
-- 
2.43.0


From b55d0fe00a2a82ddd73df63138b637c23e5bd28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:06 +0000
Subject: [PATCH 30/38] fix: text typed into a nested frame was lost because
 its block had no place in the text

---
 .../src/use_cases/insert_frame_uc.rs          | 55 ++++++++++---------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_frame_uc.rs b/crates/document_editing/src/use_cases/insert_frame_uc.rs
index 14ee049..7fc01ab 100644
--- a/crates/document_editing/src/use_cases/insert_frame_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_frame_uc.rs
@@ -3,7 +3,8 @@ use crate::InsertFrameResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
 use common::database::rope_helpers::{
-    block_char_length, block_document_position, rope_append_empty_block, rope_positions_match_flow,
+    block_char_length, block_content_via_store, block_document_position, rope_append_empty_block,
+    rope_positions_match_flow, rope_split_block,
 };
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -48,7 +49,7 @@ fn find_frame_at_position(
     uow: &dyn InsertFrameUnitOfWorkTrait,
     frame_ids: &[EntityId],
     position: i64,
-) -> Result<Option<(Frame, usize, i64)>> {
+) -> Result<Option<(Frame, Block, i64)>> {
     let store = uow.store();
     let from_rope = rope_positions_match_flow(&store);
     for frame_id in frame_ids {
@@ -84,7 +85,8 @@ fn find_frame_at_position(
                 }
                 let block = &blocks[block_idx];
                 let behind = block.document_position + block_char_length(block, &store) + 1;
-                return Ok(Some((frame, block_idx, behind)));
+                let block = block.clone();
+                return Ok(Some((frame, block, behind)));
             }
         }
     }
@@ -116,18 +118,12 @@ fn execute_insert_frame(
     // Determine the parent frame from the position
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
 
-    let (parent_frame_id, child_order_insert_idx, new_position) =
+    let (parent_frame_id, preceding_block, new_position) =
         match find_frame_at_position(&**uow, &frame_ids, dto.position)? {
-            Some((parent_frame, block_idx, behind)) => {
-                // Insert the new sub-frame into the parent's child_order
-                // after the block at block_idx
-                let insert_idx = (block_idx + 1).min(parent_frame.child_order.len());
-                (Some(parent_frame.id), insert_idx, behind)
-            }
-            None => {
-                // Position doesn't fall in any frame — append as top-level
-                (None, 0, dto.position)
-            }
+            // The new sub-frame goes into the parent, after this block
+            Some((parent_frame, block, behind)) => (Some(parent_frame.id), Some(block), behind),
+            // Position doesn't fall in any frame — append as top-level
+            None => (None, None, dto.position),
         };
 
     // The new block moves every block behind it by one separator. Bring the
@@ -208,7 +204,13 @@ fn execute_insert_frame(
             .get_frame(&parent_id)?
             .ok_or_else(|| anyhow!("Parent frame not found"))?;
         let mut updated_parent = parent_frame.clone();
-        let idx = child_order_insert_idx.min(updated_parent.child_order.len());
+        let idx = preceding_block
+            .as_ref()
+            .and_then(|b| {
+                let entry = b.id as i64;
+                updated_parent.child_order.iter().position(|e| *e == entry)
+            })
+            .map_or(updated_parent.child_order.len(), |i| i + 1);
         // Use negative IDs to distinguish sub-frame references from block IDs
         // Convention: positive = block ID, negative = -(frame ID)
         updated_parent
@@ -224,19 +226,20 @@ fn execute_insert_frame(
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
-    // Plan §1.6: mirror to rope. Top-level (parent=None) frames
-    // append at rope end with a `\n` boundary; the new empty block is
+    // Plan §1.6: mirror to rope. A nested frame's block takes its place
+    // right behind the preceding block; a top-level frame appends at rope
+    // end with a `\n` boundary. Either way the new empty block is
     // registered in block_offsets so subsequent edits can find it.
     // Frame.byte_range is recomputed centrally in Transaction::commit.
-    //
-    // Nested (parent=Some) frames are NOT mirrored here — their
-    // position depends on parent.child_order interleaving with sibling
-    // blocks/tables/frames. Sub-frame insertion within a populated
-    // parent is currently a follow-up; this matches the pre-existing
-    // behavior where insert_frame_uc only populated the entity tree.
-    // No-op under default backend.
-    if parent_frame_id.is_none() {
-        rope_append_empty_block(&uow.store(), created_block.id);
+    match preceding_block {
+        Some(block) => {
+            let store = uow.store();
+            let len = block_content_via_store(&block, &store).len() as u32;
+            rope_split_block(&store, block.id, len, created_block.id);
+        }
+        None => {
+            rope_append_empty_block(&uow.store(), created_block.id);
+        }
     }
 
     Ok((
-- 
2.43.0


From f0621e77fadd06ff0dabb8961f012f874174382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:35 +0000
Subject: [PATCH 31/38] fix: emptying a block in front of an empty last block
 joined the two blocks in the text

---
 crates/common/src/database/rope_helpers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index f738a51..43c57e5 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -840,17 +840,17 @@ pub fn rope_remove_block(store: &Store, block_id: EntityId) {
 pub fn rope_replace_block_content(store: &Store, block_id: EntityId, new_text: &str) {
     let (block_byte_start, content_bytes) = {
         let offsets = store.block_offsets.read().unwrap();
-        let Some((start, end)) = offsets.range_of_block(block_id) else {
+        let marker = OffsetMarker::Block(block_id);
+        let Some((start, end, has_successor)) = offsets.range_with_successor(marker) else {
             return;
         };
-        let total = offsets.total_bytes();
         // `range_of` extends to the next entry's `byte_start` (or to
         // `total_bytes`). If there's a following entry, the byte at
         // `end - 1` is the inter-block boundary `\n` that belongs to
         // the boundary between this block and the next, not to this
-        // block's content.
-        let has_trailing_boundary = end < total;
-        let content_bytes = if has_trailing_boundary {
+        // block's content. The following entry may be empty and start
+        // at `total_bytes`, so the end alone does not tell.
+        let content_bytes = if has_successor && end > start {
             end - start - 1
         } else {
             end - start
-- 
2.43.0


From 194f7f9d7f61b13065b3a77cc4177e655af850bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:01 +0000
Subject: [PATCH 32/38] fix: the document's character and block counts went
 stale after many edits, so the cursor could not reach the end

---
 crates/common/src/database/rope_helpers.rs | 43 +++++++++++++++++++++-
 crates/common/src/database/transactions.rs |  1 +
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 43c57e5..2787e69 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -8,7 +8,7 @@
 
 use crate::database::Store;
 use crate::database::block_offset_index::OffsetMarker;
-use crate::entities::Block;
+use crate::entities::{Block, Document};
 use crate::types::EntityId;
 
 /// Read a block's content from the global rope via `block_offsets`,
@@ -960,6 +960,47 @@ pub fn recompute_all_block_positions(store: &Store) {
     }
 }
 
+/// Bring `Document.character_count` and `Document.block_count` in line with
+/// the text. The cursor range is derived from them, so a count left behind
+/// by an edit would make the end of the document unreachable. No-op while
+/// some block is not mirrored to the rope.
+///
+/// O(1): every entry but the first is preceded by one boundary `\n`, and
+/// table anchors stand for themselves with one character.
+///
+/// Called by `Transaction::commit`.
+pub fn recompute_document_counts(store: &Store) {
+    let (entry_count, anchor_count) = {
+        let offsets = store.block_offsets.read().unwrap();
+        (offsets.entries.len(), offsets.table_anchor_count())
+    };
+    let block_count = entry_count - anchor_count;
+    if block_count == 0 || block_count != store.blocks.read().unwrap().len() {
+        return;
+    }
+    let rope_chars = store.rope.read().unwrap().len_chars();
+    let character_count = rope_chars.saturating_sub(entry_count - 1 + anchor_count) as i64;
+    let block_count = block_count as i64;
+
+    let mut documents = store.documents.write().unwrap();
+    if documents.len() != 1 {
+        return;
+    }
+    let Some(document) = documents.values().next().cloned() else {
+        return;
+    };
+    if document.character_count != character_count || document.block_count != block_count {
+        documents.insert(
+            document.id,
+            Document {
+                character_count,
+                block_count,
+                ..document
+            },
+        );
+    }
+}
+
 /// Block ids of a frame in flow order, sub-frames and table cells included.
 fn collect_flow_blocks(store: &Store, frame_id: EntityId, out: &mut Vec<EntityId>) {
     let Some(frame) = store.frames.read().unwrap().get(&frame_id).cloned() else {
diff --git a/crates/common/src/database/transactions.rs b/crates/common/src/database/transactions.rs
index 92f5e60..9812902 100644
--- a/crates/common/src/database/transactions.rs
+++ b/crates/common/src/database/transactions.rs
@@ -41,6 +41,7 @@ impl Transaction {
         // before the mutations become permanent. No-op under default.
         crate::database::rope_helpers::recompute_all_frame_byte_ranges(&self.store);
         crate::database::rope_helpers::recompute_all_block_positions(&self.store);
+        crate::database::rope_helpers::recompute_document_counts(&self.store);
         // Discard the auto-savepoint — mutations are now permanent
         if let Some(sp) = self.savepoint.take() {
             self.store.discard_savepoint(sp);
-- 
2.43.0


From 8ab8cf5fbd3f1b2a4ba7ff6b67c6a432ce9bd0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:24 +0000
Subject: [PATCH 33/38] fix: images moved to the wrong character, and text
 behind an image was addressed one character early

---
 crates/common/src/format_runs.rs              | 81 ++++++-------------
 .../src/use_cases/editing_helpers.rs          | 33 --------
 .../src/use_cases/insert_fragment_uc.rs       |  4 +
 .../src/use_cases/insert_image_uc.rs          | 52 +++++-------
 .../src/use_cases/get_text_at_position_uc.rs  |  5 +-
 crates/public_api/src/text_block.rs           | 19 ++++-
 6 files changed, 66 insertions(+), 128 deletions(-)

diff --git a/crates/common/src/format_runs.rs b/crates/common/src/format_runs.rs
index e5ca6dd..f5f60b4 100644
--- a/crates/common/src/format_runs.rs
+++ b/crates/common/src/format_runs.rs
@@ -407,7 +407,9 @@ pub fn shift_images_for_delete(
 /// document-space char position to the byte position where text edits
 /// should land in `block.plain_text`.
 ///
-/// Images contribute 1 logical character but 0 bytes in `plain_text`.
+/// An image contributes 1 logical character: the U+FFFC at its
+/// `byte_offset`, or nothing in `plain_text` when the text was taken
+/// without anchor characters.
 /// Images at the same byte_offset are visited in their stored order.
 pub fn logical_offset_to_byte(plain_text: &str, images: &[ImageAnchor], char_offset: i64) -> u32 {
     if char_offset <= 0 {
@@ -415,8 +417,13 @@ pub fn logical_offset_to_byte(plain_text: &str, images: &[ImageAnchor], char_off
     }
     let mut logical: i64 = 0;
     let mut images_consumed = 0usize;
-    for (b, _) in plain_text.char_indices() {
+    for (b, c) in plain_text.char_indices() {
         while images_consumed < images.len() && images[images_consumed].byte_offset <= b as u32 {
+            if c == '\u{FFFC}' && images[images_consumed].byte_offset == b as u32 {
+                // This character is the image.
+                images_consumed += 1;
+                break;
+            }
             if logical == char_offset {
                 return b as u32;
             }
@@ -588,68 +595,30 @@ pub fn inline_segments_view(
         out.push(seg);
     };
 
-    for run in runs {
-        while let Some(img) = img_iter.peek() {
-            if img.byte_offset < run.byte_start {
-                emit_text(
-                    &mut out,
-                    bytes,
-                    cursor,
-                    img.byte_offset,
-                    CharacterFormat::default(),
-                );
-                emit_image(&mut out, img);
-                cursor = img.byte_offset;
-                img_iter.next();
-            } else {
-                break;
-            }
-        }
-
-        if cursor < run.byte_start {
-            emit_text(
-                &mut out,
-                bytes,
-                cursor,
-                run.byte_start,
-                CharacterFormat::default(),
-            );
+    // Emits the bytes up to `end`, with the images anchored in front of it.
+    let mut emit_until = |out: &mut Vec<InlineSegment>, end: u32, fmt: &CharacterFormat| {
+        while let Some(img) = img_iter.next_if(|img| img.byte_offset < end) {
+            emit_text(out, bytes, cursor, img.byte_offset, fmt.clone());
+            emit_image(out, img);
+            // The anchor character stands for the image.
+            let has_anchor = plain_text[img.byte_offset as usize..].starts_with('\u{FFFC}');
+            let anchor_len = if has_anchor { '\u{FFFC}'.len_utf8() } else { 0 };
+            cursor = img.byte_offset + anchor_len as u32;
         }
+        emit_text(out, bytes, cursor, end, fmt.clone());
+        cursor = cursor.max(end);
+    };
 
-        emit_text(
-            &mut out,
-            bytes,
-            run.byte_start,
-            run.byte_end,
-            run.format.clone(),
-        );
-        cursor = run.byte_end;
+    for run in runs {
+        emit_until(&mut out, run.byte_start, &CharacterFormat::default());
+        emit_until(&mut out, run.byte_end, &run.format);
     }
+    emit_until(&mut out, bytes.len() as u32, &CharacterFormat::default());
 
     for img in img_iter {
-        if img.byte_offset > cursor {
-            emit_text(
-                &mut out,
-                bytes,
-                cursor,
-                img.byte_offset,
-                CharacterFormat::default(),
-            );
-            cursor = img.byte_offset;
-        }
         emit_image(&mut out, img);
     }
 
-    if (cursor as usize) < bytes.len() {
-        emit_text(
-            &mut out,
-            bytes,
-            cursor,
-            bytes.len() as u32,
-            CharacterFormat::default(),
-        );
-    }
-
     out
 }
 
diff --git a/crates/document_editing/src/use_cases/editing_helpers.rs b/crates/document_editing/src/use_cases/editing_helpers.rs
index 85b5671..60b9dc6 100644
--- a/crates/document_editing/src/use_cases/editing_helpers.rs
+++ b/crates/document_editing/src/use_cases/editing_helpers.rs
@@ -3,7 +3,6 @@ use common::database::Store;
 use common::database::rope_helpers::{block_char_length, find_block_at_char_position};
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::entities::{Block, Frame};
-use common::format_runs::{InlineContent, InlineSegment};
 use common::types::EntityId;
 
 /// Trait for UoW operations needed to create a cell frame. All
@@ -204,38 +203,6 @@ pub fn find_block_at_position(
     Err(anyhow!("No blocks found in document"))
 }
 
-/// Find the inline segment at a given character offset within a block,
-/// and compute the offset within that segment.
-///
-/// Returns `(segment, index_in_list, offset_within_segment)`.
-pub fn find_segment_at_offset(
-    segments: &[InlineSegment],
-    offset: i64,
-) -> Result<(InlineSegment, usize, i64)> {
-    let mut running = 0i64;
-    for (i, seg) in segments.iter().enumerate() {
-        let seg_len = match &seg.content {
-            InlineContent::Text(s) => s.chars().count() as i64,
-            InlineContent::Image { .. } => 1,
-            InlineContent::Empty => 0,
-        };
-        if offset <= running + seg_len {
-            return Ok((seg.clone(), i, offset - running));
-        }
-        running += seg_len;
-    }
-    // Fall back to last segment at its end
-    if let Some(seg) = segments.last() {
-        let seg_len = match &seg.content {
-            InlineContent::Text(s) => s.chars().count() as i64,
-            InlineContent::Image { .. } => 1,
-            InlineContent::Empty => 0,
-        };
-        return Ok((seg.clone(), segments.len() - 1, seg_len));
-    }
-    Err(anyhow!("No inline segments found in block"))
-}
-
 /// Collect all block IDs in document order by traversing child_order recursively.
 ///
 /// Negative entries in child_order are nested frame IDs (convention: -frame_id);
diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index fe38fa3..7e18e96 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -125,6 +125,10 @@ fn frag_block_state(fb: &FragmentBlock) -> (Vec<FormatRun>, Vec<ImageAnchor>) {
                     quality: *quality,
                     format: fmt,
                 });
+                // The text holds an anchor character for the image.
+                if fb.plain_text[byte_offset as usize..].starts_with('\u{FFFC}') {
+                    byte_offset += '\u{FFFC}'.len_utf8() as u32;
+                }
             }
         }
     }
diff --git a/crates/document_editing/src/use_cases/insert_image_uc.rs b/crates/document_editing/src/use_cases/insert_image_uc.rs
index f50ef88..0c2c474 100644
--- a/crates/document_editing/src/use_cases/insert_image_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_image_uc.rs
@@ -1,4 +1,4 @@
-use super::editing_helpers::{find_block_at_position, find_segment_at_offset};
+use super::editing_helpers::find_block_at_position;
 use crate::InsertImageDto;
 use crate::InsertImageResultDto;
 use anyhow::{Result, anyhow};
@@ -8,8 +8,11 @@ use common::direct_access::document::document_repository::DocumentRelationshipFi
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
 use common::entities::{Block, Document, Frame, Root};
-use common::format_runs::{ImageAnchor, InlineContent, synth_element_id};
-use common::format_runs_query::inline_segments_for_block;
+use common::format_runs::{
+    ImageAnchor, logical_offset_to_byte, shift_images_for_insert, shift_runs_for_insert,
+    synth_element_id,
+};
+use common::format_runs_query::get_block_images;
 use common::snapshot::EntityTreeSnapshot;
 use common::types::{EntityId, ROOT_ENTITY_ID};
 use common::undo_redo::UndoRedoCommand;
@@ -94,38 +97,14 @@ fn execute_insert_image(
     // Find block at position
     let (block, block_idx, offset) = find_block_at_position(&blocks, position, &uow.store())?;
 
-    // Synthesize the inline-segment view of the target block from format_runs +
-    // block_images. This is read-only — we use it to locate the byte offset
-    // inside the block's content where the new image should be anchored.
+    // byte_offset = position inside the block's content where the new image
+    // is anchored.
     let block_text = block_content_via_store(&block, &uow.store());
-    let segments = inline_segments_for_block(&uow.store(), block.id, &block_text);
-
-    // byte_offset = position inside `block.plain_text` where the new image is
-    // anchored. Empty blocks anchor at 0. Otherwise we walk the synthesized
-    // segments: each Text contributes its UTF-8 byte length; Image / Empty
-    // contribute zero.
-    let byte_offset: u32 = if segments.is_empty() {
-        0
-    } else {
-        let (segment, seg_idx, seg_offset) = find_segment_at_offset(&segments, offset)?;
-        let mut bo: u32 = 0;
-        for prev in &segments[..seg_idx] {
-            if let InlineContent::Text(s) = &prev.content {
-                bo += s.len() as u32;
-            }
-        }
-        match &segment.content {
-            InlineContent::Text(s) => {
-                let split_byte = s
-                    .char_indices()
-                    .nth(seg_offset as usize)
-                    .map(|(b, _)| b)
-                    .unwrap_or(s.len());
-                bo + split_byte as u32
-            }
-            InlineContent::Image { .. } | InlineContent::Empty => bo,
-        }
-    };
+    let byte_offset: u32 = logical_offset_to_byte(
+        &block_text,
+        &get_block_images(&uow.store(), block.id),
+        offset,
+    );
 
     let now = chrono::Utc::now();
 
@@ -134,8 +113,13 @@ fn execute_insert_image(
     // the new image goes AFTER any existing anchors at the same byte position).
     {
         let store = uow.store();
+        // The anchor character moves what lies behind it in the block.
+        if let Some(runs) = store.format_runs.write().unwrap().get_mut(&block.id) {
+            shift_runs_for_insert(runs, byte_offset, '\u{FFFC}'.len_utf8() as u32);
+        }
         let mut images_map = store.block_images.write().unwrap();
         let images = images_map.entry(block.id).or_default();
+        shift_images_for_insert(images, byte_offset, '\u{FFFC}'.len_utf8() as u32);
         let insert_idx = images
             .iter()
             .position(|a| a.byte_offset > byte_offset)
diff --git a/crates/document_inspection/src/use_cases/get_text_at_position_uc.rs b/crates/document_inspection/src/use_cases/get_text_at_position_uc.rs
index 437a81e..e40d98f 100644
--- a/crates/document_inspection/src/use_cases/get_text_at_position_uc.rs
+++ b/crates/document_inspection/src/use_cases/get_text_at_position_uc.rs
@@ -167,10 +167,11 @@ impl GetTextAtPositionUseCase {
                     }
                 }
 
-                // Advance byte offset (Text contributes its UTF-8 length, Image contributes 0)
+                // Advance byte offset (Text contributes its UTF-8 length, Image its
+                // anchor character)
                 match &seg.content {
                     InlineContent::Text(s) => current_byte_offset += s.len() as u32,
-                    InlineContent::Image { .. } => {}
+                    InlineContent::Image { .. } => current_byte_offset += elem_text.len() as u32,
                     InlineContent::Empty => {}
                 }
 
diff --git a/crates/public_api/src/text_block.rs b/crates/public_api/src/text_block.rs
index cb0624d..ab24aec 100644
--- a/crates/public_api/src/text_block.rs
+++ b/crates/public_api/src/text_block.rs
@@ -532,6 +532,16 @@ fn build_raw_fragments(
     let mut byte_cursor: u32 = 0;
     let mut img_iter = images.iter().peekable();
 
+    // Where the text behind an image starts: the anchor character U+FFFC
+    // at its offset stands for the image.
+    fn image_end(plain: &str, img: &ImageAnchor) -> u32 {
+        if plain[img.byte_offset as usize..].starts_with('\u{FFFC}') {
+            img.byte_offset + '\u{FFFC}'.len_utf8() as u32
+        } else {
+            img.byte_offset
+        }
+    }
+
     // Helper to push an unformatted text fragment for bytes [a..b).
     // Returns the new char_offset and updates byte_cursor.
     fn emit_default_text(
@@ -594,7 +604,7 @@ fn build_raw_fragments(
     }
 
     for run in &runs {
-        let mut run_cursor = run.byte_start;
+        let mut run_cursor = run.byte_start.max(byte_cursor);
 
         // Emit images that fall strictly before this run, then handle
         // images that fall inside the run by splitting it at each
@@ -621,9 +631,11 @@ fn build_raw_fragments(
                     element_id: synth_element_id(block_id, img.byte_offset),
                 });
                 char_offset += 1;
+                byte_cursor = image_end(plain, img);
                 img_iter.next();
             } else if img.byte_offset <= run.byte_end {
                 // Image at the run's start or inside the run.
+                run_cursor = run_cursor.max(byte_cursor);
                 // First close any unformatted gap upstream of the run.
                 emit_default_text(
                     &mut fragments,
@@ -656,8 +668,8 @@ fn build_raw_fragments(
                     element_id: synth_element_id(block_id, img.byte_offset),
                 });
                 char_offset += 1;
-                run_cursor = img.byte_offset;
-                byte_cursor = img.byte_offset;
+                run_cursor = image_end(plain, img);
+                byte_cursor = run_cursor;
                 img_iter.next();
             } else {
                 break;
@@ -710,6 +722,7 @@ fn build_raw_fragments(
             element_id: synth_element_id(block_id, img.byte_offset),
         });
         char_offset += 1;
+        byte_cursor = image_end(plain, img);
     }
 
     // Trailing unformatted text after the last run / image.
-- 
2.43.0


From 3c0dcd201c6779ef109735390c7db750ba15c0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:48 +0000
Subject: [PATCH 34/38] fix: content inserted behind a table or sub-frame was
 put in the wrong place of the flow

---
 .../src/use_cases/editing_helpers.rs          | 12 ++++++++++
 .../src/use_cases/insert_fragment_uc.rs       | 23 +++++++++----------
 .../src/use_cases/insert_frame_uc.rs          |  9 ++++----
 .../use_cases/insert_html_at_position_uc.rs   |  9 ++++----
 .../src/use_cases/insert_list_uc.rs           |  8 +++++--
 .../insert_markdown_at_position_uc.rs         |  6 ++---
 6 files changed, 41 insertions(+), 26 deletions(-)

diff --git a/crates/document_editing/src/use_cases/editing_helpers.rs b/crates/document_editing/src/use_cases/editing_helpers.rs
index 60b9dc6..f25e9e4 100644
--- a/crates/document_editing/src/use_cases/editing_helpers.rs
+++ b/crates/document_editing/src/use_cases/editing_helpers.rs
@@ -203,6 +203,18 @@ pub fn find_block_at_position(
     Err(anyhow!("No blocks found in document"))
 }
 
+/// Where a block that follows `block_id` in the flow goes in the frame's
+/// child_order. The list also holds tables and sub-frames, so the index of
+/// the block among the blocks of the frame is not its index there.
+pub fn child_order_index_after(frame: &Frame, block_id: EntityId) -> usize {
+    let entry = block_id as i64;
+    frame
+        .child_order
+        .iter()
+        .position(|&e| e == entry)
+        .map_or(frame.child_order.len(), |i| i + 1)
+}
+
 /// Collect all block IDs in document order by traversing child_order recursively.
 ///
 /// Negative entries in child_order are nested frame IDs (convention: -frame_id);
diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 7e18e96..7dd835a 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -1,6 +1,6 @@
 use super::editing_helpers::{
-    CellFrameCreator, collect_block_ids_recursive, create_cell_frame, find_block_at_position,
-    impl_cell_frame_creator,
+    CellFrameCreator, child_order_index_after, collect_block_ids_recursive, create_cell_frame,
+    find_block_at_position, impl_cell_frame_creator,
 };
 use crate::InsertFragmentDto;
 use crate::InsertFragmentResultDto;
@@ -463,12 +463,10 @@ fn insert_table_fragment(
         0usize
     } else {
         let (target_block, _, _) = find_block_at_position(&blocks, insert_pos, &uow.store())?;
-        let blk_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
-        blk_ids
-            .iter()
-            .position(|&bid| bid == target_block.id)
-            .map(|i| i + 1)
-            .unwrap_or(0)
+        let frame = uow
+            .get_frame(&frame_id)?
+            .ok_or_else(|| anyhow!("Frame not found"))?;
+        child_order_index_after(&frame, target_block.id)
     };
 
     let mut total_blocks_added: i64 = 0;
@@ -1494,7 +1492,7 @@ fn insert_mixed_fragment(
     }
 
     let mut updated_frame = frame.clone();
-    let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+    let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
     for (i, entry) in new_child_order_entries.iter().enumerate() {
         updated_frame
             .child_order
@@ -2050,7 +2048,7 @@ fn execute_insert_fragment(
         }
 
         let mut updated_frame = frame.clone();
-        let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+        let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
         let mut new_child_ids: Vec<i64> = new_block_ids.iter().map(|id| *id as i64).collect();
         if let Some(tid) = created_tail_id {
             new_child_ids.push(tid as i64);
@@ -2251,7 +2249,8 @@ fn execute_insert_fragment(
                 );
 
                 let mut updated_frame = frame.clone();
-                let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+                let child_order_insert_pos =
+                    child_order_index_after(&updated_frame, current_block.id);
                 updated_frame
                     .child_order
                     .insert(child_order_insert_pos, created_tail.id as i64);
@@ -2414,7 +2413,7 @@ fn execute_insert_fragment(
             );
 
             let mut updated_frame = frame.clone();
-            let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+            let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
             let new_child_ids = [created_block.id as i64, created_tail.id as i64];
             for (i, id) in new_child_ids.iter().enumerate() {
                 updated_frame
diff --git a/crates/document_editing/src/use_cases/insert_frame_uc.rs b/crates/document_editing/src/use_cases/insert_frame_uc.rs
index 7fc01ab..cd6903d 100644
--- a/crates/document_editing/src/use_cases/insert_frame_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_frame_uc.rs
@@ -1,3 +1,4 @@
+use super::editing_helpers::child_order_index_after;
 use crate::InsertFrameDto;
 use crate::InsertFrameResultDto;
 use anyhow::{Result, anyhow};
@@ -206,11 +207,9 @@ fn execute_insert_frame(
         let mut updated_parent = parent_frame.clone();
         let idx = preceding_block
             .as_ref()
-            .and_then(|b| {
-                let entry = b.id as i64;
-                updated_parent.child_order.iter().position(|e| *e == entry)
-            })
-            .map_or(updated_parent.child_order.len(), |i| i + 1);
+            .map_or(updated_parent.child_order.len(), |b| {
+                child_order_index_after(&updated_parent, b.id)
+            });
         // Use negative IDs to distinguish sub-frame references from block IDs
         // Convention: positive = block ID, negative = -(frame ID)
         updated_parent
diff --git a/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs b/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
index 42827b0..2f53918 100644
--- a/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_html_at_position_uc.rs
@@ -1,4 +1,4 @@
-use super::editing_helpers::find_block_at_position;
+use super::editing_helpers::{child_order_index_after, find_block_at_position};
 use crate::InsertHtmlAtPositionDto;
 use crate::InsertHtmlAtPositionResultDto;
 use anyhow::{Result, anyhow};
@@ -577,7 +577,7 @@ fn execute_content_insert(
         }
 
         let mut updated_frame = frame.clone();
-        let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+        let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
         let new_child_ids: Vec<i64> = new_block_ids.iter().map(|id| *id as i64).collect();
         for (i, id) in new_child_ids.iter().enumerate() {
             updated_frame
@@ -722,7 +722,8 @@ fn execute_content_insert(
 
             if !new_block_ids.is_empty() {
                 let mut updated_frame = frame.clone();
-                let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+                let child_order_insert_pos =
+                    child_order_index_after(&updated_frame, current_block.id);
                 for (i, &block_id) in new_block_ids.iter().enumerate() {
                     updated_frame
                         .child_order
@@ -885,7 +886,7 @@ fn execute_content_insert(
             }
 
             let mut updated_frame = frame.clone();
-            let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+            let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
             let new_child_ids = [created_block.id as i64, created_tail.id as i64];
             for (i, id) in new_child_ids.iter().enumerate() {
                 updated_frame
diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index c32dc89..98fd620 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -1,4 +1,4 @@
-use super::editing_helpers::find_block_at_position;
+use super::editing_helpers::{child_order_index_after, find_block_at_position};
 use crate::InsertListDto;
 use crate::InsertListResultDto;
 use anyhow::{Result, anyhow};
@@ -146,7 +146,11 @@ fn execute_insert_list(
 
     // Update frame's child_order
     let mut updated_frame = frame.clone();
-    let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+    let child_order_insert_pos = blocks
+        .get(block_idx)
+        .map_or(updated_frame.child_order.len(), |b| {
+            child_order_index_after(&updated_frame, b.id)
+        });
     updated_frame
         .child_order
         .insert(child_order_insert_pos, created_block.id as i64);
diff --git a/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs b/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
index 7167e33..7e113e0 100644
--- a/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_markdown_at_position_uc.rs
@@ -1,4 +1,4 @@
-use super::editing_helpers::find_block_at_position;
+use super::editing_helpers::{child_order_index_after, find_block_at_position};
 use crate::InsertMarkdownAtPositionDto;
 use crate::InsertMarkdownAtPositionResultDto;
 use anyhow::{Result, anyhow};
@@ -440,7 +440,7 @@ fn execute_content_insert(
         }
 
         let mut updated_frame = frame.clone();
-        let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+        let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
         let mut new_child_ids: Vec<i64> = new_block_ids.iter().map(|id| *id as i64).collect();
         new_child_ids.push(created_tail.id as i64);
         for (i, id) in new_child_ids.iter().enumerate() {
@@ -597,7 +597,7 @@ fn execute_content_insert(
         }
 
         let mut updated_frame = frame.clone();
-        let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+        let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
         let new_child_ids = [created_block.id as i64, created_tail.id as i64];
         for (i, id) in new_child_ids.iter().enumerate() {
             updated_frame
-- 
2.43.0


From c61f520d95b6effdf78fdb4a1218cffde7a94b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:08 +0000
Subject: [PATCH 35/38] fix: enter every paragraph of a pasted table cell in
 the cell's reading order

---
 .../src/use_cases/insert_fragment_uc.rs         | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 7dd835a..2b48c6b 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -421,6 +421,21 @@ fn try_replace_table_cells(
     )))
 }
 
+/// Enter all blocks of a new cell in the reading order of its frame, which
+/// holds only the first one so far.
+fn enter_cell_blocks(
+    uow: &mut Box<dyn InsertFragmentUnitOfWorkTrait>,
+    cell_frame_id: EntityId,
+    cell_blocks: &[(EntityId, String)],
+) -> Result<()> {
+    let mut cell_frame = uow
+        .get_frame(&cell_frame_id)?
+        .ok_or_else(|| anyhow!("Cell frame not found"))?;
+    cell_frame.child_order = cell_blocks.iter().map(|(id, _)| *id as i64).collect();
+    uow.update_frame(&cell_frame)?;
+    Ok(())
+}
+
 /// Insert a table-only fragment at the cursor position.
 fn insert_table_fragment(
     uow: &mut Box<dyn InsertFragmentUnitOfWorkTrait>,
@@ -575,6 +590,7 @@ fn insert_table_fragment(
                     total_blocks_added += 1;
                     total_chars_added += extra_len;
                 }
+                enter_cell_blocks(uow, cell_frame_id, &this_cell_blocks)?;
             } else {
                 let mut updated_block = created_block.clone();
                 updated_block.document_position = current_pos;
@@ -1221,6 +1237,7 @@ fn insert_mixed_fragment(
                             total_blocks_added += 1;
                             total_new_chars += extra_len;
                         }
+                        enter_cell_blocks(uow, cell_frame_id, &this_cell_blocks)?;
                     } else {
                         let mut updated_block = created_block.clone();
                         updated_block.document_position = running_position;
-- 
2.43.0


From b878d6d1b006fbfb6f7753287fb131722219d0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:53 +0000
Subject: [PATCH 36/38] fix: a removed frame stayed in its parent's reading
 order

---
 .../src/direct_access/frame/frame_table.rs    | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/common/src/direct_access/frame/frame_table.rs b/crates/common/src/direct_access/frame/frame_table.rs
index ff88b04..ac06c88 100644
--- a/crates/common/src/direct_access/frame/frame_table.rs
+++ b/crates/common/src/direct_access/frame/frame_table.rs
@@ -155,17 +155,26 @@ impl<'a> FrameTable for FrameHashMapTable<'a> {
         // re-insert.
 
         // 1. Self-referential: child frames whose parent_frame pointed
-        //    at one of the removed ids must be detached.
+        //    at one of the removed ids must be detached, and frames whose
+        //    `child_order` listed one (as a negative entry) must have it
+        //    stripped.
         {
             let mut frame_map = self.store.frames.write().unwrap();
+            let listed =
+                |entry: &i64| *entry < 0 && removed.contains(&(entry.unsigned_abs() as EntityId));
             let updates: Vec<(EntityId, Frame)> = frame_map
                 .iter()
                 .filter_map(|(fid, f)| {
-                    f.parent_frame.filter(|p| removed.contains(p)).map(|_| {
-                        let mut updated = f.clone();
+                    let detached = f.parent_frame.is_some_and(|p| removed.contains(&p));
+                    if !detached && !f.child_order.iter().any(listed) {
+                        return None;
+                    }
+                    let mut updated = f.clone();
+                    if detached {
                         updated.parent_frame = None;
-                        (*fid, updated)
-                    })
+                    }
+                    updated.child_order.retain(|entry| !listed(entry));
+                    Some((*fid, updated))
                 })
                 .collect();
             for (fid, f) in updates {
-- 
2.43.0


From f22c1364b1b09a99aaaa695b24d82a0e698f1964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:34 +0000
Subject: [PATCH 37/38] fix: move other cursors by the one separator an
 inserted list item adds

insert_list puts an empty block behind the current one and leaves the
selection alone, but reported the text from the cursor to the new block
as added (and the selection as removed), so every other cursor behind it
was moved too far.
---
 crates/public_api/src/cursor.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index ecd71b3..66b852a 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1651,15 +1651,10 @@ impl TextCursor {
             };
             let result =
                 document_editing_commands::insert_list(&inner.ctx, Some(inner.stack_id), &dto)?;
-            let edit_pos = pos.min(anchor);
-            let removed = pos.max(anchor) - edit_pos;
-            self.finish_edit(
-                &mut inner,
-                edit_pos,
-                removed,
-                to_usize(result.new_position),
-                1,
-            )
+            // The new item is an empty block behind the current one: a single
+            // separator goes in right before it, and a selection stays as it is.
+            let new_pos = to_usize(result.new_position);
+            self.finish_edit(&mut inner, new_pos.saturating_sub(1), 0, new_pos, 1)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
-- 
2.43.0


From 551d54d97ec5ad246fbe8b9eb896c97659801260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:21 +0000
Subject: [PATCH 38/38] fix: carry highlighting on through blocks never
 highlighted before

---
 crates/public_api/src/highlight.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/public_api/src/highlight.rs b/crates/public_api/src/highlight.rs
index ac3b79a..c98ff27 100644
--- a/crates/public_api/src/highlight.rs
+++ b/crates/public_api/src/highlight.rs
@@ -540,7 +540,7 @@ impl TextDocumentInner {
                 .unwrap()
                 .blocks
                 .get(&bid)
-                .map_or(-1, |d| d.state);
+                .map(|d| d.state);
 
             let mut ctx = HighlightContext::new(bid, previous_state, user_data);
             highlighter.highlight_block(text, &mut ctx);
@@ -557,8 +557,9 @@ impl TextDocumentInner {
             );
 
             // If we are past the initial block and the state didn't change,
-            // stop cascading.
-            if i > start_idx && state == old_state {
+            // stop cascading. A block never highlighted before (just
+            // inserted) has no state to compare with, so go on.
+            if i > start_idx && old_state == Some(state) {
                 break;
             }
         }
-- 
2.43.0

