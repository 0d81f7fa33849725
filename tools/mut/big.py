"""Whole-file refactorings that keep the behaviour; every check must stay quiet on each."""
import re
ALL={p:0 for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C22 C23 C24 C25 C27 C38 C39 C40 C41 C42 C43 C44 C45".split()}
def src(f): return open("/repo/"+f).read()
def ed(f,*pairs):
    t=o=src(f)
    for p in pairs:
        if callable(p): n=p(t)
        else:
            a,b,*c=p
            assert a in t,(f,a)
            n=t.replace(a,b,*(c or [1]))
        assert n!=t,(f,p)
        t=n
    return (f,o,t)
CU="crates/public_api/src/cursor.rs"
def fmt(t):
    for k in ("Character","Block"):
        t=t.replace('''            let start = pos.min(anchor);
            let length = pos.max(anchor) - start;
            inner.modified = true;
            inner.queue_event(DocumentEvent::FormatChanged {
                position: start,
                length,
                kind: crate::flow::FormatChangeKind::%s,
            });
            self.queue_undo_redo_event(&mut inner)
'''%k,'''            self.finish_format(&mut inner, pos, anchor, crate::flow::FormatChangeKind::%s)
'''%k)
    return t
DEL=src(CU)
DO=DEL[DEL.index("    fn do_delete("):DEL.index("    /// Resolve a MoveOperation")]
RM=DEL[DEL.index("        let queued = {\n            let mut inner = self.doc.lock();\n            let dto = frontend::document_editing::DeleteTextDto {"):DEL.index("    // ── List operations")]
def tab(t):
    return re.sub(r'''        let queued = \{
            let mut inner = self\.doc\.lock\(\);
            let dto = (frontend::document_editing::\w+ \{[^{}]*\});
            (document_editing_commands::\w+\(&inner\.ctx, Some\(inner\.stack_id\), &dto\)\?;)
            inner\.modified = true;
            inner\.invalidate_text_cache\(\);
            inner\.rehighlight_all\(\);
            inner\.check_block_count_changed\(\);
            inner\.check_flow_changed\(\);
            self\.queue_undo_redo_event\(&mut inner\)
        \};
        crate::inner::dispatch_queued_events\(queued\);
        Ok\(\(\)\)
''',r'''        self.edit(|inner| {
            let dto = \1;
            \2
            Ok(self.finish_structure(inner))
        })
''',t,flags=re.S)
HELP='''    fn finish_format(
        &self,
        inner: &mut TextDocumentInner,
        pos: usize,
        anchor: usize,
        kind: crate::flow::FormatChangeKind,
    ) -> QueuedEvents {
        let (position, end) = if pos < anchor { (pos, anchor) } else { (anchor, pos) };
        inner.modified = true;
        inner.queue_event(DocumentEvent::FormatChanged { position, length: end - position, kind });
        self.queue_undo_redo_event(inner)
    }

    fn finish_structure(&self, inner: &mut TextDocumentInner) -> QueuedEvents {
        inner.modified = true;
        inner.invalidate_text_cache();
        inner.rehighlight_all();
        inner.check_block_count_changed();
        inner.check_flow_changed();
        self.queue_undo_redo_event(inner)
    }

    fn edit(&self, change: impl FnOnce(&mut TextDocumentInner) -> Result<QueuedEvents>) -> Result<()> {
        let queued = {
            let mut inner = self.doc.lock();
            change(&mut inner)?
        };
        crate::inner::dispatch_queued_events(queued);
        Ok(())
    }

    fn delete_range(&self, pos: usize, anchor: usize) -> Result<String> {
        let mut deleted = String::new();
        self.edit(|inner| {
            let dto = frontend::document_editing::DeleteTextDto {
                position: to_i64(pos),
                anchor: to_i64(anchor),
            };
            let result =
                document_editing_commands::delete_text(&inner.ctx, Some(inner.stack_id), &dto)?;
            let (start, end) = (pos.min(anchor), pos.max(anchor));
            let new_pos = to_usize(result.new_position);
            inner.modified = true;
            inner.invalidate_text_cache();
            inner.adjust_cursors(start, end - start, 0);
            self.place(new_pos);
            inner.rehighlight_affected(start);
            inner.queue_event(DocumentEvent::ContentsChanged {
                position: start,
                chars_removed: end - start,
                chars_added: 0,
                blocks_affected: 1,
            });
            inner.check_block_count_changed();
            inner.check_flow_changed();
            deleted = result.deleted_text;
            Ok(self.queue_undo_redo_event(inner))
        })?;
        Ok(deleted)
    }

    fn place(&self, at: usize) {
        let mut data = self.data.lock();
        data.anchor = at;
        data.position = at;
    }

'''
M=[
("cursor-format-helper",[ed(CU,fmt,("    fn do_delete(",HELP[:HELP.index("    fn finish_structure")]+"    fn do_delete("))],ALL),
("cursor-table-edit",[ed(CU,tab,("    fn do_delete(",HELP[HELP.index("    fn finish_structure"):HELP.index("    fn delete_range")]+"    fn do_delete("))],ALL),
("cursor-delete-shared",[ed(CU,(RM,"        self.delete_range(pos, anchor)\n    }\n\n"),(DO,HELP[HELP.index("    fn edit("):]+"    fn do_delete(&self, pos: usize, anchor: usize) -> Result<()> {\n        self.delete_range(pos, anchor).map(|_| ())\n    }\n\n"))],ALL),
("cursor-misc",[ed(CU,
('''            let data = Arc::new(Mutex::new(CursorData {
                position,
                anchor,
                cell_selection_override: None,
            }));
            inner.cursors.push(Arc::downgrade(&data));
            data
''','''            register_cursor(&mut inner, position, anchor)
'''),
("fn max_cursor_position(",'''fn register_cursor(
    inner: &mut TextDocumentInner,
    position: usize,
    anchor: usize,
) -> Arc<Mutex<CursorData>> {
    let data = Arc::new(Mutex::new(CursorData {
        position,
        anchor,
        cell_selection_override: None,
    }));
    let weak = Arc::downgrade(&data);
    inner.cursors.push(weak);
    data
}

fn max_cursor_position('''),
('''        let added = new_pos.saturating_sub(edit_pos);
        inner.adjust_cursors(edit_pos, removed, added);
        {
            let mut d = self.data.lock();
            d.position = new_pos;
            d.anchor = new_pos;
        }
        inner.modified = true;
        inner.invalidate_text_cache();
        inner.rehighlight_affected(edit_pos);
''','''        inner.modified = true;
        let added = if new_pos > edit_pos { new_pos - edit_pos } else { 0 };
        inner.adjust_cursors(edit_pos, removed, added);
        self.place(new_pos);
        inner.invalidate_text_cache();
        inner.rehighlight_affected(edit_pos);
'''),
("    fn do_delete(",HELP[HELP.index("    fn place("):]+"    fn do_delete("),
('''            let new_pos = to_usize(result.new_position);
            let table_id = to_usize(result.table_id);
            inner.adjust_cursors(pos.min(anchor), 0, new_pos - pos.min(anchor));
            {
                let mut d = self.data.lock();
                d.position = new_pos;
                d.anchor = new_pos;
            }
            inner.modified = true;
            inner.invalidate_text_cache();
            inner.rehighlight_affected(pos.min(anchor));
            inner.queue_event(DocumentEvent::ContentsChanged {
                position: pos.min(anchor),
                chars_removed: 0,
                chars_added: new_pos - pos.min(anchor),
                blocks_affected: 1,
            });
            inner.check_block_count_changed();
            inner.check_flow_changed();
            (table_id, self.queue_undo_redo_event(&mut inner))
''','''            let queued = self.finish_edit(
                &mut inner,
                pos.min(anchor),
                0,
                to_usize(result.new_position),
                1,
            );
            (to_usize(result.table_id), queued)
'''),
('''    let result = document_editing_commands::delete_text(&inner.ctx, Some(inner.stack_id), &del_dto)
        .and_then(|deleted| insert(inner, to_usize(deleted.new_position)));
    undo_redo_commands::end_composite(&inner.ctx);
    if result.is_err() {
        // The deletion may have been applied before the insertion failed.
        inner.invalidate_text_cache();
    }
    result
''','''    let deleted = document_editing_commands::delete_text(&inner.ctx, Some(inner.stack_id), &del_dto);
    let result = match deleted {
        Ok(deleted) => insert(inner, to_usize(deleted.new_position)),
        Err(e) => Err(e),
    };
    undo_redo_commands::end_composite(&inner.ctx);
    match result {
        Ok(done) => Ok(done),
        Err(e) => {
            inner.invalidate_text_cache();
            Err(e)
        }
    }
'''),
('''            let anchor = self.data.lock().anchor;
            let pos_cell = self.table_cell_at(pos);
            let anchor_cell = self.table_cell_at(anchor);
''','''            let (_, anchor) = self.read_cursor();
            let pos_cell = self.table_cell_at(pos);
            let anchor_cell = self.table_cell_at(anchor);
'''),
)],ALL),
]
STF="crates/document_formatting/src/use_cases/set_text_format_uc.rs"
IB="crates/document_editing/src/use_cases/insert_block_uc.rs"
IR="crates/document_editing/src/use_cases/insert_table_row_uc.rs"
RH="crates/common/src/database/rope_helpers.rs"
def cut(f,a,b):
    t=src(f); i=t.index(a); return t[i:t.index(b,i)]
st=src(STF)
loop=cut(STF,"    for block in &blocks {\n        let block_start","    Ok(inverse)\n}\n\n/// Restore")
body=loop[len("    for block in &blocks {\n"):loop.rindex("    }\n")]
FB='''fn format_block(
    store: &common::database::Store,
    block: &Block,
    range_start: i64,
    range_end: i64,
    dto: &SetTextFormatDto,
) -> Option<BlockFormatInverse> {
'''+body.replace("continue;","return None;").replace("&store","store").replace("inverse.push(BlockFormatInverse {","Some(BlockFormatInverse {").replace("prior_image_formats,\n        });","prior_image_formats,\n        })").replace("(store, block.id","(store, block.id")+"}\n\n"
MD=cut(STF,"    let mut out = base.clone();\n    if let Some(ref v) = dto.font_family","/// Build the replacement")
MD2='''    CharacterFormat {
        font_family: dto.font_family.clone().or_else(|| base.font_family.clone()),
        font_point_size: dto.font_point_size.or(base.font_point_size),
        font_weight: dto.font_weight.or(base.font_weight),
        font_bold: dto.font_bold.or(base.font_bold),
        font_italic: dto.font_italic.or(base.font_italic),
        font_underline: dto.font_underline.or(base.font_underline),
        font_overline: dto.font_overline.or(base.font_overline),
        font_strikeout: dto.font_strikeout.or(base.font_strikeout),
        letter_spacing: dto.letter_spacing.or(base.letter_spacing),
        word_spacing: dto.word_spacing.or(base.word_spacing),
        underline_style: match &dto.underline_style {
            Some(style) => Some(underline_style_to_entity(style)),
            None => base.underline_style.clone(),
        },
        vertical_alignment: dto
            .vertical_alignment
            .as_ref()
            .map(vertical_alignment_to_entity)
            .or_else(|| base.vertical_alignment.clone()),
        ..base.clone()
    }
}

'''
M+=[
("set-text-format",[ed(STF,(loop,"    for block in &blocks {\n        inverse.extend(format_block(&store, block, range_start, range_end, dto));\n    }\n\n"),
 ("fn execute_set_text_format(",FB+"fn execute_set_text_format("),
 (MD,MD2),
 ('''                for (byte_offset, format) in &entry.prior_image_formats {
                    if let Some(img) = images.iter_mut().find(|i| i.byte_offset == *byte_offset) {
                        img.format = format.clone();
                    }
                }''','''                put_formats_back(images, &entry.prior_image_formats);'''),
 ("fn apply_inverse(",'''fn put_formats_back(
    images: &mut [common::format_runs::ImageAnchor],
    prior: &[(u32, CharacterFormat)],
) {
    for img in images.iter_mut() {
        let saved = prior.iter().find(|(at, _)| *at == img.byte_offset);
        if let Some((_, format)) = saved {
            img.format = format.clone();
        }
    }
}

fn apply_inverse('''))],ALL),
("set-text-format-iter",[ed(STF,(loop,"    inverse.extend(\n        blocks\n            .iter()\n            .filter_map(|block| format_block(&store, block, range_start, range_end, dto)),\n    );\n\n"),
 ("fn execute_set_text_format(",FB+"fn execute_set_text_format("))],ALL),
("insert-block",[ed(IB,
 (cut(IB,"    let current_runs = store\n","    let current_block_text ="),'''    let (current_runs, current_images) = block_parts(&store, current_block.id);

'''),
 (cut(IB,"    store\n        .format_runs\n        .write()","    // Create the \"after\" block."),"    store_parts(&store, current_block.id, left_runs, left_images);\n\n"),
 (cut(IB,"    store\n        .format_runs\n        .write()\n        .unwrap()\n        .insert(created_block.id","    // Mirror the split"),"    store_parts(&store, created_block.id, right_runs, right_images);\n\n"),
 (cut(IB,"    let new_block = Block {","    // The frame that owns"),'''    let new_block = Block {
        id: 0,
        created_at: now,
        document_position: new_block_position,
        ..updated_current.clone()
    };

'''),
 (cut(IB,"    let mut owner_frame_id = frame_id;","    let created_block"),'''    let owner_frame_id = owning_frame(uow, &frame_ids, current_block.id)?.unwrap_or(frame_id);

'''),
 (cut(IB,"    let co_idx = updated_frame\n","    updated_frame.updated_at = now;"),'''    let here = current_block.id as i64;
    match updated_frame.child_order.iter().position(|&e| e == here) {
        Some(i) => updated_frame.child_order.insert(i + 1, created_block.id as i64),
        None => updated_frame.child_order.push(created_block.id as i64),
    }
'''),
 (cut(IB,"    let mut blocks_to_update: Vec<Block> = Vec::new();","    if !blocks_to_update"),'''    let blocks_to_update: Vec<Block> = blocks
        .iter()
        .skip(block_idx + 1)
        .map(|b| Block {
            document_position: b.document_position + 1,
            updated_at: now,
            ..b.clone()
        })
        .collect();
'''),
 (cut(IB,"        let snapshot = self\n            .undo_snapshot","        let mut uow = self.uow_factory.create();\n        uow.begin_transaction()?;\n        uow.restore"),'''        let Some(snapshot) = self.undo_snapshot.clone() else {
            return Err(anyhow!("No snapshot available for undo"));
        };

'''),
 ('''        let (result, snapshot) = execute_insert_block(&mut uow, dto)?;
        self.undo_snapshot = Some(snapshot);
        self.last_dto = Some(dto.clone());

        uow.commit()?;
''','''        let (result, snapshot) = execute_insert_block(&mut uow, dto)?;
        uow.commit()?;
        self.undo_snapshot = Some(snapshot);
        self.last_dto = Some(dto.clone());
'''),
 ("fn execute_insert_block(",'''fn block_parts(
    store: &common::database::Store,
    id: EntityId,
) -> (Vec<common::format_runs::FormatRun>, Vec<common::format_runs::ImageAnchor>) {
    let runs = store.format_runs.read().unwrap().get(&id).cloned();
    let images = store.block_images.read().unwrap().get(&id).cloned();
    (runs.unwrap_or_default(), images.unwrap_or_default())
}

fn store_parts(
    store: &common::database::Store,
    id: EntityId,
    runs: Vec<common::format_runs::FormatRun>,
    images: Vec<common::format_runs::ImageAnchor>,
) {
    store.format_runs.write().unwrap().insert(id, runs);
    store.block_images.write().unwrap().insert(id, images);
}

fn owning_frame(
    uow: &Box<dyn InsertBlockUnitOfWorkTrait>,
    frame_ids: &[EntityId],
    block_id: EntityId,
) -> Result<Option<EntityId>> {
    for fid in frame_ids {
        let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
        if block_ids.contains(&block_id) {
            return Ok(Some(*fid));
        }
    }
    Ok(None)
}

fn execute_insert_block('''))],ALL),
("insert-table-row",[ed(IR,
 (cut(IR,"    let mut cells_to_update: Vec<TableCell> = Vec::new();","    if !cells_to_update"),'''    let cells_to_update: Vec<TableCell> = cells
        .iter()
        .filter_map(|cell| {
            let mut moved = cell.clone();
            moved.updated_at = now;
            if cell.row >= dto.row_index {
                moved.row += 1;
            } else if cell.row + cell.row_span > dto.row_index {
                moved.row_span += 1;
            } else {
                return None;
            }
            Some(moved)
        })
        .collect();
'''),
 (cut(IR,"    {\n        let store = uow.store();\n        let parent_frame_id_opt","    // Recalculate document"),"    mirror_cells(&uow.store(), table_id, &new_cell_blocks);\n\n"),
 (cut(IR,"    let mut shifted_blocks: Vec<Block> = Vec::new();","    if !shifted_blocks"),'''    let mut shifted_blocks: Vec<Block> = Vec::new();
    for fid in frame_ids.iter().filter(|f| !cell_frame_set.contains(f)) {
        let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
        let found = uow.get_block_multi(&block_ids)?;
        shifted_blocks.extend(
            found
                .into_iter()
                .flatten()
                .filter(|b| b.document_position >= base_pos)
                .map(|mut b| {
                    b.document_position += added_cells;
                    b.updated_at = now;
                    b
                }),
        );
    }
'''),
 ('''        let (cell_frame_id, created_block) = create_cell_frame(&mut *uow, doc_id, now)?;
        new_cell_blocks.push(created_block);

        let cell = TableCell {''','''        let (cell_frame_id, created_block) = create_cell_frame(&mut *uow, doc_id, now)?;
        let cell = TableCell {'''),
 ('''        uow.create_table_cell(&cell, table_id, -1)?;
''','''        uow.create_table_cell(&cell, table_id, -1)?;
        new_cell_blocks.push(created_block);
'''),
 ("fn execute_insert_table_row(",'''fn mirror_cells(store: &common::database::Store, table_id: EntityId, new_cells: &[Block]) {
    let parent = store
        .frames
        .read()
        .unwrap()
        .values()
        .find(|f| f.table == Some(table_id))
        .and_then(|f| f.parent_frame);
    let Some(parent) = parent else {
        return;
    };
    let mut at = top_level_frame_end_byte(store, parent);
    for block in new_cells {
        rope_insert_block_at(store, at, block.id, "");
        at += 1;
    }
}

fn execute_insert_table_row('''))],ALL),
("rope",[ed(RH,
 ('''    let new_entry_vec_pos = {
        let offsets = store.block_offsets.read().unwrap();
        offsets
            .entries
            .iter()
            .position(|(_, bs)| *bs > byte_pos)
            .unwrap_or(offsets.entries.len())
    };
    {
        let mut rope = store.rope.write().unwrap();
        let char_idx = rope.byte_to_char(byte_pos as usize);
        let mut combined = String::with_capacity(1 + text.len());
        combined.push('\\n');
        combined.push_str(text);
        rope.insert(char_idx, &combined);
    }
''','''    let new_entry_vec_pos = store
        .block_offsets
        .read()
        .unwrap()
        .entries
        .iter()
        .take_while(|(_, start)| *start <= byte_pos)
        .count();
    splice_text(store, byte_pos, &format!("\\n{text}"));
'''),
 ('''    let rope_byte = block_byte_start + byte_offset_in_block;
    {
        let mut rope = store.rope.write().unwrap();
        let char_idx = rope.byte_to_char(rope_byte as usize);
        rope.insert(char_idx, text);
    }
''','''    splice_text(store, block_byte_start + byte_offset_in_block, text);
'''),
 ('''    {
        let mut rope = store.rope.write().unwrap();
        let char_idx = rope.byte_to_char(split_byte as usize);
        rope.insert(char_idx, "\\n");
    }
''','''    splice_text(store, split_byte, "\\n");
'''),
 ('''    store
        .block_offsets
        .write()
        .unwrap()
        .shift_after(split_byte + 1, 1);
''','''    let mut offsets = store.block_offsets.write().unwrap();
    offsets.shift_after(split_byte + 1, 1);
'''),
 ('''    store.block_offsets.write().unwrap().insert_at(
        current_idx + 1,
        OffsetMarker::Block(new_block_id),
        split_byte + 1,
    );
''','''    let marker = OffsetMarker::Block(new_block_id);
    offsets.insert_at(current_idx + 1, marker, split_byte + 1);
'''),
 ("pub fn rope_insert_block_at(",'''fn splice_text(store: &Store, byte: u32, text: &str) {
    let mut rope = store.rope.write().unwrap();
    let at = rope.byte_to_char(byte as usize);
    rope.insert(at, text);
}

pub fn rope_insert_block_at('''))],ALL),
]
