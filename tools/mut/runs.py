F="crates/common/src/format_runs.rs"
M=[
("ins-gt",[(F,"        if run.byte_start >= byte_offset {\n            run.byte_start += inserted_bytes;","        if run.byte_start > byte_offset {\n            run.byte_start += inserted_bytes;")],{"C18":1}),
("ins-edge",[(F,"        } else if run.byte_end >= byte_offset {","        } else if run.byte_end > byte_offset {")],{"C18":1}),
("img-ins",[(F,"        if img.byte_offset >= byte_offset {\n            img.byte_offset += inserted_bytes;","        if img.byte_offset > byte_offset {\n            img.byte_offset += inserted_bytes;")],{"C18":1}),
("del-shift",[(F,"    shift_after(runs, byte_end, -delta);","    shift_after(runs, byte_end + 1, -delta);")],{"C18":1}),
("del-no-coalesce",[(F,"    shift_after(runs, byte_end, -delta);\n    // The shift can make a left-clipped run abut a shifted trailing run\n    // with identical format; coalesce once more to restore the invariant.\n    coalesce_in_place(runs);","    shift_after(runs, byte_end, -delta);")],{}),
("splice-right",[(F,"                byte_start: range.end,\n                byte_end: run.byte_end,","                byte_start: run.byte_start,\n                byte_end: run.byte_end,")],{"C18":1}),
("split-right",[(F,"                byte_start: 0,\n                byte_end: run.byte_end - byte_offset,","                byte_start: 0,\n                byte_end: run.byte_end,")],{"C18":1}),
("split-edge",[(F,"        if img.byte_offset < byte_offset {\n            left","        if img.byte_offset <= byte_offset {\n            left")],{"C18":1}),
("cap-end",[(F,"img.byte_offset >= start && img.byte_offset < end","img.byte_offset >= start && img.byte_offset <= end")],{"C18":1}),
("img-del",[(F,"!(i.byte_offset >= byte_start && i.byte_offset < byte_end)","!(i.byte_offset > byte_start && i.byte_offset < byte_end)")],{"C18":1}),
("coal-fmt",[(F,"        if runs[write].byte_end == runs[read].byte_start && runs[write].format == runs[read].format\n","        if runs[write].byte_end == runs[read].byte_start\n")],{"C18":1}),
("coal-gap",[(F,"        if runs[write].byte_end == runs[read].byte_start && runs[write].format == runs[read].format\n","        if runs[write].format == runs[read].format\n")],{"C18":1}),
("coal-trunc",[(F,"    runs.truncate(write + 1);","    runs.truncate(write);")],{"C18":1}),
("n-dedup",[(F,"""    let mut write = 0usize;
    for read in 1..runs.len() {
        if runs[write].byte_end == runs[read].byte_start && runs[write].format == runs[read].format
        {
            runs[write].byte_end = runs[read].byte_end;
        } else {
            write += 1;
            if write != read {
                runs[write] = runs[read].clone();
            }
        }
    }
    runs.truncate(write + 1);""","""    runs.dedup_by(|next, kept| {
        let joins = kept.byte_end == next.byte_start && kept.format == next.format;
        if joins {
            kept.byte_end = next.byte_end;
        }
        joins
    });""")],{"C18":0}),
("n-split-clip",[(F,"""        if run.byte_end <= byte_offset {
            left.push(run.clone());
        } else if run.byte_start >= byte_offset {
            right.push(FormatRun {
                byte_start: run.byte_start - byte_offset,
                byte_end: run.byte_end - byte_offset,
                format: run.format.clone(),
            });
        } else {""","""        if run.byte_end <= byte_offset {
            left.push(run.clone());
            continue;
        }
        let inside = run.byte_start < byte_offset;
        if !inside {
            let mut moved = run.clone();
            moved.byte_start -= byte_offset;
            moved.byte_end -= byte_offset;
            right.push(moved);
        } else {""")],{"C18":0}),
("n-retain",[(F,"    images.retain(|i| !(i.byte_offset >= byte_start && i.byte_offset < byte_end));","    images.retain(|i| !(byte_start..byte_end).contains(&i.byte_offset));")],{"C18":0}),
("n-filtermap",[(F,"""    let mut out = Vec::new();
    for img in images {
        if img.byte_offset >= start && img.byte_offset < end {
            out.push((img.byte_offset, img.format.clone()));
        }
    }
    out""","""    images
        .iter()
        .filter(|img| img.byte_offset >= start && img.byte_offset < end)
        .map(|img| (img.byte_offset, img.format.clone()))
        .collect()""")],{"C18":0}),
("n-index",[(F,"    for img in images.iter_mut() {\n        if img.byte_offset >= threshold {","    for i in 0..images.len() {\n        let img = &mut images[i];\n        if img.byte_offset >= threshold {")],{"C18":0}),
("n-clip-helper",[(F,"        let clipped_start = std::cmp::max(run.byte_start, start);","        let clipped_start = run.byte_start.clamp(start, u32::MAX);")],{"C18":0}),
]
E="crates/document_editing/src/use_cases/"
M+=[
("no-img-shift",[(E+"insert_text_uc.rs","        if let Some(images) = images_map.get_mut(&block.id) {\n            shift_images_for_insert(images, byte_offset, inserted_byte_len);\n        }","        if let Some(images) = images_map.get_mut(&block.id) {\n            let _ = (images, byte_offset, inserted_byte_len);\n            let _ = shift_images_for_insert;\n        }")],{"C18":1}),
("chars-len",[("crates/document_search/src/use_cases/replace_text_uc.rs","    let inserted_byte_len = replacement.len() as u32;","    let inserted_byte_len = replacement.chars().count() as u32;")],{"C18":1}),
("split-no-right",[(E+"insert_block_uc.rs","split_images_at(&current_images, byte_split)","split_images_at(&current_images, byte_split + 1)")],{"C18":1}),
("n-let-off",[(E+"insert_text_uc.rs","        shift_runs_for_insert(runs, byte_offset, inserted_byte_len);\n        debug_assert_well_formed(runs, new_plain.len());","        let at = byte_offset;\n        let n = inserted_byte_len;\n        shift_runs_for_insert(runs, at, n);\n        debug_assert_well_formed(runs, new_plain.len());")],{"C18":0}),
("n-order",[("crates/document_search/src/use_cases/replace_text_uc.rs","    let _images_removed = {\n        let mut images_map = store.block_images.write().unwrap();\n        let images = images_map.entry(block.id).or_default();\n        let removed = shift_images_for_delete(images, byte_start, byte_end);\n        shift_images_for_insert(images, byte_start, inserted_byte_len);\n        removed as i64\n    };\n\n    let mut updated_block","    if let Some(images) = store.block_images.write().unwrap().get_mut(&block.id) {\n        shift_images_for_delete(images, byte_start, byte_end);\n        shift_images_for_insert(images, byte_start, inserted_byte_len);\n    }\n\n    let mut updated_block")],{"C18":0}),
]
