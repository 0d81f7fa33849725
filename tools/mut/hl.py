H = "crates/public_api/src/highlight.rs"
C = "crates/public_api/src/cursor.rs"
D = "crates/public_api/src/document.rs"
B = "crates/public_api/src/text_block.rs"
BRK = "if i > start_idx && old_state == Some(state) {"
OLD = "                .map(|d| d.state);\n\n            let mut ctx"
M = [
 ("h-first", [(H, BRK, "if old_state == Some(state) {")], {"C46": 1}),
 ("h-flip", [(H, BRK, "if i > start_idx && old_state != Some(state) {")], {"C46": 1}),
 ("h-always", [(H, BRK, "if i > start_idx {")], {"C46": 1}),
 ("h-default", [(H, OLD, "                .map_or(-1, |d| d.state);\n\n            let mut ctx"), (H, BRK, "if i > start_idx && old_state == state {")], {"C46": 1}),
 ("h-default2", [(H, BRK, "if i > start_idx && old_state.unwrap_or(-1) == state {")], {"C46": 1}),
 ("h-match", [(H, OLD, "                .map(|d| d.state);\n            let old_state = match old_state { Some(s) => s, None => 0 };\n\n            let mut ctx"), (H, BRK, "if i > start_idx && old_state == state {")], {"C46": 1}),
 ("h-thread", [(H, "hl.blocks.get(&prev_bid).map_or(-1, |d| d.state)", "-1 + (prev_bid as i64) * 0")], {"C46": 1}),
 ("h-thread2", [(H, "            previous_state = state;\n", "            let _ = (state, &mut previous_state);\n")], {"C46": 1}),
 ("h-sort", [(H, "    blocks.sort_by_key(|b| b.document_position);\n", "")], {"C46": 1}),
 ("h-stale", [(H, "    crate::inner::refresh_block_positions(&mut blocks, store);\n", "")], {"C46": 1}),
 ("h-keepsome", [(H, "            // Only store if there's something to store.\n", "            if spans.is_empty() && state == -1 { continue; }\n")], {"C46": 1}),
 ("h-shown", [(B, "        && !block_hl.spans.is_empty()\n", "        && !block_hl.spans.is_empty()\n        && prefetched_text.is_none()\n")], {"C46": 1}),
 ("h-snap", [(B, "    let fragments = build_raw_fragments(inner, block_id, prefetched_text);\n", "    let fragments = build_raw_fragments(inner, block_id, prefetched_text);\n    if prefetched_text.is_some_and(|t| t.is_empty()) { return fragments; }\n")], {"C46": 1}),
 ("h-place", [(C, "            inner.rehighlight_affected(edit_pos);\n            inner.queue_event(DocumentEvent::ContentsChanged {\n                position: edit_pos,\n                chars_removed: removed,\n                chars_added: 0,", "            inner.rehighlight_affected(edit_pos + removed);\n            inner.queue_event(DocumentEvent::ContentsChanged {\n                position: edit_pos,\n                chars_removed: removed,\n                chars_added: 0,")], {"C46": 1}),
 ("h-skip", [(C, "            inner.rehighlight_affected(pos.min(anchor));\n            inner.queue_event(DocumentEvent::ContentsChanged {\n                position: pos.min(anchor),\n                chars_removed: 0,", "            inner.queue_event(DocumentEvent::ContentsChanged {\n                position: pos.min(anchor),\n                chars_removed: 0,")], {"C46": 1}),
 ("h-restart", [(H, "            let previous_state = if i == 0 {", "            let previous_state = if i == start_idx {")], {"C46": 1}),
 # same behaviour
 ("n-checked", [(H, """            let previous_state = if i == 0 {
                -1
            } else {
                let prev_bid = blocks[i - 1].0 as usize;
                hl.blocks.get(&prev_bid).map_or(-1, |d| d.state)
            };""", """            let previous_state = i
                .checked_sub(1)
                .and_then(|j| hl.blocks.get(&(blocks[j].0 as usize)))
                .map_or(-1, |d| d.state);""")], {"C46": 0}),
 ("n-some-and", [(H, BRK, "if i > start_idx && old_state.is_some_and(|o| o == state) {")], {"C46": 0}),
 ("n-iflet", [(H, BRK, "if let Some(o) = old_state && i > start_idx && o == state {")], {"C46": 0}),
 ("n-nested", [(H, BRK + "\n                break;\n            }", "if i <= start_idx {\n                continue;\n            }\n            if old_state == Some(state) {\n                return;\n            }")], {"C46": 0}),
 ("n-flag", [(H, BRK, "let settled = i != start_idx && old_state == Some(state);\n            if settled {")], {"C46": 0}),
 ("n-firstflag", [(H, "        for i in start_idx..blocks.len() {\n", "        let mut first = true;\n        for i in start_idx..blocks.len() {\n"), (H, BRK, "let was_first = std::mem::replace(&mut first, false);\n            if !was_first && old_state == Some(state) {")], {"C46": 0}),
 ("n-while", [(H, "        for i in start_idx..blocks.len() {\n", "        let mut next = start_idx;\n        while next < blocks.len() {\n            let i = next;\n            next += 1;\n")], {"C46": 0}),
 ("n-ins", [(H, "            hl.blocks.insert(\n                bid,\n                BlockHighlightData {\n                    spans,\n                    state,\n                    user_data,\n                },\n            );\n\n            // If we", "            let _gone = hl.blocks.insert(\n                bid,\n                BlockHighlightData {\n                    spans,\n                    state,\n                    user_data,\n                },\n            );\n\n            // If we")], {"C46": 0}),
 ("n-prevmatch", [(H, "hl.blocks.get(&prev_bid).map_or(-1, |d| d.state)", "match hl.blocks.get(&prev_bid) { Some(d) => d.state, None => -1 }")], {"C46": 0}),
 ("n-shown", [(B, """    if let Some(ref hl) = inner.highlight
        && let Some(block_hl) = hl.blocks.get(&(block_id as usize))
        && !block_hl.spans.is_empty()
    {
        return crate::highlight::merge_highlight_spans(fragments, &block_hl.spans);
    }

    fragments
""", """    let data = inner.highlight.as_ref().and_then(|hl| hl.blocks.get(&(block_id as usize)));
    match data {
        Some(d) => crate::highlight::merge_highlight_spans(fragments, &d.spans),
        None => fragments,
    }
""")], {"C46": 0}),

]
_src = open("/repo/"+H).read()
_a = _src.index("            // Take existing user data if available."); _b = _src.index("            // If we are past the initial block")
_p = _src[_a:_b]
M += [
 ("n-helper", [(H, _p, "            let (old_state, state) = self.highlight_one(&*highlighter, bid, text, previous_state);\n\n"),
   (H, "    /// Re-highlight blocks affected by a content", """    fn highlight_one(
        &mut self,
        highlighter: &dyn SyntaxHighlighter,
        bid: usize,
        text: &str,
        previous_state: i64,
    ) -> (Option<i64>, i64) {
        let hl = self.highlight.as_mut().unwrap();
        let old_state = hl.blocks.get(&bid).map(|d| d.state);
        let user_data = hl.blocks.get_mut(&bid).and_then(|d| d.user_data.take());
        let mut ctx = HighlightContext::new(bid, previous_state, user_data);
        highlighter.highlight_block(text, &mut ctx);
        let (spans, state, user_data) = ctx.into_parts();
        hl.blocks.insert(
            bid,
            BlockHighlightData {
                spans,
                state,
                user_data,
            },
        );
        (old_state, state)
    }

    /// Re-highlight blocks affected by a content""")], {"C46": 0, "C20": 0, "C38": 0}),
 ("h-helper-bad", [(H, _p, "            let (old_state, state) = self.highlight_one(&*highlighter, bid, text, previous_state);\n\n"), (H, BRK, "if i > start_idx && old_state == state {"),
   (H, "    /// Re-highlight blocks affected by a content", """    fn highlight_one(
        &mut self,
        highlighter: &dyn SyntaxHighlighter,
        bid: usize,
        text: &str,
        previous_state: i64,
    ) -> (i64, i64) {
        let hl = self.highlight.as_mut().unwrap();
        let old_state = hl.blocks.get(&bid).map_or(-1, |d| d.state);
        let user_data = hl.blocks.get_mut(&bid).and_then(|d| d.user_data.take());
        let mut ctx = HighlightContext::new(bid, previous_state, user_data);
        highlighter.highlight_block(text, &mut ctx);
        let (spans, state, user_data) = ctx.into_parts();
        hl.blocks.insert(
            bid,
            BlockHighlightData {
                spans,
                state,
                user_data,
            },
        );
        (old_state, state)
    }

    /// Re-highlight blocks affected by a content""")], {"C46": 1}),
 ("n-skip", [(H, "        for i in start_idx..blocks.len() {\n            let (block_id, ref text) = blocks[i];\n", "        for (i, (block_id, text)) in blocks.iter().enumerate().skip(start_idx) {\n            let block_id = *block_id;\n")], {"C46": 0}),
 ("n-running", [(H, "        for i in start_idx..blocks.len() {\n", "        let mut carried = start_idx\n            .checked_sub(1)\n            .and_then(|j| self.highlight.as_ref().unwrap().blocks.get(&(blocks[j].0 as usize)))\n            .map_or(-1, |d| d.state);\n        for i in start_idx..blocks.len() {\n"),
   (H, """            let previous_state = if i == 0 {
                -1
            } else {
                let prev_bid = blocks[i - 1].0 as usize;
                hl.blocks.get(&prev_bid).map_or(-1, |d| d.state)
            };""", "            let _ = hl;\n            let previous_state = carried;"),
   (H, "            // If we are past the initial block", "            carried = state;\n            // If we are past the initial block")], {"C46": 0}),
]
