F="crates/common/src/database/block_offset_index.rs"
V={"C16":1}
M=[
("ins-gt",[(F,"            if *p >= position && *m != marker {","            if *p > position && *m != marker {")],V),
("ins-noidx",[(F,"        self.marker_index.insert(marker, position);\n        if matches!(marker, OffsetMarker::TableAnchor(_)) {\n            self.table_anchor_count += 1;\n        }\n    }\n\n    /// Append","        self.marker_index.insert(marker, position);\n    }\n\n    /// Append")],V),
("rem-anchor",[(F,"        if matches!(removed.0, OffsetMarker::TableAnchor(_)) {\n            self.table_anchor_count = self.table_anchor_count.saturating_sub(1);\n        }\n","")],V),
("rem-stay",[(F,"        self.marker_index.remove(&removed.0);\n","")],V),
("drain-1",[(F,"                *p -= shift;","                *p -= shift - 1;")],V),
("n-drain-start",[(F,"            if *p > end_inclusive {","            if *p > start {")],{"C16":0}),
("drain-keys",[(F,"        for (m, _) in &removed {\n            self.marker_index.remove(m);\n        }\n","")],V),
("shift-lt",[(F,"*bs < threshold","*bs <= threshold")],V),
("shift-tot",[(F,"        self.total_bytes = apply_delta(self.total_bytes, delta);\n","        if start < self.entries.len() {\n            self.total_bytes = apply_delta(self.total_bytes, delta);\n        }\n")],V),
("delta",[(F,"        let abs = (-delta) as u32;","        let abs = (-delta - 1) as u32;")],V),
("n-shift",[(F,"""        let start = self.entries.partition_point(|(_, bs)| *bs < threshold);
        if start < self.entries.len() {
            for (_, bs) in Arc::make_mut(&mut self.entries)[start..].iter_mut() {
                *bs = apply_delta(*bs, delta);
            }
        }""","""        for (_, bs) in Arc::make_mut(&mut self.entries).iter_mut() {
            if *bs >= threshold {
                *bs = apply_delta(*bs, delta);
            }
        }""")],{"C16":0}),
("n-shift2",[(F,"""            for (_, bs) in Arc::make_mut(&mut self.entries)[start..].iter_mut() {
                *bs = apply_delta(*bs, delta);
            }""","""            let entries = Arc::make_mut(&mut self.entries);
            for i in start..entries.len() {
                entries[i].1 = apply_delta(entries[i].1, delta);
            }""")],{"C16":0}),
("rb-anch",[(F,"        self.table_anchor_count = anchors;\n","")],V),
("rb-merge",[(F,"        let mut idx = ImHashMap::new();","        let mut idx = self.marker_index.clone();")],V),
("clear-cnt",[(F,"        self.total_bytes = 0;\n        self.table_anchor_count = 0;","        self.total_bytes = 0;")],V),
("push-after",[(F,"        let position = self.entries.len();\n        Arc::make_mut(&mut self.entries).push((marker, byte_start));","        Arc::make_mut(&mut self.entries).push((marker, byte_start));\n        let position = self.entries.len();")],V),
("range-end",[(F,"            .get(idx + 1)\n            .map","            .get(idx + 2)\n            .map")],V),
("succ",[(F,"        let has_successor = idx + 1 < self.entries.len();","        let has_successor = idx < self.entries.len();")],V),
("mab",[(F,"            Err(i) => i - 1,","            Err(i) => i.min(self.entries.len() - 1),")],V),
("n-ge",[(F,"            if *p > position {\n                *p -= 1;","            if *p >= position {\n                *p -= 1;")],{"C16":0}),
("n-order",[(F,"        self.marker_index.insert(marker, position);\n        if matches!(marker, OffsetMarker::TableAnchor(_)) {\n            self.table_anchor_count += 1;\n        }\n    }\n\n    /// Append","        if let OffsetMarker::TableAnchor(_) = marker {\n            self.table_anchor_count += 1;\n        }\n        self.marker_index.insert(marker, position);\n    }\n\n    /// Append")],{"C16":0}),
("n-rebuild",[(F,"""        self.marker_index.remove(&removed.0);
        // All markers at positions > `position` shifted down by 1.
        for (_, p) in self.marker_index.iter_mut() {
            if *p > position {
                *p -= 1;
            }
        }
        if matches!(removed.0, OffsetMarker::TableAnchor(_)) {
            self.table_anchor_count = self.table_anchor_count.saturating_sub(1);
        }
""","        self.rebuild_marker_index();\n")],{"C16":0}),
("n-drain2",[(F,"        let shift = removed.len();","        let shift = end_inclusive + 1 - start;")],{"C16":0}),
("n-drain3",[(F,"""        for (m, _) in &removed {
            self.marker_index.remove(m);
        }
        let shift""","""        removed.iter().for_each(|(m, _)| {
            self.marker_index.remove(m);
        });
        let shift""")],{"C16":0}),
("n-rb",[(F,"""        for (i, (m, _)) in self.entries.iter().enumerate() {
            idx.insert(*m, i);
            if matches""","""        for i in 0..self.entries.len() {
            let m = &self.entries[i].0;
            idx.insert(*m, i);
            if matches""")],{"C16":0}),
("n-clear",[(F,"        Arc::make_mut(&mut self.entries).clear();\n        self.marker_index = ImHashMap::new();\n        self.total_bytes = 0;\n        self.table_anchor_count = 0;","        *self = Self::default();")],{"C16":0}),
("n-mab",[(F,"""        let idx = match self.entries.binary_search_by_key(&byte, |(_, bs)| *bs) {
            Ok(i) => i,
            Err(0) => return None,
            Err(i) => i - 1,
        };
        Some(self.entries[idx].0)""","""        let idx = self.entries.partition_point(|(_, bs)| *bs <= byte);
        if idx == 0 {
            return None;
        }
        Some(self.entries[idx - 1].0)""")],{"C16":0}),
]
