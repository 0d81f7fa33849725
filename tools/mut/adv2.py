C="crates/public_api/src/cursor.rs"
IN="crates/public_api/src/inner.rs"
AO="""    if offset <= edit_pos {
        offset
    } else if offset <= edit_pos + removed {
        edit_pos + added
    } else {
        offset - removed + added
    }
"""
LI="            self.finish_edit(&mut inner, new_pos.saturating_sub(1), 0, new_pos, 1)\n"
DD="""            let edit_pos = pos.min(anchor);
            let removed = pos.max(anchor) - edit_pos;
            let new_pos = to_usize(result.new_position);
            inner.adjust_cursors(edit_pos, removed, 0);
"""
IB="""                let result = replace_selection(&mut inner, pos, anchor, insert)?;
                (result, pos.max(anchor) - pos.min(anchor))
            } else {
                (insert(&inner, pos)?, 0)
            };

            let edit_pos = pos.min(anchor);
"""
M=[
("ao-lt",[(IN,AO,AO.replace("offset <= edit_pos {","offset < edit_pos {"))],{"C11":1}),
("ao-inside",[(IN,AO,AO.replace("        edit_pos + added\n","        edit_pos + removed + added\n"))],{"C11":1}),
("ao-order",[(IN,AO,"    if offset > edit_pos + removed {\n        offset + added\n    } else if offset > edit_pos {\n        edit_pos + added\n    } else {\n        offset\n    }\n")],{"C11":1}),
("ao-inside-start",[(IN,AO,AO.replace("        edit_pos + added\n","        edit_pos\n").replace("offset <= edit_pos + removed","offset < edit_pos + removed"))],{"C11":0}),
("ao-end",[(IN,AO,AO.replace("        edit_pos + added\n","        edit_pos\n"))],{"C11":1}),
("n-ao-match",[(IN,AO,"    let end = edit_pos + removed;\n    match offset {\n        o if o <= edit_pos => o,\n        o if o >= end => o - removed + added,\n        _ => edit_pos + added,\n    }\n")],{"C11":0}),
("n-ao-rel",[(IN,AO,"    if offset <= edit_pos {\n        return offset;\n    }\n    let into = offset - edit_pos;\n    if into <= removed {\n        edit_pos + added\n    } else {\n        edit_pos + added + (into - removed)\n    }\n")],{"C11":0}),
("n-ao-sat",[(IN,AO,"    if offset <= edit_pos {\n        return offset;\n    }\n    edit_pos + added + offset.saturating_sub(edit_pos + removed)\n")],{"C11":0}),
("list-old",[(C,LI,"            self.finish_edit(&mut inner, pos.min(anchor), pos.max(anchor) - pos.min(anchor), new_pos, 1)\n")],{"C11":1}),
("del-pos",[(C,DD,DD.replace("let edit_pos = pos.min(anchor);","let edit_pos = pos;"))],{"C11":1}),
("del-anchor",[(C,DD,DD.replace("pos.max(anchor) - edit_pos","anchor.saturating_sub(pos)"))],{"C11":1}),
("n-del-if",[(C,DD,"""            let (edit_pos, end) = if pos < anchor { (pos, anchor) } else { (anchor, pos) };
            let removed = end - edit_pos;
            let new_pos = to_usize(result.new_position);
            inner.adjust_cursors(edit_pos, removed, 0);
""")],{"C11":0}),
("n-del-absdiff",[(C,DD,DD.replace("pos.max(anchor) - edit_pos","pos.abs_diff(anchor)"))],{"C11":0}),
("blk-norem",[(C,IB,IB.replace("(result, pos.max(anchor) - pos.min(anchor))","(result, 0)"))],{"C11":1}),
("blk-pos",[(C,IB,IB.replace("let edit_pos = pos.min(anchor);","let edit_pos = pos;"))],{"C11":1}),
("sel-noclear",[(IN,"                data.cell_selection_override = None;\n","                if removed > 0 {\n                    data.cell_selection_override = None;\n                }\n")],{"C11":1}),
("anchor-only-sel",[(IN,"                data.anchor = adjust_offset(data.anchor, edit_pos, removed, added);\n","                if data.anchor != edit_pos {\n                    data.anchor = adjust_offset(data.anchor, edit_pos, removed, added);\n                }\n")],{"C11":1}),
]
M+=[
("del-if",[(C,DD,"""            let (edit_pos, end) = if pos > anchor { (pos, anchor) } else { (anchor, pos) };
            let removed = end.max(edit_pos) - edit_pos.min(end);
            let new_pos = to_usize(result.new_position);
            inner.adjust_cursors(edit_pos, removed, 0);
""")],{"C11":1}),
("blk-swapped",[(C,IB,IB.replace("(result, pos.max(anchor) - pos.min(anchor))","(result, pos.max(anchor) - pos.max(anchor))"))],{"C11":1}),
]
