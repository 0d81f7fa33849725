H="crates/public_api/src/highlight.rs"
C="crates/public_api/src/convert.rs"
T="crates/document_formatting/src/use_cases/set_text_format_uc.rs"
G="crates/document_formatting/src/use_cases/merge_text_format_uc.rs"
B="crates/document_formatting/src/use_cases/set_block_format_uc.rs"
F="crates/document_editing/src/use_cases/insert_fragment_uc.rs"
X="crates/document_inspection/src/use_cases/extract_fragment_uc.rs"
M=[
("or-swap",[(H,"hl.word_spacing.or(base.word_spacing)","base.word_spacing.or(hl.word_spacing)")],{"C22":1}),
("or-cross",[(H,"hl.word_spacing.or(base.word_spacing)","hl.letter_spacing.or(base.word_spacing)")],{"C22":1}),
("hl-drop",[(H,"        tooltip: hl.tooltip.clone().or_else(|| base.tooltip.clone()),","        tooltip: base.tooltip.clone(),")],{"C22":1}),
("hl-nobase",[(H,"hl.font_weight.or(base.font_weight)","hl.font_weight")],{"C22":1}),
("mrg-guard",[(H,"        if f.underline_color.is_some() {\n","        if f.foreground_color.is_some() {\n")],{"C22":1}),
("mrg-nest",[(H,"        if f.font_italic.is_some() {\n            merged.font_italic = f.font_italic;\n        }\n        if f.font_underline.is_some() {\n            merged.font_underline = f.font_underline;\n        }","        if f.font_italic.is_some() {\n            merged.font_italic = f.font_italic;\n        } else if f.font_underline.is_some() {\n            merged.font_underline = f.font_underline;\n        }")],{"C22":1}),
("txt-uncond",[(T,"    if let Some(v) = dto.word_spacing {\n        out.word_spacing = Some(v);\n    }","    out.word_spacing = dto.word_spacing;")],{"C22":1}),
("blk-cross",[(B,"updated.fmt_indent = Some(v)","updated.fmt_text_indent = Some(v)")],{"C22":1}),
("mtf-drop",[(G,"    if let Some(v) = dto.font_strikeout {\n        out.font_strikeout = Some(v);\n    }\n","")],{"C22":1}),
("n-or",[(T,"    if let Some(v) = dto.word_spacing {\n        out.word_spacing = Some(v);\n    }","    out.word_spacing = dto.word_spacing.or(out.word_spacing);")],{"C22":0,"C23":0}),
("n-match",[(H,"hl.word_spacing.or(base.word_spacing)","match hl.word_spacing { Some(v) => Some(v), None => base.word_spacing }")],{"C22":0,"C23":0}),
("n-if",[(H,"hl.word_spacing.or(base.word_spacing)","if hl.word_spacing.is_some() { hl.word_spacing } else { base.word_spacing }")],{"C22":0,"C23":0}),
("n-helper",[(T,"    if let Some(v) = dto.word_spacing {\n        out.word_spacing = Some(v);\n    }","    put(&dto.word_spacing, &mut out.word_spacing);"),(T,"fn merge_dto(","fn put<T: Clone>(v: &Option<T>, to: &mut Option<T>) {\n    if v.is_some() {\n        *to = v.clone();\n    }\n}\n\nfn merge_dto(")],{"C22":0,"C23":0}),
("n-split",[(T,"    if let Some(v) = dto.font_strikeout {\n        out.font_strikeout = Some(v);\n    }","    merge_rest(&mut out, dto);\n    out\n}\n\nfn merge_rest(out: &mut CharacterFormat, dto: &SetTextFormatDto) {\n    if let Some(v) = dto.font_strikeout {\n        out.font_strikeout = Some(v);\n    }"),(T,"        out.vertical_alignment = Some(vertical_alignment_to_entity(v));\n    }\n    out\n","        out.vertical_alignment = Some(vertical_alignment_to_entity(v));\n    }\n")],{"C22":0,"C23":0}),
("cv-cross",[(C,"            whole_word: self.whole_word,\n            use_regex: self.use_regex,\n            search_backward","            whole_word: self.case_sensitive,\n            use_regex: self.use_regex,\n            search_backward")],{"C23":1}),
("cv-drop",[(C,"            use_regex: self.use_regex,\n            replace_all,","            use_regex: false,\n            replace_all,")],{"C23":1}),
("cv-enum",[(T,"crate::dtos::CharVerticalAlignment::Top => common::entities::CharVerticalAlignment::Top","crate::dtos::CharVerticalAlignment::Top => common::entities::CharVerticalAlignment::Middle")],{"C23":1}),
("frag-drop",[(F,"                    fmt_code_language: frag_block.code_language.clone(),","                    fmt_code_language: None,")],{"C23":1}),
("frag-set-drop",[(F,"        updated_current.fmt_code_language = fb.code_language.clone();\n","")],{"C23":1}),
("split-drop",[("crates/document_editing/src/use_cases/insert_block_uc.rs","        fmt_text_indent: current_block.fmt_text_indent,","        fmt_text_indent: None,")],{"C23":1}),
("paste-code",[("crates/public_api/src/fragment.rs","                    is_code_block: pb.is_code_block.then_some(true),","                    is_code_block: None,")],{"C23":1}),
("extract-cond",[(X,"        is_code_block: if is_full_block {","        is_code_block: if is_full_block && block.fmt_code_language.is_some() {")],{"C23":1}),
("n-then",[("crates/public_api/src/fragment.rs","                    is_code_block: pb.is_code_block.then_some(true),","                    is_code_block: if pb.is_code_block { Some(true) } else { None },")],{"C23":0}),
("n-let",[(C,"        frontend::document_search::FindAllDto {\n            query: query.into(),\n            case_sensitive: self.case_sensitive,","        let Self { case_sensitive, .. } = self;\n        let cs = *case_sensitive;\n        frontend::document_search::FindAllDto {\n            query: query.into(),\n            case_sensitive: cs,")],{"C23":0}),
]
