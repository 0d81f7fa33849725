I="crates/document_editing/src/use_cases/insert_text_uc.rs"
S="crates/document_search/src/use_cases/search_helpers.rs"
G="crates/document_inspection/src/use_cases/get_text_at_position_uc.rs"
HL="crates/public_api/src/highlight.rs"
TB="crates/public_api/src/text_block.rs"
D="crates/document_editing/src/use_cases/delete_text_uc.rs"
V={"C45":1}
N={"C45":0}
CNT="    let inserted_char_len = dto.text.chars().count() as i64;\n\n    let mut new_plain"
LEN="    let inserted_byte_len = dto.text.len() as u32;\n"
BO="    let byte_offset = logical_offset_to_byte(&block_text, &original_block_images, offset);\n    let inserted_byte_len"
MAP="""    let mut map = vec![0usize; text.len() + 1];
    let mut char_idx = 0;
    for (byte_idx, _) in text.char_indices() {
        map[byte_idx] = char_idx;
        char_idx += 1;
    }
    map[text.len()] = char_idx;
    map
"""
M=[
("len",[(I,CNT,CNT.replace("chars().count()","len()"))],V),
("raw-offset",[(I,BO,BO.replace("logical_offset_to_byte(&block_text, &original_block_images, offset)","(offset as u32).min(block_text.len() as u32)"))],V),
("char-len",[(I,LEN,"    let inserted_byte_len = dto.text.chars().count() as u32;\n")],V),
("map-rev",[(S,"        map[byte_idx] = char_idx;\n","        map[char_idx] = byte_idx;\n")],V),
("find",[(G,"                let elem_char_len = elem_text.chars().count();","                let elem_char_len = elem_text.len();")],V),
("slice-len",[(D,"            .map(|t| t.chars().count() as i64)","            .map(|t| t.len() as i64)")],V),
("offset-cond",[(I,CNT,"    let inserted_char_len = if dto.text.contains(' ') {\n        dto.text.chars().count() as i64\n    } else {\n        dto.text.len() as i64\n    };\n\n    let mut new_plain")],V),
("helper-wrong",[(I,CNT,"    let inserted_char_len = size_of_text(&dto.text);\n\n    let mut new_plain"),(I,"fn execute_insert_simple(","fn size_of_text(t: &str) -> i64 {\n    t.len() as i64\n}\n\nfn execute_insert_simple(")],V),
("pos-mix",[(I,"            new_position: block_pos + offset + inserted_char_len,\n            blocks_affected: 1,\n        },\n        InsertTextUndo::Simple","            new_position: block_pos + offset + inserted_byte_len as i64,\n            blocks_affected: 1,\n        },\n        InsertTextUndo::Simple")],V),
("n-helper",[(I,CNT,"    let inserted_char_len = chars_in(&dto.text);\n\n    let mut new_plain"),(I,"fn execute_insert_simple(","fn chars_in(t: &str) -> i64 {\n    t.chars().count() as i64\n}\n\nfn execute_insert_simple(")],N),
("n-both",[(I,LEN,"    let (inserted_byte_len, n_chars) = sizes(&dto.text);\n"),(I,CNT,"    let inserted_char_len = n_chars;\n\n    let mut new_plain"),(I,"fn execute_insert_simple(","fn sizes(t: &str) -> (u32, i64) {\n    (t.len() as u32, t.chars().count() as i64)\n}\n\nfn execute_insert_simple(")],N),
("n-clamp",[(I,CNT,"    let inserted_char_len = clamp0(dto.text.chars().count() as i64);\n\n    let mut new_plain"),(I,LEN,"    let inserted_byte_len = clamp0(dto.text.len() as i64) as u32;\n"),(I,"fn execute_insert_simple(","fn clamp0(n: i64) -> i64 {\n    n.max(0)\n}\n\nfn execute_insert_simple(")],N),
("n-max",[(I,CNT,"    let inserted_char_len = larger(0, dto.text.chars().count() as i64);\n\n    let mut new_plain"),(I,LEN,"    let inserted_byte_len = larger(0u32, dto.text.len() as u32);\n"),(I,"fn execute_insert_simple(","fn larger<T: Ord>(a: T, b: T) -> T {\n    if a > b { a } else { b }\n}\n\nfn execute_insert_simple(")],N),
("n-fold",[(I,CNT,"    let mut inserted_char_len = 0i64;\n    for _ in dto.text.chars() {\n        inserted_char_len += 1;\n    }\n\n    let mut new_plain")],N),
("n-utf8",[(I,LEN,"    let inserted_byte_len: u32 = dto.text.chars().map(|c| c.len_utf8() as u32).sum();\n")],N),
("n-ci",[(I,CNT,"    let inserted_char_len = dto.text.char_indices().count() as i64;\n\n    let mut new_plain")],N),
("n-map",[(S,MAP,"    let mut map = vec![0usize; text.len() + 1];\n    for (char_idx, (byte_idx, _)) in text.char_indices().enumerate() {\n        map[byte_idx] = char_idx;\n    }\n    map[text.len()] = text.chars().count();\n    map\n")],N),
("n-map2",[(S,MAP,"    let mut map = vec![0usize; text.len() + 1];\n    let mut at = 0usize;\n    for (char_idx, ch) in text.chars().enumerate() {\n        map[at] = char_idx;\n        at += ch.len_utf8();\n    }\n    map[at] = text.chars().count();\n    map\n")],N),
("n-hl",[(HL,"    for (byte_off, _word) in text.unicode_word_indices() {\n        let char_idx = byte_to_char\n            .iter()\n            .find(|(bi, _)| *bi == byte_off)\n            .map(|(_, ci)| *ci)\n            .unwrap_or(0);\n","    for (byte_off, _word) in text.unicode_word_indices() {\n        let char_idx = text[..byte_off].chars().count();\n")],N),
("n-hl2",[(HL,"    for (ci, (bi, _)) in text.char_indices().enumerate() {\n        byte_to_char.push((bi, ci));\n    }\n","    byte_to_char.extend(text.char_indices().enumerate().map(|(ci, (bi, _))| (bi, ci)));\n")],N),
("n-match",[(G,"                    InlineContent::Text(s) => current_byte_offset += s.len() as u32,","                    InlineContent::Text(s) => {\n                        let n = s.as_bytes().len() as u32;\n                        current_byte_offset += n;\n                    }")],N),
("n-struct",[(I,BO,"    struct Span {\n        at: u32,\n        bytes: u32,\n        chars: i64,\n    }\n    let span = Span {\n        at: logical_offset_to_byte(&block_text, &original_block_images, offset),\n        bytes: dto.text.len() as u32,\n        chars: dto.text.chars().count() as i64,\n    };\n    let byte_offset = span.at;\n    debug_assert!(span.bytes > 0 || span.chars == 0);\n    let inserted_byte_len")],N),
("n-delloop",[(D,"            .map(|t| t.chars().count() as i64)\n            .sum();","            .map(|t| t.chars().map(|_| 1i64).sum::<i64>())\n            .sum();")],N),
("n-delfold",[(D,"            .map(|t| t.chars().count() as i64)\n            .sum();","            .fold(0i64, |n, t| n + t.chars().count() as i64);")],N),
("n-isempty",[(I,LEN,LEN+"    let nothing = inserted_byte_len == 0 || dto.text.chars().count() == 0;\n    debug_assert_eq!(nothing, dto.text.is_empty());\n")],N),
("n-ascii",[(I,CNT,"    let inserted_char_len = if dto.text.is_ascii() {\n        dto.text.len() as i64\n    } else {\n        dto.text.chars().count() as i64\n    };\n\n    let mut new_plain")],N),
("n-tuplepos",[(I,"            new_position: block_pos + offset + inserted_char_len,\n            blocks_affected: 1,\n        },\n        InsertTextUndo::Simple","            new_position: {\n                let parts = [block_pos, offset, inserted_char_len];\n                parts.iter().sum()\n            },\n            blocks_affected: 1,\n        },\n        InsertTextUndo::Simple")],N),
]
