H = "crates/public_api/src/highlight.rs"
I = "crates/public_api/src/inner.rs"
D = "crates/public_api/src/document.rs"
S = [
dict(id="s06-block-count-high-mark", prop="C12",
 edits=[(I, "                self.last_block_count = new_count;\n                self.queue", "                self.last_block_count = self.last_block_count.max(new_count);\n                self.queue")],
 needs="the block count falling (here through an undo) and then rising again to a count seen before",
 breaks="The block count the next check compares with never falls, so after blocks were removed, adding them again is not announced.",
 main=r'''
use std::sync::{Arc, Mutex};
use text_document::*;

fn main() {
    let doc = TextDocument::new();
    let seen = Arc::new(Mutex::new(Vec::new()));
    let s = seen.clone();
    let _sub = doc.on_change(move |e| {
        if let DocumentEvent::BlockCountChanged(n) = e {
            s.lock().unwrap().push(n);
        }
    });
    let c = doc.cursor_at(0);
    c.insert_text("hello").unwrap();
    c.insert_block().unwrap();
    doc.undo().unwrap();
    c.insert_block().unwrap();
    assert_eq!(*seen.lock().unwrap(), vec![2, 1, 2]);
    println!("ok");
}
'''),
dict(id="s07-late-subscriber-told-old-events", prop="C44",
 edits=[(I, "        if live_callbacks.is_empty() {\n            self.callback_cursor = self.pending_events.len();\n            return Vec::new();", "        if live_callbacks.is_empty() {\n            return Vec::new();")],
 needs="a document edited while nobody listens, a listener registered afterwards, and one more edit",
 breaks="Events queued while there was no listener stay undelivered and are handed to the first listener that comes later.",
 main=r'''
use std::sync::{Arc, Mutex};
use text_document::*;

fn main() {
    let doc = TextDocument::new();
    let c = doc.cursor_at(0);
    {
        let _short = doc.on_change(|_| {});
        c.insert_text("one").unwrap();
    }
    c.insert_text("two").unwrap();
    c.insert_text("three").unwrap();
    let n = Arc::new(Mutex::new(0));
    let k = n.clone();
    let _sub = doc.on_change(move |e| {
        if let DocumentEvent::ContentsChanged { .. } = e {
            *k.lock().unwrap() += 1;
        }
    });
    c.insert_text("four").unwrap();
    assert_eq!(*n.lock().unwrap(), 1, "the listener was told about edits made before it came");
    println!("ok");
}
'''),
dict(id="s08-removed-table-still-colours", prop="C46",
 edits=[("crates/public_api/src/cursor.rs", "            document_editing_commands::remove_table(&inner.ctx, Some(inner.stack_id), &dto)?;\n            inner.modified = true;\n            inner.invalidate_text_cache();\n            inner.rehighlight_all();\n", "            document_editing_commands::remove_table(&inner.ctx, Some(inner.stack_id), &dto)?;\n            inner.modified = true;\n            inner.invalidate_text_cache();\n")],
 needs="a highlighter that carries state from block to block, a table whose cell sets the state, and the removal of that table",
 breaks="Removing a table does not run the highlighter again, so the text behind it keeps highlights that came from the table's cells.",
 main=r"""
use std::sync::Arc;
use text_document::*;

struct Braces;
impl SyntaxHighlighter for Braces {
    fn highlight_block(&self, text: &str, ctx: &mut HighlightContext) {
        let n = text.chars().count();
        let open = ctx.previous_block_state() == 1;
        if open && n > 0 {
            ctx.set_format(0, n, HighlightFormat { font_bold: Some(true), ..Default::default() });
        }
        ctx.set_current_block_state(if text == "{" || open { 1 } else { 0 });
    }
}

fn bold(doc: &TextDocument, text: &str) -> bool {
    doc.blocks()
        .iter()
        .filter(|b| b.text() == text)
        .any(|b| b.fragments().iter().any(|f| matches!(f, FragmentContent::Text { format, .. } if format.font_bold == Some(true))))
}

fn main() {
    let doc = TextDocument::new();
    doc.set_markdown("first\n\n|{|x|\n|-|-|\n|c|d|\n\nlast").unwrap().wait().unwrap();
    doc.set_syntax_highlighter(Some(Arc::new(Braces)));
    assert!(bold(&doc, "last"));
    let id = doc
        .flow()
        .iter()
        .find_map(|e| match e {
            FlowElement::Table(t) => Some(t.id()),
            _ => None,
        })
        .unwrap();
    doc.cursor_at(0).remove_table(id).unwrap();
    assert!(!bold(&doc, "last"), "text behind the removed table keeps its colour");
    println!("ok");
}
"""),
dict(id="s09-highlight-spacing-hidden", prop="C22",
 edits=[(H, "hl.word_spacing.or(base.word_spacing)", "base.word_spacing.or(hl.word_spacing)")],
 needs="text with a word spacing of its own under a highlight that sets another",
 breaks="The word spacing of a highlight no longer overrides that of the text.",
 main=r'''
use std::sync::Arc;
use text_document::*;

struct Wide;
impl SyntaxHighlighter for Wide {
    fn highlight_block(&self, text: &str, ctx: &mut HighlightContext) {
        ctx.set_format(0, text.chars().count(), HighlightFormat { word_spacing: Some(9), ..Default::default() });
    }
}

fn main() {
    let doc = TextDocument::new();
    doc.set_plain_text("one two").unwrap();
    let c = doc.cursor_at(0);
    c.set_position(7, MoveMode::KeepAnchor);
    c.set_char_format(&TextFormat { word_spacing: Some(3), ..Default::default() }).unwrap();
    doc.set_syntax_highlighter(Some(Arc::new(Wide)));
    let mut n = 0;
    for f in doc.blocks()[0].fragments() {
        if let FragmentContent::Text { format, .. } = f {
            n += 1;
            assert_eq!(format.word_spacing, Some(9));
        }
    }
    assert!(n > 0);
    println!("ok");
}
'''),
dict(id="s10-replacement-counted-in-characters", prop="C18",
 edits=[("crates/document_search/src/use_cases/replace_text_uc.rs", "    let inserted_byte_len = replacement.len() as u32;", "    let inserted_byte_len = replacement.chars().count() as u32;")],
 needs="a replacement text with characters outside ASCII, in a block with formatted text behind the match",
 breaks="Formatting behind a replaced match is shifted by characters instead of bytes, so it slides off the text it belongs to.",
 main=r'''
use text_document::*;

fn main() {
    let doc = TextDocument::new();
    doc.set_plain_text("cafe one two").unwrap();
    let c = doc.cursor_at(9);
    c.set_position(12, MoveMode::KeepAnchor);
    c.set_char_format(&TextFormat { font_bold: Some(true), ..Default::default() }).unwrap();
    doc.replace_text("cafe", "caf\u{e9}s", true, &FindOptions::default()).unwrap();
    let bold: String = doc.blocks()[0]
        .fragments()
        .iter()
        .filter_map(|f| match f {
            FragmentContent::Text { text, format, .. } if format.font_bold == Some(true) => Some(text.clone()),
            _ => None,
        })
        .collect();
    assert_eq!(bold, "two");
    println!("ok");
}
'''),
dict(id="s11-formats-joined-over-a-gap", prop="C18",
 edits=[("crates/common/src/format_runs.rs", "        if runs[write].byte_end == runs[read].byte_start && runs[write].format == runs[read].format\n", "        if runs[write].format == runs[read].format\n")],
 needs="two pieces of text with the same format and unformatted text between them, then one more formatting step",
 breaks="Neighbouring runs of one format are joined even when unformatted text lies between them, which loses the format of the second.",
 main=r'''
use text_document::*;

fn main() {
    let doc = TextDocument::new();
    doc.set_plain_text("one two three").unwrap();
    let c = doc.cursor_at(0);
    let bold = TextFormat { font_bold: Some(true), ..Default::default() };
    for (a, b) in [(0, 3), (8, 13)] {
        c.set_position(a, MoveMode::MoveAnchor);
        c.set_position(b, MoveMode::KeepAnchor);
        c.set_char_format(&bold).unwrap();
    }
    let got: Vec<String> = doc.blocks()[0]
        .fragments()
        .iter()
        .filter_map(|f| match f {
            FragmentContent::Text { text, format, .. } if format.font_bold == Some(true) => Some(text.clone()),
            _ => None,
        })
        .collect();
    assert_eq!(got, vec!["one", "three"]);
    println!("ok");
}
'''),
dict(id="s12-stale-history-after-replacing", prop="C09", first=True,
 edits=[(D, "            document_io_commands::import_plain_text(&inner.ctx, &dto)?;\n            undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);\n", "            document_io_commands::import_plain_text(&inner.ctx, &dto)?;\n            if undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id)) {\n                undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);\n            }\n")],
 needs="a document whose edits were all undone (nothing left to undo, something to redo) and then replaced",
 breaks="Replacing the text keeps the redo history when there is nothing to undo, so an edit of the old document can be redone on the new one.",
 main=r'''
use text_document::*;

fn main() {
    let doc = TextDocument::new();
    doc.set_plain_text("first").unwrap();
    doc.cursor_at(5).insert_text(" edit").unwrap();
    doc.undo().unwrap();
    doc.set_plain_text("second").unwrap();
    assert!(!doc.can_redo(), "an edit of the old text can be redone");
    println!("ok");
}
'''),
]
