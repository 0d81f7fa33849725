from props_base import N, CU, DE, TD

N("C30", "No public operation panics on any input",
  "No call of the public API panics, whatever text, position, selection or document content it is given.",
  ["inputs", "histories"], "every argument and every document reachable through the API",
  "A panic needs a particular position inside a grapheme, run or table that no sampled test hits.",
  [DE, CU + "database", TD], [("byte/char index arithmetic", CU + "database/rope_helpers.rs")],
  "absence of out-of-range slices and arithmetic overflow depends on numeric relations between run offsets, rope length and positions across the whole store; the "
  "abstract interpreter built here bounds them inside single routines (C16, C18) only, and without global bounds nearly every index expression would alarm")
N("C31", "Import and export round-trip the document faithfully",
  "Exporting a document as Markdown, HTML, djot, LaTeX or plain text and importing it again yields the same text, structure and formatting "
  "wherever the format can express it.",
  ["inputs"], "every document expressible in the format",
  "The content space is unbounded and losses appear only for particular nestings and escapes.",
  ["crates/document_io/src", CU + "parser_tools"], [("exporters and parsers", "crates/document_io/src/use_cases")],
  "equality of two values produced by running an exporter and a parser on unbounded text is a relational property of string computations; static rules can "
  "only decide slices of it (escaping, which is claimed separately), not the round trip")
N("C32", "Cursor movement lands on the documented position",
  "Every cursor movement operation ends at the position documented for it (next grapheme, word, line, block, cell) and never outside the document.",
  ["inputs", "histories"], "every document, position and movement",
  "Unicode segmentation and table geometry give an unbounded set of boundary cases.",
  [TD + "cursor.rs"], [("move_position / set_position", TD + "cursor.rs")],
  "where a movement lands is a numeric function of text segmentation at run time; no static argument bounds it")
N("C33", "Find and replace change exactly the occurrences that match",
  "Find reports exactly the non-overlapping matches of the query under the given options, and replace all changes exactly those.",
  ["inputs"], "every text, query and option set",
  "Matching depends on case folding and Unicode word boundaries of arbitrary text.",
  ["crates/document_search/src"], [("find_all_uc, replace_text_uc", "crates/document_search/src/use_cases")],
  "correctness of a search result is a functional property of runtime strings; there is no source-level rule that implies it")
N("C34", "Stored positions always equal the real positions",
  "After every edit the stored position of each block equals its real offset in the document text, and character counts equal the text they count.",
  ["inputs", "histories"], "every document and edit history",
  "Off-by-one errors show only for particular combinations of tables, images and multi-block selections.",
  [DE + "use_cases", CU + "database/block_offset_index.rs"], [("document_position / character_count maintenance", DE)],
  "equality of stored sums with actual offsets is an arithmetic invariant over unbounded data; static rules here only decide that the paired updates are made "
  "(claimed separately), not that the amounts are right")
N("C35", "Undo restores exactly the state before the command",
  "After undoing a command the document is equal, in every observable respect, to what it was before, and redoing it gives what it was after.",
  ["inputs", "histories"], "every command, argument and history",
  "Equality must hold for all documents; tests compare a few.",
  [DE + "use_cases", CU + "undo_redo.rs"], [("undo / redo of each use case", DE + "use_cases")],
  "value equality of two runtime states is beyond a static rule; the structural part (what must be saved, when, and that it is put back) is claimed as C03")
N("C36", "A laid-out snapshot equals the document it was taken from",
  "The flow, block and fragment snapshots handed to a renderer describe exactly the text, formatting and geometry of the document at that moment.",
  ["inputs", "histories"], "every document and edit history",
  "Fragment splitting depends on run boundaries, images and highlights that interact numerically.",
  [TD + "text_block.rs", TD + "flow.rs"], [("build_flow_snapshot, fragments", TD + "flow.rs")],
  "the fragments are computed by interval arithmetic over runtime offsets; a static rule cannot establish that they tile the block")
N("C37", "Editing cost stays proportional to the size of the edit",
  "Editing a large document costs time and memory related to the edit and not to the whole document.",
  ["inputs"], "every document size",
  "Benchmarks measure samples and are not run as tests.",
  [CU + "database", DE], [("rope and offset index", CU + "database/rope_store.rs")],
  "complexity bounds need loop-bound and amortisation arguments over runtime sizes; no static cost analysis for Rust is available offline")
