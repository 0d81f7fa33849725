"""Queries and exports never change the document (C19); highlighting is a layer of its own (C20)."""
from r_locks import *
from r_api import *

QUERIES = """
TextCursor: anchor at_block_end at_block_start at_end at_start block_format block_number char_format current_list current_table
 current_table_cell has_selection is_cell_selection move_position position position_in_block select select_cell_range select_table_cell
 selected_cell_range selected_cells selected_text selection selection_end selection_kind selection_start set_position clear_selection clear_cell_selection
TextDocument: block_at block_at_position block_by_id block_by_number block_count block_format_at blocks blocks_in_range can_redo can_undo
 character_count cursor cursor_at default_wrap_mode find find_all find_element_at_position flow is_empty is_modified on_change resource
 snapshot_block_at_position snapshot_flow stats text_at text_direction title to_docx to_html to_latex to_markdown to_plain_text
FlowElement: snapshot
DocumentFragment: from_document from_html from_markdown from_plain_text is_empty to_html to_markdown to_plain_text
Operation: cancel id is_done progress try_result wait wait_timeout
TextBlock: block_format block_number char_format_at fragments frame is_empty is_valid length list list_item_index next position previous snapshot table_cell text
TextFrame: flow format snapshot
TextList: count format indent item item_marker prefix style suffix
TextTable: cell column_widths columns format rows snapshot
TextTableCell: blocks column column_span format row row_span snapshot_blocks
"""
HIGHLIGHT = ("TextDocument: set_syntax_highlighter rehighlight rehighlight_block",)
# answers about stored content: they must not see the highlight layer
STORED = """
TextCursor: block_format char_format selected_text selection
TextDocument: block_at block_format_at character_count find find_all stats text_at to_docx to_html to_latex to_markdown to_plain_text
DocumentFragment: from_document
TextBlock: text length block_format
"""


def roster(txt):
    out, cur = [], None
    for w in txt.split():
        if w.endswith(":"):
            cur = w[:-1]
        else:
            out.append((cur, w))
    return out


def roots(ctx, txt):
    want = set(roster(txt))
    got = {}
    for f in ctx.m.fns.values():
        if f.crate == "text_document" and f.kind != "closure" and f.pub and not f.trait and f.self_ty:
            k = (f.self_ty.split("<")[0].rsplit("::", 1)[-1], f.short)
            if k in want:
                got[k] = f
    return got


class Reach:
    """Backwards reachability over synchronous calls, drops and instantiations."""
    def __init__(self, ctx):
        self.L = locks(ctx)
        self.m = ctx.m
        self.rev = defaultdict(list)
        for f in self.m.fns.values():
            for c, ts in self.L.callees(f):
                if self.m.on_param(c.callee):
                    continue
                for t in ts:
                    self.rev[t.uid].append((f.uid, c.where))
            for i, line, t in self.L.drops(f):
                self.rev[t.uid].append((f.uid, "%s:%s" % (f.file, line)))

    def back(self, seeds, cut=()):
        """uid -> (where, next uid)"""
        out = {u: (w, None) for u, w in seeds.items()}
        todo = deque(out)
        while todo:
            u = todo.popleft()
            for v, w in self.rev[u]:
                if v not in out and v not in cut:
                    out[v] = (w, u)
                    todo.append(v)
        return out

    def path(self, sp, u):
        out = []
        for _ in range(12):
            w, n = sp[u]
            out.append("%s@%s" % (self.m.fns[u].short, w.rsplit("/", 1)[-1]))
            if n is None:
                break
            u = n
        return " -> ".join(out)


def reachability(ctx):
    if not hasattr(ctx, "_reachb"):
        ctx._reachb = Reach(ctx)
    return ctx._reachb


TXN = "common::database::transactions::Transaction"
STORETY = "common::database::rope_store::RopeStore"


def effects(ctx):
    """name -> back-reachability of each kind of change."""
    R = reachability(ctx)
    m, L = ctx.m, R.L
    A = api(ctx)
    out = {}
    begin = {u: f.loc for u, f in m.fns.items() if f.self_ty == TXN and not f.trait and opens_write(f)}
    out["opens a write transaction"] = R.back(begin)
    # guards of store parts taken for writing, other than by the transaction's own machinery
    cut = {u for u, f in m.fns.items() if f.self_ty == TXN}
    wr = {}
    for f in m.fns.values():
        if f.uid in cut:
            continue
        for c in f.calls:
            if not f.blocks[c.bb].cleanup and any(k[0] == "RwLock" and k[2] == "w" for k in L.direct(c)):
                wr.setdefault(f.uid, c.where)
    out["writes the store"] = R.back(wr, cut)
    ur = {u: f.loc for u, f in m.fns.items() if f.self_ty and f.self_ty.endswith("::UndoRedoManager") and f.nargs and f.local_ty(1).startswith("&mut") and changes_self(f)}
    out["changes the undo history"] = R.back(ur)
    fl = defaultdict(dict)
    for f in m.fns.values():
        for b in f.blocks:
            if b.cleanup:
                continue
            for s in b.stmts:
                d = field_dest(s)
                if d and d[0] == INNER:
                    fl[d[1]].setdefault(f.uid, "%s:%s" % (f.file, s[1]))
    out["fields"] = {k: R.back(v) for k, v in fl.items()}
    q = {}
    for f in A.tdfns:
        for c in f.calls:
            if not f.blocks[c.bb].cleanup and c.callee.short in ("push", "extend", "insert", "append") and c.args and bslice(f, c.args[0]).fields & {(INNER, "pending_events")}:
                q[f.uid] = c.where
    out["queues a notification"] = R.back(q)
    return out, begin, wr, ur, q


def opens_write(f):
    for b in f.blocks:
        for s in b.stmts:
            if s[0] == "=" and s[3][0] == "agg" and s[3][1] == TXN and "is_write" in s[3][3]:
                o = s[3][4][s[3][3].index("is_write")]
                if not (isinstance(o, dict) and "false" in str(o.get("k", ""))):
                    return True
    return False


def changes_self(f):
    return True


def C19(ctx):
    ctx.rule("query-pure", "no query or export opens a write transaction, writes the store, changes the undo history, sets the document's flags or queues a change notification")
    ctx.rule("worker-pure", "the background part of an export neither writes the store nor opens a write transaction")
    eff, begin, wr, ur, q = effects(ctx)
    R = reachability(ctx)
    got = roots(ctx, QUERIES)
    ctx.ob("query-pure", "anchors", bool(begin) and bool(wr) and bool(ur) and bool(q), "", "no write transaction, store write, history change or notification was recognised")
    for k, f in sorted(got.items()):
        for name in ("opens a write transaction", "writes the store", "changes the undo history", "queues a notification"):
            sp = eff[name]
            ctx.ob("query-pure", "%s::%s:%s" % (k[0], k[1], name.split()[0]), f.uid not in sp, f.loc,
                   "%s::%s %s: %s" % (k[0], k[1], name, R.path(sp, f.uid) if f.uid in sp else ""))
        for fld, sp in eff["fields"].items():
            if fld == "plain_text_cache":
                continue
            ctx.ob("query-pure", "%s::%s:%s" % (k[0], k[1], fld), f.uid not in sp, f.loc,
                   "%s::%s sets %s of the document: %s" % (k[0], k[1], fld, R.path(sp, f.uid) if f.uid in sp else ""))
    # background export work
    for f in ctx.m.fns.values():
        if f.short == "execute" and f.trait and f.trait.endswith("long_operation::LongOperation") and "export" in f.name.lower() and "test" not in f.name.lower():
            for name in ("opens a write transaction", "writes the store", "changes the undo history"):
                ctx.ob("worker-pure", "%s:%s" % (f.self_ty, name.split()[0]), f.uid not in eff[name], f.loc, "%s %s: %s" % (f.self_ty, name, R.path(eff[name], f.uid) if f.uid in eff[name] else ""))
    ctx.floor("query-pure", 1000)
    ctx.floor("worker-pure", 3)
    return ctx.finish(explanation="127 public queries and exports against every construct that changes the store, history, flags or notification queue.")


def reads_field(f, fld):
    return any(isinstance(e, list) and e[0] == "f" and e[3] == INNER and e[2] == fld for p in all_places(f) for e in p[1:])


def C20(ctx):
    ctx.rule("layer-only", "attaching, removing or re-running a highlighter changes nothing but the highlight layer")
    ctx.rule("not-stored", "exports, text queries, stored-format queries and finds never read the highlight layer")
    ctx.rule("not-written", "nothing computed from the highlight layer is handed to a command")
    eff, begin, wr, ur, q = effects(ctx)
    R = reachability(ctx)
    A = api(ctx)
    for k, f in sorted(roots(ctx, HIGHLIGHT[0]).items()):
        for name in ("opens a write transaction", "writes the store", "changes the undo history"):
            ctx.ob("layer-only", "%s:%s" % (k[1], name.split()[0]), f.uid not in eff[name], f.loc, "%s %s: %s" % (k[1], name, R.path(eff[name], f.uid) if f.uid in eff[name] else ""))
        for fld, sp in eff["fields"].items():
            if fld not in ("highlight", "plain_text_cache"):
                ctx.ob("layer-only", "%s:%s" % (k[1], fld), f.uid not in sp, f.loc, "%s sets %s of the document: %s" % (k[1], fld, R.path(sp, f.uid) if f.uid in sp else ""))
    rd = {f.uid: f.loc for f in ctx.m.fns.values() if reads_field(f, "highlight")}
    sp = R.back(rd)
    ctx.ob("not-stored", "anchor", bool(rd), "", "nothing reads the highlight layer")
    for k, f in sorted(roots(ctx, STORED).items()):
        ctx.ob("not-stored", "%s::%s" % k, f.uid not in sp, f.loc, "%s::%s reads the highlight layer: %s" % (k[0], k[1], R.path(sp, f.uid) if f.uid in sp else ""))
    # readers never run commands that write
    for u in rd:
        f = ctx.m.fns[u]
        for name in ("opens a write transaction", "writes the store"):
            s2 = eff[name]
            ctx.ob("not-written", "%s:%s" % (f.name, name.split()[0]), u not in s2, f.loc, "%s reads the highlight layer and %s: %s" % (f.short, name, R.path(s2, u) if u in s2 else ""))
    ctx.floor("layer-only", 20)
    ctx.floor("not-stored", 20)
    ctx.floor("not-written", 4)
    return ctx.finish(explanation="Readers and writers of the highlight layer, and everything that can reach them.")
