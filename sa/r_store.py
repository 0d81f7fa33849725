"""The text of the document and the index of where each block starts (C15), the caches of that index (C16)."""
from gates import *
from affine import *
from r_ent import local_group

ROPE_EDIT = ("insert", "insert_char", "remove", "append", "split_off", "try_insert", "try_insert_char", "try_remove", "try_append", "try_split_off")
IDX_EDIT = ("shift_after", "set_total_bytes", "insert_at", "push", "push_block", "remove_at", "drain_inclusive", "clear")
IDX = "common::database::block_offset_index::BlockOffsetIndex"
REG = ("rope_append_block", "rope_append_empty_block", "rope_insert_block_at", "rope_split_block")


def cname(c):
    return c.callee.name or c.callee.decl


def edits(f):
    """Calls of f that change the text or the index."""
    out = []
    for c in f.calls:
        if f.blocks[c.bb].cleanup:
            continue
        n = cname(c)
        if "ropey::rope::Rope" in n and c.callee.short in ROPE_EDIT or (IDX + "::") in n and c.callee.short in IDX_EDIT:
            out.append(c)
    return out


def range_atoms(f):
    return [k for k in f if isinstance(k, tuple) and k and k[0] == "range"]


def is_start(k):
    """k is the start component of some entry's byte range."""
    return isinstance(k, tuple) and k and k[0] == "range" and ([x[1] for x in k[3:] if x[0] == "f"] or [None])[-1] == 0


def is_range(k):
    return isinstance(k, tuple) and k and k[0] == "range"


def start_atom(form):
    ks = [k for k in form if k != 1]
    return len(ks) == 1 and form[ks[0]] == 1 and is_start(ks[0]) and not form.get(1, 0)


def newlines(prefix):
    return len(prefix) - len(prefix.lstrip("\n"))


def judge(s):
    """Faults of one final state."""
    out = []
    R = s.eqs.reduce
    if R(add(s.rope, s.idx, -1)):
        out.append(("balance", "the text grows by %s, the index by %s" % (show(R(add(s.rope, atom(("text",)), -1))), show(R(add(s.idx, atom(("text",)), -1))))))
    ev = s.log
    ins = [e for e in ev if e[0] == "ins"]
    rem = [e for e in ev if e[0] == "rem"]
    ent = [e for e in ev if e[0] == "entry"]
    shifts = [e for e in ev if e[0] == "shift"]
    # where a new entry starts
    for e in ent:
        q, kind, n = R(e[1]) if e[1] is not None else None, e[2], e[4]
        if q is None:
            out.append(("entry", "the start of the new entry cannot be read off the code"))
            continue
        if n:
            p, L, pre, full = ins[n - 1][1:5]
            want = add(p, lin(newlines(pre)))
            if R(add(q, want, -1)):
                out.append(("entry", "the new entry starts at %s, its text at %s" % (show(q), show(R(want)))))
            anchor = "￼" in pre
            if kind is not None and (kind == "TableAnchor") != anchor:
                out.append(("entry", "a %s entry for text %s the table marker" % (kind, "with" if anchor else "without")))
        else:
            if R(add(q, e[5], -1)):
                out.append(("entry", "the new entry starts at %s, the text ends at %s" % (show(q), show(R(e[5])))))
            if kind == "TableAnchor":
                out.append(("entry", "a table anchor without a marker in the text"))
        pos = e[6]
        if pos is not None and const_of({k: v for k, v in pos.items() if k == 1}) is not None and q is not None:
            off = const_of({k: v for k, v in pos.items() if k == 1})
            others = [k for k in pos if k != 1]
            if len(others) == 1 and others[0][0] == "call" and range_atoms(q):
                pass
    # which entries move
    for i, e in enumerate(ev):
        if e[0] != "shift":
            continue
        t = R(e[1])
        prior = [x for x in ev[:i] if x[0] in ("ins", "rem")]
        later = [x for x in ev[i + 1:] if x[0] in ("ins", "rem")]
        x = (prior or later or [None])[-1 if prior else 0]
        if x is None:
            continue
        if any(y[0] == "entry" for y in ev[:i]) and len(shifts) == 1 and ins:
            y = [y for y in ev[:i] if y[0] == "entry"][-1]
            d = const_of(R(add(t, y[1], -1))) if y[1] is not None else None
            if d is None or d <= 0:
                out.append(("shift", "the new entry is moved by its own insertion"))
                continue
        if x[0] == "ins" and not rem:
            p, pre = R(x[1]), x[3]
            if ent:
                want = add(p, lin(1)) if newlines(pre) else p
                ok = not R(add(t, want, -1)) or (not newlines(pre) and start_atom(t) and not R(add(t, p, -1)))
                msg = "entries from %s on move; the insertion is at %s and %s" % (
                    show(t), show(p), "an empty block there stays before it" if newlines(pre) else "the entry there comes after it")
            else:
                ok = not R(add(t, add(p, lin(1)), -1)) or start_atom(add(t, lin(-1)))
                msg = "entries from %s on move; text goes into a block at %s" % (show(t), show(p))
        else:
            r = rem[-1]
            a, b = R(r[1]), R(r[2])
            d = R(add(t, a, -1))
            c = const_of(d)
            ok = not R(add(t, b, -1)) or (c is not None and c >= 1) or start_atom(add(t, lin(-1)))
            msg = "entries from %s on move; the text from %s to %s is removed" % (show(t), show(a), show(b))
        if not ok:
            out.append(("shift", msg))
    # the entries taken out are those whose text is taken out
    for e in ev:
        if e[0] != "gone" or any(x is None for x in e[3]):
            continue
        cs = []
        for x in e[3]:
            at = [k for k in x if k != 1]
            cs.append(x.get(1, 0) if len(at) == 1 and x[at[0]] == 1 else None)
        want = {"remove_at": [0], "drain_inclusive": [1, 0]}.get(e[1])
        if want and len(cs) == len(want) and any(c is not None and c != w for c, w in zip(cs, want)):
            out.append(("entry", "%s takes out the entries from %s" % (e[1], " to ".join(show(R(x)) for x in e[3]))))
    for r in rem:
        ra, rb = [set(k for k in R(x) if is_range(k)) for x in r[1:3]]
        if ra and rb and {k[:3] for k in ra} != {k[:3] for k in rb} and not any(e[0] == "gone" for e in ev):
            out.append(("entry", "text from one block into another is removed, the entries between them stay"))
    return out


def text_group(ctx):
    fs = [f for f in ctx.m.fns.values() if not f.uid.startswith("test_harness") and edits(f)]
    return [f for f in fs if IDX not in f.name and (f.self_ty or "").split("<")[0] != IDX]


def callers_of(ctx, f):
    r = getattr(ctx, "_rev", None)
    if r is None:
        r = ctx._rev = defaultdict(list)
        for g in ctx.m.fns.values():
            for c in g.calls:
                if not g.blocks[c.bb].cleanup:
                    for t in ctx.m.targets(c.callee):
                        r[t.uid].append((g, c))
    return r[f.uid]


def C15(ctx):
    m = ctx.m
    ctx.rule("balanced", "on every path of a function that edits the text, the length of the text and the total of the block index change by the same amount (affine forms, Gaussian elimination)")
    ctx.rule("entries", "a new index entry starts where its text starts: at the insertion plus the separators inserted in front of it; anchors go with the table marker character")
    ctx.rule("shifts", "the entries moved by an edit are exactly those behind it: a block at the insertion point stays when a separator is inserted behind it and moves when text is inserted before it")
    ctx.rule("owners", "only these functions and the store's snapshot/restore change the text or the index")
    ctx.rule("registered", "every block a command creates is given a place in the text on every successful path")
    ctx.rule("released", "every block or table a command removes gives its place in the text back")
    ctx.rule("boundary", "the separator behind a block is taken off its range only on a test that another entry follows")
    ctx.rule("positions", "the list position of a new entry follows the entry whose range it was computed from, or is the first entry starting behind it")
    T = text_group(ctx)
    grp = {f.uid for f in T}
    # private functions that edit the text only through these are followed too
    for f in sorted(T, key=lambda f: f.uid):
        E = Eval(m, grp)
        states = E.run(f)
        for w, x in E.lost:
            ctx.ob("balanced", "%s: %s" % (f.short, x), False, "%s" % w[0].loc, "the edit cannot be evaluated")
        faults = defaultdict(list)
        for s in states:
            for k, msg in judge(s):
                faults[k].append(msg)
        ups = callers_of(ctx, f)
        if faults and not f.pub and ups and all(g.uid in grp and g.uid != f.uid for g, _ in ups):
            ctx.note("%s is judged inside its callers" % f.short)
            faults = {}
        for k, kind in (("balance", "balanced"), ("entry", "entries"), ("shift", "shifts")):
            n = len(states)
            ms = faults.get(k, [])
            ctx.ob(kind, f.short, not ms, f.loc, ms[0] if ms else "%d final states" % n)
        if not states:
            ctx.ob("balanced", f.short + " evaluates", False, f.loc, "no path can be evaluated")
    ctx.floor("balanced", 13)
    index_positions(ctx, T)
    boundary(ctx)
    owners_of_text(ctx, T)
    registered(ctx)
    released(ctx)
    return ctx.finish(explanation="every path of every text-editing helper evaluated over affine forms; must-pass analysis from every block creation and removal to its registration")


RANGES = ("range_of", "range_of_block", "range_with_successor")


def range_part(fn, o, depth=0):
    """Components of entry ranges an operand is computed from by copies and sums: {0: start, 1: end, 2: successor flag}."""
    out = set()
    p = op_place(o)
    if not p or depth > 12:
        return out
    if len(p) > 1:
        last = p[-1]
        if isinstance(last, list) and last[0] == "f":
            ty = fn.local_ty(p[0])
            if last[1] == 0 and ty.startswith("(") and ty.endswith(", bool)"):      # checked arithmetic
                for d in defs(fn)[0].get(p[0], []):
                    if d[1] == "rv":
                        for x in rv_operands(d[2]):
                            out |= range_part(fn, x, depth + 1)
                if out:
                    return out
            if any(c.callee.short in RANGES for c in bslice(fn, {"c": [p[0]]}).calls):
                out.add(last[1])
        return out
    for d in defs(fn)[0].get(p[0], []):
        if d[1] == "rv" and d[2][0] in ("use", "cast", "bin", "ref"):
            for x in rv_operands(d[2]) or []:
                out |= range_part(fn, x, depth + 1)
    return out


def deciding(fn, bb):
    """Switches that decide whether block bb runs: all ways to bb pass them, and not all of their ways lead to it."""
    out = []
    for i, b in enumerate(fn.blocks):
        if b.cleanup or b.term[0] != "switch" or i == bb:
            continue
        if bb in (reachable_from(fn, 0, avoid=(i,)) | {0}) and i != 0:
            continue
        if any(t != bb and bb not in reachable_from(fn, t, avoid=(i,)) for t in b.succ):
            out.append((i, b.term))
    return out


def boundary(ctx):
    """The separator behind a block is taken off its range exactly when another entry follows."""
    for f in ctx.m.fns.values():
        if f.uid.startswith("test_harness") or f.crate != "common" and "rope" not in f.loc:
            continue
        sites = []
        for i, b in enumerate(f.blocks):
            if b.cleanup:
                continue
            for s in b.stmts:
                if s[0] == "=" and s[3][0] == "bin" and s[3][1] in ("Sub", "SubWithOverflow") and num(s[3][3].get("k") if isinstance(s[3][3], dict) else None) == 1:
                    sites.append((i, s[3][2]))
            if b.term[0] == "call":
                c = f.call_at(i) if hasattr(f, "call_at") else next((c for c in f.calls if c.bb == i), None)
                if c and c.callee.short in ("saturating_sub", "checked_sub", "wrapping_sub") and len(c.args) == 2 and num(c.args[1].get("k")) == 1:
                    sites.append((i, c.args[0]))
        for i, o in sites:
            if 1 not in range_part(f, o):
                continue
            why = "nothing tells whether an entry follows"
            ok = False
            for j, t in deciding(f, i):
                sl = bslice(f, t[2])
                names = {c.callee.short for c in sl.calls}
                if "total_bytes" in names:
                    ok, why = False, "depends on where the text ends, which is also where an empty block at the end starts"
                    break
                if 2 in range_part(f, t[2]) or "len" in names or "entries" in {x[1] for x in sl.fields}:
                    ok = True
            ctx.ob("boundary", f.short, ok, f.loc, "" if ok else "the separator is taken off the range of a block, but " + why)
    ctx.floor("boundary", 4)


def owners_of_text(ctx, T):
    """Direct mutation of the index's fields outside its own methods."""
    n = 0
    for f in ctx.m.fns.values():
        if f.uid.startswith("test_harness"):
            continue
        own = (f.self_ty or "").split("<")[0] == IDX or f.name.startswith(IDX + "::") or f.trait
        for i, b in enumerate(f.blocks):
            if b.cleanup:
                continue
            for s in b.stmts:
                if s[0] != "=":
                    continue
                w = s[2]
                hit = [e for e in w[1:] if isinstance(e, list) and e[0] == "f" and e[3] == IDX]
                if not hit and s[3][0] == "ref" and s[3][1] not in ("shared", "Shared", "fake") and "ut" in str(s[3][1]):
                    hit = [e for e in s[3][2][1:] if isinstance(e, list) and e[0] == "f" and e[3] == IDX]
                if hit:
                    n += 1
                    ctx.ob("owners", "%s writes %s" % (f.short, hit[-1][2]), own, f.loc, "" if own else "the index is changed behind its own methods")
    for f in T:
        for c in edits(f):
            ok = f.crate == "common"
            ctx.ob("owners", "%s calls %s" % (f.short, c.callee.short), ok, f.loc, "" if ok else "edits the text outside the text helpers")
    ctx.floor("owners", 20)


def position_calls(f):
    return [c for c in f.calls if not f.blocks[c.bb].cleanup and c.callee.short == "insert_at" and IDX in cname(c)]


def counted(f, sl):
    """The value is a counter moved in a loop, or one of the numbers met there."""
    if "next" in sl.shorts():
        return True
    from r_longop import loops
    whole = defs(f)[0]
    for body in loops(f):
        for l in sl.locals:
            ds = whole.get(l, [])
            if len(ds) > 1 and any(d[0] in body for d in ds) and any(d[0] not in body for d in ds):
                return True
    return False


def index_positions(ctx, T):
    for f in T:
        for c in position_calls(f):
            pos = c.args[1]
            st = bslice(f, c.args[3])
            sl = bslice(f, pos)
            where = f.loc
            searched = [x for x in sl.calls if x.callee.short in ("position", "position_of", "partition_point", "get", "binary_search_by_key", "rposition")
                        or x.callee.short in ("filter", "take_while", "map_while") and "count" in sl.shorts()]
            searched += [x for x in f.calls if not searched and counted(f, sl)][:1]
            ok, why = bool(searched), "the list position of the new entry does not come from a search of the index"
            ctx.ob("positions", "%s inserts at a searched position" % f.short, ok, where, "" if ok else why)
            for x in searched:
                for a in x.args:
                    p = op_place(a)
                    g = closure_value(ctx, f, p) if p else None
                    if not g:
                        continue
                    for b in g.blocks:
                        for s in b.stmts:
                            if s[0] == "=" and s[3][0] == "bin" and s[3][1] in ("Lt", "Le", "Gt", "Ge"):
                                l, r = bslice(g, s[3][2]), bslice(g, s[3][3])
                                op_ = s[3][1]
                                if l.caps and not r.caps:
                                    op_ = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op_]
                                good = op_ == "Gt" if x.callee.short == "position" else op_ == "Le" if x.callee.short in ("partition_point", "filter", "take_while") else True
                                ctx.ob("positions", "%s searches behind the insertion" % f.short, good, g.loc, "" if good else "an entry at the insertion point is taken to be behind it")


CREATE = ("create_block",)


def is_create(c):
    n = c.callee.short
    return n in ("create_block", "cfc_create_block") and c.args


def app_fns(ctx):
    return [f for f in ctx.m.fns.values() if f.crate in ("text_document_editing", "text_document_io", "text_document", "text_document_formatting") and not f.trait
            and "units_of_work" not in f.loc]


FRAME = "common::entities::Frame"


def none_edges(ctx, fn, want):
    """Edges taken when an Option whose slice satisfies `want` is None."""
    out = set()
    for i, b in enumerate(fn.blocks):
        t = b.term
        if b.cleanup or t[0] != "switch":
            continue
        p = op_place(t[2])
        if not p or len(p) != 1:
            continue
        src = None
        for d in defs(fn)[0].get(p[0], []):
            if d[1] == "rv" and d[2][0] == "discr":
                src = d[2][1]
        if src is None or "Option<" not in fn.local_ty(src[0]).split("::", 3)[-1] and not fn.local_ty(src[0]).startswith("core::option::Option"):
            continue
        if not want(src):
            continue
        zero = [j for k, j in t[3] if str(k) == "0"]
        out.add((i, zero[0] if zero else t[4]))
    return out


def impossible(ctx):
    """Branches no document takes: a table without an anchor frame inside a frame (rule 'anchors'), and a block that was
    just located in a list not being in that list."""
    memo = {}

    def cut(fn):
        if fn.uid in memo:
            return memo[fn.uid]
        memo[fn.uid] = set()

        def anchor(src):
            if "u64" not in fn.local_ty(src[0]):
                return False
            fs = gslice(ctx, fn, {"c": src}, depth=2).fields
            return (FRAME, "parent_frame") in fs and (FRAME, "table") in fs

        def element(src):
            if "entities::Block" not in fn.local_ty(src[0]):
                return False
            ds = defs(fn)[0].get(src[0], [])
            return len(ds) == 1 and ds[0][1] == "call" and ds[0][2].callee.short == "get" and (cname(ds[0][2]).startswith("[T]::") or "slice" in cname(ds[0][2]))
        memo[fn.uid] = none_edges(ctx, fn, lambda s: anchor(s) or element(s))
        return memo[fn.uid]
    return cut


def option_tag(fn, o):
    """'Some' / 'None' if the operand is a freshly built Option."""
    for _ in range(4):
        p = op_place(o)
        if not p or len(p) != 1:
            return None
        ds = defs(fn)[0].get(p[0], [])
        if len(ds) != 1 or ds[0][1] != "rv":
            return None
        r = ds[0][2]
        if r[0] == "agg":
            return r[2]
        if r[0] not in ("use", "cast"):
            return None
        o = rv_operands(r)[0]
    return None


def anchors(ctx):
    """Every frame created for a table is placed inside a frame."""
    for f in app_fns(ctx):
        for b in f.blocks:
            if b.cleanup:
                continue
            for s in b.stmts:
                if s[0] == "=" and s[3][0] == "agg" and s[3][1] == FRAME and "table" in s[3][3]:
                    if option_tag(f, s[3][4][s[3][3].index("table")]) != "Some":
                        continue
                    o = s[3][4][s[3][3].index("parent_frame")]
                    ok = option_tag(f, o) == "Some"
                    ctx.ob("anchors", "%s builds an anchor frame" % f.short, ok, f.loc, "" if ok else "the frame that holds a table has no parent frame")
    ctx.floor("anchors", 4)


def registered(ctx):
    anchors(ctx)
    cut = impossible(ctx)
    fns = app_fns(ctx)
    todo = []
    for f in fns:
        for c in f.calls:
            if not f.blocks[c.bb].cleanup and is_create(c):
                todo.append((f, c, 0))
    done = set()
    count = defaultdict(int)
    while todo:
        f, c, d = todo.pop(0)
        if (f.uid, c.bb) in done:
            continue
        done.add((f.uid, c.bb))
        grp = local_group(ctx, f, 3)

        def pred(fn, k, c=c):
            if k.callee.short not in REG or "rope_helpers" not in cname(k):
                return False
            return any(any(x is c for x in gslice(ctx, fn, a, group=grp, depth=3).calls) for a in k.args[1:])
        G = Gates(ctx, pred, grp, dep=lambda sl: any(x is c for x in sl.calls), cut=cut)
        esc = G.escape(f, c.bb, None, after=True)
        count[f.uid] += 1
        key = "%s creates block %d" % (f.short, count[f.uid])
        loc = "%s:%s" % (f.loc.rsplit(":", 1)[0], c.line)
        ups = [(g, k) for g, k in callers_of(ctx, f) if g in fns]
        hands_out = "entities::Block" in f.local_ty(0) or "u64" in f.local_ty(0)
        if esc is None:
            ctx.ob("registered", key, True, loc)
        elif not G.any_in(f) and d < 3 and ups and hands_out and any(x is c for x in gslice(ctx, f, RET(), depth=1).calls):
            for g, k in ups:
                todo.append((g, k, d + 1))
        else:
            why = G.decides(f, esc)
            ctx.ob("registered", key + (": unplaced if " + ", ".join(why) if why else ": unplaced"), False, loc,
                   "a successful path leaves the new block without a place in the text")
    ctx.floor("registered", 30)


REMOVE = {"remove_block": "Block", "remove_block_multi": "Block", "remove_table_cell": "TableCell", "remove_table_cell_multi": "TableCell", "remove_table": "Table", "remove_table_multi": "Table"}
FREE = ("rope_remove_block", "rope_merge_block_range", "rope_reset")


def released(ctx):
    """Each removal of a block, of table cells or of a table is accompanied by the removal from the text."""
    fns = [f for f in app_fns(ctx) if f.crate in ("text_document_editing", "text_document_io")]
    count = defaultdict(int)
    for f in fns:
        for c in f.calls:
            e = REMOVE.get(c.callee.short)
            if f.blocks[c.bb].cleanup or not e or "rope_helpers" in cname(c):
                continue
            grp = local_group(ctx, f, 3)
            count[f.uid, e] += 1
            key = "%s removes %s %d" % (f.short, e, count[f.uid, e])
            loc = "%s:%s" % (f.loc.rsplit(":", 1)[0], c.line)
            if e == "Table":
                names = ("rope_remove_table_anchor", "rope_reset")
            else:
                names = FREE

            def pred(fn, k):
                return k.callee.short in names and "rope_helpers" in cname(k)
            ids = gslice(ctx, f, *c.args[1:], group=grp, depth=2)
            own = {id(x) for x in ids.calls}
            G = Gates(ctx, pred, grp, dep=lambda sl: True)
            ok = G.required(f, c.bb)
            if not ok and f.kind == "closure":
                ok = False
            ctx.ob("released", key, ok, loc, "" if ok else "a removed %s can keep its place in the text" % e)
    ctx.floor("released", 8)
