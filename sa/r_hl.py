"""Highlighting follows the text (C46)."""
from r_api import *
from gates import closure_value
from paths import const_bool
from r_longop import loops

HLD = "text_document::highlight::HighlightData"
BHD = "text_document::highlight::BlockHighlightData"
HCX = "text_document::highlight::HighlightContext"
FRAG = "FragmentContent"
LOOKUP = ("get", "get_mut", "insert", "remove", "entry", "get_or_insert_with")
DEFAULTS = ("map_or", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "map_or_else", "or_insert", "or_insert_with", "or_default")
SORTS = ("sort_by_key", "sort_by", "sort_unstable_by_key", "sort_unstable_by", "sort_by_cached_key")


def is_highlight(c):
    return (c.callee.tr or "").endswith("::SyntaxHighlighter")


def closure_args(ctx, f, calls):
    """Closures handed to the calls."""
    out = []
    for c in calls:
        for a in c.args:
            p = op_place(a)
            g = closure_value(ctx, f, p) if p else None
            if g:
                out.append(g)
    return out


def reads_state(ctx, f, sl):
    return (BHD, "state") in sl.fields or any(touches(g, BHD, "state") for g in closure_args(ctx, f, sl.calls))


def fresh_state(ctx, f, sl):
    """The value includes the state a highlighter run ended with."""
    return any(HCX in (c.callee.name or "") or any(HCX == base_ty(f.local_ty(op_place(a)[0]).lstrip("&").replace("mut ", "")) for a in c.args if op_place(a))
               for c in sl.calls) or any(x[0] == HCX for x in sl.fields)


def lookups(ctx, f, sl):
    return [c for c in sl.calls if c.callee.short in LOOKUP and c.args and (HLD, "blocks") in bslice(f, c.args[0]).fields]


def walks(ctx, A):
    """(function, loop, call that highlights a block in it)"""
    out = []
    core = set(A.hl_core)
    fs = [f for f in A.tdfns if f.uid in A.hls or f.uid in core or (f.kind == "closure" and f.uid in core)]
    for f in fs:
        for body in loops(f):
            for c in f.calls:
                if c.bb in body and not f.blocks[c.bb].cleanup and (is_highlight(c) or any(t.uid in core and t is not f for t in ctx.m.targets(c.callee))):
                    out.append((f, body, c))
    return out


def real_exits(f, body):
    rets = set(f.returns())
    live = lambda b: bool(rets & (reachable_from(f, b) | {b}))
    for i in sorted(body):
        b = f.blocks[i]
        if b.cleanup or b.term[0] != "switch":
            continue
        ts = [t for _, t in b.term[3]] + [b.term[4]]
        for t in dict.fromkeys(ts):
            if t is not None and t not in body and not f.blocks[t].cleanup and live(t):
                yield i, t


def cond_def(f, o):
    """(definition, negated) of a boolean operand."""
    neg = False
    p = op_place(o)
    for _ in range(8):
        if not p or len(p) != 1:
            return None, neg
        ds = defs(f)[0].get(p[0], [])
        if len(ds) != 1:
            return None, neg
        d = ds[0]
        if d[1] != "rv":
            return d[2], neg
        rv = d[2]
        if rv[0] == "un" and rv[1] == "Not":
            neg = not neg
            p = op_place(rv[2]) if isinstance(rv[2], dict) else op_place(rv_operands(rv)[0])
        elif rv[0] in ("use", "cast"):
            p = op_place(rv_operands(rv)[0])
        else:
            return rv, neg
    return None, neg


def taken_when(f, i, t):
    """True / False: the edge is taken when the tested boolean is that; None: not a boolean."""
    tm = f.blocks[i].term
    p = op_place(tm[2])
    if not p or len(p) != 1 or f.local_ty(p[0]) != "bool":
        return None
    return not any(int(a) == 0 and z == t for a, z in tm[3])


def dom_in(f, s, e, start):
    """Every way from start to e passes s."""
    return s == e or e not in (reachable_from(f, start, avoid=(s,)) | {start})


def C46(ctx):
    A = api(ctx)
    m = ctx.m
    ctx.rule("followed", "after every command that may change the text succeeds, the highlighting is redone on every success path (a replace that changed nothing excepted)")
    ctx.rule("place", "redoing starts where the other cursors were moved from: at the start of the changed region")
    ctx.rule("cascade", "a walk over the blocks ends early only at a block that had been highlighted before and whose state came out the same; a block never highlighted stands for no state")
    ctx.rule("next", "a walk never ends at the block it started with")
    ctx.rule("threading", "each block is highlighted with the state the block before it ended with")
    ctx.rule("kept", "what a highlighter run produced is stored for its block on every path")
    ctx.rule("order", "blocks are walked in document order, by positions brought up to date before sorting")
    ctx.rule("shown", "every fragment list handed out is merged with the stored highlights whenever there are any")
    wants = lambda t: is_command(t) and not long_op(ctx, t) and "rope" in A.mw[t.uid] and (replaces_document(ctx, t) or changes_document(ctx, t))
    org = edit_origins(ctx, A, wants)
    viol, ok = A.pending(org, lambda tag: ["HL"], True, A.noop_edges)
    report(ctx, "followed", viol, ok, "the highlighting is not redone after %s")
    # where
    for f in A.tdfns:
        live = [c for c in f.calls if not f.blocks[c.bb].cleanup]
        adj = [c for c in live if any(t.uid in A.adjs for t in m.targets(c.callee))]
        for h in live:
            if not adj or len(h.args) < 2 or not any(t.uid in A.hls for t in m.targets(h.callee)):
                continue
            for c in adj:
                if h.bb in reachable_from(f, c.bb) or c.bb in reachable_from(f, h.bb):
                    x, y = expr_key(f, h.args[1]), expr_key(f, c.args[1])
                    ctx.ob("place", f.name, x == y, h.where, "cursors are moved from %s but highlighting restarts at %s" % (y, x))
    # the walks
    core = A.hl_core
    for f, body, c in walks(ctx, A):
        for i, t in real_exits(f, body):
            tm = f.blocks[i].term
            follow = lambda x: not (HCX in (x.callee.name or "") or is_highlight(x) or any(z.uid in core for z in m.targets(x.callee)))
            sl = bslice(f, tm[2], follow=follow)
            lk = lookups(ctx, f, sl)
            sh = sl.shorts()
            if not lk and not reads_state(ctx, f, sl) and used_up(f, tm[2], sh):
                continue
            where = "%s (block %d)" % (f.loc, i)
            good, why = True, ""
            helped = [z for x in sl.calls for z in m.targets(x.callee) if z.uid in core and is_td(z)]
            if not lk and not helped:
                good, why = False, "the walk ends without looking at what was stored for the block before"
            elif not fresh_state(ctx, f, sl) and not helped:
                good, why = False, "the walk ends without comparing with the state the block came out with"
            elif not reads_state(ctx, f, sl) and not helped:
                good, why = False, "the walk ends without comparing the block's stored state"
            if good:
                for g, s2 in [(f, sl)] + [(z, bslice(z, {"c": [0]}, follow=follow)) for z in helped]:
                    bad = [x for x in s2.calls if x.callee.short in DEFAULTS and default_state(g, x)]
                    if bad:
                        good, why = False, "a block never highlighted before is taken to have had a state (%s), so the walk may end in front of blocks never highlighted" % bad[0].where
                    for l in s2.locals:
                        if g.local_ty(l) == "i64" and mixed(g, l):
                            good, why = False, "a block never highlighted before is taken to have had a state, so the walk may end in front of blocks never highlighted"
            d, neg = cond_def(f, tm[2])
            tw = taken_when(f, i, t)
            if good and tw is not None and d is not None:
                op = d[1] if isinstance(d, list) and d[0] == "bin" else getattr(getattr(d, "callee", None), "short", None)
                eq = {"Eq": True, "eq": True, "is_some_and": True, "Ne": False, "ne": False}.get(op)
                if eq is not None and (tw != neg) != eq:
                    good, why = False, "the walk ends when the state changed"
            ctx.ob("cascade", f.name, good, where, why)
            g2 = first_guard(ctx, f, body, c, i, t)
            ctx.ob("next", f.name, g2, where, "the walk may end at the block it started with, though the block behind may have lost or gained its neighbour")
        col = walked(f, body, c)
        good = col is not None and sorted_list(ctx, f, col)
        ctx.ob("order", "sorted:%s" % f.name, good, c.where, "the blocks walked are not known to be in document order")
    for u in sorted(core):
        if m.fns[u].kind == "closure":
            for g, cc in A.consumers(m.fns[u]):
                ctx.ob("order", "sorted:%s" % g.name, sorted_list(ctx, g, cc.args[:1]), cc.where, "the blocks walked are not known to be in document order")
    for f in A.tdfns:
        sorts = [c for c in f.calls if not f.blocks[c.bb].cleanup and c.callee.short in SORTS and any(
            touch_any(g, "document_position") for g in closure_args(ctx, f, [c]))]
        if not sorts or not any(f.uid in m.reach(m.fns[u]) for u in A.hls):
            continue
        for c in sorts:
            before = [x for x in f.calls if not f.blocks[x.bb].cleanup and any(refreshes(ctx, t) for t in m.targets(x.callee)) and dominates(f, x.bb, c.bb)]
            shared = any(set(bslice(f, c.args[0]).locals) & set(bslice(f, *x.args).locals) for x in before)
            ctx.ob("order", "fresh:%s" % f.name, shared, c.where, "the blocks are sorted by positions that may be out of date")
    # the state carried along
    for f in A.tdfns:
        for c in f.calls:
            if f.blocks[c.bb].cleanup or not any(base_ty(t.local_ty(0)) == HCX for t in m.targets(c.callee)):
                continue
            for a in c.args:
                p = op_place(a)
                ty = f.local_ty(p[0]) if p and len(p) == 1 else ""
                if p and ty == "i64" or not p and "i64" in str(a):
                    ctx.ob("threading", f.name, threaded(ctx, A, f, a), c.where, "the state handed to the highlighter is not the one the block before ended with")
                    w = restarted(ctx, f, a)
                    ctx.ob("threading", "first:%s" % f.name, w is None, w or c.where, "a block that is not the first of the document is highlighted as if it were")
    # kept
    org = defaultdict(list)
    for f in A.tdfns:
        for c in f.calls:
            if not f.blocks[c.bb].cleanup and is_highlight(c):
                org[f.uid].append((c, "running the highlighter"))
    viol, ok = A.pending(org, lambda tag: ["HLSET"], False, lambda f, c: detached(f))
    report(ctx, "kept", viol, ok, "the result is dropped after %s")
    shown(ctx, A)
    ctx.floor("followed", 15)
    ctx.floor("place", 4)
    ctx.floor("threading", 2)
    ctx.floor("kept", 2)
    ctx.floor("order", 3)
    ctx.floor("shown", 1)
    return ctx.finish(explanation="Path obligations after every text-changing command, and loop, value-source and guard analysis of the functions that run the highlighter.")


def decides(f, s, e, out=None):
    """One way out of switch s does not come to e (and out of it to `out`) before passing s again."""
    tm = f.blocks[s].term
    stop = {s}
    tw = taken_when(f, e, out) if out is not None else None
    if tw is not None:
        ds, l = [], op_place(f.blocks[e].term[2])[0]
        for _ in range(6):
            ds = defs(f)[0].get(l, [])
            if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "use" and op_place(rv_operands(ds[0][2])[0]):
                l = op_place(rv_operands(ds[0][2])[0])[0]
            else:
                break
        for d in ds:
            k = const_bool(rv_operands(d[2])[0]) if d[1] == "rv" and d[2][0] == "use" else None
            if k is not None and bool(k) != tw:
                stop.add(d[0])
    return any(t in stop - {s} or e not in (reachable_from(f, t, avoid=tuple(stop)) | {t}) for t in dict.fromkeys([z for _, z in tm[3]] + [tm[4]]) if t is not None and f.blocks[t].term[0] != "unreachable")


def used_up(f, o, sh):
    """The list of blocks has come to its end."""
    p = op_place(o)
    if p and len(p) == 1 and f.local_ty(p[0]) == "bool":
        d, _ = cond_def(f, o)
        if isinstance(d, list) and d[0] == "bin":
            sides = [bslice(f, x).shorts() for x in (d[2], d[3])]
            return any("len" in x and not x & {"position", "next"} for x in sides)
        return getattr(getattr(d, "callee", None), "short", "") == "is_empty"
    return bool(sh & {"next", "get", "pop_front", "first", "split_first"})


def detached(f):
    """Branches taken only when no highlighter is attached at all."""
    out = set()
    for i, b in enumerate(f.blocks):
        if b.cleanup or b.term[0] != "switch":
            continue
        p = op_place(b.term[2])
        ds = defs(f)[0].get(p[0], []) if p and len(p) == 1 else []
        if len(ds) != 1 or ds[0][1] != "rv" or ds[0][2][0] != "discr":
            continue
        q = next((x for x in ds[0][2][1:] if isinstance(x, list)), None)
        if not q:
            continue
        last = [e for e in q[1:] if isinstance(e, list) and e[0] == "f"]
        ty = f.local_ty(q[0])
        if last and last[-1][2] == "highlight" and last[-1][3] == INNER or not last and "Option<" in ty and HLD in ty and BHD not in ty:
            out.add((i, {int(a): z for a, z in b.term[3]}.get(0, b.term[4])))
    return out


def default_state(f, c):
    """The call puts a number (or `yes`) in place of a missing stored state."""
    d = c.dest
    ty = f.local_ty(d[0]) if d and len(d) == 1 else ""
    if ty in ("i64", "isize", "i32"):
        return True
    if ty == "bool":
        return any("true" in str(a.get("k", "")) for a in c.args if isinstance(a, dict))
    return False


def mixed(f, l):
    """A state that is stored on some paths and made up on others."""
    ds = defs(f)[0].get(l, [])
    if len(ds) < 2:
        return False
    const = any(d[1] == "rv" and d[2][0] == "use" and op_place(rv_operands(d[2])[0]) is None for d in ds)
    rest = any(d[1] != "rv" or not (d[2][0] == "use" and op_place(rv_operands(d[2])[0]) is None) for d in ds)
    return const and rest


def first_guard(ctx, f, body, c, e, out):
    for s in body:
        b = f.blocks[s]
        if b.cleanup or b.term[0] != "switch":
            continue
        p = op_place(b.term[2])
        if not p or len(p) != 1 or f.local_ty(p[0]) != "bool" or not dom_in(f, s, e, c.bb):
            # the guard may also be evaluated before the highlighter runs
            if not p or len(p) != 1 or f.local_ty(p[0]) != "bool" or not dominates(f, s, e):
                continue
        if s != e and not decides(f, s, e, out):
            continue
        d, _ = cond_def(f, b.term[2])
        if getattr(getattr(d, "callee", None), "short", "") in ("replace", "take"):
            return True
        if isinstance(d, list) and d[0] == "bin":
            sides = [bslice(f, o) for o in (d[2], d[3])]
            if d[1] == "BitAnd":
                sides = [bslice(f, d[2]), bslice(f, d[3])]
            started = lambda s_: bool(s_.args - {1}) or s_.shorts() & {"position", "find", "rposition"}
            num = all(f.local_ty(op_place(o)[0]) not in ("i64",) for o in (d[2], d[3]) if op_place(o))
            if num and any(started(x) for x in sides) and not any("len" in x.shorts() and not started(x) for x in sides):
                whole = all(f.local_ty(op_place(o)[0]) in ("usize", "u64") for o in (d[2], d[3]) if op_place(o) and len(op_place(o)) == 1)
                if whole or d[1] == "BitAnd" or not any(lookups(ctx, f, x) for x in sides):
                    return True
            zero = [o for o in (d[2], d[3]) if op_place(o) is None and str(o.get("k", "")).replace("const ", "").split("_")[0] == "0"]
            other = [x for x in sides if x.shorts() & {"next", "enumerate"}]
            if num and zero and other and not any(lookups(ctx, f, x) for x in sides):
                return True
        if d is None:
            ds = defs(f)[0].get(p[0], [])
            if len(ds) == 1 and ds[0][1] == "rv" and op_place(rv_operands(ds[0][2])[0]):
                ds = defs(f)[0].get(op_place(rv_operands(ds[0][2])[0])[0], [])
            if len(ds) >= 2 and any(x[0] in body for x in ds) and any(x[0] not in body for x in ds):
                return True
    return False


def walked(f, body, c):
    """Operands that tell which blocks the loop visits."""
    out = []
    for x in f.calls:
        if x.bb in body and not f.blocks[x.bb].cleanup and x.callee.short in ("next", "index", "get", "pop_front"):
            out += x.args[:1]
    for a in c.args:
        out.append(a)
    return out or None


def sorted_list(ctx, f, ops):
    sl = bslice(f, *ops)
    for c in sl.calls:
        if c.callee.short in SORTS:
            return True
        for t in ctx.m.targets(c.callee):
            if is_td(t) and any(x.callee.short in SORTS for x in t.calls if not t.blocks[x.bb].cleanup):
                return True
    # handed in by a caller
    for l in sl.args:
        if "Vec" in f.local_ty(l) or "[" in f.local_ty(l):
            cs = [(g, x) for g in ctx.m.callers(f) for x in g.calls if any(t is f for t in ctx.m.targets(x.callee))]
            if cs and all(sorted_list(ctx, g, [x.args[l - 1]]) for g, x in cs):
                return True
    return False


def touch_any(g, field):
    for b in g.blocks:
        for s in b.stmts:
            if s[0] == "=" and ("'%s'" % field) in str(s):
                return True
    return False


def refreshes(ctx, t):
    """The function brings document positions of blocks up to date."""
    fs = [t] + ctx.m.closures_in(t) + [u for c in t.calls for u in ctx.m.targets(c.callee) if is_td(u)]
    return any(field_dest(s) and field_dest(s)[1] == "document_position" for g in fs for b in g.blocks if not b.cleanup for s in b.stmts if s[0] == "=")


def restarted(ctx, f, a):
    """Where the state `none before` is put in for a block that is not known to be the first."""
    sl = bslice(f, a)
    for body in loops(f):
        for l in sl.locals:
            if f.local_ty(l) != "i64" or not mixed(f, l):
                continue
            for d in defs(f)[0].get(l, []):
                if d[1] != "rv" or d[2][0] != "use" or op_place(rv_operands(d[2])[0]) is not None or d[0] not in body:
                    continue
                doms = [i for i in body if f.blocks[i].term[0] == "switch" and i != d[0] and dominates(f, i, d[0]) and decides(f, i, d[0])]
                near = [i for i in doms if all(dominates(f, j, i) for j in doms)]
                if not near or not first_or_missing(f, near[0], d[0]):
                    return "%s (block %d)" % (f.loc, d[0])
    return None


def first_or_missing(f, i, b):
    """Coming through switch i to block b, the block is the first of all, or nothing is stored for the one before."""
    o = f.blocks[i].term[2]
    p = op_place(o)
    if not p:
        return False
    if len(p) == 1 and f.local_ty(p[0]) != "bool":
        ty = f.local_ty(p[0])
        if ty in ("usize", "u64"):
            return True                       # match on the index or length itself
        sl = bslice(f, o)
        return bool(sl.shorts() & {"get", "checked_sub", "last", "next_back", "prev", "get_mut", "previous"})
    d, _ = cond_def(f, o)
    if isinstance(d, list) and d[0] == "bin":
        return any(op_place(x) is None and str(x.get("k", "")).replace("const ", "").split("_")[0] in ("0", "1") for x in (d[2], d[3]))
    return getattr(getattr(d, "callee", None), "short", "") in ("is_none", "is_some", "is_empty", "contains_key")


def threaded(ctx, A, f, a, depth=0):
    sl = bslice(f, a)
    if reads_state(ctx, f, sl) or fresh_state(ctx, f, sl):
        return True
    if any(t.uid in A.hl_core for c in sl.calls for t in ctx.m.targets(c.callee)):
        return True
    if sl.caps and any(s[0] == "=" and len(s[2]) > 1 and bslice(f, {"c": s[2]}).caps & sl.caps and fresh_state(ctx, f, bslice(f, *rv_operands(s[3])))
                       for b in f.blocks if not b.cleanup for s in b.stmts):
        return True                           # a variable of the surrounding function, set at the end of each round
    for c in sl.calls:
        for t in ctx.m.targets(c.callee):
            if is_td(t) and t.local_ty(0) == "i64" and (touches(t, BHD, "state") or any(touches(g, BHD, "state") for g in ctx.m.closures_in(t))):
                return True
    ps = [l for l in sl.args if f.local_ty(l) == "i64"]
    if not ps or depth > 3:
        return False
    cs = [(g, c) for g in ctx.m.callers(f) for c in g.calls if not g.blocks[c.bb].cleanup and any(t is f for t in ctx.m.targets(c.callee))]
    return bool(cs) and all(threaded(ctx, A, g, c.args[l - 1], depth + 1) for g, c in cs for l in ps)


def shown(ctx, A):
    m = ctx.m
    built = lambda f: any(s[0] == "=" and s[3][0] == "agg" and s[3][1].endswith("::" + FRAG) for g in [f] + m.closures_in(f) for b in g.blocks if not b.cleanup for s in b.stmts)
    listy = lambda f: "Vec<" in f.local_ty(0) and FRAG in f.local_ty(0)
    spans = lambda f: any("HighlightSpan" in f.local_ty(i + 1) for i in range(f.nargs))
    makers = [f for f in A.tdfns if f.kind != "closure" and listy(f) and not spans(f) and any(
        built(g) for g in m.reach(f).values() if is_td(g) and not spans(g)) ]
    raw = {f.uid for f in makers if not any(spans(t) for g in [f] + m.closures_in(f) for c in g.calls for t in m.targets(c.callee)) and not any(
        any(spans(t) for t in m.reach(f).values() if listy(t)) for _ in (0,))}
    ctx.anchor(raw, "the function that builds a block's fragments")
    for f in makers:
        if f.uid in raw:
            if f.exported:
                ctx.ob("shown", f.name, False, f.loc, "fragments are handed out without the highlights")
            continue
    for f in A.tdfns:
        if f.uid in raw:
            continue
        for c in f.calls:
            if f.blocks[c.bb].cleanup or not any(t.uid in raw for t in m.targets(c.callee)):
                continue
            none = set()
            for i, b in enumerate(f.blocks):
                if b.cleanup or b.term[0] != "switch":
                    continue
                sl = bslice(f, b.term[2])
                if (INNER, "highlight") in sl.fields or (HLD, "blocks") in sl.fields:
                    ts = [(int(a), z) for a, z in b.term[3]]
                    p = op_place(b.term[2])
                    boolean = p and len(p) == 1 and f.local_ty(p[0]) == "bool"
                    if boolean:
                        d, neg = cond_def(f, b.term[2])
                        n = getattr(getattr(d, "callee", None), "short", "")
                        skip_on = {"is_some": 0, "is_none": 1, "is_empty": 1, "contains_key": 0}.get(n)
                        if skip_on is None:
                            continue
                        skip_on = skip_on ^ neg
                    else:
                        skip_on = 0
                    t = dict(ts).get(skip_on, b.term[4])
                    none.add((i, t))
            gen = lambda j, f=f: {"MERGE"} if any(x.bb == j and any(spans(t) and FRAG in t.local_ty(0) for t in m.targets(x.callee)) for x in f.calls) else ()
            res = explore(f, [c.bb], gen, skip=lambda i, t: (i, t) in none)
            good = bool(res) and all("MERGE" in r[3] for r in res)
            ctx.ob("shown", f.name, good, c.where, "fragments are handed out without the block's stored highlights")
