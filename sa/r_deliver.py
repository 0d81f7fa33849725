"""Delivery of document notifications: every queued event reaches both delivery paths exactly once."""
from r_api import *

QF = "pending_events"
CURS = ("callback_cursor", "poll_cursor")
FILTERS = PICK | {"filter", "filter_map", "rev", "dedup", "dedup_by_key", "retain", "zip", "chunks", "windows", "sort", "sort_by_key"}


def on_field(ctx, f, o, field):
    return any(x == ("field", INNER, field) for x in ctx.prov(f).op(o))


def direct_field(ctx, f, o, field):
    """The operand is (a borrow / slice view of) the field itself."""
    p = op_place(o)
    for _ in range(8):
        if not p:
            return False
        if any(isinstance(e, list) and e[0] == "f" and e[3] == INNER and e[2] == field for e in p[1:]):
            return True
        ds = defs(f)[0].get(p[0], [])
        if len(ds) != 1:
            return False
        if ds[0][1] == "rv":
            r = ds[0][2]
            p = r[2] if r[0] == "ref" else op_place(rv_operands(r)[0]) if r[0] in ("use", "cast") and rv_operands(r) else None
        elif ds[0][2].callee.short in ("deref", "deref_mut", "as_slice", "as_mut_slice", "borrow", "iter", "as_ref"):
            p = op_place(ds[0][2].args[0])
        else:
            return False
    return False


def mut_borrow(f, o):
    p = op_place(o)
    if not p:
        return False
    return f.local_ty(p[0]).startswith("&mut")


def C44(ctx):
    A = api(ctx)
    m = ctx.m
    ctx.rule("queue-kept", "the queue of document events is only appended to, and trimmed from the front up to what both delivery paths have consumed")
    ctx.rule("trim-shifts", "trimming moves both read positions back by exactly the number of events removed")
    ctx.rule("consume-own", "a delivery path reads from its own read position to the end of the queue, then advances that position to the end, and leaves the other path's position alone")
    ctx.rule("advance-only-delivered", "a read position only advances past events that were copied out, or when nobody is subscribed")
    ctx.rule("all-callbacks", "every event collected is handed to every live callback: no event or callback is filtered, skipped or cut short")
    ctx.rule("subscribe", "subscribing registers the callback with the same liveness flag as the returned handle; callbacks are only dropped when their handle is gone")
    for f in A.tdfns:
        if f.crate != "text_document" or not any(touches(g, INNER, QF) for g in [f]):
            continue
        for c in f.calls:
            if f.blocks[c.bb].cleanup or not c.args:
                continue
            if not (direct_field(ctx, f, c.args[0], QF) and mut_borrow(f, c.args[0])):
                continue
            n = c.callee.short
            if n in ("push", "deref_mut", "reserve", "index_mut"):
                ok = n != "index_mut"
                if n == "push" and "DocumentEvent" in " ".join(f.local_ty(k) for k in range(1, f.nargs + 1)):
                    ok = all("P" in mu for _, ek, _, mu, _ in explore(f, [0], lambda i, bb=c.bb: {"P"} if i == bb else (), after=False))
            elif n == "drain":
                end = range_end(f, c.args[1])
                k = expr_key(f, end) if end is not None else "?"
                ok = range_kind(f, c.args[1]) in ("RangeTo", "Range") and (bool(re.match(r"^min\(arg1\.(callback|poll)_cursor,arg1\.(poll|callback)_cursor\)$", k.replace("..", ".")))
                                                                         or min_by_branch(ctx, f, end))
                if range_kind(f, c.args[1]) == "Range":
                    ok = ok and expr_key(f, range_start(f, c.args[1])) == "0"
                trim(ctx, A, f, c, k)
            else:
                ok = False
            ctx.ob("queue-kept", "%s:%s" % (f.name, n), ok, c.where, "queued events can be lost or changed by `%s`" % n)
        for b in f.blocks:
            if b.cleanup:
                continue
            for s in b.stmts:
                if field_dest(s) == (INNER, QF):
                    ctx.ob("queue-kept", "%s:assign" % f.name, False, "%s:%s" % (f.file, s[1]), "the event queue is overwritten")
        # consumers
        cons = [c for c in f.calls if not f.blocks[c.bb].cleanup and c.callee.short in ("index", "get", "skip") and c.args and direct_field(ctx, f, c.args[0], QF)]
        for c in cons:
            st = c.args[1] if c.callee.short == "skip" else range_start(f, c.args[1])
            sl = bslice(f, st) if st is not None else None
            own = [x for x in CURS if sl and (INNER, x) in sl.fields and not sl.ops]
            ok = (c.callee.short == "skip" or range_kind(f, c.args[1]) == "RangeFrom") and len(own) == 1
            ctx.ob("consume-own", "%s:reads" % f.name, ok, c.where, "the events handed out do not run from the path's own read position to the end of the queue")
            if not ok:
                continue
            own = own[0]
            oth = [x for x in CURS if x != own][0]
            adv = cursor_stores(f, own)
            ctx.ob("consume-own", "%s:other" % f.name, not cursor_stores(f, oth), f.loc, "consuming one delivery path moves the other path's position")
            good = bool(adv) and all(expr_key(f, rv_operands(s[3])[0]).startswith("len(") and len_of_queue(ctx, f, s[3]) for i, s in adv)
            ctx.ob("consume-own", "%s:to-end" % f.name, good, f.loc, "the read position is not moved to the end of the queue")
            blks = {i for i, s in adv}
            res = explore(f, [c.bb], lambda i: {"ADV"} if i in blks else ())
            ctx.ob("consume-own", "%s:advances" % f.name, all("ADV" in mu for _, _, _, mu, _ in res), c.where, "events are handed out again on the next call: the read position is not advanced on some path")
            nobody = no_callback_blocks(ctx, f)
            for i, s in adv:
                good = any(dominates(f, x.bb, i) for x in cons) or any(dominates(f, j, i) for j in nobody)
                ctx.ob("advance-only-delivered", "%s:%s" % (f.name, own), good, "%s:%s" % (f.file, s[1]), "the read position advances past events nobody was given")
            # nothing filtered between the queue and the result
            bad = []
            for x in f.calls:
                if f.blocks[x.bb].cleanup or not x.args or x.callee.short not in FILTERS or x in cons:
                    continue
                fl = bslice(f, x.args[0]).fields
                if (INNER, QF) in fl:
                    bad.append("%s@%s" % (x.callee.short, x.where.rsplit(":", 1)[-1]))
            for g in [f] + m.closures_in(f):
                for x in g.calls:
                    if g.blocks[x.bb].cleanup or not x.args or x.callee.short not in FILTERS or direct_field(ctx, g, x.args[0], "callbacks"):
                        continue
                    p = op_place(x.args[0])
                    if p and ("dyn core::ops::function::Fn" in g.local_ty(p[0]) and "Option<" not in g.local_ty(p[0])) and "Option" not in (x.callee.name or x.callee.decl):
                        if not bslice(g, x.args[0]).fields & {(INNER, "callbacks")}:
                            bad.append("%s@%s" % (x.callee.short, x.where.rsplit(":", 1)[-1]))
            ctx.ob("all-callbacks", "%s:events" % f.name, not bad, f.loc, "events are filtered before delivery: %s" % bad)
            rsl = bslice(f, RET())
            ctx.ob("all-callbacks", "%s:returned" % f.name, (INNER, QF) in rsl.fields, f.loc, "the collected events are not what is returned")
            # paths that return before reading: only when the path's position is at the end (or nobody listens)
            early(ctx, A, f, own, cons)
    for u in sorted(A.disps):
        f = m.fns[u]
        body = deep(ctx, f)
        bad = [x for g in body for x in picks(g, [g])]
        ctx.ob("all-callbacks", "%s:dispatch" % f.name, not bad, f.loc, "not every callback gets every event: %s" % bad)
        cd = [c for g in body for c in g.calls if (c.callee.tr or "").startswith("core::ops::function::Fn") and "dyn " in (c.callee.g[0] if c.callee.g else "")
              or "dyn core::ops::function::Fn" in (c.callee.g[0] if c.callee.g else "")]
        cd = [c for c in cd if not c.fn.blocks[c.bb].cleanup and c.callee.short in ("call", "call_mut", "call_once")]
        carr = {c.fn.uid for c in cd}
        while True:
            more = [c for g in body for c in g.calls if c.callee.uid in carr and not g.blocks[c.bb].cleanup and c not in cd]
            if not more:
                break
            cd += more
            carr |= {c.fn.uid for c in more}
        skip = skipped_call(ctx, f, body, cd)
        ctx.ob("all-callbacks", "%s:each-called" % f.name, bool(cd) and not skip, f.loc, "a callback can be passed over: %s" % skip)
    # callbacks list
    CB = "callbacks"
    for f in A.tdfns:
        if not touches(f, INNER, CB):
            continue
        for c in f.calls:
            if f.blocks[c.bb].cleanup or not c.args or not direct_field(ctx, f, c.args[0], CB):
                continue
            n = c.callee.short
            if n == "push":
                e = bslice(f, c.args[1])
                r = bslice(f, RET())
                shared = any(x.callee.short == "downgrade" for x in e.calls) and any(
                    a.callee.decl.endswith("Arc::new") and a in r.calls and "Atomic" in " ".join(a.callee.g) for a in e.calls)
                every = all("P" in mu for _, ek, _, mu, _ in explore(f, [0], lambda i, bb=c.bb: {"P"} if i == bb else (), after=False))
                ctx.ob("subscribe", "%s:registers" % f.name, shared and every, c.where, "a subscription is returned whose callback is not registered under its own liveness flag")
            elif n in ("retain", "retain_mut"):
                cl = closure_value(ctx, f, op_place(c.args[1])) if op_place(c.args[1]) else None
                k = expr_key(cl, RET()) if cl else "?"
                ok = bool(re.match(r"^(Gt|Ne|Lt)\((strong_count\(.*\),0|0,strong_count\(.*\))\)$", k)) or k.startswith("is_some(upgrade(")
                ctx.ob("subscribe", "%s:keeps" % f.name, ok, c.where, "a callback whose handle is alive can be dropped")
            elif not mut_borrow(f, c.args[0]) or n in ("iter_mut", "deref_mut", "reserve"):
                pass
            else:
                ctx.ob("subscribe", "%s:%s" % (f.name, n), False, c.where, "callbacks can be lost by `%s`" % n)
    # the only filter on callbacks is liveness
    for u in sorted(A.takers):
        f = m.fns[u]
        for c in f.calls:
            if f.blocks[c.bb].cleanup or c.callee.short not in FILTERS - {"retain", "zip"} or not c.args:
                continue
            if (INNER, CB) not in bslice(f, c.args[0]).fields:
                continue
            cl = closure_value(ctx, f, op_place(c.args[1])) if len(c.args) > 1 and op_place(c.args[1]) else None
            ok = False
            if cl and c.callee.short in ("filter_map", "filter"):
                fl = {x for x in bslice(cl, RET()).fields} | {x for p in all_places(cl) for x in [tuple(reversed(e[2:4])) for e in p[1:] if isinstance(e, list) and e[0] == "f"]}
                owners = {(o, n) for o, n in fl if o.endswith("CallbackEntry")}
                conds = alive_only(cl)
                ok = conds
            ctx.ob("all-callbacks", "%s:%s" % (f.name, c.callee.short), ok, c.where, "live callbacks are filtered by something other than being alive")
    # dropping the handle ends delivery
    for f in A.tdfns:
        if f.trait == "core::ops::drop::Drop" and f.self_ty and f.self_ty.endswith("events::Subscription"):
            st = [c for c in f.calls if c.callee.short == "store" and not f.blocks[c.bb].cleanup]
            ok = bool(st) and any("false" in str(c.args[1].get("k", "")) for c in st)
            ctx.ob("subscribe", "drop", ok, f.loc, "dropping the subscription does not switch its callback off")
    ctx.floor("queue-kept", 2)
    ctx.floor("trim-shifts", 2)
    ctx.floor("consume-own", 8)
    ctx.floor("advance-only-delivered", 3)
    ctx.floor("all-callbacks", 6)
    ctx.floor("subscribe", 3)
    return ctx.finish(explanation="All functions touching the event queue, its two read positions and the callback list are enumerated and each mutation classified.")


def deep(ctx, f):
    """f, its closures, and the helpers of the same crate they call."""
    out, st = [], [f]
    while st:
        g = st.pop()
        if g in out:
            continue
        out.append(g)
        st += ctx.m.closures_in(g)
        st += [ctx.m.fns[c.callee.uid] for c in g.calls if c.callee.uid in ctx.m.fns and ctx.m.fns[c.callee.uid].crate == f.crate and not g.blocks[c.bb].cleanup]
    return out


def alive_only(cl):
    """Every branch in the closure tests the liveness flag (upgrade / load), nothing else."""
    for i, b in enumerate(cl.blocks):
        if b.cleanup or b.term[0] != "switch":
            continue
        p = op_place(b.term[2])
        s = bslice(cl, b.term[2])
        names = s.shorts()
        if not (names & {"upgrade", "load"}) or names - {"upgrade", "load", "deref", "branch", "is_some", "as_ref"} or s.ops - {"Not"} or any(n == "callback" for o, n in s.fields):
            return False
    return True


def range_agg(f, o):
    p = op_place(o)
    for _ in range(4):
        if not p or len(p) != 1:
            return None
        ds = defs(f)[0].get(p[0], [])
        if len(ds) != 1 or ds[0][1] != "rv":
            return None
        r = ds[0][2]
        if r[0] == "agg":
            return r
        if r[0] in ("use", "cast"):
            p = op_place(rv_operands(r)[0])
        else:
            return None
    return None


def range_kind(f, o):
    r = range_agg(f, o)
    return r[1].rsplit("::", 1)[-1] if r else None


def range_end(f, o):
    r = range_agg(f, o)
    if r and "end" in (r[3] or ()):
        return r[4][r[3].index("end")]
    return None


def range_start(f, o):
    r = range_agg(f, o)
    if r and "start" in (r[3] or ()):
        return r[4][r[3].index("start")]
    return None


def min_by_branch(ctx, f, end):
    """end is one of the two positions, each chosen only where a comparison shows it is the smaller one."""
    p = op_place(end) if end is not None else None
    for _ in range(4):
        if not p or len(p) != 1:
            return False
        ds = [d for d in defs(f)[0].get(p[0], [])]
        if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "use":
            p = op_place(ds[0][2][1])
            continue
        break
    seen = set()
    for d in ds:
        if d[1] != "rv" or d[2][0] != "use":
            return False
        k = expr_key(f, d[2][1]).replace("..", ".")
        x = [c for c in CURS if k == "arg1." + c]
        if len(x) != 1:
            return False
        seen.add(x[0])
        if not any(smaller(f, i, t) == x[0] and dominates(f, t, d[0]) for i, b in enumerate(f.blocks) if b.term[0] == "switch" and not b.cleanup for t in b.succ if len(f.preds()[t]) == 1):
            return False
    return seen == set(CURS)


def smaller(f, i, t):
    """On the edge i -> t, which read position is known to be <= the other."""
    b = f.blocks[i]
    p = op_place(b.term[2])
    ds = defs(f)[0].get(p[0], []) if p else []
    if len(ds) != 1 or ds[0][1] != "rv" or ds[0][2][0] != "bin":
        return None
    r = ds[0][2]
    l, rr = [[c for c in CURS if expr_key(f, o).replace("..", ".") == "arg1." + c] for o in (r[2], r[3])]
    if len(l) != 1 or len(rr) != 1 or l == rr:
        return None
    lst = {tt: int(v) for v, tt in b.term[3]}
    truth = lst.get(t, 1) != 0
    le = {("Lt", True): 0, ("Le", True): 0, ("Gt", False): 0, ("Gt", True): 1, ("Ge", True): 1, ("Lt", False): 1, ("Ge", False): 0, ("Le", False): 1}.get((r[1], truth))
    return None if le is None else (l[0], rr[0])[le]


def cursor_stores(f, field):
    return [(i, s) for i, b in enumerate(f.blocks) if not b.cleanup for s in b.stmts if field_dest(s) == (INNER, field)]


def len_of_queue(ctx, f, rv):
    sl = bslice(f, *rv_operands(rv))
    return (INNER, QF) in sl.fields and not sl.ops


def trim(ctx, A, f, c, k):
    for cur in CURS:
        st = cursor_stores(f, cur)
        ok = bool(st)
        for i, s in st:
            o = rv_operands(s[3])
            ek = expr_key(f, o[0]) if s[3][0] == "use" else "%s(%s,%s)" % (s[3][1], expr_key(f, o[0]), expr_key(f, o[1])) if s[3][0] == "bin" else "?"
            ok = ok and bool(re.match(r"^Sub\(arg1\.%s,%s\)$" % (cur, re.escape(k)), ek.replace("..", ".")))
        blks = {i for i, s in st}
        pre = any(dominates(f, i, c.bb) for i in blks)
        post = all("S" in mu for _, _, _, mu, _ in explore(f, [c.bb], lambda i: {"S"} if i in blks else ()))
        ctx.ob("trim-shifts", "%s:%s" % (f.name, cur), ok and (pre or post), c.where, "events are removed from the queue without moving %s back by the same number" % cur)


def no_callback_blocks(ctx, f):
    """Blocks entered only when the list of live callbacks is empty."""
    out = set()
    for c in f.calls:
        if f.blocks[c.bb].cleanup or c.callee.short != "is_empty" or not c.args:
            continue
        if (INNER, "callbacks") not in bslice(f, c.args[0]).fields:
            continue
        for (i, t), k in outcome_edges(f, c).items():
            if k == "ok" and len(f.preds()[t]) == 1:
                out.add(t)
    return out


def early(ctx, A, f, own, cons):
    """Returns that skip the read are guarded by `own >= queue length`, or count the events as consumed (which is judged elsewhere)."""
    moved = {x[0] if isinstance(x, tuple) else x for x in cursor_stores(f, own)}
    guard = set()
    for i, b in enumerate(f.blocks):
        if b.cleanup or b.term[0] != "switch":
            continue
        s = bslice(f, b.term[2])
        if (INNER, own) in s.fields and (INNER, QF) in s.fields and s.ops & {"Ge", "Lt", "Eq", "Le", "Gt", "Ne"}:
            rv = A.bin_def(f, op_place(b.term[2])[0])
            if not rv:
                continue
            a, op = expr_key(f, rv[2]), rv[1]
            first = own in a
            # value of the switch meaning "nothing new"
            none = {"Ge": 1, "Eq": 1, "Lt": 0, "Ne": 0}.get(op) if first else {"Le": 1, "Eq": 1, "Gt": 0, "Ne": 0}.get(op)
            if none is None:
                continue
            lst = {int(v): t for v, t in b.term[3]}
            guard.add((i, lst.get(none, b.term[4])))
        elif s.shorts() & {"is_empty"} and (INNER, QF) in s.fields:
            guard.add((i, b.term[4]))
    seen, st = set(), [0]
    bad = None
    rd = {c.bb for c in cons}
    while st:
        i = st.pop()
        if i in seen or i in rd or i in moved:
            continue
        seen.add(i)
        if f.blocks[i].term[0] == "ret":
            bad = f.blocks[i].term[1]
            break
        st += [t for t in f.blocks[i].succ if (i, t) not in guard]
    ctx.ob("advance-only-delivered", "%s:early" % f.name, bad is None, f.loc, "waiting events can be withheld: a path returns without reading the queue although it is not exhausted")


def skipped_call(ctx, f, body, cd):
    out = []
    for g in body:
        blks = {c.bb for c in cd if c.fn is g}
        if not blks:
            continue
        heads, starts = [], []
        for c in g.calls:
            if c.callee.short == "next" and not g.blocks[c.bb].cleanup:
                # innermost loop: from its Some arm the call is reached without another next
                some = [t for (i, t), k in outcome_edges(g, c).items() if k == "ok"]
                heads.append((c.bb, some))
        inner = [h for h in heads if any(b in reachable_from(g, t, avoid=[x[0] for x in heads]) or b == t for t in h[1] for b in blks)]
        if heads and not inner:
            out.append("the callback is not called in the loop")
        for hb, some in inner:
            seen, st = set(), [t for t in some if t not in blks]
            while st:
                i = st.pop()
                if i in seen or i in blks:
                    continue
                seen.add(i)
                if i == hb or g.blocks[i].term[0] == "ret" or any(i == x[0] for x in heads):
                    out.append("%s:%s" % (g.file, g.blocks[i].term[1]))
                    break
                st += g.blocks[i].succ
        if not heads:
            res = explore(g, [0], lambda i: {"C"} if i in blks else (), after=False)
            if not all("C" in mu for _, _, _, mu, _ in res):
                out.append("%s" % g.loc)
    return out
