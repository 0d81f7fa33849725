"""Background operations end exactly once and say how (C27)."""
from paths import *
from gates import closure_of, gslice
from core import *
from r_query import effects

LOP = "common::long_operation::"
STATUS = LOP + "OperationStatus"
EVENT = "LongOperationEvent"
DERIVED = ("clone", "fmt", "eq", "ne", "default", "serialize", "deserialize", "hash")


def walk(f, cut=(), start=0, stop=()):
    """Blocks reachable from start without the edges in cut; flags set to constants are followed."""
    bools = {i for i, (t, n) in enumerate(f.locals) if t == "bool"}
    seen = set()
    todo = [(start, ())]
    while todo:
        k = todo.pop()
        if k in seen or len(seen) > 20000:
            continue
        seen.add(k)
        i, kb = k
        d = dict(kb)
        b = f.blocks[i]
        for s in b.stmts:
            if s[0] == "=" and len(s[2]) == 1 and s[2][0] in bools:
                v = None
                if s[3][0] == "use":
                    v = const_bool(s[3][1]) if "k" in s[3][1] else d.get((op_place(s[3][1]) or [None])[0]) if len(op_place(s[3][1]) or [0, 0]) == 1 else None
                elif s[3][0] == "un" and s[3][1] == "Not":
                    p = op_place(s[3][2])
                    x = d.get(p[0]) if p and len(p) == 1 else None
                    v = None if x is None else 1 - x
                if v is None:
                    d.pop(s[2][0], None)
                else:
                    d[s[2][0]] = v
            elif s[0] == "dead":
                d.pop(s[2], None)
        if i in stop:
            continue
        t = b.term
        if t[0] == "call" and t[4] and len(t[4]) == 1:
            d.pop(t[4][0], None)
        kb = tuple(sorted(d.items()))
        if t[0] == "switch":
            p = op_place(t[2])
            v = d.get(p[0]) if p and len(p) == 1 else None
            if v is not None:
                tgt = next((x for w, x in t[3] if int(w) == v), t[4])
                if (i, tgt) not in cut:
                    todo.append((tgt, kb))
                continue
            for x in b.succ:
                if (i, x) not in cut:
                    k2 = kb
                    if p and len(p) == 1 and f.local_ty(p[0]) == "bool":
                        vals = [int(w) for w, y in t[3] if y == x]
                        e = dict(kb)
                        e[p[0]] = vals[0] if vals else 1 - int(t[3][0][0])
                        k2 = tuple(sorted(e.items()))
                    todo.append((x, k2))
            continue
        for x in b.succ:
            if (i, x) not in cut:
                todo.append((x, kb))
    return {k[0] for k in seen}


def discr_edges(f, pred, value):
    """Edges taken when the discriminant of a place that pred accepts has the value (or not: (edges, others))."""
    loc = {}
    for b in f.blocks:
        for s in b.stmts:
            if s[0] == "=" and len(s[2]) == 1 and s[3][0] == "discr" and pred(s[3][1]):
                loc[s[2][0]] = s[3][1]
    yes = set()
    for i, b in enumerate(f.blocks):
        if b.cleanup or b.term[0] != "switch":
            continue
        p = op_place(b.term[2])
        if p and len(p) == 1 and p[0] in loc:
            listed = {int(v): t for v, t in b.term[3]}
            if value in listed:
                if list(listed.values()).count(listed[value]) == 1 and b.term[4] != listed[value]:
                    yes.add((i, listed[value]))
            elif b.term[4] is not None:
                n = nvariants(f, loc[p[0]])
                if n is None or set(range(n)) - set(listed) == {value}:
                    yes.add((i, b.term[4]))
    return yes


def nvariants(f, place):
    t = f.local_ty(place[0])
    inner = [e for e in place[1:] if isinstance(e, list) and e[0] == "d"]
    if STATUS in t and (t.lstrip("&").replace("mut ", "").startswith(STATUS) or inner or "MutexGuard" in t):
        return 4
    return 2


def ty_of(f, p):
    """Type of a place, as far as its last field or its local tells."""
    t = f.local_ty(p[0])
    for e in p[1:]:
        if isinstance(e, list) and e[0] == "f":
            return None
        if e == "*" and t.startswith("&"):
            t = t[1:].replace("mut ", "", 1) if t.startswith("&mut") else t[1:]
    return t


def guard_of(f, p):
    """The lock guard behind a place reached by Deref."""
    if not p:
        return None
    l = p[0]
    for _ in range(6):
        ds = [d for d in defs(f)[0].get(l, [])]
        if len(ds) != 1:
            return l
        k = ds[0]
        if k[1] == "rv":
            r = k[2]
            if r[0] == "ref":
                l = r[2][0]
                continue
            if r[0] == "use" and op_place(r[1]):
                l = op_place(r[1])[0]
                continue
            return l
        c = f.call_at(k[0])
        if c is not None and c.callee.short in ("deref", "deref_mut") and c.args and op_place(c.args[0]):
            l = op_place(c.args[0])[0]
            continue
        return l
    return l


def status_places(f):
    return lambda p: (ty_of(f, p) or "") .endswith(STATUS)


def running_edges(ctx, f, g=None):
    """Edges taken when the status behind guard g is Running."""
    run = ctx.m.adts[STATUS].variant_names.index("Running")
    ok = lambda p: status_places(f)(p) and (g is None or guard_of(f, p) == g)
    out = discr_edges(f, ok, run)
    for c in f.calls:
        if c.callee.short in ("eq", "ne") and len(c.args) == 2 and len(c.dest) == 1:
            ps = [op_place(a) for a in c.args]
            if any(p and STATUS in f.local_ty(p[0]) and (g is None or guard_of(f, p) == g) for p in ps) and "Running" in str(consts_behind(f, c)):
                for e, v in bool_edges(f, c.dest[0]).items():
                    if v == (c.callee.short == "eq"):
                        out.add(e)
    return out


def consts_behind(f, c):
    out = []
    for a in c.args:
        p = op_place(a)
        if "k" in a:
            out.append(a["k"])
        for d in defs(f)[0].get(p[0], []) if p else ():
            if d[1] == "rv":
                out.append(d[2])
                for o in rv_operands(d[2]):
                    q = op_place(o) if isinstance(o, dict) else None
                    if q:
                        out += [e[2] for e in defs(f)[0].get(q[0], []) if e[1] == "rv"]
                if d[2][0] == "ref":
                    out += [e[2] for e in defs(f)[0].get(d[2][2][0], []) if e[1] == "rv"]
    return out + list(f._prom)


def bool_edges(f, l):
    """edge -> truth of bool local l (through copies and negation)."""
    al = {l: True}
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == "=" and len(s[2]) == 1 and s[2][0] not in al:
                    if s[3][0] == "use" and alias_src(s[3][1]) in al:
                        al[s[2][0]] = al[alias_src(s[3][1])]
                        ch = True
                    elif s[3][0] == "un" and s[3][1] == "Not" and alias_src(s[3][2]) in al:
                        al[s[2][0]] = not al[alias_src(s[3][2])]
                        ch = True
    out = {}
    for i, b in enumerate(f.blocks):
        if b.cleanup or b.term[0] != "switch":
            continue
        p = op_place(b.term[2])
        if p and len(p) == 1 and p[0] in al:
            for v, t in b.term[3]:
                out[(i, t)] = bool(int(v)) == al[p[0]]
            if len(b.term[3]) == 1:
                out[(i, b.term[4])] = (not bool(int(b.term[3][0][0]))) == al[p[0]]
    return out


def status_writes(f):
    """[(block, line, place)] of assignments through a status guard."""
    out = []
    for i, b in enumerate(f.blocks):
        if b.cleanup:
            continue
        for s in b.stmts:
            if s[0] == "=" and len(s[2]) > 1 and s[2][1] == "*" and len(s[2]) == 2 and f.local_ty(s[2][0]).startswith("&mut") and f.local_ty(s[2][0]).endswith(STATUS):
                out.append((i, s[1], s[2]))
        if b.term[0] == "call":
            c = f.call_at(i)
            if c.callee.short in ("replace", "take", "swap") and c.args and op_place(c.args[0]) and f.local_ty(op_place(c.args[0])[0]).startswith("&mut") and f.local_ty(op_place(c.args[0])[0]).endswith(STATUS):
                out.append((i, c.line, op_place(c.args[0])))
            if c.dest and len(c.dest) == 2 and c.dest[1] == "*" and f.local_ty(c.dest[0]).endswith(STATUS):
                out.append((i, c.line, c.dest))
    return out


def aggs(f, ty, variant):
    return [(i, s[1]) for i, b in enumerate(f.blocks) if not b.cleanup for s in b.stmts if s[0] == "=" and s[3][0] == "agg" and s[3][1].split("<")[0].endswith(ty) and s[3][2] == variant]


def none_hub(f):
    """Edges taken when there is no event hub."""
    return discr_edges(f, lambda p: "EventHub" in f.local_ty(p[0]) or any(isinstance(e, list) and e[0] == "f" and "event_hub" in str(e[2]) for e in p[1:]), 0)


def sends(ctx, f, variants=None):
    """Blocks that send a background-operation event (directly or through a helper)."""
    out = set()
    for c in f.calls:
        if f.blocks[c.bb].cleanup:
            continue
        if c.callee.short == "send_event" and aggs_any(f):
            out.add(c.bb)
            continue
        for t in ctx.m.targets(c.callee):
            if t.uid.startswith("common::long_operation") and t is not f and t.short not in DERIVED and any(x.callee.short == "send_event" for x in t.calls) and aggs_any(t):
                out.add(c.bb)
    return out


def aggs_any(f):
    return any(s[0] == "=" and s[3][0] == "agg" and s[3][1].endswith(EVENT) for b in f.blocks for s in b.stmts) or any(EVENT in f.local_ty(i) for i in range(1, f.nargs + 1))


def C27(ctx):
    ctx.rule("ends-once", "the status of an operation is only ever set where it was found to be Running under the same lock guard")
    ctx.rule("ends-truly", "Completed is reached, and a result stored, only where the operation returned Ok; Failed, with its error, only where it returned an error")
    ctx.rule("told", "after the status is set the matching event is sent on every path; an event of an ending is sent only for that ending; Started is sent before the work is spawned")
    ctx.rule("flagged", "cancelling sets the cancel flag on every path and hands the flag of the operation to its worker")
    ctx.rule("obeyed", "every loop of a background operation that adds content to the document looks at the flag, a set flag ends the operation with an error, and the flag is looked at between the last change and the commit")
    ctx.rule("read-back", "a handle reports a failed or cancelled operation as an error, the failure's own text included, and only those")
    mine = [f for f in ctx.m.fns.values() if f.uid.startswith("common::long_operation") and "::tests" not in f.uid and f.short not in DERIVED]
    vn = ctx.m.adts[STATUS].variant_names
    writers = []
    for f in mine:
        for i, line, p in status_writes(f):
            g = guard_of(f, p)
            cut = running_edges(ctx, f, g)
            writers.append((f, i, line))
            ctx.ob("ends-once", "once/%s" % f.uid, bool(cut) and i not in walk(f, cut), "%s:%d" % (f.file, line), "%s sets the status without having found it Running under the same guard" % f.short)
    ctx.floor("ends-once", 2)
    # truly
    for f in mine:
        for v, edge, name in (("Completed", 0, "Ok"), ("Failed", 1, "Err")):
            for i, line in aggs(f, "OperationStatus", v):
                cut = discr_edges(f, lambda p: base_ty((ty_of(f, p) or "").lstrip("&")) == RESULT or any(base_ty(f.local_ty(p[0]).lstrip("&")) == RESULT for _ in (0,)), edge)
                for c in f.calls:
                    if c.callee.short in ("is_ok", "is_err") and len(c.dest) == 1:
                        cut |= {e for e, t in bool_edges(f, c.dest[0]).items() if t == ((c.callee.short == "is_ok") == (edge == 0))}
                clo = base_ty(f.local_ty(1).lstrip("&")) == RESULT if f.nargs else False
                direct = f.kind.startswith("closure") and not cut            # map / map_err style closure: runs only on that side
                ctx.ob("ends-truly", "truly/%s/%s" % (v, f.uid), direct or bool(cut) and i not in walk(f, cut), "%s:%d" % (f.file, line), "%s is set where the operation did not return %s" % (v, name))
        for c in f.calls:
            if c.callee.short == "insert" and not f.blocks[c.bb].cleanup and c.args and on_results(f, c) and c.fn.short != "store_operation_result" and touches_worker(ctx, f):
                cut = discr_edges(f, lambda p: base_ty(f.local_ty(p[0]).lstrip("&")) == RESULT and "Serializ" not in f.local_ty(p[0]) and "serde" not in f.local_ty(p[0]), 0)
                ctx.ob("ends-truly", "truly/result/%s" % f.uid, bool(cut) and c.bb not in walk(f, cut), c.where, "a result is stored where the operation did not return Ok")
    ctx.floor("ends-truly", 2)
    # told
    for f, i, line in writers:
        S = sends(ctx, f)
        if S:
            left = walk(f, none_hub(f), i, S) & set(f.returns())
            ctx.ob("told", "told/%s" % f.uid, not left, "%s:%d" % (f.file, line), "%s sets the status and can return without sending the event" % f.short)
        else:
            callers = [(g, c) for g in mine for c in g.calls if not g.blocks[c.bb].cleanup and any(t is f for t in ctx.m.targets(c.callee))]
            for g, c in callers:
                S = sends(ctx, g)
                cut = none_hub(g) | {e for e, v in bool_edges(g, c.dest[0]).items() if not v} if f.local_ty(0) == "bool" else none_hub(g)
                nxt = f.blocks and g.blocks[c.bb].succ[0]
                left = walk(g, cut, nxt, S) & set(g.returns())
                ctx.ob("told", "told/%s/%s" % (f.uid, g.uid), bool(S) and not left, c.where, "%s ends an operation through %s and can return without sending the event" % (g.short, f.short))
            ctx.ob("told", "told/%s/callers" % f.uid, bool(callers), "%s:%d" % (f.file, line), "nobody reports that %s ended the operation" % f.short)
    for f in mine:
        for v in ("Completed", "Cancelled", "Failed"):
            for i, line in aggs(f, EVENT, v):
                cut = discr_edges(f, lambda p: status_places(f)(p) or STATUS in f.local_ty(p[0]), vn.index(v))
                if v == "Cancelled":
                    for c in f.calls:
                        if any(t in [w[0] for w in writers] for t in ctx.m.targets(c.callee)) and len(c.dest) == 1 and f.local_ty(c.dest[0]) == "bool":
                            cut |= {e for e, t in bool_edges(f, c.dest[0]).items() if t}
                ctx.ob("told", "event/%s/%s" % (v, f.uid), bool(cut) and i not in walk(f, cut), "%s:%d" % (f.file, line), "the event %s is sent for another ending" % v)
        for c in f.calls:
            if (c.callee.name or "").endswith(("thread::spawn", "functions::spawn")) and not f.blocks[c.bb].cleanup:
                started = {i for i, _ in aggs(f, EVENT, "Started")}
                ctx.ob("told", "started/%s" % f.uid, c.bb not in walk(f, none_hub(f), 0, started | {x for x in sends(ctx, f)}), c.where, "the work is spawned before Started is sent")
    ctx.floor("told", 4)
    # flagged
    for f in mine:
        if f.trait and f.trait.endswith("OperationHandleTrait") and f.short == "cancel" or f.trait is None and f.short == "cancel" and f.self_ty and f.self_ty.endswith("OperationHandle"):
            st = {c.bb for c in f.calls if c.callee.short in ("store", "swap", "fetch_or") and "Atomic" in (c.callee.name or "") and len(c.args) > 1 and const_bool(c.args[1]) == 1}
            ctx.ob("flagged", "flag/%s" % f.uid, bool(st) and not (walk(f, (), 0, st) & (set(f.returns()) | {i for g, i, l in writers if g is f})), f.loc, "cancel can return, or end the operation, without setting the flag")
        for c in f.calls:
            if c.callee.tr and c.callee.tr.endswith("LongOperation") and c.callee.short == "execute" and len(c.args) > 2:
                worker = flag_births(ctx, f, mine, c.args[2])
                kept = [flag_births(ctx, g, mine, o) for g in mine for b in g.blocks if not b.cleanup for x in b.stmts if x[0] == "=" and x[3][0] == "agg" and x[3][1].endswith("OperationHandle") for o in x[3][4] if op_place(o) and is_flag(g.local_ty(op_place(o)[0]))]
                ctx.ob("flagged", "hand/%s" % f.uid, bool(worker) and kept == [worker], c.where, "the worker gets another flag than the handle")
    ctx.floor("flagged", 1)
    # obeyed
    eff = effects(ctx)[0]["writes the store"]
    for f in sorted(ctx.m.fns.values(), key=lambda f: f.uid):
        if not (f.short == "execute" and f.trait and f.trait.endswith("long_operation::LongOperation")) or "test" in f.uid:
            continue
        body = {f.uid: f}
        for u, g in ctx.m.reach(f).items():
            if g.crate == f.crate and (any(is_flag(g.local_ty(i)) for i in range(1, g.nargs + 1)) or g.kind == "closure" and any(c.callee.short == "load" and "Atomic" in (c.callee.name or "") for c in g.calls)):
                body[u] = g
        for g in body.values():
            looks = flag_looks(ctx, g, body)
            for comp in loops(g):
                wr = [c for c in g.calls if c.bb in comp and creates(ctx, c)]
                if wr:
                    ctx.ob("obeyed", "loop/%s/%s" % (g.uid, wr[0].callee.short), loop_looks(g, comp, looks), wr[0].where, "a loop of %s that adds content never looks at the cancel flag" % g.short)
            for bb in sorted({b for b, k in looks.items() if k == "load"}):
                c = g.call_at(bb)
                on = {e for e, v in bool_edges(g, c.dest[0]).items() if v}
                if g.local_ty(0) == "bool":
                    continue                    # tells its caller, who is judged
                bad = [x for e in on for x in walk(g, (), e[1]) & ({r for r in g.returns() if not err_only(g, e[1])} | {x.bb for x in g.calls if x.callee.short == "commit"})]
                ctx.ob("obeyed", "stop/%s" % g.uid, bool(on) and not bad, c.where, "a set flag does not end %s with an error" % g.short)
            for c in g.calls:
                if c.callee.short == "commit" and not g.blocks[c.bb].cleanup and any(t.uid in effects_commit(ctx) for t in ctx.m.targets(c.callee)):
                    before = [x for x in g.calls if x.bb != c.bb and not g.blocks[x.bb].cleanup and x.callee.short != "rollback" and any(t.uid in eff for t in ctx.m.targets(x.callee))]
                    stop = {b for b, k in looks.items() if k != "call"}
                    bad = [x for x in before if c.bb in walk(g, (), g.blocks[x.bb].succ[0], stop | {y.bb for y in before}) and x.bb not in stop]
                    ctx.ob("obeyed", "commit/%s" % g.uid, not bad, c.where, "%s can commit after %s without looking at the flag" % (g.short, bad[0].callee.short if bad else ""))
    ctx.floor("obeyed", 4)
    # read-back
    n = 0
    for f in ctx.m.fns.values():
        if f.crate != "text_document" or "::tests" in f.uid or f.short in DERIVED:
            continue
        ed = {v: discr_edges(f, lambda p: place_status(f, p), vn.index(v)) for v in ("Failed", "Cancelled", "Completed", "Running")}
        if not ed["Failed"] and not ed["Cancelled"]:
            continue
        n += 1
        for v in ("Failed", "Cancelled"):
            bad = not ed[v]
            for (i, t) in ed[v]:
                blocks = walk(f, (), t)
                errs = {b for b in blocks if any(s[0] == "=" and s[3][0] == "agg" and base_ty(s[3][1]) == RESULT and s[3][2] == "Err" for s in f.blocks[b].stmts)} | \
                       {c.bb for c in f.calls if c.callee.short in ("err", "from_residual")}
                if walk(f, (), t, errs) & set(f.returns()):
                    bad = True
            ctx.ob("read-back", "read/%s/%s" % (f.uid, v), not bad, f.loc, "%s does not report a %s operation as an error" % (f.short, v.lower()))
    ctx.ob("read-back", "anchor", n > 0, "text_document::operation", "no function of the handle looks at the status")
    return ctx.finish(explanation="Typestate of the operation status: guard identity, dominating Running test and outcome edges over MIR with flags followed, must-send analysis after each status change, loop and commit gates on the cancel flag.")


def loop_looks(g, comp, looks):
    """No round of the loop goes from its head back to its head without a look."""
    for h in comp:
        if any(h in b.succ and i not in comp for i, b in enumerate(g.blocks)):
            seen, todo = set(), [] if h in looks else [h]
            while todo:
                i = todo.pop()
                for x in g.blocks[i].succ:
                    if x == h:
                        return False
                    if x in comp and x not in seen and x not in looks and not g.blocks[x].cleanup:
                        seen.add(x)
                        todo.append(x)
    return True


def is_flag(t):
    return "AtomicBool" in t or "Atomic<bool>" in t


def flag_births(ctx, f, mine, o):
    """Where the flag behind an operand is made."""
    return {(c.fn.uid, c.bb) for c in gslice(ctx, f, o, group=mine).calls if c.callee.short in ("new", "default", "from") and is_flag(c.fn.local_ty(c.dest[0]))  and "Atomic" in (c.callee.name or "")}


def place_status(f, p):
    t = f.local_ty(p[0])
    return STATUS in t and (t.lstrip("&").startswith(STATUS) or any(isinstance(e, list) and e[0] == "d" for e in p[1:]))


def on_results(f, c):
    p = op_place(c.args[0])
    return p is not None and "String, alloc::string::String" in f.local_ty(p[0]) or p is not None and "HashMap<alloc::string::String, alloc::string::String" in f.local_ty(guard_of(f, p))


def touches_worker(ctx, f):
    return any(base_ty(f.local_ty(i).lstrip("&")) == RESULT for i in range(len(f.locals)))


def creates(ctx, c, seen=()):
    """Whether a call adds an entity to the document: a creating method of the unit of work, or an operation that calls one."""
    if c.callee.short.startswith(("create_", "insert_")) and c.callee.tr and "UnitOfWork" in c.callee.tr:
        return True
    return any(t.crate == c.fn.crate and t.uid not in seen and "UnitOfWork" not in (t.self_ty or "") and
               any(creates(ctx, x, seen + (t.uid,)) for x in t.calls if not t.blocks[x.bb].cleanup) for t in ctx.m.targets(c.callee))


def effects_commit(ctx):
    r = getattr(ctx, "_commits", None)
    if r is None:
        r = ctx._commits = {u for u, f in ctx.m.fns.items() if f.short == "commit"}
    return r


def err_only(g, bb):
    """Every return reached from bb carries an error."""
    errs = {i for i, b in enumerate(g.blocks) if ret_place_assign_kind(g, i) == "err"}
    return not (walk(g, (), bb, errs) & set(g.returns()))


def loops(f):
    from gates import sccs
    comp = sccs(f)
    comp = comp[0] if isinstance(comp, tuple) else comp
    out = defaultdict(set)
    for b, k in comp.items():
        out[k].add(b)
    return list(out.values())


def flag_looks(ctx, g, body):
    """block -> 'load' (reads the flag) or 'call' (hands it to a function that reads it)."""
    out = {}
    for c in g.calls:
        if g.blocks[c.bb].cleanup:
            continue
        if c.callee.short == "load" and "Atomic" in (c.callee.name or ""):
            out[c.bb] = "load"
        else:
            for t in ctx.m.targets(c.callee):
                if t.uid in body and t is not g and reads_flag(ctx, t, body, ()):
                    out[c.bb] = "load" if t.local_ty(0) == "bool" else "last" if ends_looking(ctx, t, body) else "call"
    return out


def ends_looking(ctx, t, body):
    """After its last change of the document t looks at the flag before it returns success."""
    eff = effects(ctx)[0]["writes the store"]
    looks = flag_looks(ctx, t, body)
    ok = {r for r in t.returns()}
    errs = {i for i, b in enumerate(t.blocks) if ret_place_assign_kind(t, i) == "err"}
    stop = {b for b, k in looks.items() if k != "call"} | errs
    for x in t.calls:
        if not t.blocks[x.bb].cleanup and x.bb not in stop and any(y.uid in eff for y in ctx.m.targets(x.callee)) and walk(t, (), t.blocks[x.bb].succ[0], stop) & ok:
            return False
    return True


def reads_flag(ctx, t, body, seen):
    if t.uid in seen:
        return False
    return any(c.callee.short == "load" and "Atomic" in (c.callee.name or "") or any(x.uid in body and reads_flag(ctx, x, body, seen + (t.uid,)) for x in ctx.m.targets(c.callee)) for c in t.calls if not t.blocks[c.bb].cleanup)
