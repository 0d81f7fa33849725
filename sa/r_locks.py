"""Locks: callbacks never run under a lock (C13), lock order is acyclic (C14)."""
from locks import *

LISTENER = re.compile(r"(text_document::events::DocumentEvent|common::event::Event)\b")
OWN = "dyn core::ops::function::Fn"
BLOCKING = re.compile(r"(::JoinHandle::join|::Receiver::recv|::Receiver::recv_timeout|::Receiver::recv_deadline|::Condvar::wait\w*|::thread::(functions::)?(sleep|park\w*)|::Barrier::wait|::Selector::wait\w*)$")


def locks(ctx):
    if not hasattr(ctx, "_locks"):
        ctx._locks = Locks(ctx)
    return ctx._locks


def nice(k):
    return re.sub(r"[a-z_0-9]+::", "", k[1]).replace(", Global", "").replace(", RandomState", "")[:60]


def listener_call(c):
    if c.fn.blocks[c.bb].cleanup or c.callee.short not in ("call", "call_mut", "call_once") or not c.callee.g:
        return False
    return OWN in c.callee.g[0] and len(c.callee.g) > 1 and bool(LISTENER.search(c.callee.g[1]))


def spread(L, seeds):
    """uid -> (call, next uid) for every function that may run one of the seed sites before it returns."""
    out = {}
    todo = deque()
    for c in seeds:
        out.setdefault(c.fn.uid, (c, None))
    todo.extend(out)
    rev = defaultdict(list)
    for f in L.m.fns.values():
        for c, ts in L.callees(f):
            if L.m.on_param(c.callee):
                continue
            for t in ts:
                rev[t.uid].append((f, c))
        for i, line, t in L.drops(f):
            rev[t.uid].append((f, DropAt(f, i, line)))
    while todo:
        u = todo.popleft()
        for f, c in rev[u]:
            if f.uid not in out:
                out[f.uid] = (c, u)
                todo.append(f.uid)
    return out, rev


def trail(L, sp, u):
    out = []
    for _ in range(10):
        c, n = sp[u]
        out.append("%s@%s" % (L.m.fns[u].short, c.where.rsplit("/", 1)[-1]))
        if n is None:
            break
        u = n
    return " -> ".join(out)


def C13(ctx):
    L = locks(ctx)
    ctx.rule("callback-unlocked", "a listener callback is called with no lock held other than the mutex that guards that one callback")
    ctx.rule("caller-unlocked", "a function that may run listener callbacks before it returns is called with no lock held")
    seeds = [c for f in ctx.m.fns.values() for c in f.calls if listener_call(c)]
    for c in seeds:
        hs = [k for k in L.classes(c.fn, L.held(c.fn).get(c.bb, ())) if not re.match(r"^alloc::boxed::Box<dyn core::ops::function::Fn", k[1])]
        ctx.ob("callback-unlocked", "%s" % c.fn.name, not hs, c.where, "a listener is called while %s is locked" % ", ".join(map(nice, hs)))
    sp, rev = spread(L, seeds)
    for u in sp:
        for f, c in rev[u]:
            hs = [k for k in L.classes(f, L.held(f).get(c.bb, ()))]
            # a lock whose guard the call itself consumes is released inside; it still counts unless dropped first
            ctx.ob("caller-unlocked", "%s:%s" % (f.name, L.m.fns[u].short), not hs, c.where,
                   "listeners are called while %s is locked: %s" % (", ".join(map(nice, hs)), trail(L, sp, u)))
    ctx.floor("callback-unlocked", 2)
    ctx.floor("caller-unlocked", 30)
    return ctx.finish(explanation="Every call of a stored listener callback, and every call that may reach one before returning, against the guards alive there.")


def lock_edges(L):
    """(held class, wanted class) -> [(function, where, path)]"""
    acq = L.acquires()
    edges = defaultdict(list)
    for f in L.m.fns.values():
        h = L.held(f)
        if not any(h.values()):
            continue
        for c, ts in L.callees(f):
            hs = h.get(c.bb, frozenset())
            if not hs:
                continue
            A = L.classes(f, hs)
            B = {}
            for k in L.direct(c):
                B[k] = c.where
            if not L.m.on_param(c.callee):
                for t in ts:
                    for k in acq[t.uid]:
                        B.setdefault(k, (t, k))
            for a in A:
                for b in B:
                    edges[(a, b)].append((f, c.where, B[b]))
        for i, line, t in L.drops(f):
            hs = h.get(i, frozenset())
            for a in L.classes(f, hs):
                for k in acq[t.uid]:
                    edges[(a, k)].append((f, "%s:%s" % (f.file, line), (t, k)))
    return edges


def conflict(a, b):
    return not (a == "r" and b == "r")


def C14(ctx):
    L = locks(ctx)
    ctx.rule("no-reacquire", "while a lock is held, nothing called acquires a lock of the same class again")
    ctx.rule("ordered", "the relation \"acquired while holding\" between lock classes has no cycle in which every wait conflicts with the hold it waits for")
    ctx.rule("no-wait-locked", "no thread is joined, channel awaited or pause made while the document, a cursor, the history or the store is locked")
    edges = lock_edges(L)
    E = list(edges)
    cyc = {}
    # self edges
    for a, b in E:
        if (a[0], a[1]) == (b[0], b[1]):
            f, w, p = edges[(a, b)][0]
            ctx.ob("no-reacquire", "%s" % nice(a), False, w,
                   "%s is locked again while %s holds it: %s" % (nice(a), f.name, p if isinstance(p, str) else L.path(*p)))
    held = sorted({a for a, b in E}, key=str)
    for a in held:
        ctx.ob("no-reacquire", "holder:%s:%s" % (nice(a), a[2]), True, "", "")
    # cycles: edge graph
    byfrom = defaultdict(list)
    for e in E:
        byfrom[(e[0][0], e[0][1])].append(e)
    nxt = {e: [x for x in byfrom[(e[1][0], e[1][1])] if conflict(e[1][2], x[0][2])] for e in E}
    scc = sccs(E, nxt)
    for e in E:
        comp = scc[e]
        bad = len(comp) > 1 and (e[0][0], e[0][1]) != (e[1][0], e[1][1])
        f, w, p = edges[e][0]
        msg = ""
        if bad:
            back = [x for x in comp if x != e][:2]
            msg = "%s is acquired while %s is held in %s, and elsewhere the other way round (%s)" % (
                nice(e[1]), nice(e[0]), f.name, "; ".join("%s then %s at %s" % (nice(x[0]), nice(x[1]), edges[x][0][1]) for x in back))
        ctx.ob("ordered", "%s>%s" % (nice(e[0]), nice(e[1])), not bad, w, msg)
    seeds = [c for f in ctx.m.fns.values() for c in f.calls if not f.blocks[c.bb].cleanup and BLOCKING.search(c.callee.name or c.callee.decl)]
    sp, rev = spread(L, seeds)
    for c in seeds:
        hs = L.classes(c.fn, L.held(c.fn).get(c.bb, ()))
        ctx.ob("no-wait-locked", "%s:%s" % (c.fn.name, c.callee.short), not hs, c.where, "waits while %s is locked" % ", ".join(map(nice, hs)))
    for u in sp:
        for f, c in rev[u]:
            hs = L.classes(f, L.held(f).get(c.bb, ()))
            ctx.ob("no-wait-locked", "%s:%s" % (f.name, L.m.fns[u].short), not hs, c.where, "waits while %s is locked: %s" % (", ".join(map(nice, hs)), trail(L, sp, u)))
    ctx.floor("ordered", 60)
    ctx.floor("no-reacquire", 10)
    return ctx.finish(explanation="Lock classes are (lock kind, guarded type); every acquisition reachable while a guard is alive is an edge.")


def sccs(nodes, nxt):
    idx, low, on, st, out = {}, {}, set(), [], {}
    n = [0]
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(nxt[r]))]
        idx[r] = low[r] = n[0]; n[0] += 1
        st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(nxt[w])))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop(); on.discard(w); comp.append(w)
                    if w == v:
                        break
                for w in comp:
                    out[w] = comp
    return out


