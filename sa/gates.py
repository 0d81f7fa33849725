"""Interprocedural slices and must-pass-through gates, tolerant of extracted helpers, closures and loops."""
from slices import *
from paths import *


def RET():
    return {"c": [0]}


def closure_of(ctx, fn, agg):
    """Fn of a closure aggregate name 'closure <uid>'."""
    u = agg[8:]
    if fn.uid.startswith("cli_bin::"):
        u = u.replace("text_document::", "cli_bin::", 1)
    return ctx.m.fns.get(u)


def closure_value(ctx, fn, p):
    """The closure a place holds or refers to."""
    for _ in range(5):
        ds = defs(fn)[0].get(p[0], [])
        if len(ds) != 1 or ds[0][1] != "rv":
            return None
        r = ds[0][2]
        if r[0] == "agg":
            return closure_of(ctx, fn, r[1]) if r[1].startswith("closure ") else None
        if r[0] == "ref":
            p = r[2]
        elif r[0] in ("use", "cast"):
            p = op_place(rv_operands(r)[0])
            if not p:
                return None
        else:
            return None
    return None


def creators(ctx):
    """closure uid -> [(fn, bb, aggregate rvalue, target place)]"""
    r = getattr(ctx, "_creators", None)
    if r is None:
        r = defaultdict(list)
        for f in ctx.m.fns.values():
            for i, b in enumerate(f.blocks):
                if b.cleanup:
                    continue
                for s in b.stmts:
                    if s[0] == "=" and s[3][0] == "agg" and s[3][1].startswith("closure "):
                        t = closure_of(ctx, f, s[3][1])
                        if t:
                            r[t.uid].append((f, i, s[3], s[2]))
        ctx._creators = r
    return r


def all_places(fn):
    for b in fn.blocks:
        if b.cleanup:
            continue
        for s in b.stmts:
            if s[0] == "=":
                yield s[2]
                if s[3][0] in ("ref", "discr", "raw"):
                    yield s[3][-1]
                for o in rv_operands(s[3]):
                    p = op_place(o)
                    if p:
                        yield p
        if b.term[0] == "call":
            yield b.term[4]
            for o in b.term[3]:
                p = op_place(o)
                if p:
                    yield p


def cap_operands(ctx, clo, name):
    """(fn, operand) of what closure `clo` captured under `name`, at each place it is created."""
    idx = {e[1] for p in all_places(clo) if p and isinstance(p, list) for e in p[1:]
           if isinstance(e, list) and e[0] == "f" and e[3].startswith("closure ") and e[2].split(":")[-1] == name}
    out = []
    for f, i, agg, dst in creators(ctx)[clo.uid]:
        for k in idx:
            if k < len(agg[4]):
                out.append((f, agg[4][k]))
    return out


def merge(a, b):
    a.fields |= b.fields
    a.calls += [c for c in b.calls if c not in a.calls]
    a.consts += b.consts
    a.caps |= b.caps
    a.ops |= b.ops
    a.tys |= b.tys
    a.aggs |= b.aggs


def gslice(ctx, fn, *operands, group=(), depth=4, follow=None, inner=True, _seen=None):
    """bslice that enters same-crate helpers and closures for the value they return, resolves what a closure
    captured, and resolves the parameters of helper functions of `group` from their call sites."""
    seen = _seen if _seen is not None else set()
    s = bslice(fn, *operands, follow=follow)
    k = (fn.uid, frozenset(s.locals))
    if k in seen or depth < 0:
        return s
    seen.add(k)
    ups = {g.uid for g in group}
    if inner:
        for c in list(s.calls):
            if follow is not None and not follow(c):
                continue
            ts = [] if c.callee.virt else ctx.m.targets(c.callee)
            for t in ts[:3]:
                if t.crate == fn.crate or t.uid in ups:
                    merge(s, gslice(ctx, t, RET(), depth=depth - 1, follow=follow, _seen=seen))
        for a in list(s.aggs):
            if a[0].startswith("closure "):
                t = closure_of(ctx, fn, a[0])
                if t:
                    merge(s, gslice(ctx, t, RET(), depth=depth - 1, follow=follow, _seen=seen))
    if fn.kind == "closure":
        if s.args or s.caps:
            for f, i, agg, dst in creators(ctx)[fn.uid]:
                if group and f.uid not in ups:
                    continue
                merge(s, gslice(ctx, f, *agg[4], group=group, depth=depth - 1, follow=follow, inner=inner, _seen=seen))
                if s.args - {1}:
                    for c in f.calls:
                        if any((op_place(a) or [None])[0] == dst[0] for a in c.args):
                            merge(s, gslice(ctx, f, *c.args, group=group, depth=depth - 1, follow=follow, inner=inner, _seen=seen))
    elif s.args and group:
        for f in group:
            for c in f.calls:
                if fn in ctx.m.targets(c.callee) and not f.blocks[c.bb].cleanup:
                    xs = [c.args[a - 1] for a in s.args if a - 1 < len(c.args)]
                    if f.uid != fn.uid:
                        merge(s, gslice(ctx, f, *xs, group=group, depth=depth - 1, follow=follow, inner=inner, _seen=seen))
    return s


# ------------------------------------------------------------------ loops
def sccs(fn):
    """block -> id of its loop (strongly connected component with a cycle), and loop id -> entry blocks."""
    r = getattr(fn, "_sccs", None)
    if r is not None:
        return r
    idx, low, on, st, out = {}, {}, set(), [], {}
    n = [0]
    comp = {}

    def succ(i):
        return [t for t in fn.blocks[i].succ if not fn.blocks[t].cleanup]

    for root in range(len(fn.blocks)):
        if root in idx or fn.blocks[root].cleanup:
            continue
        work = [(root, iter(succ(root)))]
        idx[root] = low[root] = n[0]; n[0] += 1
        st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(succ(w))))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                cs = []
                while True:
                    w = st.pop(); on.discard(w); cs.append(w)
                    if w == v:
                        break
                if len(cs) > 1 or v in succ(v):
                    for w in cs:
                        comp[w] = v
    entries = defaultdict(set)
    pr = fn.preds()
    for b, k in comp.items():
        if b == 0 or any(comp.get(p) != k for p in pr[b] if not fn.blocks[p].cleanup):
            entries[k].add(b)
    fn._sccs = (comp, entries)
    return fn._sccs


def lift(fn, bb):
    comp, ent = sccs(fn)
    return set(ent[comp[bb]]) if bb in comp else {bb}


def emptiness_switches(ctx, fn, dep):
    """Blocks that branch on whether a value carrying one of the fields `dep` is empty / absent."""
    out = set()
    whole, _ = defs(fn)
    for i, b in enumerate(fn.blocks):
        if b.cleanup or b.term[0] != "switch":
            continue
        p = op_place(b.term[2])
        if not p or len(p) != 1:
            continue
        for d in whole.get(p[0], []):
            src = b.term[2]
            for _ in range(3):          # !x.is_empty()
                if d[1] == "rv" and d[2][0] in ("un", "use"):
                    q = op_place(rv_operands(d[2])[0])
                    n = whole.get(q[0], []) if q and len(q) == 1 else []
                    if len(n) == 1:
                        d = n[0]
                        continue
                break
            ok = False
            if d[1] == "call":
                ok = d[2].callee.short in ("is_empty", "is_some", "is_none", "any")
            elif d[2][0] == "discr":
                t = fn.local_ty(d[2][1][0]) if len(d[2][1]) == 1 else ""
                ok = t == "" or "Option<" in t.split("::", 3)[-1][:12] or t.startswith("core::option::Option") or "&core::option" in t
            elif d[2][0] == "bin" and any(str(o.get("k", "")).startswith("0") for o in rv_operands(d[2]) if isinstance(o, dict)):
                ok = True
            own = lambda c: not ctx.m.targets(c.callee)
            if ok and dep(gslice(ctx, fn, src, follow=own)):
                out.add(i)
    return out


class Gates:
    """pred(fn, call) -> bool marks the calls every path must pass; helpers and closures are entered."""

    def __init__(self, ctx, pred, group, dep=None, stmt=None, cut=None):
        """cut(fn) -> edges (block, successor) that cannot be taken."""
        self.ctx, self.pred, self.dep, self.stmt, self.cut = ctx, pred, dep, stmt, cut
        self.group = {g.uid for g in group}
        self.memo = {}

    def any_in(self, fn):
        return bool(self.blocks(fn))

    def blocks(self, fn):
        if fn.uid in self.memo:
            return self.memo[fn.uid]
        self.memo[fn.uid] = set()
        out = set()
        for i, b in enumerate(fn.blocks):
            if b.cleanup:
                continue
            hit = False
            c = fn.call_at(i)
            if self.stmt and any(self.stmt(fn, s) for s in b.stmts):
                hit = True
            if c is not None and not hit:
                if self.pred(fn, c):
                    hit = True
                else:
                    ts = [t for t in self.ctx.m.targets(c.callee) if t.uid in self.group and t.uid != fn.uid]
                    if ts and all(self.passes(t) for t in ts):
                        hit = True
                    for a in c.args:
                        p = op_place(a)
                        if not p:
                            continue
                        t = closure_value(self.ctx, fn, p)
                        if t and self.any_in(t):
                            hit = True
            if hit:
                out |= lift(fn, i)
        if self.dep and out:
            out |= emptiness_switches(self.ctx, fn, self.dep)
        self.memo[fn.uid] = out
        return out

    def passes(self, fn, start=0, after=False):
        """No path from start to a successful return avoids the gates."""
        return self.escape(fn, start, None, after) is None

    def escape(self, fn, start=0, goal=None, after=False):
        """A block path start -> goal (default: a successful return) that avoids the gates, or None."""
        g = self.blocks(fn)
        errs = err_blocks(fn)
        cut = self.cut(fn) if self.cut else ()
        if goal is None:
            goals = set(fn.returns())
        else:
            goals = {goal}
        par = {}
        todo = deque()
        if after:
            for t in fn.blocks[start].succ:
                if t not in par:
                    par[t] = start
                    todo.append(t)
        else:
            par[start] = None
            todo.append(start)
        while todo:
            i = todo.popleft()
            if i in goals:
                p, j = [], i
                while j is not None and len(p) < 400:
                    p.append(j)
                    if j == start and (after or par.get(j) is None):
                        break
                    j = par.get(j)
                return p[::-1]
            if i in g or fn.blocks[i].cleanup or i in errs:
                continue
            for t in fn.blocks[i].succ:
                if t not in par and (i, t) not in cut:
                    par[t] = i
                    todo.append(t)
        return None

    def decides(self, fn, path):
        """Conditions of the branches of an escaping path that have another way out that does not escape."""
        out = []
        for a, b in zip(path, path[1:]):
            t = fn.blocks[a].term
            if t[0] != "switch":
                continue
            others = [s for s in fn.blocks[a].succ if s != b and not fn.blocks[s].cleanup and s not in err_blocks(fn)]
            if others and all(self.escape(fn, s) is None for s in others):
                sl = bslice(fn, t[2], follow=lambda c: False)
                if any("ControlFlow" in x for x in sl.tys):
                    continue
                v = [str(k) for k, j in t[3] if j == b] or ["other"]
                out.append("%s is %s" % ("/".join(sorted(sl.shorts() - {"deref", "branch", "into_iter", "from_residual"}))[:60] or "condition", v[0]))
        return out

    def required(self, fn, at):
        """Every successful execution through block `at` passes a gate (before or after it)."""
        if at in self.blocks(fn):
            return True
        return self.escape(fn, 0, at) is None or self.escape(fn, at, None, after=True) is None
