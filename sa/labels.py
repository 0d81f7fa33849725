"""Context-sensitive event labels: what a call certainly / possibly does, with argument provenance
carried into helper functions (so that extracting a helper does not hide an event)."""
from paths import *


class Labeler:
    """lab(call, srcs) -> iterable of labels for the call itself, srcs = list of per-argument
    provenance sets (filtered by `keep`).  Helpers are entered when enter(call, target) holds."""

    def __init__(self, ctx, lab, keep=None, enter=None, stmt=None, depth=6, flags=False):
        self.flags = flags
        self.ctx, self.lab, self.keep = ctx, lab, keep or (lambda s: s[0] == "field")
        self.enter = enter or (lambda c, t: True)
        self.stmt = stmt
        self.stmt_ctx = stmt is not None and stmt.__code__.co_argcount >= 3
        self.depth = depth
        self.memo = {}
        self.stack = set()

    def srcs(self, fn, o, actx, kb=()):
        out = set()
        if self.flags:
            v = const_bool(o) if "k" in o else None
            p = op_place(o)
            if kb and p and len(p) == 1:
                v = dict(kb).get(p[0])
            if v is None and p and len(p) == 1 and fn.local_ty(p[0]) == "bool" and actx:
                ds = defs(fn)[0].get(p[0], [])
                l = p[0]
                if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "use" and op_place(ds[0][2][1]) and len(op_place(ds[0][2][1])) == 1:
                    l = op_place(ds[0][2][1])[0]
                if 0 < l <= fn.nargs and l - 1 < len(actx):
                    x = [y for y in actx[l - 1] if y[0] == "flag"]
                    if x:
                        v = x[0][1]
            if v is not None:
                return frozenset([("flag", v)])
        for s in self.ctx.prov(fn).op(o):
            if s[0] == "arg":
                if actx and s[1] - 1 < len(actx):
                    out |= actx[s[1] - 1]
                elif self.keep(s):
                    out.add(s)
            elif self.keep(s):
                out.add(s)
        return frozenset(out)

    def block(self, fn, i, actx=(), kb=()):
        """(must, may) labels of block i."""
        key = ("b", fn.uid, i, actx, kb)
        if key in self.memo:
            return self.memo[key]
        must, may = set(), set()
        if self.stmt:
            for s in fn.blocks[i].stmts:
                must |= set((self.stmt(fn, s, actx) if self.stmt_ctx else self.stmt(fn, s)) or ())
            t = fn.blocks[i].term
            if t[0] == "drop" and not self.stmt_ctx:
                must |= set(self.stmt(fn, t) or ())
        may |= must
        c = fn.call_at(i)
        if c is not None:
            a = tuple(self.srcs(fn, x, actx, kb) for x in c.args)
            g = set(self.lab(c, a) or ())
            must |= g
            may |= g
            ts = [t for t in self.ctx.m.targets(c.callee) if self.enter(c, t)]
            if ts:
                mi = None
                for t in ts:
                    x, y = self.fn(t, a)
                    mi = set(x) if mi is None else mi & x
                    may |= y
                must |= mi
            for t in self.closures_passed(fn, c):
                may |= self.fn(t, ())[1]
        r = (frozenset(must), frozenset(may))
        if not self.stack:
            self.memo[key] = r
        return r

    def closures_passed(self, fn, c):
        if not hasattr(fn, "_clos"):
            fn._clos = {}
            for b in fn.blocks:
                for s in b.stmts:
                    if s[0] == "=" and s[3][0] == "agg" and s[3][1].startswith("closure "):
                        u = s[3][1][8:]
                        if fn.uid.startswith("cli_bin::"):
                            u = u.replace("text_document::", "cli_bin::", 1)
                        fn._clos[s[2][0]] = self.ctx.m.fns.get(u)
        out = []
        for a in c.args:
            p = op_place(a)
            if p and p[0] in fn._clos and fn._clos[p[0]]:
                out.append(fn._clos[p[0]])
        return out

    def fn(self, fn, actx=()):
        """(must on non-error exits, may) labels of the whole function."""
        key = (fn.uid, actx)
        if key in self.memo:
            return self.memo[key]
        if key in self.stack or len(self.stack) > self.depth:
            return frozenset(), frozenset()
        self.stack.add(key)
        must, may = None, set()
        for i, b in enumerate(fn.blocks):
            if not b.cleanup:
                may |= self.block(fn, i, actx)[1]
        if may:
            sk = self.flag_skip(fn, actx)
            for oc, ek, bb, mu, my in explore(fn, [0], self.gen(fn, actx, 0), after=False, skip=sk):
                if ek == "err":
                    continue
                must = set(mu) if must is None else must & mu
        self.stack.discard(key)
        r = (frozenset(must or ()), frozenset(may))
        self.memo[key] = r
        return r

    def gen(self, fn, actx, k):
        if self.flags:
            def g(i, kb=()):
                return self.block(fn, i, actx, kb)[k]
            g.kb = True
            return g
        return lambda i: self.block(fn, i, actx)[k]

    def flag_skip(self, fn, actx):
        """Edges excluded by boolean arguments whose value the caller fixed."""
        if not self.flags or not actx:
            return None
        known = {}
        for n, a in enumerate(actx):
            for x in a:
                if x[0] == "flag":
                    known[n + 1] = x[1]
        if not known:
            return None
        out = set()
        for i, b in enumerate(fn.blocks):
            if b.cleanup or b.term[0] != "switch":
                continue
            p = op_place(b.term[2])
            neg = False
            for _ in range(4):
                if not p or len(p) != 1 or p[0] in known:
                    break
                ds = defs(fn)[0].get(p[0], [])
                if len(ds) != 1 or ds[0][1] != "rv" or ds[0][2][0] not in ("use", "un"):
                    break
                neg = neg != (ds[0][2][0] == "un")
                p = op_place(rv_operands(ds[0][2])[0])
            if not p or len(p) != 1 or p[0] not in known or len(defs(fn)[0].get(p[0], [])) > 0:
                continue
            v = known[p[0]] ^ (1 if neg else 0)
            lst = {int(x): t for x, t in b.term[3]}
            keep = lst.get(v, b.term[4])
            for t in b.succ:
                if t != keep:
                    out.add((i, t))
        return (lambda i, t: (i, t) in out) if out else None

    def explore(self, fn, starts, actx=(), call=None, after=True, stop=None, skip=None):
        """explore with must from block must-labels and may from block may-labels."""
        sk0 = self.flag_skip(fn, actx)
        sk = (lambda i, t: (skip is not None and skip(i, t)) or (sk0 is not None and sk0(i, t))) if (skip or sk0) else None
        a = explore(fn, starts, self.gen(fn, actx, 0), call, after, stop, skip=sk)
        b = explore(fn, starts, self.gen(fn, actx, 1), call, after, stop, skip=sk)
        d = {}
        for oc, ek, bb, mu, my in b:
            d.setdefault((oc, ek, bb), set()).update(my)
        out = {}
        for oc, ek, bb, mu, my in a:
            k = (oc, ek, bb)
            out[k] = (out[k] & mu) if k in out else mu
        return [(k[0], k[1], k[2], out[k], frozenset(d.get(k, ()))) for k in out]
