"""Path analyses over the model: success/error exits, must-happen summaries, ordering, provenance."""
from collections import defaultdict, deque
from model import *

RESULT = "core::result::Result"


def ret_place_assign_kind(fn, i):
    """How block i assigns the return place: 'err', 'ok', 'other' or None."""
    b = fn.blocks[i]
    k = None
    alias = ret_aliases(fn)
    for s in b.stmts:
        if s[0] == "=" and len(s[2]) == 1 and s[2][0] in alias:
            rv = s[3]
            if rv[0] == "agg" and rv[1] == RESULT:
                k = "err" if rv[2] == "Err" else "ok"
            elif rv[0] == "agg" and rv[1] == "core::option::Option":
                k = "none" if rv[2] == "None" else "some"
            elif rv[0] == "use" and alias_src(rv[1]) in alias:
                pass
            else:
                k = "other"
    t = b.term
    if t[0] == "call" and len(t[4]) == 1 and t[4][0] in alias:
        d = t[2].get("decl", "")
        if d == "core::ops::try_trait::FromResidual::from_residual":
            k = "err"
        else:
            k = "call"
    return k


def alias_src(op):
    p = op.get("m") or op.get("c")
    if p and len(p) == 1:
        return p[0]
    return None


def ret_aliases(fn):
    """Locals whose value is moved whole into the return place (incl. _0)."""
    a = getattr(fn, "_reta", None)
    if a is not None:
        return a
    a = {0}
    ch = True
    while ch:
        ch = False
        for b in fn.blocks:
            if b.cleanup:
                continue
            for s in b.stmts:
                if s[0] == "=" and len(s[2]) == 1 and s[2][0] in a and s[3][0] == "use":
                    x = alias_src(s[3][1])
                    if x is not None and x not in a and x > fn.nargs:
                        a.add(x)
                        ch = True
    fn._reta = a
    return a


def err_blocks(fn):
    """Blocks that set the return value to an error (Err(..) or `?` residual)."""
    r = getattr(fn, "_errb", None)
    if r is None:
        r = set()
        if base_ty(fn.local_ty(0)) == RESULT:
            for i, b in enumerate(fn.blocks):
                if not b.cleanup and ret_place_assign_kind(fn, i) == "err":
                    r.add(i)
        fn._errb = r
    return r


# ------------------------------------------------------------------ error-call summaries
class Flow:
    """Interprocedural analyses over a Model."""

    def __init__(self, m):
        self.m = m
        self._always_err = None

    # --- labels that must have happened on every successful exit -------------------------
    def must(self, label_call, label_stmt=None, follow=None, on_err=False, root_filter=None):
        """Returns MustSummary: gen(fn) = labels that happened on every ok path entry->return.

        label_call(call, targets) -> set of labels generated by the call itself (besides the
        labels of its targets' summaries).  label_stmt(fn, stmt) -> set of labels."""
        return MustSummary(self, label_call, label_stmt, follow, on_err)

    def reaches(self, pred_call, pred_stmt=None):
        """Set of fn uids that may (transitively) perform an event."""
        m = self.m
        direct = {}
        for f in m.fns.values():
            hit = None
            for c in f.calls:
                if f.blocks[c.bb].cleanup:
                    continue
                if pred_call and pred_call(c):
                    hit = c
                    break
            if hit is None and pred_stmt:
                for b in f.blocks:
                    if b.cleanup:
                        continue
                    for s in b.stmts:
                        if pred_stmt(f, s):
                            hit = s
                            break
                    if hit is not None:
                        break
            if hit is not None:
                direct[f.uid] = hit
        # propagate to callers
        out = dict(direct)
        work = deque(m.fns[u] for u in direct)
        while work:
            f = work.popleft()
            for g in m.callers(f):
                if g.uid not in out:
                    out[g.uid] = f
                    work.append(g)
        return out


class MustSummary:
    def __init__(self, flow, label_call, label_stmt, follow, on_err):
        self.flow = flow
        self.m = flow.m
        self.lc = label_call
        self.ls = label_stmt
        self.follow = follow
        self.on_err = on_err
        self._gen = {}
        self._stack = set()
        self._callgen = {}

    def call_gen(self, c):
        """Labels certain to have happened after call c returns (successfully)."""
        t = self.m.targets(c.callee)
        g = set(self.lc(c, t) or ())
        if self.follow is None or any(self.follow(c, x) for x in t):
            if t:
                inter = None
                for x in t:
                    y = self.gen(x)
                    inter = set(y) if inter is None else inter & y
                g |= inter
        # closures invoked by a combinator are not assumed to run
        return g

    def gen(self, fn):
        r = self._gen.get(fn.uid)
        if r is not None:
            return r
        if fn.uid in self._stack:
            return frozenset()
        self._stack.add(fn.uid)
        st = self.states(fn)
        res = None
        for i in fn.returns():
            s = st.get(i)
            if s is None:
                continue
            out = s[1]
            res = set(out) if res is None else res & out
        r = frozenset(res or ())
        self._stack.discard(fn.uid)
        self._gen[fn.uid] = r
        return r

    def states(self, fn, ok_only=True):
        """bb -> (in, out) must-sets, error exits pruned when ok_only."""
        errs = err_blocks(fn) if (ok_only and not self.on_err) else set()
        ins = {0: frozenset()}
        outs = {}
        work = deque([0])
        blockgen = {}

        def bg(i):
            if i not in blockgen:
                g = set()
                if self.ls:
                    for s in fn.blocks[i].stmts:
                        g |= self.ls(fn, s) or set()
                c = fn.call_at(i)
                if c is not None:
                    g |= self.call_gen(c)
                elif self.ls and fn.blocks[i].term[0] == "drop":
                    g |= self.ls(fn, fn.blocks[i].term) or set()
                blockgen[i] = frozenset(g)
            return blockgen[i]

        while work:
            i = work.popleft()
            if i in errs:
                continue
            o = ins[i] | bg(i)
            if outs.get(i) == o:
                continue
            outs[i] = o
            for s in fn.blocks[i].succ:
                n = o if s not in ins else ins[s] & o
                if s not in ins or n != ins[s]:
                    ins[s] = n
                    work.append(s)
                elif s not in outs and s not in errs:
                    work.append(s)
        return {i: (ins[i], outs[i]) for i in outs}


def ok_reachable(fn):
    """Blocks on some path entry -> ok return (error exits pruned)."""
    errs = err_blocks(fn)
    fwd = set()
    st = [0]
    while st:
        i = st.pop()
        if i in fwd or i in errs:
            continue
        fwd.add(i)
        st.extend(fn.blocks[i].succ)
    pr = fn.preds()
    bwd = set()
    st = [r for r in fn.returns() if r in fwd]
    while st:
        i = st.pop()
        if i in bwd:
            continue
        bwd.add(i)
        st.extend(p for p in pr[i] if p in fwd)
    return bwd


def reachable_from(fn, i, avoid=()):
    seen = set()
    st = list(fn.blocks[i].succ)
    while st:
        j = st.pop()
        if j in seen or j in avoid:
            continue
        seen.add(j)
        st.extend(fn.blocks[j].succ)
    return seen


def path_between(fn, src, dst, avoid=()):
    q = deque([src])
    par = {src: None}
    while q:
        i = q.popleft()
        if i == dst and i != src or (i == dst and src == dst and par[i] is not None):
            p = []
            while i is not None:
                p.append(i)
                i = par[i]
            return p[::-1]
        for s in fn.blocks[i].succ:
            if s not in par and s not in avoid:
                par[s] = i
                q.append(s)
    return None


# ------------------------------------------------------------------ definitions / provenance
def defs(fn):
    """local -> list of (bb, kind, data): 'stmt' rvalue or 'call' Call, whole-local defs;
    also partial: local -> list of (projection, rvalue/call)."""
    d = getattr(fn, "_defs", None)
    if d is not None:
        return d
    whole = defaultdict(list)
    part = defaultdict(list)
    for i, b in enumerate(fn.blocks):
        if b.cleanup:
            continue
        for s in b.stmts:
            if s[0] == "=":
                p = s[2]
                if len(p) == 1:
                    whole[p[0]].append((i, "rv", s[3], s[1]))
                else:
                    part[p[0]].append((i, p[1:], "rv", s[3], s[1]))
        if b.term[0] == "call":
            p = b.term[4]
            c = fn.call_at(i)
            if len(p) == 1:
                whole[p[0]].append((i, "call", c, c.line))
            else:
                part[p[0]].append((i, p[1:], "call", c, c.line))
    fn._defs = (whole, part)
    return fn._defs


def op_place(o):
    return o.get("m") or o.get("c") if isinstance(o, dict) else None


def proj_fields(p):
    return [e[2] for e in p[1:] if isinstance(e, list) and e[0] == "f"]


def proj_owned_fields(p):
    return [(e[3], e[2]) for e in p[1:] if isinstance(e, list) and e[0] == "f"]


def rv_operands(rv):
    k = rv[0]
    if k in ("use", "rep"):
        return [rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return list(rv[4])
    if k == "ref":
        return [{"c": rv[2]}]
    if k in ("raw", "discr"):
        return [{"c": rv[1]}]
    return []


class Prov:
    """Flow-insensitive backward provenance inside one function.

    sources(op) -> set of tuples:
      ("field", owner_adt, field)   a named field was read on the way
      ("const", text, ty)           a constant
      ("arg", n)                    argument n of the function
      ("call", name)                passed through / produced by this call
      ("cap", name)                 closure capture
    """

    def __init__(self, fn, model=None, depth=60, through=None):
        self.fn = fn
        self.m = model
        self.cache = {}
        self.through = through  # optional: function(Call) -> list of arg indices to follow

    def place(self, p, seen=None):
        out = set()
        for e in p[1:]:
            if isinstance(e, list) and e[0] == "f":
                if e[3].startswith("closure "):
                    out.add(("cap", e[2].split(":")[-1]))
                elif e[3] not in ("tuple", ""):
                    out.add(("field", e[3], e[2]))
            if isinstance(e, list) and e[0] == "i":
                pass
        out |= self.local(p[0], seen)
        return out

    def local(self, l, seen=None):
        seen = seen or frozenset()
        if l in seen:
            return set()
        if l in self.cache:
            return self.cache[l]
        seen = seen | {l}
        out = set()
        if 0 < l <= self.fn.nargs:
            out.add(("arg", l))
        whole, part = defs(self.fn)
        for d in whole.get(l, []):
            if d[1] == "rv":
                out |= self.rvalue(d[2], seen)
            else:
                out |= self.call(d[2], seen)
        for d in part.get(l, []):
            if d[2] == "rv":
                out |= self.rvalue(d[3], seen)
            else:
                out |= self.call(d[3], seen)
        if len(seen) == 1:
            self.cache[l] = out
        return out

    def call(self, c, seen):
        out = {("call", c.callee.name or c.callee.decl)}
        idx = range(len(c.args))
        if self.through is not None:
            r = self.through(c)
            if r is not None:
                idx = r
        for i in idx:
            out |= self.op(c.args[i], seen)
        return out

    def rvalue(self, rv, seen):
        out = set()
        if rv[0] == "agg" and rv[1].endswith("::DocumentEvent"):
            out.add(("agg", rv[1], rv[2]))
        for o in rv_operands(rv):
            out |= self.op(o, seen)
        return out

    def op(self, o, seen=None):
        if "k" in o:
            r = {("const", o["k"], o.get("ty", ""))}
            if "fn" in o:
                r.add(("fnref", Callee(o["fn"]).name))
            return r
        return self.place(op_place(o), seen)


def exit_states(fn, starts, gen, after=True):
    """Forward product analysis from the given blocks.

    gen(bb) -> set of labels produced in bb.  Returns {'ok': [(ret_bb, must, may)], 'err': [...]}.
    With after=True the start blocks' own labels are not counted."""
    errs = err_blocks(fn)
    is_res = base_ty(fn.local_ty(0)) == RESULT
    ins = {}
    mays = {}
    work = deque()

    def push(k, must, may):
        if k not in ins:
            ins[k] = must
            mays[k] = may
            work.append(k)
        else:
            nm, ny = ins[k] & must, mays[k] | may
            if nm != ins[k] or ny != mays[k]:
                ins[k], mays[k] = nm, ny
                work.append(k)

    for s in starts:
        if after:
            for t in fn.blocks[s].succ:
                push((t, 0), frozenset(), frozenset())
        else:
            push((s, 0), frozenset(), frozenset())
    res = {}
    while work:
        k = work.popleft()
        i, e = k
        g = frozenset(gen(i) or ())
        must, may = ins[k] | g, mays[k] | g
        if is_res:
            rk = ret_place_assign_kind(fn, i)
            if rk == "err":
                e = 1
            elif rk is not None:
                e = 0
        if fn.blocks[i].term[0] == "ret":
            res[k] = ("err" if e else "ok", i, must, may)
        for t in fn.blocks[i].succ:
            push((t, e), must, may)
    out = {"ok": [], "err": []}
    for kind, i, must, may in res.values():
        out[kind].append((i, must, may))
    return out
