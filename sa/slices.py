"""Backward slices that also follow values pushed into a local through a mutable borrow."""
from flow import *


def fpath(proj):
    return tuple(e[2] for e in proj if isinstance(e, list) and e[0] == "f")


def compatible(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def mutators(fn):
    """local -> [(field path, call)] for calls that receive a mutable borrow of (part of) it,
    and local -> [(field path, def)] for stores through such a borrow."""
    r = getattr(fn, "_muts", None)
    if r is not None:
        return r
    borrow = {}          # temp local -> (base local, field path) of a mutable borrow
    whole, part = defs(fn)
    ch = True
    while ch:
        ch = False
        for l, ds in whole.items():
            if l in borrow:
                continue
            for d in ds:
                b = None
                if d[1] == "rv":
                    rv = d[2]
                    if rv[0] == "ref" and rv[1]:
                        q = rv[2]
                        if q[0] in borrow:
                            b = (borrow[q[0]][0], borrow[q[0]][1] + fpath(q[1:]))
                        else:
                            b = (q[0], fpath(q[1:]))
                    elif rv[0] in ("use", "cast"):
                        p = op_place(rv_operands(rv)[0])
                        if p and rv[0] == "cast" and fn.local_ty(p[0]).startswith("alloc::boxed::Box<core::mem::maybe_uninit"):
                            b = (p[0], ())          # vec![..] writes its elements through the raw box
                        elif p and p[0] in borrow:
                            b = (borrow[p[0]][0], borrow[p[0]][1] + fpath(p[1:]))
                else:
                    c = d[2]
                    # guard / entry APIs hand the borrow on: deref_mut, entry, or_default, as_mut, iter_mut...
                    if c.args:
                        p = op_place(c.args[0])
                        t = fn.local_ty(l)
                        if p and p[0] in borrow and (t.startswith("&mut") or "Entry" in t or "IterMut" in t or "Guard" in t):
                            b = borrow[p[0]]
                if b is not None and b[0] != l:
                    borrow[l] = b
                    ch = True
                    break
    out = defaultdict(list)
    stores = defaultdict(list)
    for c in fn.calls:
        if fn.blocks[c.bb].cleanup:
            continue
        for a in c.args:
            p = op_place(a)
            if p and p[0] in borrow:
                b = borrow[p[0]]
                out[b[0]].append((b[1], c))
    for l, ds in part.items():
        if l in borrow:
            b = borrow[l]
            stores[b[0]] += [(b[1] + fpath(d[1]), d) for d in ds]
    fn._muts = (out, stores)
    return fn._muts


class Slice:
    def __init__(self):
        self.fields, self.calls, self.args, self.consts, self.caps, self.locals, self.ops, self.tys, self.aggs = \
            set(), [], set(), [], set(), set(), set(), set(), set()

    def call_names(self):
        return {c.callee.name or c.callee.decl for c in self.calls}

    def shorts(self):
        return {n.rsplit("::", 1)[-1] for n in self.call_names()}


def bslice(fn, *operands, follow=None):
    """follow(call) -> False to stop at a call (the call itself is still listed)."""
    s = Slice()
    whole, part = defs(fn)
    muts, stores = mutators(fn)
    seen_calls = set()
    seen_locs = set()

    def loc(l, path=()):
        k = (l, path)
        if k in seen_locs or (l, ()) in seen_locs:
            return
        seen_locs.add(k)
        s.locals.add(l)
        s.tys.add(fn.local_ty(l))
        if 0 < l <= fn.nargs:
            s.args.add(l)
        for d in whole.get(l, []):
            if d[1] == "rv":
                rv(d[2], path)
            else:
                cal(d[2])
        for d in part.get(l, []):
            if compatible(fpath(d[1]), path):
                if d[2] == "rv":
                    rv(d[3])
                else:
                    cal(d[3])
        for pt, d in stores.get(l, []):
            if compatible(pt, path):
                if d[2] == "rv":
                    rv(d[3])
                else:
                    cal(d[3])
        for pt, c in muts.get(l, []):
            if compatible(pt, path):
                cal(c)

    def cal(c):
        if id(c) in seen_calls:
            return
        seen_calls.add(id(c))
        s.calls.append(c)
        if follow is not None and not follow(c):
            return
        for a in c.args:
            op(a)

    def rv(r, path=()):
        if r[0] == "bin":
            s.ops.add(r[1])
        if r[0] == "un" and r[1] == "Neg":
            s.ops.add("Neg")
        if r[0] == "agg":
            s.aggs.add((r[1], r[2]))
        if r[0] == "ref":
            return place(r[2], path)
        if r[0] == "use":
            return op(r[1], path)
        if r[0] == "agg" and path and r[3] and path[0] in r[3]:
            return op(r[4][r[3].index(path[0])], path[1:])
        for x in rv_operands(r):
            op(x)

    def place(p, path=()):
        if len(p) > 1 and isinstance(p[1], list) and p[1][0] == "f" and p[1][3] in ("tuple", ""):
            o = tuple_part(fn, p[0], p[1][1])
            if o is not None:
                for e in p[2:]:
                    if isinstance(e, list) and e[0] == "f" and e[3] not in ("tuple", "") and not e[3].startswith("closure "):
                        s.fields.add((e[3], e[2]))
                return op(o, fpath(p[2:]) + path)
        for e in p[1:]:
            if isinstance(e, list) and e[0] == "f":
                if e[3].startswith("closure "):
                    s.caps.add(e[2].split(":")[-1])
                elif e[3] not in ("tuple", ""):
                    s.fields.add((e[3], e[2]))
            elif isinstance(e, list) and e[0] == "i":
                loc(e[1])
        loc(p[0], fpath(p[1:]) + path)

    def op(o, path=()):
        p = op_place(o)
        if p:
            place(p, path)
        else:
            s.consts.append(o)
            if isinstance(o, dict) and "prom" in o and o["prom"] < len(fn._prom):
                promoted(fn._prom[o["prom"]])

    def promoted(body):
        for b in body["blocks"]:
            for st in b[1]:
                if st[0] == "=":
                    r = st[3]
                    if r[0] == "agg":
                        s.aggs.add((r[1], r[2]))
                    for x in rv_operands(r):
                        if op_place(x) is None:
                            s.consts.append(x)

    for o in operands:
        op(o)
    return s


def tuple_part(fn, l, idx):
    """Operand stored at field idx of tuple local l when it has one whole definition, else None."""
    whole, part = defs(fn)
    ds = whole.get(l, [])
    if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "agg" and ds[0][2][1] == "tuple" and not part.get(l):
        ops = ds[0][2][4]
        if idx < len(ops):
            return ops[idx]
    return None
