"""The index of block starts keeps its lookup table, counters and ranges consistent with its entries (C16)."""
from r_runs import *

IMOD = "common::database::block_offset_index::"
IDXT = IMOD + "BlockOffsetIndex"
G = ("h", ("G",))


class AV:
    """Abstract vector: symbolic length, one generic element at index gi, the changes made to it."""

    def __init__(self, n, log=(), elem=G):
        self.n, self.log, self.elem = n, log, elem

    def plus(self, ev, n):
        return AV(n, self.log + (ev,), self.elem)


class MP:
    """Abstract map: the entries named in it."""

    def __init__(self, ents=(), log=()):
        self.ents, self.log = ents, log


GI = atom(("gi",))


class Idx(Interp):
    def av(self, st, v):
        v = self.deref(st, v)
        if v[0] == "v" and isinstance(st.heap.get(v[1]), AV):
            return v[1], st.heap[v[1]]
        return None, None

    def mp(self, st, v):
        v = self.deref(st, v)
        if v[0] == "v" and isinstance(st.heap.get(v[1]), MP):
            return v[1], st.heap[v[1]]
        return None, None

    def at(self, st, a, i):
        if a.elem != G:
            raise Lost("element of drained")
        if st.eq(i, GI):
            return G
        k = ("h", ("at", repr(sorted(st.norm(i).items(), key=repr))))
        if k not in st.mem:
            st.mem[k] = tup(("u", ("m",) + k[1]), N(atom(("bs",) + k[1])))
        return k

    def other_element(self, st, v, i):
        o, a = self.av(st, v)
        if a is None:
            raise Lost("element")
        if i[0] == "s":
            raise Lost("slice")
        out = []
        for t, b in self.compare(st, "Lt", i[1], a.n):
            out.append((t, self.at(t, a, i[1]) if b[1] else None))
        return out

    def generic(self, st, v):
        """[(state, iterator value)] over a vector or a tail of it."""
        r = self.deref(st, v)
        if r[0] == "gsl" and st.heap[r[1]].log or r[0] == "v" and isinstance(st.heap.get(r[1]), AV) and st.heap[r[1]].log:
            raise Lost("iterate over changed entries")
        if r[0] == "gsl":
            out = []
            for t, lo in self.compare(st, "Ge", GI, r[2]):
                if not lo[1]:
                    out.append((t, ("it", ())))
                    continue
                for t2, hi in self.compare(t, "Lt", GI, r[3]) if r[3] is not None else [(t, ("b", True))]:
                    out.append((t2, ("it", (("r", G, ()),) if hi[1] else ())))
            return out
        o, a = self.av(st, r)
        if a is not None:
            return [(st, ("it", (("r", a.elem, ()),)))]
        o, p = self.mp(st, r)
        if p is not None:
            vals = []
            for k, e in p.ents:
                cell = ("l", self.fresh("key"), 0)
                st.mem[cell] = k
                vals.append(tup(("r", cell, ()), ("r", ("h", e), ())))
            return [(st, ("it", tuple(vals)))]
        return None

    def coll_iter(self, st, v, s):
        return self.generic(st, v)

    def elem_values(self, st, v, mode):
        r = self.deref(st, v)
        if r[0] == "gsl" or self.av(st, r)[1] is not None or self.mp(st, r)[1] is not None:
            g = self.generic(st, v)
            if len(g) != 1:
                raise Lost("iterate part")
            return list(g[0][1][1])
        return super().elem_values(st, v, mode)

    def range_next(self, st, a0, v):
        a, b = v[3][0][1], v[3][1][1]
        if const_of(st.norm(b)) is not None and const_of(st.norm(a)) is not None:
            return super().range_next(st, a0, v)
        if st.eq(a, b):
            return [(st, NONE)]
        out = []
        for t, lo in self.compare(st, "Ge", GI, a):
            for t2, hi in self.compare(t, "Lt", GI, b) if lo[1] else [(t, ("b", False))]:
                self.store(t2, a0[1], a0[2], ("s", "Range", 0, (v[3][1], v[3][1])))
                out.append((t2, some(N(GI)) if hi[1] else NONE))
        return out

    def coll(self, st, vals, c, n, s):
        one = lambda v: [(st, v)]
        if s in ("new", "default") and "HashMap" in n and not vals:
            o = self.fresh("map")
            st.heap[o] = MP()
            return one(("v", o))
        if not vals:
            return None
        a0 = vals[0]
        v0 = self.deref(st, a0)
        if v0[0] == "gsl" and s in ("len",):
            raise Lost("slice len")
        if v0[0] == "it" and s == "enumerate":
            pass
        o, p = self.mp(st, v0)
        if p is not None:
            key = self.deref(st, vals[1]) if len(vals) > 1 else None
            hit = [i for i, (k, _) in enumerate(p.ents) if repr(k) == repr(key)]
            if s == "insert":
                e = self.fresh("ent")
                st.mem[("h", e)] = vals[2]
                ents = list(p.ents)
                if hit:
                    ents[hit[0]] = (key, e)
                else:
                    ents.append((key, e))
                st.heap[o] = MP(tuple(ents), p.log + (("put", key),))
                return one(NONE)
            if s in ("remove", "without"):
                st.heap[o] = MP(tuple(x for i, x in enumerate(p.ents) if i not in hit), p.log + (("del", key),))
                return one(some(st.mem[("h", p.ents[hit[0]][1])]) if hit else NONE)
            if s in ("get", "get_mut"):
                return one(some(("r", ("h", p.ents[hit[0]][1]), ())) if hit else NONE)
            if s == "contains_key":
                return one(("b", bool(hit)))
            if s == "clear":
                st.heap[o] = MP((), p.log + (("clear",),))
                return one(tup())
            if s in ("index", "index_mut"):
                return one(("r", ("h", p.ents[hit[0]][1]), ())) if hit else []
            raise Lost("map %s" % s)
        o, a = self.av(st, v0)
        if a is not None:
            if s == "len":
                return one(N(a.n))
            if s == "is_empty":
                return self.compare(st, "Eq", a.n, {})
            if s == "insert":
                st.heap[o] = a.plus(("insert", vals[1][1], vals[2]), add(a.n, lin(1)))
                return one(tup())
            if s == "push":
                st.heap[o] = a.plus(("insert", a.n, vals[1]), add(a.n, lin(1)))
                return one(tup())
            if s == "remove":
                st.heap[o] = a.plus(("drain", vals[1][1], add(vals[1][1], lin(1))), add(a.n, lin(-1)))
                return one(tup(("u", ("rm",)), N(atom(("rb",)))))
            if s == "drain":
                i = vals[1]
                lo = i[3][0][1] if i[1] in ("Range", "RangeFrom", "RangeInclusive") else {}
                hi = a.n if i[1] in ("RangeFrom", "RangeFull") else i[3][1][1] if len(i[3]) > 1 else i[3][0][1]
                if "Inclusive" in i[1]:
                    hi = add(hi, lin(1))
                k = add(hi, lo, -1)
                st.heap[o] = a.plus(("drain", lo, hi), add(a.n, k, -1))
                st.mem[("drained",)] = N(k)
                st.mem[("h", ("RM",))] = tup(("u", ("rm",)), N(atom(("rb",))))
                return one(("it", (st.mem[("h", ("RM",))],)))
            if s == "clear":
                st.heap[o] = a.plus(("clear",), {})
                return one(tup())
            if s in ("get", "get_mut", "index", "index_mut"):
                i = vals[1]
                if i[0] == "s":
                    lo = {} if i[1] in ("RangeTo", "RangeFull", "RangeToInclusive") else i[3][0][1]
                    hi = None if i[1] in ("RangeFrom", "RangeFull") else i[3][-1][1]
                    if "Inclusive" in i[1]:
                        raise Lost("slice")
                    g = ("gsl", o, lo, hi)
                    return one(g if s.startswith("index") else some(g))
                r = self.other_element(st, v0, i)
                if s.startswith("get"):
                    return [(t, some(("r", x, ())) if x is not None else NONE) for t, x in r]
                return [(t, ("r", x, ())) for t, x in r if x is not None]
            if s in ("last", "first", "last_mut", "first_mut"):
                out = []
                for t, z in self.compare(st, "Eq", a.n, {}):
                    out.append((t, NONE if z[1] else some(("r", self.at(t, a, add(a.n, lin(-1)) if s[0] == "l" else {}), ()))))
                return out
            if s == "partition_point":
                out = []
                rs = self.apply(st, vals[1], [("r", G, ())])
                pp = atom(self.fresh("pp"))
                bs = next(iter(st.mem[G][3][1][1]))
                for v in set().union(*[t.zone.atoms() for t, b in rs]) - {bs, None}:
                    # "starts at or before v": the same position as the binary search for v gives
                    if all(b[0] == "b" and t.zone.bound(*((bs, v) if b[1] else (v, bs))) == (0 if b[1] else -1) for t, b in rs):
                        pp = atom(("upper", repr(sorted(atom(v).items(), key=repr))))
                for t, b in rs:
                    t.zone.assume(None, next(iter(pp)), 0)
                    ok = t.assume_le0(add(pp, a.n, -1))
                    ok = ok and (t.assume_le0(add(add(GI, lin(1)), pp, -1)) if b[1] else t.assume_le0(add(pp, GI, -1)))
                    t.log.append(("pp", next(iter(pp)), b[1]))
                    if ok:
                        out.append((t, N(pp)))
                return out
            if s == "binary_search_by_key":
                x = self.deref(st, vals[1])
                r = self.apply(st.copy(), vals[2], [("r", G, ())])
                if len(r) != 1 or self.deref(r[0][0], r[0][1])[1] != st.mem[G][3][1][1]:
                    raise Lost("search key")
                up = ("upper", repr(sorted(x[1].items(), key=repr)))
                out = []
                for ok in (True, False):
                    t = st.copy()
                    t.zone.assume(None, up, -1 if ok else 0)
                    if t.assume_le0(add(atom(up), a.n, -1)):
                        out.append((t, ("s", "Result", 0 if ok else 1, (N(add(atom(up), lin(-1)) if ok else atom(up)),))))
                return out
            if s in ("iter", "iter_mut", "into_iter", "deref", "deref_mut", "as_slice"):
                return None
            raise Lost("vector %s" % s)
        return None

    def builtin(self, st, vals, c, n, s):
        a0 = vals[0] if vals else None
        if s == "enumerate" and a0 is not None and a0[0] == "it" and len(a0[1]) == 1 and a0[1][0] == ("r", G, ()):
            return [(st, ("it", (tup(N(GI), a0[1][0]),)))]
        if s == "collect" and a0[0] == "it" and ("drained",) in st.mem and "Vec" in c.fn.local_ty(c.dest[0]):
            if len(a0[1]) == 1 and a0[1][0][0] == "s" and repr(a0[1][0]) == repr(st.mem[("h", ("RM",))]):
                o = self.fresh("removed")
                st.heap[o] = AV(st.mem[("drained",)][1], (), ("h", ("RM",)))
                return [(st, ("v", o))]
        if s == "clone" and a0 is not None and self.mp(st, a0)[1] is not None:
            o = self.fresh("map")
            ents = []
            for k, e in self.mp(st, a0)[1].ents:
                g = self.fresh("ent")
                st.mem[("h", g)] = st.mem[("h", e)]
                ents.append((k, g))
            st.heap[o] = MP(tuple(ents))
            return [(st, ("v", o))]
        return super().builtin(st, vals, c, n, s)


class Index:
    def __init__(self, ctx):
        self.ctx, self.m = ctx, ctx.m
        self.I = Idx(ctx.m, {u for u in ctx.m.fns if IMOD in u and "::tests" not in u})
        self.fields = field_names(ctx.m.adts[IDXT])
        a = ctx.m.adts[IMOD + "OffsetMarker"]
        self.kinds = {n: i for i, n in enumerate(a.variant_names)}

    def start(self, present=(), **kind):
        st = St()
        bounds(st, (None, "L", 0), (None, "gi", 0), ("gi", "L", -1), (None, "T", 0), (None, "C", -1), (None, "bs", 0))
        st.mem[G] = tup(("u", ("gm",)), N(atom(("bs",))))
        st.mem[("h", ("P",))] = N(atom(("p",)))
        bounds(st, (None, "p", 0), ("p", "L", -1))
        st.heap["E"] = AV(atom(("L",)))
        st.heap["M"] = MP(tuple(present) or ((("u", ("gm",)), ("P",)),))
        st.mem[("self",)] = ("s", "BlockOffsetIndex", 0, tuple({"entries": ("v", "E"), "total_bytes": N(atom(("T",))), "marker_index": ("v", "M"),
                                                              "table_anchor_count": N(atom(("C",)))}.get(f, ("u", (f,))) for f in self.fields))
        for k, v in kind.items():
            st.disc[("discr", k)] = v
        for x in ("mk", "rm"):
            st.disc[("eq",) + tuple(sorted((repr(("u", ("gm",))), repr(("u", (x,))))))] = 0
        return st

    def get(self, st, f):
        return st.mem[("self",)][3][self.fields.index(f)]

    def view(self, st):
        e, mp = self.get(st, "entries"), self.get(st, "marker_index")
        a = st.heap[e[1]]
        d = st.heap[mp[1]]
        return (a.log, {repr(k): st.mem[("h", x)][1] for k, x in d.ents}, self.get(st, "total_bytes")[1], self.get(st, "table_anchor_count")[1], a)

    def fn(self, name):
        return self.m.fns.get(IDXT + "::" + name) or next((f for f in self.m.fns.values() if f.name == IDXT + "::" + name), None)


MK, RM, GM = repr(("u", ("mk",))), repr(("u", ("rm",))), repr(("u", ("gm",)))
SELF = ("r", ("self",), ())


def C16(ctx):
    X = Index(ctx)
    I = X.I
    c, T, L, p = (atom((x,)) for x in ("C", "T", "L", "p"))
    pos, bsn, en = atom(("pos",)), atom(("at",)), atom(("end",))
    mk = ("u", ("mk",))
    found = {}

    def run(rule, name, st, args, check):
        f = X.fn(name)
        key = "%s/%s" % (rule, name)
        if f is None:
            return ctx.note("undecided %s: no such method" % key)
        I.steps = 0
        bad, n = [], 0
        try:
            for e, r in I.enter(st, f, args):
                for u, why in check(e, r):
                    if not u.feasible():
                        continue
                    n += 1
                    if why:
                        bad.append("%s (%s)" % (why, show_st(u)))
        except (Lost, KeyError, IndexError, TypeError, ValueError) as ex:
            ctx.note("undecided %s: %s: %s" % (key, type(ex).__name__, ex))
            return None
        d = found.setdefault((rule, name), [f, [], 0])
        d[1] += bad
        d[2] += n

    def entry_moves(u, m, want):
        g = m.get(GM)
        if g is None:
            return "the position of another marker is dropped"
        return None if u.eq(g, want) else "the position of another marker becomes %s instead of %s" % (form_str(g), form_str(want))

    def first(*xs):
        return next((x for x in xs if x), None)

    def event(u, log, want):
        if len(log) != 1 or log[0][0] != want[0] or not all(u.eq(x, y) for x, y in zip(log[0][1:], want[1:]) if isinstance(y, dict)):
            return "the entries are changed by %s instead of %s" % (["%s(%s)" % (e[0], ", ".join(form_str(x) for x in e[1:] if isinstance(x, dict))) for e in log],
                                                                  "%s(%s)" % (want[0], ", ".join(form_str(x) for x in want[1:] if isinstance(x, dict))))
        return None

    def pair(u, v, m_, b_):
        v = I.deref(u, v)
        if v[0] != "s" or len(v[3]) != 2:
            return "the entry is not a marker with its start"
        if repr(I.deref(u, v[3][0])) != m_:
            return "the entry's marker is another one"
        return None if u.eq(I.deref(u, v[3][1])[1], b_) else "the entry starts at %s" % form_str(v[3][1][1])

    def val(u, f, want, what):
        return None if u.eq(f, want) else "%s becomes %s instead of %s" % (what, form_str(f), form_str(want))

    for kind in X.kinds.values():
        anc = 1 if kind == X.kinds["TableAnchor"] else 0
        # insert_at
        st = X.start(mk=kind)
        bounds(st, (None, "pos", 0), ("pos", "L", 0))

        def chk(e, r):
            for u, (beh,) in split_cases(I, e, [("Ge", p, pos)]):
                log, m, t, k, a = X.view(u)
                yield u, first(event(u, log, ("insert", pos)), not event(u, log, ("insert", pos)) and pair(u, log[0][2], MK, bsn), entry_moves(u, m, add(p, lin(1)) if beh else p),
                               "the new marker is not in the lookup table" if MK not in m else val(u, m[MK], pos, "the new marker's position"),
                               val(u, k, add(c, lin(anc)), "the table anchor count"), val(u, t, T, "the total"))
        run("mutator", "insert_at", st, [SELF, N(pos), mk, N(bsn)], chk)

        st = X.start(mk=kind)
        bounds(st, ("bs", "at", 0), (None, "at", 0))

        def chk(e, r):
            log, m, t, k, a = X.view(e)
            yield e, first(event(e, log, ("insert", L)), not event(e, log, ("insert", L)) and pair(e, log[0][2], MK, bsn), entry_moves(e, m, p),
                           "the new marker is not in the lookup table" if MK not in m else val(e, m[MK], L, "the new marker's position"),
                           val(e, k, add(c, lin(anc)), "the table anchor count"), val(e, t, T, "the total"))
        run("mutator", "push", st, [SELF, mk, N(bsn)], chk)

        # remove_at / drain_inclusive
        st = X.start(present=[(("u", ("gm",)), ("P",)), (("u", ("rm",)), ("Q",))], rm=kind)
        st.mem[("h", ("Q",))] = N(pos)
        bounds(st, (None, "pos", 0), ("pos", "L", -1))

        def chk(e, r):
            for u, (lo, hi) in split_cases(I, e, [("Lt", p, pos), ("Gt", p, pos)]):
                if not lo and not hi:
                    continue
                log, m, t, k, a = X.view(u)
                yield u, first(event(u, log, ("drain", pos, add(pos, lin(1)))), entry_moves(u, m, p if lo else add(p, lin(-1))),
                               "the removed marker stays in the lookup table" if RM in m else None, val(u, k, add(c, lin(-anc)), "the table anchor count"), val(u, t, T, "the total"))
        run("mutator", "remove_at", st, [SELF, N(pos)], chk)

        st = X.start(present=[(("u", ("gm",)), ("P",)), (("u", ("rm",)), ("Q",))], rm=kind)
        q = atom(("q",))
        st.mem[("h", ("Q",))] = N(q)
        bounds(st, (None, "pos", 0), ("pos", "end", 0), ("end", "L", -1), ("pos", "q", 0), ("q", "end", 0))

        def chk(e, r):
            for u, (lo, hi) in split_cases(I, e, [("Lt", p, pos), ("Gt", p, en)]):
                if not lo and not hi:
                    continue
                log, m, t, k, a = X.view(u)
                yield u, first(event(u, log, ("drain", pos, add(en, lin(1)))), entry_moves(u, m, p if lo else add(add(p, add(en, pos, -1), -1), lin(-1))),
                               "the removed marker stays in the lookup table" if RM in m else None, val(u, k, add(c, lin(-anc)), "the table anchor count"), val(u, t, T, "the total"))
        run("mutator", "drain_inclusive", st, [SELF, N(pos), N(en)], chk)

        # rebuild
        st = X.start(present=[(("u", ("old",)), ("P",))], gm=kind)

        def chk(e, r):
            log, m, t, k, a = X.view(e)
            yield e, first("the entries are changed" if log else None, "a marker that is gone stays in the lookup table" if set(m) - {GM} else None,
                           "an entry is missing from the lookup table" if GM not in m else val(e, m[GM], GI, "the marker's position"),
                           val(e, k, lin(anc), "the table anchor count"), val(e, t, T, "the total"))
        run("rebuild", "rebuild_marker_index", st, [SELF], chk)

    st = X.start()
    bounds(st, ("bs", "at", 0), (None, "at", 0))

    def chk(e, r):
        log, m, t, k, a = X.view(e)
        new = [x for x in m if x != GM]
        yield e, first(event(e, log, ("insert", L)), entry_moves(e, m, p), None if len(new) == 1 and e.eq(m[new[0]], L) else "the new block is not in the lookup table", val(e, k, c, "the table anchor count"))
    run("mutator", "push_block", st, [SELF, N(atom(("id",))), N(bsn)], chk)

    st = X.start()

    def chk(e, r):
        log, m, t, k, a = X.view(e)
        gone = log and log[-1][0] == "clear" or X.get(e, "entries") != ("v", "E") and not a.log and e.eq(a.n, {})
        yield e, first(None if gone else "entries stay", "the lookup table keeps markers" if m else None, val(e, t, {}, "the total"), val(e, k, {}, "the table anchor count"))
    run("mutator", "clear", st, [SELF], chk)

    # shifting
    th, d = atom(("t",)), atom(("d",))
    for sign in (0, 1):
        st = X.start()
        bounds(st, (None, "t", 0), *([(None, "d", 0)] if sign == 0 else [("d", None, -1)]))

        def chk(e, r):
            for u, (beh,) in split_cases(I, e, [("Ge", atom(("bs",)), th)]):
                log, m, t, k, a = X.view(u)
                b = u.mem[G][3][1][1]
                yield u, first("the entries are added or removed" if log else None, val(u, b, add(atom(("bs",)), d) if beh else atom(("bs",)), "the start of an entry %s the threshold" % ("at or behind" if beh else "in front of")),
                               val(u, t, add(T, d), "the total"), val(u, k, c, "the table anchor count"), entry_moves(u, m, p))
        run("shifting", "shift_after", st, [SELF, N(th), N(d)], chk)

    # reading
    i = atom(("i",))

    def reader(name, extra):
        st = X.start(present=[(mk, ("I",))])
        st.mem[("h", ("I",))] = N(i)
        bounds(st, (None, "i", 0), ("i", "L", -1))

        lasts = set()

        def chk(e, r):
            for u, (last,) in split_cases(I, e, [("Ge", add(i, lin(1)), L)]):
                lasts.add(last) if u.feasible() else None
                av = X.view(u)[4]
                s0 = u.mem.get(I.at(u, av, i))[3][1][1]
                e0 = T if last else u.mem.get(I.at(u, av, add(i, lin(1))))[3][1][1]
                v = I.deref(u, r)
                if v[0] != "s" or v[2] != 1:
                    yield u, "a marker that is indexed is not found"
                    continue
                g = v[3][0][3]
                yield u, first(val(u, g[0][1], s0, "the start"), val(u, g[1][1], e0, "the end of the %s entry" % ("last" if last else "inner")),
                               extra and len(g) > 2 and (None if g[2] == ("b", not last) else "the flag for a following entry is wrong"))
        run("reading", name, st, [SELF, mk], chk)
        if ("reading", name) in found and len(lasts) == 1:
            found["reading", name][1].append("no result for a marker of %s entry" % ("an inner" if lasts == {True} else "the last"))
        st = X.start()
        run("reading", name, st, [SELF, mk], lambda e, r: [(e, None if I.deref(e, r)[2] == 0 else "a marker that is not indexed is found")])
    reader("range_of", False)
    reader("range_with_successor", True)
    st = X.start(present=[(mk, ("I",))])
    st.mem[("h", ("I",))] = N(i)
    run("reading", "position_of", st, [SELF, mk], lambda e, r: [(e, None if I.deref(e, r)[2] == 1 and e.eq(I.deref(e, I.deref(e, r)[3][0])[1], i) else "the position is not the indexed one")])
    b = atom(("b",))
    st = X.start()
    bounds(st, (None, "b", 0))
    up = ("upper", repr(sorted(b.items(), key=repr)))

    def chk(e, r):
        av = X.view(e)[4]
        v = I.deref(e, r)
        none = v[0] == "s" and v[2] == 0
        for u, (empty, past, before) in split_cases(I, e, [("Eq", L, {}), ("Gt", b, T), ("Lt", atom(up), lin(1))]):
            if empty or past or before:
                yield u, None if none else "a marker is found outside the entries"
            else:
                w = u.mem[I.at(u, av, add(atom(up), lin(-1)))][3][0]
                yield u, None if not none and repr(I.deref(u, v[3][0])) == repr(w) else "the marker found is not the last one that starts at or before the byte"
    run("reading", "marker_at_byte", st, [SELF, N(b)], chk)
    st = X.start()
    run("reading", "table_anchor_count", st, [SELF], lambda e, r: [(e, val(e, r[1], c, "the count"))])

    for (rule, name), (f, bad, n) in sorted(found.items()):
        ctx.ob(rule, "%s/%s" % (rule, name), not bad and n, f.loc, bad[0] if bad else "no path returns" if not n else "%d cases" % n)

    # nothing else touches the private caches, and whoever changes the entries directly rebuilds them
    inside = {u for u in ctx.m.fns if IMOD in u}
    for f in ctx.m.fns.values():
        if f.uid in inside or f.crate.endswith("tests"):
            continue
        hits = []
        for bi, bl in enumerate(f.blocks):
            if bl.cleanup:
                continue
            for s in bl.stmts:
                if s[0] == "=" and s[3][0] == "ref" and s[3][1] and any(x[0] == IDXT and x[1] == "entries" for x in proj_owned_fields(s[3][2])):
                    hits.append((bi, s[1]))
                if s[0] == "=" and any(x[0] == IDXT and x[1] == "entries" for x in proj_owned_fields(s[2])):
                    hits.append((bi, s[1]))
        for bi, line in hits:
            g = Gates(ctx, lambda fn, c: c.callee.short == "rebuild_marker_index", [f])
            ctx.ob("direct", "direct/%s" % f.name, g.escape(f, bi, None, after=True) is None, "%s:%d" % (f.file, line), "the entries are changed without rebuilding the lookup table")
    for k, t in (("mutator", "a method that adds or removes entries moves every other marker's position, enters or removes the marker and counts table anchors accordingly"),
                 ("rebuild", "rebuilding derives the lookup table and the anchor count from the entries alone"),
                 ("shifting", "shifting moves exactly the starts at or behind the threshold, and the total"),
                 ("reading", "ranges, positions and lookups are those of the entries"),
                 ("direct", "code that changes the entries itself rebuilds the lookup table")):
        ctx.rule(k, t)
    ctx.note("%d of 13 methods decided" % len(found))
    return ctx.finish(explanation="Abstract interpretation of each method's MIR over affine forms and difference-bound matrices: a generic other entry and its place in the lookup table stand for all entries; "
                      "every ordering of its position or start against the arguments is followed and the result compared with what the property demands.")
