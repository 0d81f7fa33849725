"""Abstract interpretation of small index and interval routines over affine forms and a zone domain.

Integers are affine forms over named atoms; what is known about them is a difference-bound matrix (zone).  A collection
holds summary elements: one generic element that stands for every element it may hold (or a few neighbouring ones), so a
loop is its effect on that element.  Comparisons the zone decides are followed one way, the others both ways with the
comparison added to the zone.  Nothing is run and no solver is used."""
import json
from flow import *
from affine import add, atom, const_of, lin, lit, num, show

STEPS, VISITS = 200000, 7
NONE = ("s", "Option", 0, ())


def some(v):
    return ("s", "Option", 1, (v,))


def N(f):
    return ("n", f)


def A(name):
    return ("n", atom((name,)))


def tup(*v):
    return ("s", "tuple", 0, tuple(v))


class Lost(Exception):
    pass


class Zone:
    """x - y <= c over atoms and 0 (written None)."""

    def __init__(self, d=None):
        self.d = dict(d or {})

    def atoms(self):
        s = {None}
        for x, y in self.d:
            s.add(x)
            s.add(y)
        return s

    def bound(self, x, y):
        return 0 if x == y else self.d.get((x, y))

    def assume(self, x, y, c):
        """x - y <= c; False when contradictory."""
        b = self.bound(y, x)
        if b is not None and b + c < 0:
            return False
        o = self.bound(x, y)
        if o is not None and o <= c:
            return True
        at = self.atoms() | {x, y}
        for p in at:
            a = self.bound(p, x)
            if a is None:
                continue
            for q in at:
                e = self.bound(y, q)
                if e is None:
                    continue
                v = a + c + e
                w = self.bound(p, q)
                if p == q:
                    if v < 0:
                        return False
                elif w is None or v < w:
                    self.d[(p, q)] = v
        return True


def split(f):
    """form -> (x, y, c) with f = x - y + c, or None."""
    pos = [k for k, v in f.items() if k != 1 and v == 1]
    neg = [k for k, v in f.items() if k != 1 and v == -1]
    if len([k for k in f if k != 1]) != len(pos) + len(neg) or len(pos) > 1 or len(neg) > 1:
        return None
    c = f.get(1, 0)
    if c != int(c):
        return None
    return (pos[0] if pos else None), (neg[0] if neg else None), int(c)


class St:
    __slots__ = ("mem", "heap", "zone", "eqs", "disc", "log", "lost", "side")

    def __init__(self):
        self.mem, self.heap, self.zone, self.eqs, self.disc, self.log, self.lost = {}, {}, Zone(), [], {}, [], None
        self.side = []

    def copy(self):
        s = St.__new__(St)
        s.mem, s.heap, s.zone = dict(self.mem), dict(self.heap), Zone(self.zone.d)
        s.eqs, s.disc, s.log, s.lost = list(self.eqs), dict(self.disc), list(self.log), self.lost
        s.side = list(self.side)
        return s

    def norm(self, f):
        for a, g in self.eqs:
            if a in f:
                f = add({k: v for k, v in f.items() if k != a}, g, f[a])
        return f

    def range(self, f):
        """(low, high) of a form, None when unbounded."""
        f = self.norm(f)
        c = const_of(f)
        if c is not None:
            return c, c
        t = split(f)
        if t is None:
            lo, hi = self.high({k: -v for k, v in f.items()}), self.high(f)
            return (None if lo is None else -lo), hi
        x, y, c = t
        hi, lo = self.zone.bound(x, y), self.zone.bound(y, x)
        return (None if lo is None else c - lo), (None if hi is None else c + hi)

    def high(self, f):
        """Upper bound of a form of several atoms: the least sum of difference bounds over all pairings."""
        pos, neg = [], []
        for k, v in f.items():
            if k == 1:
                continue
            if v != int(v) or abs(v) > 4:
                return None
            (pos if v > 0 else neg).extend([k] * abs(int(v)))
        if len(pos) + len(neg) > 7:
            return None
        n = max(len(pos), len(neg))
        pos += [None] * (len(neg) if len(neg) else 0)
        neg += [None] * (len(pos) - len(neg))
        best = None

        def go(i, left, acc):
            nonlocal best
            if i == len(pos):
                best = acc if best is None or acc < best else best
                return
            tried = set()
            for j, y in enumerate(left):
                if y in tried:
                    continue
                tried.add(y)
                w = 0 if pos[i] is None and y is None else self.zone.bound(pos[i], y)
                if w is not None:
                    go(i + 1, left[:j] + left[j + 1:], acc + w)
        go(0, neg, 0)
        return None if best is None else best + int(f.get(1, 0))

    def le0(self, f):
        """True / False / None: f <= 0."""
        for k, v in f.items():
            if isinstance(k, tuple) and k[0] == "K" and k[1].endswith("MAX"):
                return v < 0                               # nothing exceeds the type's maximum
        lo, hi = self.range(f)
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
        for g, s in ((f, 1), (add(lin(1), f, -1), -1)):
            v = self.disc.get(("le0", repr(sorted(self.norm(g).items(), key=repr))))
            if v is not None:
                return v == s if s == 1 else not v
        return None

    def assume_le0(self, f):
        r = self.le0(f)
        if r is not None:
            return r
        t = split(self.norm(f))
        if t is None:
            self.disc[("le0", repr(sorted(self.norm(f).items(), key=repr)))] = True
            self.side.append(f)
            return True
        x, y, c = t
        return self.zone.assume(x, y, -c)

    def feasible(self):
        """False when something assumed about a form of several atoms contradicts the zone."""
        for f in self.side:
            h = self.high({k: -v for k, v in self.norm(f).items()})
            if h is not None and -h > 0:
                return False
        return True

    def eq(self, f, g):
        d = add(f, g, -1)
        return self.range(d) == (0, 0)


class Interp:
    def __init__(self, m, group, prims=None):
        """group: uids followed into; prims: {short or name suffix: handler(interp, st, vals, call) -> [(st, value)]}"""
        self.m, self.group, self.prims = m, set(group), prims or {}
        self.n = 0
        self.steps = 0

    def fresh(self, tag):
        self.n += 1
        return (tag, self.n)

    # memory ------------------------------------------------------------
    def field(self, st, v, p):
        if isinstance(p, tuple) and p and p[0] == "d":
            return ("u", v[1] + (p,)) if v[0] == "u" else v
        if v[0] == "s":
            if v[1] in ("Arc",):
                return self.field(st, v[3][0], p)
            if p < len(v[3]):
                return v[3][p]
            raise Lost("field %s" % (p,))
        if v[0] == "u":
            return self.lookup(st, ("u", v[1] + (p,)))
        if v[0] == "c":
            return v[2][p]
        if v[0] == "x":
            return v[2].get(p) or self.field(st, v[1], p)
        raise Lost("field of %s" % v[0])

    def lookup(self, st, v):
        return v

    def load(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            raise Lost("uninitialised")
        for p in path:
            v = self.field(st, v, p)
        return v

    def put(self, st, v, path, new):
        if not path:
            return new
        p = path[0]
        if isinstance(p, tuple) and p[0] == "d":
            return self.put(st, v, path[1:], new)
        if v is None:
            raise Lost("store")
        if v[0] == "s":
            f = list(v[3])
            if p >= len(f):
                raise Lost("store field")
            f[p] = self.put(st, f[p], path[1:], new)
            return ("s", v[1], v[2], tuple(f))
        if v[0] == "c":
            f = list(v[2])
            f[p] = self.put(st, f[p], path[1:], new)
            return ("c", v[1], tuple(f))
        if v[0] in ("u", "x"):
            base, d = (v, {}) if v[0] == "u" else (v[1], dict(v[2]))
            d[p] = self.put(st, self.field(st, v, p), path[1:], new)
            return ("x", base, d)
        raise Lost("store into %s" % v[0])

    def store(self, st, root, path, v):
        if not path:
            st.mem[root] = v
        else:
            old = st.mem.get(root)
            if old is None:
                old = ("u", ("part", root))
            st.mem[root] = self.put(st, old, path, v)

    def place(self, st, fr, p):
        root, path = ("l", fr, p[0]), ()
        for e in p[1:]:
            if e == "*":
                v = self.load(st, root, path)
                if v[0] == "r":
                    root, path = v[1], v[2]
                elif v[0] in ("v", "n", "b", "u", "s", "x", "c", "it", "str", "gsl"):
                    pass                                    # Box / Arc / reference to a value kept by value
                else:
                    raise Lost("deref " + v[0])
            elif e[0] == "f":
                path += (e[1],)
            elif e[0] == "d":
                path += (("d", e[1]),)
            elif e[0] == "i":
                v = self.deref(st, self.load(st, root, path))
                i = self.load(st, ("l", fr, e[1]), ())
                opts = self.element(st, v, i)
                if len(opts) != 1 or opts[0][1] is None:
                    raise Lost("index")
                root, path = opts[0][1], ()
            else:
                raise Lost("projection %s" % e[0])
        return root, path

    def deref(self, st, v):
        for _ in range(8):
            if v[0] == "r":
                v = self.load(st, v[1], v[2])
            elif v[0] == "s" and v[1] == "Arc":
                v = v[3][0]
            else:
                return v
        raise Lost("deref depth")

    def op(self, st, fr, o):
        p = op_place(o)
        if p:
            return self.load(st, *self.place(st, fr, p))
        k = str(o.get("k", ""))
        ty = o.get("ty", "")
        if ty == "bool" or k in ("true", "false"):
            return ("b", "true" in k.lower())
        if ty in ("&str", "char"):
            return ("str", lit(k))
        n = num(k)
        if n is not None:
            return N(lin(n))
        if k.endswith("MAX") or ty in ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize"):
            return N(atom(("K", k)))
        if o.get("fn") or "closure" in k:
            return ("u", ("const", k))
        return ("u", ("const", k))

    # statements --------------------------------------------------------------
    def binop(self, st, o, a, b):
        """[(state, value)]"""
        if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if a[0] == "b" and b[0] == "b":
                return [(st, ("b", (a[1] == b[1]) == (o == "Eq")))]
            if a[0] == "n" and b[0] == "n":
                return self.compare(st, o, a[1], b[1])
            return self.opaque_eq(st, a, b, o == "Ne") if o in ("Eq", "Ne") else self.coin(st, ("cmp", o, repr(a), repr(b)))
        w = "WithOverflow" in o
        if a[0] == "n" and b[0] == "n":
            if o.startswith(("Add", "Sub")):
                r = N(add(a[1], b[1], 1 if o.startswith("Add") else -1))
                return [(st, tup(r, ("b", False)) if w else r)]
            if o.startswith("Mul"):
                for x, y in ((a, b), (b, a)):
                    c = const_of(st.norm(x[1]))
                    if c is not None:
                        r = N({k: v * c for k, v in y[1].items() if c})
                        return [(st, tup(r, ("b", False)) if w else r)]
            r = N(atom(("op", o, repr(sorted(a[1].items(), key=repr)), repr(sorted(b[1].items(), key=repr)))))
            return [(st, tup(r, ("b", False)) if w else r)]
        if a[0] == "b" and b[0] == "b" and o in ("BitAnd", "BitOr", "BitXor"):
            return [(st, ("b", {"BitAnd": a[1] and b[1], "BitOr": a[1] or b[1], "BitXor": a[1] != b[1]}[o]))]
        raise Lost("bin " + o)

    def compare(self, st, o, f, g):
        d = add(f, g, -1)
        if o in ("Ge", "Gt", "Ne"):
            r = self.compare(st, {"Ge": "Lt", "Gt": "Le", "Ne": "Eq"}[o], f, g)
            return [(s, ("b", not v[1])) for s, v in r]
        out = []
        if o in ("Lt", "Le"):
            e = add(d, lin(1)) if o == "Lt" else d
            t = st.copy()
            if t.assume_le0(e):
                out.append((t, ("b", True)))
            t = st.copy()
            if t.assume_le0(add(lin(1), e, -1)):
                out.append((t, ("b", False)))
            return out
        t = st.copy()
        if t.assume_le0(d) and t.assume_le0({k: -v for k, v in d.items()}):
            out.append((t, ("b", True)))
        if not (st.range(d) == (0, 0)):
            for sgn in (1, -1):
                t = st.copy()
                if t.assume_le0(add(lin(1), {k: v * sgn for k, v in d.items()})):
                    out.append((t, ("b", False)))
        return out

    def coin(self, st, key):
        if key in st.disc:
            return [(st, ("b", bool(st.disc[key])))]
        out = []
        for v in (True, False):
            t = st.copy()
            t.disc[key] = int(v)
            out.append((t, ("b", v)))
        return out

    def opaque_eq(self, st, a, b, neg):
        a, b = self.deref(st, a), self.deref(st, b)
        if a[0] == "n" and b[0] == "n":
            return self.compare(st, "Ne" if neg else "Eq", a[1], b[1])
        if a[0] == "b" and b[0] == "b":
            return [(st, ("b", (a[1] == b[1]) != neg))]
        if a[0] == "s" and b[0] == "s":
            if a[2] != b[2]:
                return [(st, ("b", neg))]
            res = [(st, True)]
            for x, y in zip(a[3], b[3]):
                nxt = []
                for s, ok in res:
                    if not ok:
                        nxt.append((s, False))
                        continue
                    nxt += [(t, v[1]) for t, v in self.opaque_eq(s, x, y, False)]
                res = nxt
            return [(s, ("b", ok != neg)) for s, ok in res]
        if repr(a) == repr(b):
            return [(st, ("b", not neg))]
        k = ("eq",) + tuple(sorted((repr(a), repr(b))))
        return [(s, ("b", v[1] != neg)) for s, v in self.coin(st, k)]

    def rvalue(self, st, fr, rv):
        t = rv[0]
        if t == "use":
            return [(st, self.op(st, fr, rv[1]))]
        if t == "ref":
            root, path = self.place(st, fr, rv[2])
            return [(st, ("r", root, path))]
        if t == "raw":
            root, path = self.place(st, fr, rv[1])
            return [(st, ("r", root, path))]
        if t == "cast":
            return [(st, self.op(st, fr, rv[2]))]
        if t == "bin":
            return self.binop(st, rv[1], self.op(st, fr, rv[2]), self.op(st, fr, rv[3]))
        if t == "un":
            a = self.op(st, fr, rv[2])
            if rv[1] == "Neg" and a[0] == "n":
                return [(st, N({k: -v for k, v in a[1].items()}))]
            if rv[1] == "Not" and a[0] == "b":
                return [(st, ("b", not a[1]))]
            raise Lost("un " + rv[1])
        if t == "agg":
            vals = [self.op(st, fr, o) for o in rv[4]]
            if rv[1] == "tuple":
                return [(st, tup(*vals))]
            if rv[1].startswith("closure "):
                return [(st, ("c", rv[1][8:], tuple(vals)))]
            if rv[1] == "array":
                return [(st, ("s", "array", 0, tuple(vals)))]
            return [(st, ("s", self.adt(rv[1]), self.variant(rv[1], rv[2]), tuple(vals)))]
        if t == "discr":
            v = self.load(st, *self.place(st, fr, rv[1]))
            return self.discr(st, v)
        if t == "rep":
            return [(st, ("u", ("rep",)))]
        raise Lost("rvalue " + t)

    def adt(self, n):
        s = n.split("<")[0].rsplit("::", 1)[-1]
        return s

    def variant(self, adt, v):
        a = self.m.adts.get(adt.split("<")[0])
        if a and a.enum:
            ns = a.variant_names
            return ns.index(v) if v in ns else v
        if v in ("None", "Ok", "Continue"):
            return 0
        if v in ("Some", "Err", "Break"):
            return 1
        return 0

    def discr(self, st, v):
        v = self.deref(st, v)
        if v[0] == "s":
            return [(st, N(lin(v[2])))]
        if v[0] == "x":
            return self.discr(st, v[1])
        if v[0] == "u":
            k = ("discr",) + v[1]
            if k in st.disc:
                return [(st, N(lin(st.disc[k])))]
            return [(st, N(atom(k)))]
        raise Lost("discr " + v[0])

    # elements ------------------------------------------------------------------
    def new_list(self, st, items, tag="vec"):
        o = self.fresh(tag)
        ids = []
        for v in items:
            e = self.fresh("e")
            st.mem[("h", e)] = v
            ids.append(e)
        st.heap[o] = tuple(ids)
        return ("v", o)

    def items(self, st, v):
        v = self.deref(st, v)
        if v[0] == "v" and isinstance(st.heap.get(v[1]), tuple):
            return st.heap[v[1]]
        if v[0] == "sl":
            return v[1]
        raise Lost("not a list")

    def element(self, st, v, i):
        """[(state, root or None)] element of a collection at an index."""
        if v[0] == "v" and isinstance(st.heap.get(v[1]), tuple) or v[0] == "sl":
            ids = self.items(st, v)
            if i[0] != "n":
                raise Lost("index value")
            out = []
            for k, e in enumerate(ids):
                for s, b in self.compare(st, "Eq", i[1], lin(k)):
                    if b[1]:
                        out.append((s, ("h", e)))
            for s, b in self.compare(st, "Ge", i[1], lin(len(ids))):
                if b[1]:
                    out.append((s, None))
            return out
        return self.other_element(st, v, i)

    def other_element(self, st, v, i):
        raise Lost("element of " + v[0])

    # calls --------------------------------------------------------------------------
    def apply(self, st, f, args):
        """Call a closure or function value."""
        f = self.deref(st, f)
        if f[0] == "c":
            fn = self.m.fns.get(f[1])
            if fn is None:
                raise Lost("closure")
            cell = ("l", self.fresh("clo"), 0)
            st.mem[cell] = f
            env = ("r", cell, ()) if fn.local_ty(1).startswith("&") else f
            return self.enter(st, fn, [env] + list(args))
        raise Lost("call of " + f[0])

    def enter(self, st, fn, args):
        fr = self.fresh("fr")
        if fn.nargs != len(args):
            if fn.nargs == 2 and len(args) > 2:
                args = [args[0], tup(*args[1:])]
            else:
                raise Lost("arity")
        for i, v in enumerate(args):
            st.mem[("l", fr, i + 1)] = v
        return [(s, s.mem.get(("l", fr, 0), ("u", ("unit",)))) for s in self.walk(fn, st, fr)]

    def call(self, st, fr, f, c):
        n = c.callee.name or c.callee.decl
        s = c.callee.short
        vals = [self.op(st, fr, a) for a in c.args]
        if s in ("clone", "eq", "ne", "default") and c.callee.tr:
            return self.builtin(st, vals, c, n, s)
        h = self.prims.get(s)
        if h:
            r = h(self, st, vals, c)
            if r is not None:
                return r
        ts = [t for t in self.m.targets(c.callee) if t.uid in self.group]
        if len(ts) == 1:
            return self.enter(st, ts[0], vals)
        return self.builtin(st, vals, c, n, s)

    def over(self, st, v):
        """Iterator value of something iterable: ("it", list of values, position cell)."""
        v = self.deref(st, v) if v[0] == "r" else v
        if v[0] == "it":
            return v
        raise Lost("iterate " + v[0])

    def make_iter(self, st, vals):
        cell = ("l", self.fresh("it"), 0)
        st.mem[cell] = ("it", tuple(vals))
        return ("it", tuple(vals))

    def elem_values(self, st, v, mode):
        """Values an iterator over v yields; mode ref / own."""
        raw = v
        ty_ref = raw[0] == "r"
        v = self.deref(st, v)
        if v[0] == "it":
            return list(v[1])
        if v[0] == "s" and v[1] == "Range":
            a, b = v[3][0][1], v[3][1][1]
            ca, cb = const_of(st.norm(a)), const_of(st.norm(b))
            if ca is None or cb is None:
                raise Lost("range bounds")
            return [N(lin(k)) for k in range(ca, cb)]
        if v[0] == "s" and v[1] == "Option":
            return list(v[3]) if v[2] == 1 else []
        ids = self.items(st, v)
        if mode == "own" and not ty_ref:
            return [st.mem[("h", e)] for e in ids]
        return [("r", ("h", e), ()) for e in ids]

    def builtin(self, st, vals, c, n, s):
        one = lambda v: [(st, v)]
        a0 = vals[0] if vals else None
        low = n.lower()
        if s in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "make_mut", "as_slice", "as_mut_slice", "as_deref", "as_deref_mut") and a0 is not None:
            if "option" in low and s in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
                v = self.deref(st, a0)
                if v[0] == "s" and v[2] == 1 and a0[0] == "r":
                    return one(some(("r", a0[1], a0[2] + (0,))))
                return one(v)
            return one(a0)
        if s in ("clone", "to_owned", "cloned", "copied", "to_vec", "into", "from", "as_i64"):
            v = self.deref(st, a0)
            if v[0] == "it":
                return one(("it", tuple(self.deref(st, x) for x in v[1])))
            if v[0] == "s" and v[1] == "Option" and v[2] == 1:
                return one(some(self.deref(st, v[3][0])))
            if v[0] in ("v", "sl") and (s in ("clone", "to_vec", "to_owned")):
                if v[0] == "v" and not isinstance(st.heap.get(v[1]), tuple):
                    raise Lost("clone of collection")
                return one(self.new_list(st, [st.mem[("h", e)] for e in self.items(st, v)]))
            return one(v)
        if s in ("eq", "ne") and len(vals) == 2:
            return self.opaque_eq(st, vals[0], vals[1], s == "ne")
        if s in ("lt", "le", "gt", "ge") and len(vals) == 2:
            x, y = self.deref(st, vals[0]), self.deref(st, vals[1])
            return self.binop(st, s.capitalize(), x, y)
        if s in ("cmp", "partial_cmp") and len(vals) == 2:
            x, y = self.deref(st, vals[0]), self.deref(st, vals[1])
            out = []
            for o, d in (("Lt", -1), ("Eq", 0), ("Gt", 1)):
                for t, b in self.compare(st, o, x[1], y[1]):
                    if b[1]:
                        v = ("s", "Ordering", d, ())
                        out.append((t, v if s == "cmp" else some(v)))
            return out
        if s in ("add", "sub") and len(vals) == 2 and "ops::arith" in n:
            return self.binop(st, s.capitalize(), self.deref(st, vals[0]), self.deref(st, vals[1]))
        if s in ("add_assign", "sub_assign") and len(vals) == 2:
            x, y = self.deref(st, vals[0]), self.deref(st, vals[1])
            self.store(st, vals[0][1], vals[0][2], N(add(x[1], y[1], 1 if s[0] == "a" else -1)))
            return one(tup())
        if s in ("max", "min") and len(vals) == 2:
            x, y = self.deref(st, vals[0]), self.deref(st, vals[1])
            return [(t, (x if b[1] else y) if s == "min" else (y if b[1] else x)) for t, b in self.compare(st, "Le", x[1], y[1])]
        if s in ("saturating_sub", "checked_sub", "wrapping_sub", "saturating_add", "wrapping_add", "checked_add",
                 "saturating_add_signed", "checked_add_signed", "wrapping_add_signed", "unsigned_abs", "abs", "checked_sub_unsigned"):
            x = self.deref(st, a0)
            if s in ("unsigned_abs", "abs"):
                return [(t, x if b[1] else N({k: -v for k, v in x[1].items()})) for t, b in self.compare(st, "Ge", x[1], {})]
            y = self.deref(st, vals[1])
            r = add(x[1], y[1], -1 if "sub" in s else 1)
            if s.startswith("wrapping"):
                return one(N(r))
            out = []
            if "add" in s and "signed" not in s:
                return one(some(N(r)) if s.startswith("checked") else N(r))
            for t, b in self.compare(st, "Ge", r, {}):
                if b[1]:
                    out.append((t, some(N(r)) if s.startswith("checked") else N(r)))
                else:
                    out.append((t, NONE if s.startswith("checked") else N({})))
            return out
        if s == "clamp" and len(vals) == 3:
            x, lo, hi = (self.deref(st, v) for v in vals)
            return [(t2, lo if b[1] else hi if b2[1] else x) for t, b in self.compare(st, "Lt", x[1], lo[1]) for t2, b2 in self.compare(t, "Gt", x[1], hi[1])]
        if s == "contains" and len(vals) == 2 and self.deref(st, a0)[0] == "s" and self.deref(st, a0)[1].startswith("Range"):
            r, x = self.deref(st, a0), self.deref(st, vals[1])
            out = []
            lo = r[3][0][1] if r[1] in ("Range", "RangeInclusive", "RangeFrom") else {}
            for t, b in self.compare(st, "Ge", x[1], lo):
                if not b[1] or r[1] in ("RangeFrom", "RangeFull"):
                    out.append((t, b))
                else:
                    out += self.compare(t, "Le" if "Inclusive" in r[1] else "Lt", x[1], r[3][-1 if "Inclusive" not in r[1] else 1][1])
            return out
        if s == "new" and "RangeInclusive" in n:
            return one(("s", "RangeInclusive", 0, (vals[0], vals[1])))
        if s == "abs_diff":
            x, y = self.deref(st, a0), self.deref(st, vals[1])
            return [(t, N(add(x[1], y[1], -1 if b[1] else 1) if b[1] else add(y[1], x[1], -1))) for t, b in self.compare(st, "Ge", x[1], y[1])]
        # Option / Result / Try
        if s in ("unwrap", "expect", "unwrap_or", "unwrap_or_default", "is_some", "is_none", "map", "unwrap_or_else", "map_or", "map_or_else", "branch", "from_residual",
                 "and_then", "is_some_and", "is_ok", "is_err", "filter", "take", "ok", "try_into", "try_from", "ok_or", "then", "then_some", "or", "is_none_or", "ok_or_else") and a0 is not None:
            v = self.deref(st, a0)
            if s in ("try_into", "try_from"):
                return one(("s", "Result", 0, (v,)))
            if s in ("then", "then_some") and v[0] == "b":
                if not v[1]:
                    return one(NONE)
                return one(some(vals[1])) if s == "then_some" else [(t, some(x)) for t, x in self.apply(st, vals[1], [])]
            if v[0] == "n" and s == "unwrap":
                return one(v)
            if v[0] == "u":
                raise Lost("%s of unknown" % s)
            if v[0] == "s" and v[1] in ("Option", "Result", "ControlFlow"):
                good = (v[2] == 1) if v[1] == "Option" else v[2] == 0
                x = v[3][0] if v[3] else None
                if s in ("unwrap", "expect"):
                    return one(x) if good else []
                if s == "unwrap_or":
                    return one(x if good else vals[1])
                if s == "unwrap_or_default":
                    return one(x if good else N({}))
                if s in ("is_some", "is_ok"):
                    return one(("b", good))
                if s in ("is_none", "is_err"):
                    return one(("b", not good))
                if s == "is_some_and":
                    return self.apply(st, vals[1], [x]) if good else one(("b", False))
                if s == "is_none_or":
                    return self.apply(st, vals[1], [x]) if good else one(("b", True))
                if s == "map":
                    return [(t, ("s", v[1], v[2], (y,))) for t, y in self.apply(st, vals[1], [x])] if good else one(v)
                if s == "and_then":
                    return self.apply(st, vals[1], [x]) if good else one(v)
                if s == "filter" and v[1] == "Option":
                    if not good:
                        return one(v)
                    cell = ("l", self.fresh("flt"), 0)
                    st.mem[cell] = x
                    return [(t, v if y[1] else NONE) for t, y in self.apply(st, vals[1], [("r", cell, ())])]
                if s == "unwrap_or_else":
                    return one(x) if good else self.apply(st, vals[1], [] if v[1] == "Option" else [x])
                if s == "map_or":
                    return self.apply(st, vals[2], [x]) if good else one(vals[1])
                if s == "map_or_else":
                    return self.apply(st, vals[2], [x]) if good else self.apply(st, vals[1], [])
                if s == "ok":
                    return one(some(x) if good else NONE)
                if s in ("ok_or", "ok_or_else"):
                    return one(("s", "Result", 0, (x,)) if good else ("s", "Result", 1, (("u", ("err",)),)))
                if s == "or":
                    return one(v if good else vals[1])
                if s == "take":
                    self.store(st, a0[1], a0[2], NONE)
                    return one(v)
                if s == "branch":
                    return one(("s", "ControlFlow", 0 if good else 1, (x,) if good else (v,)))
                if s == "from_residual":
                    return one(v)
        # iterators
        if s in ("into_iter", "iter", "iter_mut", "by_ref", "drain") and a0 is not None and s != "drain":
            r = self.coll_iter(st, a0, s)
            if r is not None:
                return r
            return one(("it", tuple(self.elem_values(st, a0, "ref" if s != "into_iter" else "own"))))
        if s in ("next", "next_back") and a0 is not None:
            v = self.deref(st, a0)
            if v[0] == "s" and v[1] == "Range":
                r = self.range_next(st, a0, v)
                if r is not None:
                    return r
            if v[0] != "it":
                raise Lost("next of %s" % v[0])
            if not v[1]:
                return one(NONE)
            x, rest = (v[1][0], v[1][1:]) if s == "next" else (v[1][-1], v[1][:-1])
            self.store(st, a0[1], a0[2], ("it", rest))
            return one(some(x))
        if s == "peekable" or s == "fuse":
            return one(a0)
        if s == "peek":
            v = self.deref(st, a0)
            if not v[1]:
                return one(NONE)
            cell = ("l", self.fresh("peek"), 0)
            st.mem[cell] = v[1][0]
            return one(some(("r", cell, ())))
        if s == "enumerate" and a0[0] == "it":
            return one(("it", tuple(tup(N(lin(i)), v) for i, v in enumerate(a0[1]))))
        if s == "rev" and a0[0] == "it":
            return one(("it", a0[1][::-1]))
        if s == "rev" and a0[0] == "s":
            return one(("it", tuple(self.elem_values(st, a0, "own"))[::-1]))
        if s in ("skip", "take") and a0[0] == "it":
            k = const_of(st.norm(vals[1][1]))
            if k is None:
                raise Lost("skip")
            return one(("it", a0[1][k:] if s == "skip" else a0[1][:k]))
        if s == "zip" and a0[0] == "it":
            w = self.elem_values(st, vals[1], "own")
            return one(("it", tuple(tup(x, y) for x, y in zip(a0[1], w))))
        if s == "chain" and a0[0] == "it":
            return one(("it", a0[1] + tuple(self.elem_values(st, vals[1], "own"))))
        if s in ("map", "filter", "filter_map", "for_each", "any", "all", "position", "find", "retain", "retain_mut", "flat_map", "take_while", "skip_while", "find_map", "inspect") and len(vals) == 2:
            return self.higher(st, vals, s)
        if s == "fold" and len(vals) == 3:
            acc = [(st, vals[1])]
            for x in self.elem_values(st, a0, "own"):
                acc = [(t2, v2) for t, v in acc for t2, v2 in self.apply(t, vals[2], [v, x])]
            return acc
        if s == "count" and a0[0] == "it":
            return one(N(lin(len(a0[1]))))
        if s == "sum" and a0[0] == "it":
            f = {}
            for x in a0[1]:
                f = add(f, self.deref(st, x)[1])
            return one(N(f))
        if s == "collect":
            v = self.deref(st, a0)
            if v[0] == "it":
                return one(self.new_list(st, v[1]))
        if s == "last" and a0 is not None:
            v = self.deref(st, a0)
            if v[0] == "it":
                return one(some(v[1][-1]) if v[1] else NONE)
        # lists
        if s in ("new", "with_capacity", "default") and ("vec::Vec" in n or "VecDeque" in n):
            return one(self.new_list(st, []))
        if s in ("reserve", "shrink_to_fit") or n.startswith("core::fmt") or "Arguments" in n:
            return one(tup())
        if s == "take" and "mem" in n and len(vals) == 1:
            v = self.deref(st, a0)
            if v[0] == "v" and isinstance(st.heap.get(v[1]), tuple):
                self.store(st, a0[1], a0[2], self.new_list(st, []))
                return one(v)
        if s in ("replace", "swap") and "mem" in n:
            v, w = self.deref(st, a0), vals[1]
            if s == "replace":
                self.store(st, a0[1], a0[2], w)
                return one(v)
            w2 = self.deref(st, w)
            self.store(st, a0[1], a0[2], w2)
            self.store(st, w[1], w[2], v)
            return one(tup())
        r = self.coll(st, vals, c, n, s)
        if r is not None:
            return r
        if a0 is not None:
            v = self.deref(st, a0)
            if v[0] == "v" and isinstance(st.heap.get(v[1]), tuple) or v[0] == "sl":
                return self.listop(st, vals, v, s, n)
        for i, v in enumerate(vals):
            p = op_place(c.args[i])
            ty = c.fn.local_ty(p[0]) if p and len(p) == 1 else ""
            if ty.startswith("&mut"):
                raise Lost("call of %s" % n)
        if any(v[0] in ("v", "sl", "it") for v in vals):
            raise Lost("call of %s" % n)
        return one(("u", ("call", n) + tuple(repr(v) for v in vals)))

    def range_next(self, st, a0, v):
        a, b = v[3][0][1], v[3][1][1]
        out = []
        for t, lt in self.compare(st, "Lt", a, b):
            if lt[1]:
                self.store(t, a0[1], a0[2], ("s", "Range", 0, (N(add(a, lin(1))), v[3][1])))
                out.append((t, some(N(a))))
            else:
                out.append((t, NONE))
        return out

    def coll_iter(self, st, v, s):
        return None

    def coll(self, st, vals, c, n, s):
        return None

    def higher(self, st, vals, s):
        a0, f = vals
        if s in ("retain", "retain_mut"):
            ids = self.items(st, a0)
            o = self.deref(st, a0)[1]
            acc = [(st, ())]
            for e in ids:
                nxt = []
                for t, keep in acc:
                    for t2, b in self.apply(t, f, [("r", ("h", e), ())]):
                        nxt.append((t2, keep + ((e,) if self.deref(t2, b)[1] else ())))
                acc = nxt
            out = []
            for t, keep in acc:
                t.heap[o] = keep
                out.append((t, tup()))
            return out
        src = self.elem_values(st, a0, "own")
        acc = [(st, (), None)]                        # state, collected, stop value
        for i, x in enumerate(src):
            nxt = []
            for t, got, stop in acc:
                if stop is not None:
                    nxt.append((t, got, stop))
                    continue
                arg = x
                if s in ("filter", "find", "take_while", "skip_while", "inspect"):
                    cell = ("l", self.fresh("hof"), 0)
                    t.mem[cell] = x
                    arg = ("r", cell, ())
                for t2, r in self.apply(t, f, [arg]):
                    r = self.deref(t2, r) if r[0] == "r" and s not in ("map",) else r
                    st2 = None
                    g2 = got
                    if s == "map":
                        g2 = got + (r,)
                    elif s == "filter":
                        g2 = got + ((x,) if r[1] else ())
                    elif s == "filter_map":
                        g2 = got + (r[3] if r[2] == 1 else ())
                    elif s == "flat_map":
                        g2 = got + tuple(self.elem_values(t2, r, "own"))
                    elif s == "take_while":
                        if not r[1]:
                            st2 = "end"
                        else:
                            g2 = got + (x,)
                    elif s == "skip_while":
                        if not r[1] or got:
                            g2 = got + (x,)
                    elif s == "inspect":
                        g2 = got + (x,)
                    elif s == "any" and r[1]:
                        st2 = ("b", True)
                    elif s == "all" and not r[1]:
                        st2 = ("b", False)
                    elif s == "position" and r[1]:
                        st2 = some(N(lin(i)))
                    elif s == "find" and r[1]:
                        st2 = some(x)
                    elif s == "find_map" and r[2] == 1:
                        st2 = r
                    nxt.append((t2, g2, st2))
            acc = nxt
        end = {"any": ("b", False), "all": ("b", True), "position": NONE, "find": NONE, "for_each": tup(), "find_map": NONE}
        return [(t, (stop if stop is not None and stop != "end" else end[s] if s in end else ("it", got))) for t, got, stop in acc]

    def listop(self, st, vals, v, s, n):
        one = lambda x: [(st, x)]
        ids = self.items(st, v)
        o = v[1] if v[0] == "v" else None
        if s == "len":
            return one(N(lin(len(ids))))
        if s == "is_empty":
            return one(("b", not ids))
        if s in ("push", "push_back"):
            e = self.fresh("e")
            st.mem[("h", e)] = vals[1]
            st.heap[o] = ids + (e,)
            return one(tup())
        if s == "pop":
            if not ids:
                return one(NONE)
            st.heap[o] = ids[:-1]
            return one(some(st.mem[("h", ids[-1])]))
        if s == "clear":
            st.heap[o] = ()
            return one(tup())
        if s in ("last", "first", "last_mut", "first_mut", "back", "front", "back_mut"):
            return one(some(("r", ("h", ids[0 if "f" == s[0] else -1]), ())) if ids else NONE)
        if s == "truncate":
            k = const_of(st.norm(vals[1][1]))
            if k is None:
                raise Lost("truncate")
            st.heap[o] = ids[:k]
            return one(tup())
        if s in ("extend", "append", "extend_from_slice"):
            w = vals[1]
            xs = self.elem_values(st, w, "own")
            new = []
            for x in xs:
                e = self.fresh("e")
                st.mem[("h", e)] = self.deref(st, x) if x[0] == "r" else x
                new.append(e)
            if s == "append":
                st.heap[self.deref(st, w)[1]] = ()
            st.heap[o] = self.items(st, v) + tuple(new)
            return one(tup())
        if s in ("get", "get_mut"):
            return [(t, some(("r", r, ())) if r is not None else NONE) for t, r in self.element(st, v, vals[1])]
        if s in ("index", "index_mut", "get_unchecked"):
            i = vals[1]
            if i[0] == "s":
                k0 = const_of(st.norm(i[3][0][1])) if i[1] in ("RangeFrom", "Range") else 0
                k1 = len(ids) if i[1] == "RangeFrom" else const_of(st.norm(i[3][-1][1]))
                if k0 is None or k1 is None:
                    raise Lost("slice")
                return one(("sl", ids[k0:k1]))
            return [(t, ("r", r, ())) for t, r in self.element(st, v, i) if r is not None]
        if s in ("insert", "remove", "swap_remove"):
            k = const_of(st.norm(vals[1][1]))
            if k is None:
                raise Lost("insert")
            if s == "insert":
                e = self.fresh("e")
                st.mem[("h", e)] = vals[2]
                st.heap[o] = ids[:k] + (e,) + ids[k:]
                return one(tup())
            if k >= len(ids):
                return []
            st.heap[o] = ids[:k] + ids[k + 1:]
            return one(st.mem[("h", ids[k])])
        if s == "drain":
            i = vals[1]
            if i[0] == "s" and i[1] == "RangeFull":
                k0, k1 = 0, len(ids)
            else:
                k0 = const_of(st.norm(i[3][0][1])) if i[1] in ("RangeFrom", "Range", "RangeInclusive") else 0
                k1 = len(ids) if i[1] == "RangeFrom" else const_of(st.norm(i[3][-1][1]))
            if k0 is None or k1 is None:
                raise Lost("drain")
            if i[1] == "RangeInclusive":
                k1 += 1
            st.heap[o] = ids[:k0] + ids[k1:]
            return one(("it", tuple(st.mem[("h", e)] for e in ids[k0:k1])))
        if s in ("dedup_by", "windows", "chunks"):
            if s == "dedup_by":
                acc = [(st, ids[:1])]
                for e in ids[1:]:
                    acc = [(t2, keep if self.deref(t2, b)[1] else keep + (e,)) for t, keep in acc
                           for t2, b in self.apply(t, vals[1], [("r", ("h", e), ()), ("r", ("h", keep[-1]), ())])]
                out = []
                for t, keep in acc:
                    t.heap[o] = keep
                    out.append((t, tup()))
                return out
            if s == "windows":
                k = const_of(st.norm(vals[1][1]))
                return one(("it", tuple(("sl", ids[i:i + k]) for i in range(len(ids) - k + 1))))
        if s in ("swap",):
            x, y = const_of(st.norm(vals[1][1])), const_of(st.norm(vals[2][1]))
            if x is None or y is None:
                raise Lost("swap")
            l = list(ids)
            l[x], l[y] = l[y], l[x]
            if o is not None:
                st.heap[o] = tuple(l)
                return one(tup())
        if s in ("split_at", "split_at_mut"):
            k = const_of(st.norm(vals[1][1]))
            if k is not None:
                return one(tup(("sl", ids[:k]), ("sl", ids[k:])))
        if s == "partition_point":
            acc = [(st, 0, False)]
            for e in ids:
                acc = [(t2, k + (1 if not done and self.deref(t2, b)[1] else 0), done or not self.deref(t2, b)[1]) for t, k, done in acc
                       for t2, b in self.apply(t, vals[1], [("r", ("h", e), ())])]
            return [(t, N(lin(k))) for t, k, _ in acc]
        if s in ("sort_by_key", "sort_unstable_by_key", "sort_by"):
            raise Lost("sort")
        if s == "clone_from_slice":
            raise Lost("clone_from_slice")
        raise Lost("list %s" % s)

    # control ------------------------------------------------------------------------------------
    def walk(self, f, st, fr):
        out = []
        todo = [(0, st, {})]
        while todo:
            i, s, seen = todo.pop()
            self.steps += 1
            if self.steps > STEPS:
                raise Lost("too long")
            b = f.blocks[i]
            if b.cleanup:
                continue
            seen = dict(seen)
            seen[i] = seen.get(i, 0) + 1
            if seen[i] > VISITS:
                raise Lost("loop in %s" % f.name)
            states = [s]
            for x in b.stmts:
                if x[0] != "=":
                    continue
                nxt = []
                for t in states:
                    for t2, v in self.rvalue(t, fr, x[3]):
                        root, path = self.place(t2, fr, x[2])
                        self.store(t2, root, path, v)
                        nxt.append(t2)
                states = nxt
            t = b.term
            for e in states:
                if t[0] == "call":
                    if t[5] is None:
                        continue
                    c = f.call_at(i)
                    for e2, v in self.call(e, fr, f, c):
                        root, path = self.place(e2, fr, c.dest)
                        self.store(e2, root, path, v)
                        todo.append((t[5], e2, seen))
                elif t[0] == "switch":
                    v = self.op(e, fr, t[2])
                    self.branch(e, v, t, todo, seen, f)
                elif t[0] == "ret":
                    out.append(e)
                elif t[0] == "unreach":
                    pass
                elif t[0] == "assert":
                    todo.append((t[4], e, seen))
                elif b.succ:
                    todo.append((b.succ[0], e, seen))
        return out

    def branch(self, st, v, t, todo, seen, f):
        if v[0] == "b":
            n = 1 if v[1] else 0
            for k, j in t[3]:
                if int(k) == n:
                    todo.append((j, st, seen))
                    return
            todo.append((t[4], st, seen))
            return
        if v[0] == "s" and v[1] == "Ordering":
            v = N(lin(v[2]))
        if v[0] != "n":
            raise Lost("switch on %s" % v[0])
        form = st.norm(v[1])
        c = const_of(form)
        if c is not None:
            for k, j in t[3]:
                kk = int(k)
                if kk == c or kk in (255, 2 ** 64 - 1, 2 ** 8 - 1) and c == -1:
                    todo.append((j, st, seen))
                    return
            todo.append((t[4], st, seen))
            return
        ks = [k for k in form if k != 1]
        for k, j in t[3]:
            e = st.copy()
            if len(ks) == 1 and form[ks[0]] == 1 and not form.get(1):
                a = ks[0]
                if isinstance(a, tuple) and a and a[0] == "discr":
                    e.disc[a] = int(k)
                    todo.append((j, e, seen))
                    continue
            for e2, ok in self.compare(e, "Eq", form, lin(int(k))):
                if ok[1]:
                    todo.append((j, e2, seen))
        if f.blocks[t[4]].term[0] == "unreach":
            return
        e = [st.copy()]
        isd = len(ks) == 1 and isinstance(ks[0], tuple) and ks[0] and ks[0][0] == "discr"
        if isd:
            vals = {int(k) for k, _ in t[3]}
            if vals in ({0}, {1}):
                e[0].disc[ks[0]] = 1 - vals.pop()
        else:
            for k, _ in t[3]:
                e = [e2 for x in e for e2, ok in self.compare(x, "Eq", form, lin(int(k))) if not ok[1]]
        for x in e:
            todo.append((t[4], x, seen))
