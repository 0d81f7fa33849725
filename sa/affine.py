"""Affine path evaluation of the functions that edit the document text.

Every acyclic path of such a function is followed with each integer held as an affine form over opaque values
(arguments, results of unknown calls).  The text length and the index total are state; inserting, removing and shifting
change them by forms.  Comparisons passed on the way add equalities (x > 0 false: x = 0).  No solver: forms are reduced
by Gaussian elimination over the equalities of the path."""
import json
from fractions import Fraction
from flow import *

LIMIT = 6000


def lin(c=0, **k):
    return {1: Fraction(c)} if c else {}


def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def atom(a):
    return {a: Fraction(1)}


def const_of(f):
    """Constant value of a form, or None."""
    if not f:
        return 0
    return int(f[1]) if set(f) == {1} else None


class Eqs:
    def __init__(self, rows=()):
        self.rows = list(rows)      # (pivot, form with pivot coefficient 1)

    def reduce(self, f):
        f = dict(f)
        for p, r in self.rows:
            if p in f:
                f = add(f, r, -f[p])
        return f

    def add(self, f):
        f = self.reduce(f)
        ks = sorted((k for k in f if k != 1), key=repr)
        if not ks:
            return Eqs(self.rows) if not f else None        # contradiction: path cannot be taken
        p = ks[0]
        f = {k: v / f[p] for k, v in f.items()}
        rows = [(q, add(r, f, -r[p]) if p in r else r) for q, r in self.rows]
        return Eqs(rows + [(p, f)])


def lit(k):
    """Text of a str / char literal operand as dumped by rustc."""
    k = k.strip()
    if len(k) >= 2 and k[0] == k[-1] and k[0] in "\"'":
        b = k[1:-1]
        try:
            import re
            b = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), b)
            for x, y in (("\\n", "\n"), ("\\t", "\t"), ("\\r", "\r"), ("\\0", "\0"), ('\\"', '"'), ("\\'", "'"), ("\\\\", "\\")):
                b = b.replace(x, y)
            return b
        except ValueError:
            return None
    return None


def num(k):
    import re
    mt = re.match(r"^(-?\d+)(?:_?[iu](?:8|16|32|64|128|size))?$", str(k).strip())
    return int(mt.group(1)) if mt else None


class State:
    __slots__ = ("env", "eqs", "rope", "idx", "log")

    def __init__(self, env, eqs, rope, idx, log):
        self.env, self.eqs, self.rope, self.idx, self.log = env, eqs, rope, idx, log

    def copy(self):
        return State(dict(self.env), self.eqs, self.rope, self.idx, list(self.log))


class Eval:
    """run(fn) -> list of final States.  Values: ("l", form) ("s", len form, known prefix, all known) ("c", byte form)
    ("b", op, a, b) ("o", opaque id) ("ref", place key)."""

    def __init__(self, m, group):
        self.m, self.group = m, group
        self.n = 0
        self.paths = 0
        self.lost = []

    # places -------------------------------------------------------------
    def key(self, fr, p):
        k = [fr, p[0]]
        for e in p[1:]:
            if e == "*":
                k.append("*")
            elif isinstance(e, list) and e[0] == "f":
                k.append(("f", e[1]))
            elif isinstance(e, list) and e[0] == "d":
                k.append(("d", e[1]))
            else:
                k.append(("x", json.dumps(e)))
        return tuple(k)

    def resolve(self, st, k):
        """Follow references in a place key; longest known prefix."""
        for _ in range(12):
            for n in range(len(k), 1, -1):
                v = st.env.get(k[:n])
                if v is None:
                    continue
                if v[0] == "ref":
                    rest = k[n:]
                    if rest and rest[0] == "*":
                        rest = rest[1:]
                    elif not rest:
                        return k
                    k = v[1] + rest
                    break
                return k
            else:
                return k
        return k

    def load(self, st, k):
        k = self.resolve(st, k)
        v = st.env.get(k)
        if v is not None:
            return v
        for n in range(len(k) - 1, 1, -1):
            v = st.env.get(k[:n])
            if v is None:
                continue
            rest = tuple(x for x in k[n:] if x != "*")
            if v[0] == "o":
                return ("o", v[1] + rest)
            if not rest:
                return v
            return ("o", ("of",) + k)
        if any(x[:len(k)] == k for x in st.env):
            return ("agg", k)
        return ("o", tuple(x for x in k if x != "*"))

    def kill(self, st, k):
        for x in [x for x in st.env if x[:len(k)] == k]:
            del st.env[x]

    def store(self, st, k, v):
        if len(k) > 2:
            k = self.resolve(st, k)
        if v[0] == "agg":
            src = v[1]
            new = {k + x[len(src):]: y for x, y in st.env.items() if x[:len(src)] == src}
            self.kill(st, k)
            st.env.update(new)
        else:
            self.kill(st, k)
            st.env[k] = v

    def op(self, st, fr, f, o):
        p = op_place(o)
        if p:
            k = self.key(fr, p)
            v = self.load(st, k)
            return v
        if isinstance(o, dict) and "k" in o:
            t = o.get("ty", "")
            if t in ("&str", "char"):
                s = lit(o["k"])
                if s is not None:
                    return ("s", lin(len(s.encode())), s, True)
            n = num(o["k"])
            if n is not None:
                return ("l", lin(n))
            if str(o["k"]).startswith('b"'):
                return ("o", ("bytes", o["k"]))
            if o["k"] in ("true", "false", True, False):
                return ("l", lin(1 if str(o["k"]).lower() == "true" else 0))
        return ("o", ("k", json.dumps(o, sort_keys=True)))

    def form(self, v):
        if v[0] == "l":
            return v[1]
        if v[0] == "o":
            return atom(v[1])
        return None

    def slen(self, v):
        """(byte length form, prefix, complete)"""
        if v[0] == "s":
            return v[1], v[2], v[3]
        if v[0] == "o":
            return atom(("len",) + tuple(v[1])), "", False
        return None

    # statements -----------------------------------------------------------
    def assign(self, st, fr, f, dst, rv, bb):
        k = self.key(fr, dst)
        t = rv[0]
        if t == "use":
            v = self.op(st, fr, f, rv[1])
        elif t == "ref":
            p = rv[2]
            kk = self.resolve(st, self.key(fr, p))
            if kk[-1] == "*":
                v = self.load(st, kk)
                if v[0] == "agg":
                    v = ("ref", kk)
            else:
                v = ("ref", kk)
        elif t == "cast":
            v = self.op(st, fr, f, rv_operands(rv)[0])
        elif t == "bin":
            a, b = self.op(st, fr, f, rv[2]), self.op(st, fr, f, rv[3])
            o = rv[1]
            fa, fb = self.form(a), self.form(b)
            if fa is not None and fb is not None and o.startswith(("Add", "Sub")):
                r = ("l", add(fa, fb, 1 if o.startswith("Add") else -1))
                if "WithOverflow" in o:
                    self.kill(st, self.resolve(st, k) if len(k) > 2 else k)
                    st.env[k + (("f", 0),)] = r
                    return
                v = r
            elif fa is not None and fb is not None and o.startswith("Mul") and (const_of(fa) is not None or const_of(fb) is not None):
                c, g = (const_of(fa), fb) if const_of(fa) is not None else (const_of(fb), fa)
                r = ("l", {x: y * c for x, y in g.items() if c})
                if "WithOverflow" in o:
                    self.kill(st, k)
                    st.env[k + (("f", 0),)] = r
                    return
                v = r
            elif o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and fa is not None and fb is not None:
                v = ("b", o, fa, fb)
            else:
                v = ("o", ("bin", f.uid, fr, bb, json.dumps(dst)))
        elif t == "un":
            a = self.op(st, fr, f, rv_operands(rv)[0])
            fa = self.form(a)
            if rv[1] == "Neg" and fa is not None:
                v = ("l", {x: -y for x, y in fa.items()})
            elif rv[1] == "Not" and a[0] == "b":
                inv = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}
                v = ("b", inv[a[1]], a[2], a[3])
            else:
                v = ("o", ("un", f.uid, fr, bb, json.dumps(dst)))
        elif t == "agg":
            ops = [self.op(st, fr, f, o) for o in rv[4]]
            kk = self.resolve(st, k) if len(k) > 2 else k
            snap = {}
            for i, v in enumerate(ops):
                if v[0] == "agg":
                    for x, y in st.env.items():
                        if x[:len(v[1])] == v[1]:
                            snap[(("f", i),) + x[len(v[1]):]] = y
                else:
                    snap[(("f", i),)] = v
            self.kill(st, kk)
            # variant payloads are read through a downcast
            var = ()
            a = self.m.adts.get(rv[1])
            for x, y in snap.items():
                st.env[kk + x] = y
            st.env[kk + (("tag",),)] = ("tag", rv[1], rv[2])
            if rv[1].startswith("core::option::Option") or (a and a.enum):
                for i in range(8):
                    for x, y in snap.items():
                        st.env[kk + (("d", i),) + x] = y
            return
        elif t == "discr":
            v = self.load(st, self.key(fr, rv[1]))
            v = ("o", ("discr",) + (tuple(v[1]) if v[0] == "o" else tuple(self.key(fr, rv[1]))))
        else:
            v = ("o", ("rv", f.uid, fr, bb, json.dumps(dst)))
        self.store(st, k, v)

    # calls ---------------------------------------------------------------
    def call(self, st, fr, f, c, depth):
        """-> list of states after the call (value stored by the caller through `ret`)"""
        n = c.callee.name or c.callee.decl
        s = c.callee.short
        vals = [self.op(st, fr, f, a) for a in c.args]
        self.n += 1
        opaque = ("o", ("call", fr, c.bb))

        def ret(v):
            self.store(st, self.key(fr, c.dest), v)
            return [st]
        where = (f, c.line)
        if "ropey::rope::Rope" in n:
            if s == "insert":
                at = self.pos(st, vals[1])
                L = self.slen(self.deref(st, vals[2]))
                if at is None or L is None:
                    self.lost.append((where, "insert"))
                    return []
                st.log.append(("ins", at, L[0], L[1], L[2], where, st.rope))
                st.rope = add(st.rope, L[0])
                return ret(opaque)
            if s == "insert_char":
                at = self.pos(st, vals[1])
                L = self.slen(self.deref(st, vals[2]))
                if at is None or L is None or L[0] == {}:
                    self.lost.append((where, "insert_char"))
                    return []
                st.log.append(("ins", at, L[0], L[1], L[2], where, st.rope))
                st.rope = add(st.rope, L[0])
                return ret(opaque)
            if s == "remove":
                r = self.range(st, fr, f, c.args[1])
                if r is None:
                    self.lost.append((where, "remove"))
                    return []
                st.log.append(("rem", r[0], r[1], where))
                st.rope = add(st.rope, add(r[1], r[0], -1), -1)
                return ret(opaque)
            if s == "len_bytes":
                return ret(("l", dict(st.rope)))
            if s == "len_chars":
                return ret(("c", dict(st.rope)))
            if s == "byte_to_char":
                g = self.form(vals[1])
                return ret(("c", g) if g is not None else opaque)
            if s == "char_to_byte" and vals[1][0] == "c":
                return ret(("l", vals[1][1]))
            return ret(opaque)
        if "BlockOffsetIndex::" in n and "closure" not in n:
            if s == "shift_after":
                t, d = self.form(vals[1]), self.form(vals[2])
                if t is None or d is None:
                    self.lost.append((where, s))
                    return []
                st.log.append(("shift", t, d, where))
                st.idx = add(st.idx, d)
                return ret(opaque)
            if s == "set_total_bytes":
                t = self.form(vals[1])
                if t is None:
                    self.lost.append((where, s))
                    return []
                st.log.append(("total", t, where))
                st.idx = t
                return ret(opaque)
            if s in ("insert_at", "push", "push_block"):
                q = self.form(vals[-1])
                kind = "Block" if s == "push_block" else self.tag(st, fr, f, c.args[-2])
                st.log.append(("entry", q, kind, where, len([e for e in st.log if e[0] == "ins"]), dict(st.rope),
                               self.form(vals[1]) if s == "insert_at" else None, vals[-2]))
                return ret(opaque)
            if s in ("remove_at", "drain_inclusive", "clear"):
                st.log.append(("gone", s, where, [self.form(x) for x in vals[1:]]))
                return ret(opaque)
            if s == "total_bytes":
                return ret(("l", dict(st.idx)))
            if s.startswith("range"):
                v = vals[1]
                v = tuple(v[1]) if v[0] == "o" else tuple(v[1]) if v[0] in ("agg", "ref") else ()
                return ret(("o", ("range", fr, c.bb)))
            return ret(opaque)
        if s in ("len", "len_utf8") and len(vals) == 1:
            v = self.deref(st, vals[0])
            if v[0] == "s":
                return ret(("l", v[1]))
            if v[0] == "o":
                return ret(("l", atom(("len",) + tuple(v[1]))))
            return ret(opaque)
        if n.startswith("core::fmt::rt::Argument::") and vals:
            return ret(self.deref(st, vals[0]))
        if s == "new" and n.startswith("core::fmt::Arguments::"):
            v = self.template(st, vals)
            return ret(v if v else opaque)
        if s in ("format", "must_use") and len(vals) == 1 and vals[0][0] in ("s", "o"):
            return ret(vals[0])
        if s in ("with_capacity", "new") and "String" in n:
            return ret(("s", {}, "", True))
        if s == "add" and "String" in n and len(vals) == 2:
            a, b = self.slen(self.deref(st, vals[0])), self.slen(self.deref(st, vals[1]))
            if a and b:
                return ret(("s", add(a[0], b[0]), a[1] + b[1] if a[2] else a[1], a[2] and b[2]))
            return ret(opaque)
        if s == "concat" and len(vals) == 1:
            v = self.pieces(st, vals[0])
            return ret(v if v else opaque)
        if s in ("push", "push_str") and "String" in n:
            tgt = self.target(st, fr, c.args[0])
            cur = self.load(st, tgt) if tgt else None
            L = self.slen(self.deref(st, vals[1]))
            if cur and cur[0] == "s" and L:
                st.env[tgt] = ("s", add(cur[1], L[0]), cur[2] + L[1] if cur[3] else cur[2], cur[3] and L[2])
                return ret(opaque)
            if tgt:
                self.store(st, tgt, opaque)
            return ret(opaque)
        if s == "saturating_sub" and len(vals) == 2:
            a, b = self.form(vals[0]), self.form(vals[1])
            if a is not None and b is not None:
                return ret(("l", add(a, b, -1)))
        if s in ("wrapping_add", "saturating_add", "wrapping_sub") and len(vals) == 2:
            a, b = self.form(vals[0]), self.form(vals[1])
            if a is not None and b is not None:
                return ret(("l", add(a, b, -1 if s.endswith("sub") else 1)))
        if s in ("deref", "deref_mut", "as_ref", "as_str", "borrow", "clone", "into", "from", "to_string", "to_owned", "as_mut", "as_deref", "try_into", "unwrap", "expect") and vals:
            v = vals[0]
            if v[0] in ("l", "s", "c", "o", "ref", "agg"):
                return ret(v)
        ts = [t for t in self.m.targets(c.callee) if t.uid in self.group]
        if len(ts) == 1 and depth < 4:
            t = ts[0]
            out = []
            fr2 = fr + ((f.uid, c.bb),)
            st2 = st.copy()
            for i, v in enumerate(vals):
                k = (fr2, i + 1)
                if v[0] == "agg":
                    v = ("ref", v[1]) if t.local_ty(i + 1).startswith("&") else v
                self.store(st2, k, v)
            for e in self.walk(t, st2, fr2, depth + 1):
                v = self.load(e, (fr2, 0))
                self.store(e, self.key(fr, c.dest), v)
                out.append(e)
            return out
        if s in ("unwrap_or", "unwrap_or_default", "min", "max"):
            return ret(opaque)
        return ret(opaque)

    def elements(self, st, v):
        """values of an array reached through references, None when unknown"""
        for _ in range(6):
            if v[0] == "ref":
                k = v[1]
                got = [st.env.get(k + (("f", i),)) for i in range(16)]
                if got[0] is not None:
                    return [x for x in got if x is not None]
                v = self.load(st, k)
            else:
                break
        if v[0] == "agg":
            return [x for x in (st.env.get(v[1] + (("f", i),)) for i in range(16)) if x is not None]
        return None

    def pieces(self, st, v):
        els = self.elements(st, v)
        if not els:
            return None
        out = ("s", {}, "", True)
        for e in els:
            L = self.slen(self.deref(st, e))
            if not L:
                return None
            out = ("s", add(out[1], L[0]), out[2] + L[1] if out[3] else out[2], out[3] and L[2])
        return out

    def template(self, st, vals):
        """format!(..): literal pieces behind their length, 0xC0 for the next argument"""
        v = self.deref(st, vals[0])
        if v[0] != "o" or v[1][0] != "bytes" or len(vals) < 2:
            return None
        try:
            import ast
            raw = ast.literal_eval(v[1][1])
        except (ValueError, SyntaxError):
            return None
        els = self.elements(st, vals[1]) or []
        out, i, n = ("s", {}, "", True), 0, 0
        while i < len(raw):
            b = raw[i]
            i += 1
            if b == 0:
                break
            if b < 0x80:
                s = raw[i:i + b].decode("utf-8", "replace")
                L = (lin(b), s, True)
                i += b
            elif b == 0xC0 and n < len(els):
                L = self.slen(self.deref(st, els[n]))
                n += 1
            else:
                return None
            if not L:
                return None
            out = ("s", add(out[1], L[0]), out[2] + L[1] if out[3] else out[2], out[3] and L[2])
        return out

    def deref(self, st, v):
        for _ in range(6):
            if v[0] == "ref":
                v2 = self.load(st, v[1])
                if v2 == v:
                    return v
                v = v2
            else:
                return v
        return v

    def target(self, st, fr, a):
        p = op_place(a)
        if not p:
            return None
        v = self.load(st, self.key(fr, p))
        return v[1] if v[0] == "ref" else None

    def pos(self, st, v):
        v = self.deref(st, v)
        return v[1] if v[0] == "c" else None

    def range(self, st, fr, f, a):
        p = op_place(a)
        if not p:
            return None
        k = self.key(fr, p)
        x, y = self.load(st, k + (("f", 0),)), self.load(st, k + (("f", 1),))
        ty = f.local_ty(p[0])
        if "RangeInclusive" in ty or "RangeTo" in ty or "RangeFull" in ty:
            return None
        if x[0] == "c" and "RangeFrom" in ty:
            return x[1], dict(st.rope)
        if x[0] == "c" and y[0] == "c":
            return x[1], y[1]
        return None

    def tag(self, st, fr, f, a):
        p = op_place(a)
        if p:
            k = self.resolve(st, self.key(fr, p))
            v = st.env.get(k + (("tag",),))
            return v[2] if v else None
        return None

    # control ---------------------------------------------------------------
    def cond(self, st, v, want):
        """State after learning that boolean value v is `want`; None if impossible."""
        if v[0] == "b":
            o, a, b = v[1:]
            d = add(a, b, -1)
            r = st.eqs.reduce(d)
            cv = const_of(r)
            truth = None
            if cv is not None:
                truth = {"Eq": cv == 0, "Ne": cv != 0, "Lt": cv < 0, "Le": cv <= 0, "Gt": cv > 0, "Ge": cv >= 0}[o]
            if truth is not None:
                return st if truth == want else None
            eq = (o == "Eq" and want) or (o == "Ne" and not want)
            # unsigned against zero
            if o == "Gt" and not want and b == {} or o == "Le" and want and b == {} or o == "Lt" and not want and a == {} or o == "Ge" and want and a == {}:
                eq = True
            if o == "Lt" and want and b == lin(1) or o == "Ge" and not want and b == lin(1):
                eq, d = True, a
            if eq:
                e = st.eqs.add(d)
                if e is None:
                    return None
                st = st.copy()
                st.eqs = e
            return st
        if v[0] == "l":
            cv = const_of(st.eqs.reduce(v[1]))
            if cv is not None:
                return st if bool(cv) == want else None
            if not want:
                e = st.eqs.add(v[1])
                if e is None:
                    return None
                st = st.copy()
                st.eqs = e
            return st
        if v[0] == "o":
            a = ("truth",) + tuple(v[1])
            d = atom(a)
            cv = const_of(st.eqs.reduce(d))
            if cv is not None:
                return st if bool(cv) == want else None
            st = st.copy()
            st.eqs = st.eqs.add(add(d, lin(1 if want else 0), -1))
            return st
        return st

    def walk(self, f, st, fr=(), depth=0):
        """All final states of f from its entry, each loop passed at most once."""
        out = []
        todo = [(0, st, frozenset())]
        while todo:
            i, s, seen = todo.pop()
            if self.paths > LIMIT:
                self.lost.append(((f, f.line), "too many paths"))
                return out
            if i in seen or f.blocks[i].cleanup:
                continue
            seen = seen | {i}
            b = f.blocks[i]
            for x in b.stmts:
                if x[0] == "=":
                    self.assign(s, fr, f, x[2], x[3], i)
            t = b.term
            if t[0] == "call":
                c = f.call_at(i)
                nx = [j for j in b.succ if not f.blocks[j].cleanup]
                if not nx:
                    continue
                for e in self.call(s, fr, f, c, depth):
                    todo.append((nx[0], e, seen))
            elif t[0] == "switch":
                v = self.op(s, fr, f, t[2])
                p = op_place(t[2])
                ty = f.local_ty(p[0]) if p and len(p) == 1 else ""
                if ty == "bool" or v[0] == "b":
                    for val, tgt in [(k, j) for k, j in t[3]] + [(None, t[4])]:
                        want = (val != 0 and str(val) != "0") if val is not None else not any(str(k) not in ("0",) for k, _ in t[3]) or False
                        if val is None:
                            want = all(str(k) == "0" for k, _ in t[3])
                        e = self.cond(s.copy(), v, want)
                        if e is not None:
                            self.paths += 1
                            todo.append((tgt, e, seen))
                else:
                    g = self.form(v)
                    done = []
                    for val, tgt in t[3]:
                        e = s.copy()
                        if g is not None:
                            q = e.eqs.add(add(g, lin(int(val)), -1))
                            if q is None:
                                continue
                            e.eqs = q
                        self.paths += 1
                        todo.append((tgt, e, seen))
                    cv = const_of(s.eqs.reduce(g)) if g is not None else None
                    if (cv is None or cv not in [int(k) for k, _ in t[3]]) and f.blocks[t[4]].term[0] != "unreach":
                        todo.append((t[4], s.copy(), seen))
            elif t[0] == "ret":
                self.paths += 1
                out.append(s)
            else:
                nx = [j for j in b.succ if not f.blocks[j].cleanup]
                for j in nx:
                    todo.append((j, s.copy() if len(nx) > 1 else s, seen))
        return out

    def run(self, f):
        R0 = atom(("text",))
        return self.walk(f, State({}, Eqs(), dict(R0), dict(R0), []), (f.uid,), 0)


def show(f):
    if not f:
        return "0"
    out = []
    for k, v in sorted(f.items(), key=repr):
        n = "" if k == 1 else name(k)
        c = int(v) if v == int(v) else v
        out.append("%+d" % c if k == 1 else ("%s%s" % ("+" if c == 1 else "-" if c == -1 else "%+d*" % c, n)))
    return "".join(out).lstrip("+")


def name(k):
    if k == ("text",):
        return "text"
    if k and k[0] == "len":
        return "len(%s)" % name(k[1:])
    if k and k[0] == "range":
        return "range%s" % ("".join(".%s" % x[1] for x in k[3:] if x[0] == "f"))
    if len(k) >= 2 and isinstance(k[1], int) and isinstance(k[0], tuple):
        return "_%d" % k[1]
    return "v%d" % (abs(hash(repr(k))) % 997)
