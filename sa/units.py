"""Unit inference over the whole program's MIR: which numbers count bytes and which count characters.

Nodes are unified structurally (tuples have children, references, containers, options, results, iterators and ranges
are transparent: they have the unit of what they hold; fields of workspace types are one node each, program-wide)."""
from flow import *
from gates import closure_value
from collections import deque, defaultdict

ARITH = {"Add", "Sub", "AddWithOverflow", "SubWithOverflow", "AddUnchecked", "SubUnchecked"}
CMP = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne", "Cmp"}
SAME = {"clone", "as_ref", "as_mut", "deref", "deref_mut", "iter", "iter_mut", "into_iter", "to_vec", "to_owned", "unwrap", "expect", "ok_or", "ok_or_else",
        "cloned", "copied", "rev", "peekable", "next", "next_back", "peek", "last", "first", "last_mut", "first_mut", "unwrap_or_default", "collect", "into", "from", "try_from",
        "try_into", "branch", "as_slice", "as_mut_slice", "borrow", "borrow_mut", "max", "min", "sum", "ok", "flatten", "by_ref", "fuse", "abs", "unsigned_abs", "step_by",
        "swap_remove", "pop", "remove", "drain", "split_off", "make_mut", "take", "skip", "nth", "nth_back", "get", "get_mut", "index", "index_mut", "as_deref", "into_inner", "read",
        "write", "lock", "get_or_insert_with", "as_i64", "context", "with_context", "map_err", "or", "filter", "take_while", "skip_while", "find", "max_by_key", "min_by_key", "max_by",
        "min_by", "reduce", "inspect", "chunks", "windows", "pop_front", "pop_back", "front", "back", "chain", "start", "end", "or_else", "from_output", "from_iter", "is_some_and", "then_some"}
JOIN2 = {"max", "min", "saturating_sub", "saturating_add", "checked_sub", "checked_add", "wrapping_add", "wrapping_sub", "abs_diff", "unwrap_or", "or", "chain", "add", "sub", "overflowing_sub",
         "overflowing_add", "checked_add_signed", "saturating_add_signed", "saturating_sub_unsigned", "checked_sub_unsigned"}
MEET2 = {"lt", "le", "gt", "ge", "eq", "ne", "cmp", "partial_cmp", "add_assign", "sub_assign", "push", "push_back", "push_front", "extend", "append", "extend_from_slice", "swap", "replace",
         "contains", "insert_str"}
ELEM1 = {"map", "for_each", "filter", "filter_map", "flat_map", "any", "all", "position", "rposition", "find", "find_map", "take_while", "skip_while", "max_by_key", "min_by_key", "inspect", "is_some_and",
         "retain", "retain_mut", "sort_by_key", "partition_point", "binary_search_by_key", "binary_search_by", "and_then", "map_or", "map_or_else", "try_for_each", "dedup_by_key", "partition",
         "map_while", "is_none_or", "count_by", "sort_unstable_by_key", "then"}
RETELEM = {"map", "filter_map", "flat_map", "find_map", "and_then", "map_while", "unwrap_or_else", "or_else", "get_or_insert_with", "ok_or_else"}
STRT = ("&str", "alloc::string::String", "str", "&alloc::string::String", "&mut alloc::string::String", "&mut str")


class Node:
    __slots__ = ("p", "kids", "id")

    def __init__(self, id):
        self.p, self.kids, self.id = None, None, id


class Units:
    def __init__(self, m, skip=lambda f: False):
        self.m = m
        self.n = 0
        self.roots = {}
        self.names = {}
        self.edges = defaultdict(list)      # id -> [(id, where, fn, text)]
        self.seeds = {}                     # id -> (unit, where, why)
        self.skip = skip
        self.calls_seen = 0
        self.where = (None, 0)
        self.cx = None
        self.poly = {}
        self.crates = {a.split("::")[0] + "::" for a in m.adts}
        for f in m.fns.values():
            if not skip(f) and not self.is_poly(f):
                self.fn(f)

    def is_poly(self, f):
        """A leaf that only hands numbers on (no field, no captured value, no workspace call): decided per call."""
        if f.uid not in self.poly:
            ok = len(f.blocks) <= 40 and not f.kind.startswith("closure") and all(x.uid is None or x.uid not in self.m.fns for x in [c.callee for c in f.calls]) \
                and not any(e[0] == "f" and len(e) > 3 and e[3] and (e[3].split("<")[0] in self.m.adts or e[3].startswith("closure")) for b in f.blocks for st in b.stmts if st[0] == "="
                            for pl in [st[2]] + rv_places(st[3]) for e in pl[1:] if isinstance(e, list)) \
                and not any(st[0] == "=" and st[3][0] == "agg" and st[3][1].split("<")[0] in self.m.adts for b in f.blocks for st in b.stmts)
            self.poly[f.uid] = ok and f.nargs > 0 and not any(a in f.local_ty(i) for i in range(0, f.nargs + 1) for a in self.crates)
        return self.poly[f.uid]

    # nodes ---------------------------------------------------------------------
    def new(self, name=None):
        self.n += 1
        x = Node(self.n)
        if name:
            self.names[x.id] = name
        return x

    def find(self, x):
        while x.p is not None:
            if x.p.p is not None:
                x.p = x.p.p
            x = x.p
        return x

    def kid(self, x, i):
        r = self.find(x)
        if r.kids is None:
            r.kids = {}
        if i not in r.kids:
            r.kids[i] = self.new()
            self.names[r.kids[i].id] = (self.names.get(r.id) or "?") + ".%s" % (i,)
        return r.kids[i]

    def unify(self, a, b, why, depth=0):
        if a is None or b is None or a is b:
            return
        self.edges[a.id].append((b.id, self.where, why))
        self.edges[b.id].append((a.id, self.where, why))
        x, y = self.find(a), self.find(b)
        if x is y:
            return
        if x.kids and not y.kids:
            x, y = y, x
        x.p = y
        if x.kids and y.kids and depth < 6:
            xs, x.kids = x.kids, None
            for k, v in xs.items():
                w = self.find(y).kids
                if w is None:
                    self.find(y).kids = w = {}
                if k in w:
                    self.unify(v, w[k], why, depth + 1)
                else:
                    w[k] = v

    def seed(self, a, unit, why):
        if a is None:
            return
        s = self.new()
        self.seeds[s.id] = (unit, self.where, why)
        self.edges[a.id].append((s.id, self.where, why))
        self.edges[s.id].append((a.id, self.where, why))

    def local(self, f, l):
        k = (f.uid, l) if self.cx is None else (f.uid, l, self.cx)
        if k not in self.roots:
            self.roots[k] = self.new("%s in %s" % (f.local_name(l) or "a value", f.short))
            nm = f.local_name(l)
            u = name_unit(nm) if nm and 1 <= l <= f.nargs and self.numeric(f.local_ty(l)) and not f.kind.startswith("closure") else None
            if u:
                w, self.where = self.where, (f, f.line)
                self.seed(self.roots[k], u, "parameter %s of %s" % (nm, f.short))
                self.where = w
        return self.roots[k]

    @staticmethod
    def numeric(t):
        return t.lstrip("&").replace("mut ", "") in ("usize", "u32", "i64", "u64", "i32", "isize")

    def field(self, owner, name, variant=None):
        k = ("F", owner.split("<")[0], variant, name)
        if k not in self.roots:
            self.roots[k] = self.new("%s.%s" % (owner.split("<")[0].rsplit("::", 1)[-1], name))
            u = name_unit(str(name))
            if u:
                w, self.where = self.where, (None, 0)
                self.seed(self.roots[k], u, "field %s of %s" % (name, owner.split("<")[0].rsplit("::", 1)[-1]))
                self.where = w
        return self.roots[k]

    def place(self, f, p):
        x = self.local(f, p[0])
        var = None
        for e in p[1:]:
            if e == "*":
                continue
            if e[0] == "d":
                var = e[1]
                continue
            if e[0] == "i":
                if self.chars(f.local_ty(p[0])):
                    self.seed(self.local(f, e[1]), "characters", "index of a list of characters")
                continue
            if e[0] == "f":
                owner = e[3] if len(e) > 3 else None
                if owner and owner.startswith("closure"):
                    x = self.up(owner[8:], e[1])
                elif owner and owner.split("<")[0] in self.m.adts:
                    a = self.m.adts[owner.split("<")[0]]
                    x = self.field(owner, e[2], var if a.enum else None)
                elif owner in (None, "", "tuple"):
                    x = self.kid(x, e[1])
                # std types hold what they hold
                var = None
        return x

    def up(self, uid, i):
        k = ("UP", uid, i)
        if k not in self.roots:
            self.roots[k] = self.new("captured value %s" % i)
        return self.roots[k]

    @staticmethod
    def chars(t):
        return "Vec<char>" in t or "[char]" in t or "SmallVec<[char" in t

    def op(self, f, o):
        if "c" in o:
            return self.place(f, o["c"])
        if "m" in o:
            return self.place(f, o["m"])
        return None

    # statements ------------------------------------------------------------------
    def fn(self, f):
        for bl in f.blocks:
            if bl.cleanup:
                continue
            for s in bl.stmts:
                if s[0] == "=":
                    self.where = (f, s[1])
                    self.assign(f, s[2], s[3])
            if bl.term[0] == "call":
                self.where = (f, bl.term[1])
        for c in f.calls:
            if f.blocks[c.bb].cleanup:
                continue
            self.where = (f, c.line)
            self.call(f, c)

    def assign(self, f, dst, rv):
        t = rv[0]
        d = self.place(f, dst)
        if t in ("use",):
            self.unify(d, self.op(f, rv[1]), "assignment")
        elif t in ("ref",):
            self.unify(d, self.place(f, rv[2]), "reference")
        elif t == "raw":
            self.unify(d, self.place(f, rv[1]), "reference")
        elif t == "cast":
            self.unify(d, self.op(f, rv[2]), "conversion")
        elif t == "bin":
            a, b = self.op(f, rv[2]), self.op(f, rv[3])
            if rv[1] in ARITH:
                if "WithOverflow" in rv[1]:
                    d = self.kid(d, 0)
                w = "sum" if rv[1].startswith("Add") else "difference"
                self.unify(a, b, w)
                self.unify(d, a if a is not None else b, w)
            elif rv[1] in CMP:
                self.unify(a, b, "comparison")
        elif t == "un":
            if rv[1] == "Neg":
                self.unify(d, self.op(f, rv[2]), "negation")
        elif t == "agg":
            ops = [self.op(f, o) for o in rv[4]]
            n = rv[1]
            if n == "tuple":
                for i, o in enumerate(ops):
                    self.unify(self.kid(d, i), o, "tuple")
            elif n.startswith("closure "):
                for i, o in enumerate(ops):
                    self.unify(self.up(n[8:], i), o, "capture")
            elif n.split("<")[0] in self.m.adts:
                a = self.m.adts[n.split("<")[0]]
                fs = [v for v in a.variants if v[0] == rv[2]] if a.enum else [a.variants[0]]
                names = [x[0] for x in fs[0][1]] if fs else []
                act = rv[3]
                for i, o in enumerate(ops):
                    nm = act[i] if isinstance(act, list) and i < len(act) and isinstance(act[i], str) else names[i] if i < len(names) else i
                    self.unify(self.field(n, nm, rv[2] if a.enum else None), o, "field of %s" % n.split("<")[0].rsplit("::", 1)[-1])
            else:
                for o in ops:
                    self.unify(d, o, "content")

    # calls -----------------------------------------------------------------------
    def ty(self, f, o):
        p = o.get("c") or o.get("m")
        return f.local_ty(p[0]) if p else ""

    def clo(self, f, o):
        p = o.get("c") or o.get("m")
        if not p:
            return None
        g = closure_value(self, f, p)
        return g

    def call(self, f, c):
        ts = [t for t in self.m.targets(c.callee) if not self.skip(t)] if c.callee.uid or c.callee.tr else []
        args = [self.op(f, a) for a in c.args]
        d = self.place(f, c.dest) if c.dest else None
        ts = [t for t in ts if len(ts) <= 8 and t.nargs == len(args)]
        n, s = c.callee.name, c.callee.short
        if ts:
            self.calls_seen += 1
            for t in ts:
                if self.is_poly(t):
                    w, cx = self.where, self.cx
                    self.n += 1
                    self.cx = self.n
                    ns = [self.local(t, i) for i in range(t.nargs + 1)]
                    self.fn(t)
                    self.where, self.cx = w, cx
                    for i, a in enumerate(args):
                        self.unify(ns[i + 1], a, "argument of %s" % t.short)
                    self.unify(d, ns[0], "result of %s" % t.short)
                    continue
                for i, a in enumerate(args):
                    self.unify(self.local(t, i + 1), a, "argument of %s" % t.short)
                self.unify(d, self.local(t, 0), "result of %s" % t.short)
            return
        tys = [self.ty(f, a) for a in c.args]
        t0 = tys[0] if tys else ""
        b0 = strip_refs(t0)
        isstr = b0 in ("str", "alloc::string::String") or n.startswith(("core::str::", "alloc::str::", "alloc::string::"))
        B = lambda x, w: self.seed(x, "bytes", w)
        C = lambda x, w: self.seed(x, "characters", w)
        dty = f.local_ty(c.dest[0]) if c.dest else ""
        # primitives that fix a unit
        if "ropey" in n or "Rope" in b0 and "RopeStore" not in b0 and "::" in b0 and "ropey" in b0:
            w = "rope %s" % s
            if s in ("len_bytes",):
                return B(d, w)
            if s in ("len_chars",):
                return C(d, w)
            if s in ("byte_to_char", "try_byte_to_char"):
                return B(args[1], w), C(d, w)
            if s in ("char_to_byte", "try_char_to_byte"):
                return C(args[1], w), B(d, w)
            if s in ("byte_slice", "get_byte_slice", "byte", "get_byte", "byte_to_line", "bytes_at", "chunk_at_byte"):
                return B(args[1], w)
            if s in ("slice", "insert", "remove", "char", "get_char", "get_slice", "char_to_line", "insert_char", "chars_at", "split_off", "try_insert", "try_remove"):
                return C(args[1], w)
            return
        if isstr and s in ("len", "find", "rfind") and "char>" not in t0:
            return None if s == "len" and ascii_only(f, c) else B(d, "str::%s" % s)
        if s == "len_utf8":
            return B(d, "char::len_utf8")
        if isstr and s in ("is_char_boundary", "split_at", "truncate", "insert", "insert_str", "remove", "drain", "replace_range", "split_off", "get", "floor_char_boundary", "ceil_char_boundary", "get_unchecked") and len(args) > 1:
            return B(args[1], "str::%s" % s)
        if s in ("index", "index_mut") and b0 in ("str", "alloc::string::String"):
            return B(args[1], "slice of a string")
        if s in ("char_indices", "grapheme_indices", "match_indices", "split_word_bound_indices", "unicode_word_indices", "rmatch_indices"):
            return B(self.kid(d, 0), s)
        if s == "offset" and "CharIndices" in t0:
            return B(d, "CharIndices::offset")
        if s == "count" and ("Chars" in t0 or "CharIndices" in t0):
            return C(d, "a count of characters")
        if s == "count" and "Bytes" in t0:
            return B(d, "a count of bytes")
        if s in ("nth", "take", "skip", "nth_back") and ("str::iter::Chars" in t0 or "CharIndices" in t0 or "IntoIter<char" in t0 or "Iter<char" in t0):
            C(args[1], "%s on characters" % s)
            self.unify(d, args[0], s)
            return
        if s == "enumerate":
            if "str::iter::Chars" in t0 or "CharIndices" in t0 or "Iter<char" in t0 or "IntoIter<char" in t0:
                C(self.kid(d, 0), "number of a character")
            elif "Bytes" in t0:
                B(self.kid(d, 0), "number of a byte")
            self.unify(self.kid(d, 1), args[0], "enumerate")
            return
        if s == "len" and self.chars(b0):
            return C(d, "length of a list of characters")
        if s in ("index", "get", "index_mut", "get_mut", "drain", "swap", "truncate", "split_at") and self.chars(b0) and len(args) > 1:
            return C(args[1], "index of a list of characters")
        if s in ("len", "count", "capacity", "chars", "bytes", "to_string", "fmt", "graphemes"):
            return
        if isstr and b0 in ("str", "alloc::string::String"):
            return
        # maps
        if b0.split("<")[0].endswith(("HashMap", "BTreeMap", "OrdMap", "IndexMap")) and args:
            k, v = self.kid(args[0], 0), self.kid(args[0], 1)
            if s == "insert":
                self.unify(k, args[1], "map key")
                return self.unify(v, args[2], "map value")
            if s in ("get", "get_mut", "remove", "contains_key", "index", "entry"):
                self.unify(k, args[1], "map key")
                if s != "contains_key":
                    self.unify(d, v, "map value")
                return
            if s in ("values", "values_mut", "into_values"):
                return self.unify(d, v, "map values")
            if s in ("keys", "into_keys"):
                return self.unify(d, k, "map keys")
            if s in ("iter", "iter_mut", "into_iter", "clone", "drain"):
                return self.unify(d, args[0], "map entries")
            return
        # generic adapters
        if s == "zip" and len(args) == 2:
            self.unify(self.kid(d, 0), args[0], "zip")
            self.unify(self.kid(d, 1), args[1], "zip")
            return
        if s == "unzip":
            self.unify(self.kid(d, 0), self.kid(args[0], 0), "unzip")
            self.unify(self.kid(d, 1), self.kid(args[0], 1), "unzip")
            return
        cl = [(i, self.clo(f, a)) for i, a in enumerate(c.args)]
        cl = [(i, g) for i, g in cl if g is not None]
        if s == "clamp" and len(args) == 3:
            self.unify(d, args[0], "clamp"), self.unify(args[0], args[1], "clamp"), self.unify(args[0], args[2], "clamp")
            return
        if s in JOIN2 and len(args) == 2:
            self.unify(args[0], args[1], s)
            return self.unify(d, args[0] if args[0] is not None else args[1], s)
        if s in MEET2 and len(args) == 2:
            if s == "replace":
                self.unify(d, args[0], s)
            return self.unify(args[0], args[1], s)
        if s == "insert" and len(args) == 3:
            return self.unify(args[0], args[2], "insert")
        if s == "splice" and len(args) == 3:
            return self.unify(args[0], args[2], "splice")
        if s == "fold" and cl and len(args) == 3:
            g = cl[0][1]
            self.unify(d, args[1], "fold"), self.unify(self.local(g, 2), args[1], "fold"), self.unify(self.local(g, 0), args[1], "fold")
            return self.unify(self.local(g, 3), args[0], "fold")
        for i, g in cl:
            if s in ELEM1 and g.nargs >= 2 and args and not (s == "map_or_else" and i == 1):
                self.unify(self.local(g, 2), args[0], "closure of %s" % s)
            if s in RETELEM:
                self.unify(d, self.local(g, 0), "result of a closure of %s" % s)
            if s in ("map_or", "map_or_else"):
                self.unify(d, self.local(g, 0), "result of a closure of %s" % s)
            if s == "unwrap_or_else":
                self.unify(d, args[0], s)
            if s in ("binary_search_by_key",):
                self.unify(args[1], self.local(g, 0), s)
            if s in ("then",):
                self.unify(d, self.local(g, 0), s)
            if s in ("from_fn", "repeat_with"):
                self.unify(d, self.local(g, 0), s)
        if s == "map_or" and len(args) == 3:
            self.unify(d, args[1], s)
        if s == "then_some" and len(args) == 2:
            return self.unify(d, args[1], s)
        if s in SAME and args and not (s == "get" and False):
            self.unify(d, args[0], s)
        elif s == "new" and "Range" in n and len(args) == 2:
            self.unify(d, args[0], "range"), self.unify(d, args[1], "range")
        elif s == "new" and args and any(k in n for k in ("Arc", "Rc", "Box", "RwLock", "Mutex", "Cell")):
            self.unify(d, args[0], s)

    # answers -----------------------------------------------------------------------
    def solve(self):
        """(components by unit, conflict paths)"""
        col = {}
        conflicts = []
        prev = {}
        q = deque()
        for i, (u, w, why) in self.seeds.items():
            col[i] = u
            prev[i] = None
            q.append(i)
        while q:
            i = q.popleft()
            for j, w, why in self.edges[i]:
                if j not in col:
                    col[j] = col[i]
                    prev[j] = (i, w, why)
                    q.append(j)
                elif col[j] != col[i]:
                    conflicts.append((i, j, w, why))
        return col, prev, conflicts

    def chain(self, prev, i):
        out = []
        while prev[i] is not None:
            j, w, why = prev[i]
            out.append((i, w, why))
            i = j
        return out, self.seeds[i]


def ascii_only(f, c):
    """Behind a successful is_ascii test bytes and characters are the same."""
    from r_longop import bool_edges, walk
    cut = set()
    for x in f.calls:
        if x.callee.short == "is_ascii" and len(x.dest) == 1:
            cut |= {e for e, v in bool_edges(f, x.dest[0]).items() if v}
    return bool(cut) and c.bb not in walk(f, cut)


def rv_places(rv):
    out = [rv[2]] if rv[0] == "ref" else []
    for o in rv_operands(rv):
        p = o.get("c") or o.get("m") if isinstance(o, dict) else None
        if p:
            out.append(p)
    return out


def strip_refs(t):
    while True:
        t = t.strip()
        if t.startswith("&"):
            t = t[1:].lstrip()
            if t.startswith("'"):
                t = t.split(" ", 1)[1]
        elif t.startswith("mut "):
            t = t[4:]
        else:
            return t


def name_unit(n):
    w = n.lower().split("_")
    if "byte" in w or "bytes" in w:
        return "bytes"
    if "char" in w or "chars" in w:
        return "characters"
    return None
