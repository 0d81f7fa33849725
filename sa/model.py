"""Whole-program model of /repo built from the MIR facts written by the mirfacts driver.

Everything here is static: facts come from rustc's own type-checked, drop-elaborated MIR.
"""
import json, os, glob, re
from collections import defaultdict


class Callee:
    __slots__ = ("decl", "name", "uid", "g", "tr", "virt", "ptr")

    def __init__(self, d):
        self.decl = d.get("decl", "")
        self.name = d.get("name") or d.get("decl", "")
        self.uid = d.get("uid")
        self.g = d.get("g", [])
        self.tr = d.get("tr")
        self.virt = d.get("virt", 0)
        self.ptr = d.get("ptr")

    @property
    def short(self):
        return self.name.rsplit("::", 1)[-1]

    def __repr__(self):
        return self.name or "<indirect>"


class Call:
    __slots__ = ("fn", "bb", "line", "callee", "args", "dest", "target", "unwind")

    def __init__(self, fn, bb, t):
        self.fn = fn
        self.bb = bb
        self.line = t[1]
        self.callee = Callee(t[2])
        self.args = t[3]
        self.dest = t[4]
        self.target = t[5]
        self.unwind = t[6]

    @property
    def where(self):
        return "%s:%d" % (self.fn.file, self.line)

    def __repr__(self):
        return "%s @%s" % (self.callee, self.where)


class Block:
    __slots__ = ("cleanup", "stmts", "term", "succ", "usucc")

    def __init__(self, raw):
        self.cleanup, self.stmts, self.term = raw
        t = self.term
        k = t[0]
        self.usucc = None
        if k == "goto":
            self.succ = [t[2]]
        elif k == "switch":
            self.succ = list(dict.fromkeys([b for _, b in t[3]] + [t[4]]))
        elif k == "drop":
            self.succ = [t[3]]
            self.usucc = t[4]
        elif k == "call":
            self.succ = [t[5]] if t[5] is not None else []
            self.usucc = t[6]
        elif k == "assert":
            self.succ = [t[4]]
            self.usucc = t[5]
        else:
            self.succ = []


class Fn:
    def __init__(self, d, crate):
        self.crate = crate
        self.uid = d["uid"]
        self.name = d["name"]
        self.kind = d["kind"]
        self.file = d["file"]
        self.line = d["line"]
        self.nargs = d["args"]
        self.parent = d.get("parent")
        self.pub = d.get("pub", False)
        self.exported = d.get("exported", False)
        self.exp = d.get("exp", False)
        self.self_ty = d.get("self")
        self.trait = d.get("trait")
        self.tritem = d.get("tritem")
        self.intrait = d.get("intrait")
        self.locals = d["locals"]
        self._raw = d["blocks"]
        self._prom = d.get("prom", [])
        self._blocks = None
        self._calls = None
        self._preds = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._blocks = [Block(b) for b in self._raw]
        return self._blocks

    @property
    def short(self):
        return self.name.rsplit("::", 1)[-1]

    @property
    def loc(self):
        return "%s:%d" % (self.file, self.line)

    @property
    def calls(self):
        if self._calls is None:
            self._calls = [Call(self, i, b.term) for i, b in enumerate(self.blocks) if b.term[0] == "call"]
        return self._calls

    def call_at(self, bb):
        for c in self.calls:
            if c.bb == bb:
                return c
        return None

    def preds(self):
        if self._preds is None:
            p = defaultdict(list)
            for i, b in enumerate(self.blocks):
                for s in b.succ:
                    p[s].append(i)
            self._preds = p
        return self._preds

    def local_ty(self, l):
        return self.locals[l][0]

    def local_name(self, l):
        return self.locals[l][1]

    def returns(self):
        return [i for i, b in enumerate(self.blocks) if b.term[0] == "ret" and not b.cleanup]

    def __repr__(self):
        return "<%s>" % self.name


class Adt:
    def __init__(self, d):
        self.uid = d["uid"]
        self.enum = d["enum"]
        self.pub = d["pub"]
        self.exported = d.get("exported", False)
        self.file = d["file"]
        self.line = d["line"]
        self.variants = d["variants"]  # [[name, [[fname, ty, pub]...]]...]

    @property
    def fields(self):
        return [f[0] for f in self.variants[0][1]] if self.variants and not self.enum else []

    def field_ty(self, n):
        for f in self.variants[0][1]:
            if f[0] == n:
                return f[1]
        return None

    @property
    def variant_names(self):
        return [v[0] for v in self.variants]


def strip_generics(t):
    """Remove <...> groups."""
    out, d = [], 0
    for ch in t:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


def base_ty(t):
    """Outer type constructor of a printed type, refs stripped."""
    t = t.strip()
    while t.startswith("&") or t.startswith("*"):
        t = re.sub(r"^(&mut |&|\*mut |\*const )", "", t)
    return strip_generics(t).strip()


def ty_args(t):
    i = t.find("<")
    if i < 0:
        return []
    s = t[i + 1 : t.rfind(">")]
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def peel(t, wrappers=("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rc::Rc")):
    """Strip refs and smart-pointer wrappers."""
    while True:
        t2 = t.strip()
        t2 = re.sub(r"^(&mut |&|\*mut |\*const )", "", t2)
        b = strip_generics(t2).strip()
        if b in wrappers:
            a = ty_args(t2)
            t2 = a[0] if a else t2
        if t2 == t:
            return t
        t = t2


class Model:
    def __init__(self, facts_dir):
        import gc
        gc.disable()
        self.fns = {}
        self.by_name = defaultdict(list)
        self.adts = {}
        self.traits = {}
        self.impls = []
        self.crates = []
        for f in sorted(glob.glob(os.path.join(facts_dir, "*.json"))):
            with open(f) as fh:
                d = json.load(fh)
            crate = d["crate"]
            isbin = f.endswith("-bin.json")
            self.crates.append(os.path.basename(f)[:-5])
            for x in d["fns"]:
                fn = Fn(x, crate)
                if isbin:
                    ren = lambda s: s.replace("text_document::", "cli_bin::", 1) if s.startswith("text_document::") else s
                    fn.uid = ren(fn.uid)
                    fn.name = ren(fn.name)
                    if fn.parent:
                        fn.parent = ren(fn.parent)
                    fn.isbin = True
                else:
                    fn.isbin = False
                self.fns[fn.uid] = fn
                self.by_name[fn.name].append(fn)
            if isbin:
                self._fix_bin([self.fns[u] for u in self.fns if self.fns[u].isbin])
                for a in d["adts"]:
                    a["uid"] = a["uid"].replace("text_document::", "cli_bin::", 1)
                    self.adts[a["uid"]] = Adt(a)
                continue
            for a in d["adts"]:
                self.adts[a["uid"]] = Adt(a)
            for t in d["traits"]:
                self.traits[t["uid"]] = t
            for i in d["impls"]:
                self.impls.append(i)
        self.trait_impls = defaultdict(set)  # trait uid -> set(self names)
        self.method_impls = defaultdict(list)  # trait item uid -> [(self, impl fn uid)]
        for i in self.impls:
            self.trait_impls[i["trait"]].add(i["self"])
            for ti, m in i["methods"]:
                self.method_impls[ti].append((i["self"], m))
        self.trait_defaults = {}
        for t in self.traits.values():
            for m, has in t["methods"]:
                if has:
                    self.trait_defaults[m] = t["uid"]
        self.closures = defaultdict(list)
        for fn in self.fns.values():
            if fn.kind == "closure":
                self.closures[fn.parent].append(fn)
        self._targets = {}
        self._reach = {}
        self._callees = None
        self._callers = None

    def _fix_bin(self, fns):
        # rename in-bin callees: those whose uid (with cli_bin prefix) exists
        names = {f.uid for f in fns}

        def walk(o):
            if isinstance(o, dict):
                u = o.get("uid")
                if u and u.startswith("text_document::"):
                    r = "cli_bin::" + u[len("text_document::") :]
                    if r in names:
                        o["uid"] = r
                        o["name"] = "cli_bin::" + o["name"][len("text_document::") :]
                for v in o.values():
                    walk(v)
            elif isinstance(o, list):
                for v in o:
                    walk(v)

        for f in fns:
            walk(f._raw)

    # ---- lookup -------------------------------------------------------
    def find(self, name):
        """Unique function with canonical name `name` (exact), or None."""
        l = self.by_name.get(name, [])
        return l[0] if len(l) >= 1 else None

    def find_suffix(self, suf):
        return [f for f in self.fns.values() if f.name.endswith(suf)]

    def adt(self, suffix):
        l = [a for u, a in self.adts.items() if u == suffix or u.endswith("::" + suffix)]
        return l[0] if len(l) == 1 else (l[0] if l else None)

    # ---- call targets ------------------------------------------------
    def targets(self, callee):
        """Functions of the model this callee may invoke (CHA for unresolved trait calls)."""
        key = (callee.uid, callee.decl, tuple(callee.g))
        r = self._targets.get(key)
        if r is not None:
            return r
        out = []
        if callee.uid and callee.uid in self.fns and not callee.virt:
            out.append(self.fns[callee.uid])
        elif callee.tr:
            # unresolved/virtual trait call
            ti = callee.tr + "::" + callee.decl.rsplit("::", 1)[-1]
            selft = peel(callee.g[0]) if callee.g else ""
            allowed = None
            if not selft.startswith("dyn ") and ("::" in selft and not selft.startswith("<")):
                allowed = {base_ty(selft)}
            elif re.match(r"^(str|bool|char|[iuf]\d+|usize|isize|\(.*|\[.*)$", selft):
                allowed = set()
            if selft.startswith("dyn "):
                dt = selft[4:].split(" + ")[0].strip()
                if dt in self.trait_impls:
                    allowed = self.trait_impls[dt]
            for s, m in self.method_impls.get(ti, []):
                if allowed is not None and s not in allowed:
                    continue
                if m in self.fns:
                    out.append(self.fns[m])
            if ti in self.trait_defaults and ti in self.fns:
                out.append(self.fns[ti])
        elif callee.uid and callee.uid in self.fns:
            out.append(self.fns[callee.uid])
        self._targets[key] = out
        return out

    def fnrefs(self, fn):
        """Function items / closures mentioned as values in fn (passed as callbacks etc.)."""
        out = []

        def op(o):
            if isinstance(o, dict) and "fn" in o:
                for t in self.targets(Callee(o["fn"])):
                    out.append(t)

        for b in fn.blocks:
            for s in b.stmts:
                if s[0] == "=":
                    rv = s[3]
                    for x in rv[1:]:
                        if isinstance(x, dict):
                            op(x)
                        elif isinstance(x, list):
                            for y in x:
                                op(y)
                    if rv[0] == "agg" and rv[1].startswith("closure "):
                        u = rv[1][8:]
                        if fn.uid.startswith("cli_bin::"):
                            u = u.replace("text_document::", "cli_bin::", 1)
                        if u in self.fns:
                            out.append(self.fns[u])
            if b.term[0] == "call":
                for a in b.term[3]:
                    op(a)
        return out

    def bound_calls(self, fn):
        """Calls of fn (and its closures) to a trait method on one of its own type parameters."""
        r = self._bound.get(fn.uid)
        if r is None:
            r = [c.callee for c in fn.calls if self.on_param(c.callee)]
            for g in self.closures_in(fn):
                r += self.bound_calls(g)
            self._bound[fn.uid] = r
        return r

    def closures_in(self, fn):
        if self._closures is None:
            d = defaultdict(list)
            for f in self.fns.values():
                if f.kind == "closure":
                    d[f.uid.rsplit("::{closure", 1)[0]].append(f)
            self._closures = d
        return self._closures[fn.uid]

    def on_param(self, callee):
        return bool(callee.tr and callee.g and not (callee.uid and callee.uid in self.fns and not callee.virt)
                    and re.match(r"^([A-Z][A-Za-z0-9]*$|impl )", callee.g[0]) and callee.g[0] != "Self")

    def instantiated(self, callee, t):
        """Targets of the trait calls function t makes on its type parameters, as called through `callee`."""
        out = []
        for b in self.bound_calls(t):
            ts = self.targets(b)
            g = [peel(x) for x in callee.g]
            if callee.uid == t.uid and g and all(re.match(r"^[a-z_]\w*::", x) or x.startswith("'") for x in g):
                bases = {base_ty(x) for x in g}
                ts = [x for x in ts if x.self_ty and base_ty(x.self_ty) in bases] or ts
            out += ts
        return out

    def callees(self, fn):
        if self._callees is None:
            self._callees, self._bound, self._closures = {}, {}, None
        r = self._callees.get(fn.uid)
        if r is None:
            s = {}
            for c in fn.calls:
                if self.on_param(c.callee):
                    continue            # added where fn is called, for the type it is called with
                for t in self.targets(c.callee):
                    s[t.uid] = t
                    for x in self.instantiated(c.callee, t):
                        s[x.uid] = x
            for t in self.fnrefs(fn):
                s[t.uid] = t
                if t.kind != "closure":
                    for x in self.bound_calls(t):
                        for y in self.targets(x):
                            s[y.uid] = y
            r = list(s.values())
            self._callees[fn.uid] = r
        return r

    def callers(self, fn):
        if self._callers is None:
            c = defaultdict(list)
            for f in self.fns.values():
                for t in self.callees(f):
                    c[t.uid].append(f)
            self._callers = c
        return self._callers[fn.uid]

    def reach(self, fns, stop=None):
        """Transitive closure of callees (including roots)."""
        if isinstance(fns, Fn):
            fns = [fns]
        seen = {}
        st = list(fns)
        while st:
            f = st.pop()
            if f.uid in seen:
                continue
            seen[f.uid] = f
            if stop and stop(f):
                continue
            st.extend(self.callees(f))
        return seen

    def path_to(self, start, pred, stop=None):
        """Shortest call path from start to a function satisfying pred, as list of Fn."""
        from collections import deque

        q = deque([start])
        par = {start.uid: None}
        while q:
            f = q.popleft()
            if pred(f):
                p = []
                x = f
                while x is not None:
                    p.append(x)
                    x = par[x.uid]
                return p[::-1]
            if stop and stop(f) and f is not start:
                continue
            for t in self.callees(f):
                if t.uid not in par:
                    par[t.uid] = f
                    q.append(t)
        return None
