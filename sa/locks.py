"""Held-lock analysis over MIR: which lock classes can be acquired while which guards are alive."""
from gates import *

GUARD = re.compile(r"((?:std::sync|lock_api|parking_lot)[\w:]*::(?:Mapped)?(?:Mutex|RwLockRead|RwLockWrite|RwLockUpgradableRead|ReentrantMutex)Guard)<")
ACQ = re.compile(r"(::Mutex::(lock|try_lock)$|::RwLock::(read|write|try_read|try_write|upgradable_read)$)")
SPAWN = ("std::thread::spawn", "std::thread::builder::Builder::spawn", "std::thread::Builder::spawn", "std::thread::functions::spawn", "std::thread::scoped::Scope::spawn")


def guards_in(ty):
    """Lock classes whose guard a value of this type owns."""
    if ty.startswith("&") or ty.startswith("*") or "closure" in ty[:12]:
        return ()
    out = []
    for mt in GUARD.finditer(ty):
        pre = ty[:mt.start()]
        if pre.endswith("&") or pre.endswith("&mut "):
            continue
        i = mt.end()
        d, j = 1, i
        while j < len(ty) and d:
            d += ty[j] == "<"
            d -= ty[j] == ">" and ty[j - 1] != "-"
            j += 1
        inner = ty[i:j - 1]
        args = ty_args("X<%s>" % inner)
        t = args[-1] if args else inner
        nm = mt.group(1)
        mode = "r" if "RwLockRead" in nm else "w"
        kind = "Mutex" if "Mutex" in nm else "RwLock"
        out.append((kind, t, mode))
    return tuple(dict.fromkeys(out))


class DropAt:
    def __init__(self, f, bb, line):
        self.fn, self.bb = f, bb
        self.where = "%s:%s" % (f.file, line)


class Locks:
    def __init__(self, ctx):
        self.ctx, self.m = ctx, ctx.m
        self._acq = None
        self._held = {}
        self._spawned, self._bnd, self._drops, self._dropimpl = None, {}, {}, None
        ctx.m.callees(next(iter(ctx.m.fns.values())))

    # ---- which guards are alive ------------------------------------------------
    def held(self, fn):
        """block -> frozenset of guard-owning locals alive at its terminator."""
        r = self._held.get(fn.uid)
        if r is not None:
            return r
        gl = {i for i, l in enumerate(fn.locals) if i > 0 and guards_in(l[0])}
        res = {}
        if gl:
            ins = {0: frozenset(i for i in gl if i <= fn.nargs)}
            todo = [0]
            while todo:
                b = todo.pop()
                s = set(ins[b])
                blk = fn.blocks[b]
                for st in blk.stmts:
                    if st[0] != "=":
                        if st[0] == "dead" and st[2] in s:
                            s.discard(st[2])
                        continue
                    for o in rv_operands(st[3]):
                        if isinstance(o, dict) and "m" in o and o["m"][0] in s:
                            s.discard(o["m"][0])
                    if len(st[2]) >= 1 and st[2][0] in gl:
                        s.add(st[2][0])
                t = blk.term
                here = frozenset(s)
                if t[0] == "call":
                    for o in t[3]:
                        if isinstance(o, dict) and "m" in o and o["m"][0] in s:
                            s.discard(o["m"][0])
                    here = frozenset(s)
                    if t[4][0] in gl:
                        s.add(t[4][0])
                elif t[0] == "drop":
                    p = self.drop_place(t)
                    if p and p[0] in s:
                        s.discard(p[0])
                res[b] = res.get(b, frozenset()) | here
                out = frozenset(s)
                for x in blk.succ:
                    if fn.blocks[x].cleanup:
                        continue
                    n = ins.get(x)
                    u = out if n is None else n | out
                    if u != n:
                        ins[x] = u
                        todo.append(x)
        self._held[fn.uid] = res
        return res

    @staticmethod
    def drop_place(t):
        for x in t[1:]:
            if isinstance(x, list) and x and isinstance(x[0], int):
                return x
        return None

    def classes(self, fn, locs):
        out = set()
        for l in locs:
            out |= set(guards_in(fn.local_ty(l)))
        return out

    # ---- what a call acquires ----------------------------------------------------
    def direct(self, c):
        """Lock classes whose guard the call hands to the caller: it produces a guard without being given one."""
        if len(c.dest) != 1:
            return ()
        g = guards_in(c.fn.local_ty(c.dest[0]))
        if not g or (c.callee.short or "").startswith("try_"):
            return ()
        for a in c.args:
            p = op_place(a)
            if p and isinstance(a, dict) and "m" in a and len(p) == 1 and guards_in(c.fn.local_ty(p[0])):
                return ()
            if p and len(p) == 1 and "RwLock" not in c.fn.local_ty(p[0]) and re.search(r"(Mutex|RwLockRead|RwLockWrite)Guard<", c.fn.local_ty(p[0])):
                return ()
        return tuple(k for k in g if not re.match(r"^[A-Z]\w?$", k[1]))

    def sync_closures(self, fn, c):
        """Closures handed to call c that run before it returns."""
        out = []
        n = c.callee.name or c.callee.decl
        for k, a in enumerate(c.args):
            p = op_place(a)
            t = closure_value(self.ctx, fn, p) if p else None
            if not t:
                continue
            if any(n.endswith(x) for x in SPAWN) or n.endswith("::spawn"):
                continue
            if "::Arc::new" in n or "::Box::new" in n or n.endswith("Arc::new") or n.endswith("Box::new"):
                continue
            ts = self.m.targets(c.callee)
            if ts and not any(self.calls_param(x) for x in ts if x.uid != t.uid) and not any(x.uid == t.uid for x in ts):
                continue
            out.append(t)
        return out

    def calls_param(self, f):
        for g in [f] + self.m.closures_in(f):
            for c in g.calls:
                if (c.callee.tr or "").startswith("core::ops::function::Fn") and c.callee.g and not c.callee.g[0].startswith("dyn") and "dyn " not in c.callee.g[0]:
                    return True
                for a in c.args:        # forwards it
                    p = op_place(a)
                    if p and len(p) == 1 and g is f and 0 < p[0] <= f.nargs and re.match(r"^([A-Z]\w*|impl .*)$", f.local_ty(p[0])) and not self.m.targets(c.callee):
                        if not (c.callee.name or "").endswith(("::new", "::spawn")):
                            return True
        return False

    def callees(self, fn):
        self.m.callees(fn)
        for c in fn.calls:
            if fn.blocks[c.bb].cleanup:
                continue
            yield c, self.call_targets(fn, c)

    def spawned(self):
        """Closures that run on another thread."""
        if self._spawned is None:
            out = set()
            for f in self.m.fns.values():
                for c in f.calls:
                    n = c.callee.name or c.callee.decl
                    if not (any(n.endswith(x) for x in SPAWN) or n.endswith("::spawn")):
                        continue
                    for a in c.args:
                        p = op_place(a)
                        t = closure_value(self.ctx, f, p) if p else None
                        if t:
                            out.add(t.uid)
            self._spawned = out
        return self._spawned

    def bound(self, fn):
        r = self._bnd.get(fn.uid)
        if r is None:
            r = [c.callee for c in fn.calls if self.m.on_param(c.callee)]
            for g in self.m.closures_in(fn):
                if g.uid not in self.spawned():
                    r += self.bound(g)
            self._bnd[fn.uid] = r
        return r

    def inst(self, callee, t):
        out = []
        for b in self.bound(t):
            ts = self.m.targets(b)
            g = [peel(x) for x in callee.g]
            if callee.uid == t.uid and g and all(re.match(r"^[a-z_]\w*::", x) or x.startswith("'") for x in g):
                bases = {base_ty(x) for x in g}
                ts = [x for x in ts if x.self_ty and base_ty(x.self_ty) in bases] or ts
            out += ts
        return out

    def call_targets(self, fn, c):
        ts = list(self.m.targets(c.callee))
        for t in list(ts):
            if not self.m.on_param(c.callee):
                ts += self.inst(c.callee, t)
        ts += self.sync_closures(fn, c)
        for a in c.args:
            if isinstance(a, dict) and "fn" in a:
                ts += self.m.targets(Callee(a["fn"]))
        return ts

    # ---- what dropping a value runs -------------------------------------------------
    def drop_fns(self, ty):
        """Drop implementations of the workspace that dropping a value of this type may run."""
        r = self._drops.get(ty)
        if r is not None:
            return r
        self._drops[ty] = ()
        if self._dropimpl is None:
            self._dropimpl = {base_ty(f.self_ty): f for f in self.m.fns.values() if f.trait == "core::ops::drop::Drop" and f.self_ty}
        out = {}
        if not ty.startswith(("&", "*")) and not re.match(r"^[\w:]*Weak<", ty):
            b = base_ty(ty)
            if b in self._dropimpl:
                out[self._dropimpl[b].uid] = self._dropimpl[b]
            ad = self.m.adts.get(b)
            if ad:
                for v in ad.variants:
                    for fl in v[1]:
                        out.update((x.uid, x) for x in self.drop_fns(fl[1]))
            for a in ty_args(ty) if "<" in ty and "Guard<" not in ty[:60] else ():
                if a != ty:
                    out.update((x.uid, x) for x in self.drop_fns(a))
            if ty.startswith("("):
                for a in ty_args("X<%s>" % ty[1:-1]):
                    out.update((x.uid, x) for x in self.drop_fns(a))
        self._drops[ty] = tuple(out.values())
        return self._drops[ty]

    def drops(self, fn):
        """(block, line, Drop impl) for every drop in fn that can run a workspace Drop implementation."""
        for i, b in enumerate(fn.blocks):
            if b.cleanup or b.term[0] != "drop":
                continue
            for t in self.drop_fns(b.term[5]):
                yield i, b.term[1], t

    def acquires(self):
        """uid -> {class: (call, via)} acquired by running the function."""
        if self._acq is not None:
            return self._acq
        acq = {u: {} for u in self.m.fns}
        rev = defaultdict(list)
        todo = deque()
        for f in self.m.fns.values():
            for c, ts in self.callees(f):
                for k in self.direct(c):
                    acq[f.uid].setdefault(k, (c, None))
                if self.m.on_param(c.callee):
                    continue
                for t in ts:
                    rev[t.uid].append((f, c))
            for i, line, t in self.drops(f):
                rev[t.uid].append((f, DropAt(f, i, line)))
            if acq[f.uid]:
                todo.append(f.uid)
        while todo:
            u = todo.popleft()
            for f, c in rev[u]:
                a = acq[f.uid]
                n = len(a)
                for k in acq[u]:
                    if k not in a:
                        a[k] = (c, u)
                if len(a) != n:
                    todo.append(f.uid)
        self._acq = acq
        return acq

    def path(self, fn, k):
        out = []
        u = fn.uid
        for _ in range(12):
            x = self.acquires()[u].get(k)
            if not x:
                break
            out.append("%s@%s" % (self.m.fns[u].short, x[0].where.rsplit("/", 1)[-1]))
            if x[1] is None:
                break
            u = x[1]
        return " -> ".join(out)
