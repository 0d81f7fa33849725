"""Public API bookkeeping after an edit: text cache, cursors, notifications, whole-document replacement."""
from gates import *
from labels import *
from locks import Locks
from core import STORE, INNER
from r_txn import creates_store, store_creators, only_constructing
from r_undo import MGR

EVENT = "text_document::events::DocumentEvent"
CDATA = "text_document::inner::CursorData"


def is_td(f):
    return f.crate == "text_document" and not f.isbin


def touches(f, owner, field):
    """The function itself (or a closure in it) names the field."""
    k = (owner, field)
    r = getattr(f, "_touch", None)
    if r is None:
        r = f._touch = set()
        for p in all_places(f):
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "f":
                    r.add((e[3], e[2]))
    return k in r


def writes_field(f, owner, field):
    for b in f.blocks:
        if b.cleanup:
            continue
        for s in b.stmts:
            if s[0] == "=" and s[2] and len(s[2]) > 1 and isinstance(s[2][-1], list) and s[2][-1][0] == "f" \
                    and s[2][-1][3] == owner and s[2][-1][2] == field:
                return True
    return bool(swapped(f, owner, field))


def swapped(f, owner, field):
    """{block: (call, operands written)} of mem::replace / clone_from / mem::take on the field."""
    out = {}
    refs = {s[2][0] for b in f.blocks if not b.cleanup for s in b.stmts if s[0] == "=" and len(s[2]) == 1 and s[3][0] == "ref"
            and isinstance(s[3][2][-1], list) and s[3][2][-1][0] == "f" and s[3][2][-1][3] == owner and s[3][2][-1][2] == field and f.local_ty(s[2][0]).startswith("&mut")}
    while refs:
        more = {s[2][0] for b in f.blocks if not b.cleanup for s in b.stmts if s[0] == "=" and len(s[2]) == 1 and s[3][0] in ("ref", "use")
                and ((s[3][2] if s[3][0] == "ref" else op_place(s[3][1])) or [None])[0] in refs and f.local_ty(s[2][0]).startswith("&mut")}
        if more <= refs:
            break
        refs |= more
    for c in f.calls:
        if not f.blocks[c.bb].cleanup and c.args and (op_place(c.args[0]) or [None])[0] in refs and c.callee.short in ("replace", "clone_from", "take", "swap") and "Option" not in (c.callee.name or ""):
            out[c.bb] = c
    return out


def field_dest(s):
    """(owner, field) a statement assigns, or None."""
    if s[0] == "=" and len(s[2]) > 1 and isinstance(s[2][-1], list) and s[2][-1][0] == "f":
        return s[2][-1][3], s[2][-1][2]
    return None


class Api:
    def __init__(self, ctx):
        self.ctx, self.m = ctx, ctx.m
        self.locks = Locks(ctx)
        self.mw = ctx.may_write()
        self.tdfns = [f for f in self.m.fns.values() if is_td(f)]
        self.constructing = {f.uid for f in self.tdfns if creates_store(ctx, f)} | set(store_creators(ctx)) | {
            f.uid for f in self.tdfns if f.kind != "closure" and only_constructing(ctx, f)}
        self._spec()
        self.L = Labeler(ctx, self.lab, self.keep, self.enter, self.stmt, flags=True)
        self._cons = None

    # -- semantic roles, found by what the functions do ---------------------------------
    def _spec(self):
        ctx = self.ctx
        with_clos = lambda f: [f] + self.m.closures_in(f)
        self.takers, self.disps, self.adjs, self.hls, self.bcs, self.flows = set(), set(), set(), set(), set(), set()
        for f in self.tdfns:
            if f.kind == "closure":
                continue
            rt = f.local_ty(0)
            if EVENT in rt and "dyn core::ops::function::Fn" in rt and any(touches(g, INNER, "pending_events") for g in with_clos(f)):
                self.takers.add(f.uid)
            if any(EVENT in f.local_ty(i + 1) and "dyn core::ops::function::Fn" in f.local_ty(i + 1) for i in range(f.nargs)) and rt == "()":
                self.disps.add(f.uid)
            if any(touches(g, INNER, "cursors") for g in with_clos(f)) and any(
                    writes_field(g, CDATA, "position") for h in self.cursor_helpers(f) for g in with_clos(h)):
                self.adjs.add(f.uid)
            if any(writes_field(g, INNER, "last_block_count") for g in with_clos(f)):
                self.bcs.add(f.uid)
            if any(writes_field(g, INNER, "last_child_order") for g in with_clos(f)) and self.queues(f):
                self.flows.add(f.uid)
        hl = [f for f in self.tdfns if any((c.callee.tr or "").endswith("::SyntaxHighlighter") for c in f.calls)]
        self.hl_core = {f.uid for f in hl}
        work = list(hl)
        up = set(self.hl_core)
        while work:
            f = work.pop()
            for g in self.m.callers(f):
                if is_td(g) and g.uid not in up and g.self_ty == INNER and not g.exported:
                    up.add(g.uid)
                    work.append(g)
        self.hls = {u for u in up if self.m.fns[u].self_ty == INNER}
        for n, x in (("the function that hands queued events to the callbacks", self.takers),
                     ("the function that runs the callbacks", self.disps),
                     ("the function that moves the other cursors", self.adjs),
                     ("re-highlighting", self.hls), ("the block count check", self.bcs), ("the flow check", self.flows)):
            ctx.anchor(x, n)

    def cursor_helpers(self, f):
        """f and the private helpers it hands single cursors to."""
        out = [f]
        for g in [f] + self.m.closures_in(f):
            for c in g.calls:
                for t in self.m.targets(c.callee):
                    if is_td(t) and not t.exported and t not in out and any(
                            "CursorData" in t.local_ty(i + 1) and "TextDocumentInner" not in t.local_ty(i + 1) for i in range(t.nargs)):
                        out.append(t)
        return out

    def queues(self, f):
        return any(EVENT in g.local_ty(i) for g in [f] + self.m.closures_in(f) for i in range(len(g.locals)))

    def keep(self, s):
        return s[0] == "agg" or (s[0] == "field" and s[2] in ("pending_events", "new_position", "position", "anchor", "stack_id"))

    def enter(self, c, t):
        return is_td(t)

    def lab(self, c, a):
        out = set()
        n = c.callee.name or c.callee.decl
        if n.endswith(("::Vec::push", "Vec::extend", "::Extend::extend", "VecDeque::push_back")) and a and holds_events(c) and any(
                x[0] == "field" and x[1] == INNER and x[2] == "pending_events" for x in a[0]):
            out.add("QUEUE")
            for x in (a[1] if len(a) > 1 else ()):
                if x[0] == "agg" and x[1] == EVENT:
                    out.add("EV:" + x[2])
        if n.endswith(("HashMap::insert", "Entry::insert_entry", "Entry::or_insert", "BTreeMap::insert")) and c.args and any(
                x == ("field", "text_document::highlight::HighlightData", "blocks") for x in self.ctx.prov(c.fn).op(c.args[0])):
            out.add("HLSET")
        if n == MGR + "::clear_stack" or n == MGR + "::clear_all_stacks":
            out.add("CLEAR")
        if n.endswith("::Option::take") and any(x == ("field", INNER, "plain_text_cache") for x in self.ctx.prov(c.fn).op(c.args[0])):
            out.add("CACHE")
        for t in self.m.targets(c.callee):
            u = t.uid
            if u in self.takers:
                out.add("TAKE")
            if u in self.disps:
                out.add("DISP")
            if u in self.adjs:
                out.add("ADJ")
            if u in self.hls:
                out.add("HL")
            if u in self.bcs:
                out.add("BC")
            if u in self.flows:
                out.add("FLOW")
            if is_td(t) is False and any(x.name == MGR + "::clear_stack" for x in self.m.reach(t).values()) and t.crate == "text_document_frontend" \
                    and self.certainly(t, MGR + "::clear_stack"):
                out.add("CLEAR")
        return out

    def certainly(self, t, name):
        k = ("_cert", name)
        d = self.__dict__.setdefault("_certd", {})
        if (t.uid, name) not in d:
            L = Labeler(self.ctx, lambda c, a: {"X"} if c.callee.name == name else (), lambda s: False)
            d[(t.uid, name)] = "X" in L.fn(t)[0]
        return d[(t.uid, name)]

    def stmt(self, fn, s, actx):
        fd = field_dest(s)
        if not fd:
            # construction of the document interior starts with an empty cache
            if s[0] == "=" and s[3][0] == "agg" and s[3][1] == INNER:
                return {"CACHE", "MOD"}
            return ()
        o, f = fd
        if o == INNER:
            if f == "plain_text_cache":
                return {"CACHE"} if self.is_none(fn, s[3]) else ()
            if f == "modified":
                return {"MOD"} if self.is_true(s[3]) else ()
            if f == "last_child_order":
                return {"CHILD"}
        if o == "text_document::highlight::HighlightData" and f == "blocks":
            return {"HLSET"} if bslice(fn, *rv_operands(s[3])).shorts() & {"insert", "collect", "extend"} else ()
        if o == CDATA and f in ("position", "anchor"):
            src = self.copy_of(fn, s[3], actx)
            if src is not None and any(x[0] == "field" and x[2] == "new_position" for x in src):
                return {"OWN:" + f}
        return ()

    def is_none(self, fn, rv):
        if rv[0] == "agg":
            return rv[2] == "None"
        if rv[0] == "use":
            p = op_place(rv[1])
            if p and len(p) == 1:
                ds = defs(fn)[0].get(p[0], [])
                return bool(ds) and all(d[1] == "rv" and d[2][0] == "agg" and d[2][2] == "None" for d in ds)
            return "None" in str(rv[1].get("k", ""))
        return False

    def is_true(self, rv):
        return rv[0] == "use" and str(rv[1].get("k", "")).strip() in ("true", "const true")

    def copy_of(self, fn, rv, actx):
        """Sources a value is an unchanged copy of (casts and the integer converters aside), or None."""
        out = set()
        seen = set()

        def op(o, d):
            if d > 25:
                return False
            p = op_place(o)
            if not p:
                return False
            fs = [e for e in p[1:] if isinstance(e, list) and e[0] == "f" and e[3] not in ("tuple", "") and not e[3].startswith(("core::", "closure "))]
            if fs:
                out.add(("field", fs[-1][3], fs[-1][2]))
                return True
            l = p[0]
            if l in seen:
                return True
            seen.add(l)
            if 0 < l <= fn.nargs:
                if actx and l - 1 < len(actx):
                    out.update(x for x in actx[l - 1] if x[0] == "field")
                    return True
                return False
            ds = defs(fn)[0].get(l, [])
            if not ds:
                return False
            for x in ds:
                if x[1] == "rv":
                    if x[2][0] in ("use", "cast"):
                        if not op(rv_operands(x[2])[0], d + 1):
                            return False
                    elif x[2][0] == "ref":
                        if not op({"c": x[2][2]}, d + 1):
                            return False
                    else:
                        return False
                else:
                    c = x[2]
                    n = c.callee.short
                    if len(c.args) == 1 and n in ("to_usize", "into", "from", "try_into", "try_from", "max_usize", "deref", "clone", "branch"):
                        if not op(c.args[0], d + 1):
                            return False
                    else:
                        return False
            return True

        if rv[0] not in ("use", "cast"):
            return None
        return out if op(rv_operands(rv)[0], 0) else None

    # -- edits ---------------------------------------------------------------------------
    def edits(self, f):
        """[(call, command fn)] calls of f that leave this crate and may change document state."""
        out = []
        for c in f.calls:
            if f.blocks[c.bb].cleanup:
                continue
            for t in self.m.targets(c.callee):
                if t.crate not in ("text_document", "cli_bin") and self.mw.get(t.uid):
                    out.append((c, t))
                    break
        return out

    # -- pending obligations lifted through helpers and closures -----------------------------
    def consumers(self, clo):
        """[(fn, call)] synchronous uses of the closure, or None if it escapes."""
        if self._cons is None:
            self._cons = defaultdict(list)
            for f in self.tdfns:
                for c in f.calls:
                    if f.blocks[c.bb].cleanup:
                        continue
                    for t in self.locks.sync_closures(f, c):
                        self._cons[t.uid].append((f, c))
        return self._cons[clo.uid]

    def param_calls(self, h):
        """Calls in helper h (not its closures) on its own closure parameter."""
        return [c for c in h.calls if not h.blocks[c.bb].cleanup and (
            (c.callee.tr or "").startswith("core::ops::function::Fn") and self.m.on_param(c.callee))]

    def pending(self, origins, need, only_ok, noop=None):
        """origins: {fn uid: [(call, tag)]}.  Returns list of (root fn, call, tag, missing labels, exit kind, chain)."""
        L = self.L
        viol, okroots = [], []
        work = deque()
        seen = {}

        def add(f, c, tag, kinds, chain):
            k = (f.uid, c.bb, tag)
            old = seen.get(k, frozenset())
            new = old | kinds
            if new != old:
                seen[k] = new
                work.append((f, c, tag, new, chain))

        for u, l in origins.items():
            for c, tag in l:
                for n in need(tag):
                    add(self.m.fns[u], c, (tag, n), frozenset(["ok"]), ())
        while work:
            f, c, tag, kinds, chain = work.popleft()
            nd = [tag[1]]
            sk = (lambda i, t, f=f, c=c: (i, t) in noop(f, c)) if noop else None
            pend = {}
            tail = bool(set(outcome_values(f, c)) & ret_aliases(f))
            for oc, ek, bb, mu, my in L.explore(f, [c.bb], call=c, skip=sk):
                if oc and oc not in kinds:
                    continue
                if only_ok and ek == "err":
                    continue
                miss = [n for n in nd if not (n in mu if isinstance(n, str) else any(x in mu for x in n))]
                if miss:
                    for k in ((sorted(kinds) if tail else ("ok", "err")) if ek == "?" else (ek,)):
                        if only_ok and k == "err":
                            continue
                        pend.setdefault(k, miss)
            root = f.exported or (f.trait is not None and f.kind != "closure")
            ch = chain + (f,)
            if not pend:
                okroots.append((f, c, tag))
                continue
            if len(ch) > 8:
                viol.append((f, c, tag, sorted(map(str, pend[list(pend)[0]])), list(pend), ch))
                continue
            ups = []
            if not root:
                if f.kind == "closure":
                    for g, cc in self.consumers(f):
                        ts = [t for t in self.m.targets(cc.callee) if is_td(t)]
                        if ts:
                            for h in ts:
                                for pc in self.param_calls(h):
                                    ups.append((h, pc, frozenset(pend)))
                                for clo in self.m.closures_in(h):
                                    for pc in self.param_calls_cap(clo):
                                        ups.append((clo, pc, frozenset(pend)))
                        else:
                            ks = frozenset(pend) if cc.callee.short in ("and_then", "or_else", "call", "call_once", "call_mut") else frozenset(["ok", "err"])
                            ups.append((g, cc, ks))
                else:
                    for g in self.m.callers(f):
                        if not is_td(g):
                            continue
                        for cc in g.calls:
                            if not g.blocks[cc.bb].cleanup and any(t.uid == f.uid for t in self.m.targets(cc.callee)):
                                ups.append((g, cc, frozenset(pend)))
            if root or not ups:
                k = sorted(pend)[0]
                viol.append((f, c, tag, sorted(map(str, pend[k])), list(pend), ch))
            else:
                for g, cc, ks in ups:
                    add(g, cc, tag, ks, ch)
        return viol, okroots

    def param_calls_cap(self, clo):
        return [c for c in clo.calls if not clo.blocks[c.bb].cleanup and (c.callee.tr or "").startswith("core::ops::function::Fn")
                and self.m.on_param(c.callee)]

    # -- a command that reports having changed nothing ------------------------------------------
    def noop_edges(self, f, c):
        d = self.__dict__.setdefault("_noop", {})
        k = (f.uid, c.bb)
        if k in d:
            return d[k]
        out = set()
        for i, b in enumerate(f.blocks):
            if b.cleanup or b.term[0] != "switch":
                continue
            key = cond_key(f, b.term[2])
            neg = False
            while key and key[0] == "un" and key[1] == "Not":
                key, neg = key[2], not neg
            p = op_place(b.term[2])
            if not p or len(p) != 1:
                continue
            rv = self.bin_def(f, p[0])
            if not rv or rv[1] not in ("Gt", "Eq", "Ne", "Lt", "Ge"):
                continue
            x, y = rv[2], rv[3]
            zero = lambda o: str(o.get("k", "")).split("_")[0].strip() in ("0", "const 0")
            one = lambda o: str(o.get("k", "")).split("_")[0].strip() in ("1", "const 1")
            v, zv = None, None
            if zero(y) and rv[1] in ("Gt", "Ne"):
                v, zv = x, 0
            elif zero(y) and rv[1] == "Eq":
                v, zv = x, 1
            elif zero(x) and rv[1] in ("Lt", "Ne"):
                v, zv = y, 0
            elif zero(x) and rv[1] == "Eq":
                v, zv = y, 1
            elif one(y) and rv[1] == "Ge":
                v, zv = x, 0
            elif one(y) and rv[1] == "Lt":
                v, zv = x, 1
            if v is None:
                continue
            sl = bslice(f, v)
            if not any(cc is c for cc in sl.calls) and not any(cc.bb == c.bb for cc in sl.calls):
                continue
            if not any("count" in n for _, n in sl.fields):
                continue
            if neg:
                zv = 1 - zv
            t = b.term
            lst = {int(a): z for a, z in t[3]}
            tgt = lst.get(zv, t[4])
            out.add((i, tgt))
        d[k] = out
        return out

    def bin_def(self, f, l):
        for _ in range(4):
            ds = defs(f)[0].get(l, [])
            if len(ds) != 1 or ds[0][1] != "rv":
                return None
            rv = ds[0][2]
            if rv[0] == "bin":
                return rv
            if rv[0] in ("use",) or (rv[0] == "un"):
                p = op_place(rv_operands(rv)[0])
                if not p or len(p) != 1:
                    return None
                l = p[0]
                continue
            return None
        return None

    def result_fields(self, t):
        """Fields of the DTO a command returns."""
        rt = t.local_ty(0)
        for a in ty_args(rt)[:1]:
            ad = self.m.adts.get(base_ty(a))
            if ad and not ad.enum:
                return ad, set(ad.fields)
        return None, set()


def api(ctx):
    a = getattr(ctx, "_api", None)
    if a is None:
        a = ctx._api = Api(ctx)
    return a


def holds_events(c):
    """The list a call adds to is one of events itself."""
    p = op_place(c.args[0]) if c.args else None
    ty = c.fn.local_ty(p[0]) if p and len(p) == 1 else ""
    return not ty or "<" + EVENT in ty or "Vec<" not in ty and "Deque<" not in ty


def short_loc(c):
    return c.where


def long_op(ctx, t):
    """The command only starts a background operation (returns its id)."""
    r = getattr(ctx, "_longop", None)
    if r is None:
        r = ctx._longop = {}
    if t.uid not in r:
        r[t.uid] = any((c.callee.name or c.callee.decl).endswith(("thread::spawn", "Builder::spawn", "functions::spawn"))
                       for f in ctx.m.reach(t).values() for c in f.calls)
    return r[t.uid]


def is_command(t):
    """A feature command of the editing, formatting, search or IO layer (not generic entity access)."""
    return t.crate == "text_document_frontend" and "::commands::" in t.name and not re.search(
        r"::commands::(root|document|frame|block|list|resource|table|table_cell|inline_element)_commands::", t.name)


def C10(ctx):
    A = api(ctx)
    ctx.rule("cache-dropped", "after any command that may change the document text has succeeded, every exit of the public call "
             "(error exits included) passes an assignment that empties the cached plain text")
    ctx.rule("cache-filled", "the cached text is only ever filled with text exported from the document while the document is locked")
    org = defaultdict(list)
    for f in A.tdfns:
        if f.uid in A.constructing:
            continue
        for c, t in A.edits(f):
            if "rope" in A.mw[t.uid] and not long_op(ctx, t):
                org[f.uid].append((c, t.name))
    viol, ok = A.pending(org, lambda tag: ["CACHE"], False, A.noop_edges)
    report(ctx, "cache-dropped", viol, ok, "the cached plain text survives a change of the text made by %s")
    # fills
    n = 0
    for f in A.tdfns:
        for i, b in enumerate(f.blocks):
            if b.cleanup:
                continue
            for s in b.stmts:
                if field_dest(s) == (INNER, "plain_text_cache") and not A.is_none(f, s[3]):
                    sl = bslice(f, *rv_operands(s[3]))
                    okk = any("export_plain_text" in (c.callee.name or "") or any(
                        x.crate == "text_document_frontend" for x in ctx.m.targets(c.callee)) for c in sl.calls) and not sl.args - {1}
                    n += 1
                    ctx.ob("cache-filled", "fill:%s" % f.name, okk, "%s:%s" % (f.file, s[1]),
                           "the plain-text cache is filled with something other than the exported document text")
    # readers of the cache go through a fill-or-hit on the same lock
    ctx.floor("cache-dropped", 15)
    ctx.floor("cache-filled", 1)
    return ctx.finish(explanation="Calls that may write the rope (effect closure over the whole program) are followed along every path of the public "
                      "API, through helpers and closures, to an assignment plain_text_cache = None.")


def okey(f, tag):
    lab = tag[1] if isinstance(tag[1], str) else "change"
    return "%s:%s:%s" % (f.name, tag[0].rsplit("::", 1)[-1], lab)


def report(ctx, kind, viol, ok, msg):
    bad = set()
    for f, c, tag, miss, kinds, ch in viol:
        bad.add((f.uid, c.bb, tag))
        ctx.ob(kind, okey(f, tag), False, c.where, (msg % tag[0]) + " (missing on a %s exit: %s; via %s)" % (
            "/".join(kinds), ", ".join(miss), " <- ".join(x.short for x in ch)))
    for f, c, tag in ok:
        if (f.uid, c.bb, tag) not in bad:
            ctx.ob(kind, okey(f, tag), True, c.where)


def edit_origins(ctx, A, pred):
    org = defaultdict(list)
    for f in A.tdfns:
        if f.uid in A.constructing:
            continue
        for c, t in A.edits(f):
            if pred(t):
                org[f.uid].append((c, t.name))
    return org


def replaces_document(ctx, t):
    """The command replaces the whole document (its effects come from the document import layer)."""
    return t.crate == "text_document_frontend" and "::document_io_commands::" in t.name and "rope" in ctx.may_write().get(t.uid, ())


def C11(ctx):
    A = api(ctx)
    m = ctx.m
    ctx.rule("others-moved", "after a text edit that reports a new position succeeds, the function that adjusts every registered cursor is called on every success path")
    ctx.rule("own-moved", "the editing cursor's position and anchor are both set to the position the edit reported")
    ctx.rule("told-as-moved", "the region announced in ContentsChanged is the same (position, removed, added) the cursors were moved by")
    ctx.rule("registered", "every cursor handed out is registered with the document, so that it is adjusted")
    ctx.rule("moved-right", "a position at or in front of the region stays, one behind it moves by the change in length, one inside ends up within the new text (case analysis over every order of the position and the region)")
    ctx.rule("region", "the region starts at the smaller end of the selection; it is reported as removed only by an edit whose command takes text out, and then with the selection's length")
    ctx.rule("adjust-all", "adjusting visits every registered live cursor and moves both its position and its anchor by the same rule, and clears the cell selection")
    pos_cmd = lambda t: is_command(t) and "new_position" in A.result_fields(t)[1]
    org = edit_origins(ctx, A, pos_cmd)
    # insert_frame reports no position shift: only results that carry new_position
    viol, ok = A.pending(org, lambda tag: ["ADJ"], True, A.noop_edges)
    report(ctx, "others-moved", viol, ok, "other cursors are not adjusted after %s")
    viol, ok = A.pending(org, lambda tag: ["OWN:position", "OWN:anchor"], True, A.noop_edges)
    report(ctx, "own-moved", viol, ok, "the editing cursor is not placed at the position reported by %s")
    # same region told and moved
    n = 0
    for f in A.tdfns:
        adj = [c for c in f.calls if not f.blocks[c.bb].cleanup and any(t.uid in A.adjs for t in m.targets(c.callee))]
        if not adj:
            continue
        evs = content_events(f)
        for c in adj:
            for bb, ops in evs:
                if bb not in reachable_from(f, c.bb):
                    continue
                a = [expr_key(f, x) for x in c.args[1:4]]
                e = [expr_key(f, ops[k]) for k in ("position", "chars_removed", "chars_added")]
                if f.name.endswith("emit_undo_redo_change_events"):
                    continue
                n += 1
                for k, x, y in zip(("position", "removed", "added"), a, e):
                    ctx.ob("told-as-moved", "%s:%s" % (f.name, k), x == y, c.where,
                           "cursors are moved by %s but listeners are told %s" % (x, y))
    # registration
    for f in A.tdfns:
        for b in f.blocks:
            if b.cleanup:
                continue
            for s in b.stmts:
                if s[0] == "=" and s[3][0] == "agg" and s[3][1] == "text_document::cursor::TextCursor":
                    o = s[3][4][s[3][3].index("data")] if "data" in (s[3][3] or ()) else None
                    good = o is not None and registered(ctx, A, f, o)
                    ctx.ob("registered", "cursor:%s" % f.name, good, "%s:%s" % (f.file, s[1]),
                           "a cursor is handed out whose position data is not in the document's cursor list")
    adjust_all(ctx, A)
    mover(ctx, A)
    region(ctx, A)
    ctx.floor("others-moved", 8)
    ctx.floor("own-moved", 8)
    ctx.floor("told-as-moved", 9)
    ctx.floor("registered", 2)
    ctx.floor("adjust-all", 5)
    return ctx.finish(explanation="Path-sensitive obligations after every editing command reached from the public API, with argument provenance carried into helpers.")


def mover(ctx, A):
    """The function that moves one position: every order of position and region, over affine forms."""
    from absint import Interp, N, Lost
    from r_runs import group_of, bounds, split_cases, form_str
    m = ctx.m
    seen = set()
    for u in sorted(A.adjs):
        f = m.fns[u]
        for h in A.cursor_helpers(f):
            for g in [h] + m.closures_in(h):
                for c in g.calls:
                    if g.blocks[c.bb].cleanup or len(c.args) != 4:
                        continue
                    for t in m.targets(c.callee):
                        if is_td(t) and t.uid not in seen and t.local_ty(0) == "usize" and all(t.local_ty(i) == "usize" for i in range(1, 5)):
                            seen.add(t.uid)
                            at = [i for i, a in enumerate(c.args) if set(x[2] for x in ctx.prov(g).op(a) if x[0] == "field" and x[1] == CDATA) or re.search(r"\.(position|anchor)$", expr_key(g, a))]
                            if len(at) != 1:
                                ctx.note("undecided moved-right: %s is not given one position of the cursor" % t.name)
                                continue
                            order_cases(ctx, t, at[0])
    if not seen:
        ctx.note("undecided moved-right: no function moves a single position")


def order_cases(ctx, t, at):
    from absint import Interp, N, Lost, St
    from r_runs import bounds, split_cases, form_str
    from affine import add, atom
    o, e, x, a = (atom((n,)) for n in ("offset", "start", "end", "added"))
    args = [N(e), N(add(x, e, -1)), N(a)]
    args.insert(at, N(o))
    I = Interp(ctx.m, {t.uid})
    st = St()
    bounds(st, (None, "offset", 0), (None, "start", 0), ("start", "end", 0), (None, "added", 0))
    bad, n = [], 0
    try:
        for s, r in I.enter(st, t, args):
            if r[0] != "n":
                raise Lost("the result")
            for u, (stay, behind) in split_cases(I, s, [("Le", o, e), ("Ge", o, x)]):
                if not u.feasible():
                    continue
                n += 1
                g = r[1]
                moved = add(add(add(o, x, -1), e), a)
                if stay:
                    if not u.eq(g, o):
                        bad.append("a position at or in front of the region moves to %s" % form_str(g))
                elif behind:
                    if not u.eq(g, moved):
                        bad.append("a position behind the region moves to %s instead of %s" % (form_str(g), form_str(moved)))
                elif not (u.le0(add(e, g, -1)) and u.le0(add(g, add(e, a), -1))):
                    bad.append("a position inside the removed text moves to %s" % form_str(g))
    except (Lost, KeyError, IndexError, TypeError, ValueError) as ex:
        ctx.note("undecided moved-right: %s: %s" % (type(ex).__name__, ex))
        ctx.ob("moved-right", t.name, True, t.loc, "undecided")
        return
    ctx.ob("moved-right", t.name, not bad and n, t.loc, bad[0] if bad else "%d cases" % n)


SAMPLES = ((3, 7), (7, 3), (5, 5))


def ends_of(ctx, A, f):
    """Keys of the two ends of the selection in f: the parts of what a reader of the cursor returns, or parameters
    that fill a request's position and anchor."""
    m = ctx.m
    for c in f.calls:
        if f.blocks[c.bb].cleanup:
            continue
        for t in m.targets(c.callee):
            if is_td(t) and t.local_ty(0) == "(usize, usize)":
                names = []
                for b in t.blocks:
                    for s in b.stmts:
                        if not b.cleanup and s[0] == "=" and s[3][0] == "agg" and s[3][1] == "tuple" and len(s[3][4]) == 2 and s[2] == [0]:
                            names = [[x[2] for x in ctx.prov(t).op(o) if x[0] == "field" and x[1] == CDATA] for o in s[3][4]]
                if [sorted(set(x)) for x in names] in ([["position"], ["anchor"]], [["anchor"], ["position"]]) and len(c.dest) == 1:
                    return {("part", c.dest[0], 0): 0, ("part", c.dest[0], 1): 1}
    for b in f.blocks:
        for s in b.stmts:
            if not b.cleanup and s[0] == "=" and s[3][0] == "agg" and s[3][3] and {"position", "anchor"} <= set(s[3][3]):
                ks = [leaf(f, s[3][4][s[3][3].index(n)]) for n in ("position", "anchor")]
                if all(k and k[0] == "arg" for k in ks) and ks[0] != ks[1]:
                    return {ks[0]: 0, ks[1]: 1}
    return None


def leaf(f, o, d=0):
    p = op_place(o)
    if not p or d > 12:
        return None
    if len(p) == 2 and isinstance(p[1], list) and p[1][0] == "f" and p[1][3] in ("tuple", ""):
        return ("part", p[0], p[1][1])
    if len(p) != 1:
        return None
    if 0 < p[0] <= f.nargs:
        return ("arg", p[0])
    ds = defs(f)[0].get(p[0], [])
    if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] in ("use", "cast"):
        return leaf(f, rv_operands(ds[0][2])[0], d + 1)
    if len(ds) == 1 and ds[0][1] == "call" and len(ds[0][2].args) == 1:
        return leaf(f, ds[0][2].args[0], d + 1)
    return None


LIVE = {}


def live_blocks(f, ends, smp):
    """Blocks reached when the ends of the selection compare as the sample's do."""
    memo = LIVE.setdefault(f.uid, {})
    k = (tuple(sorted(ends.items())), smp)
    if k in memo:
        return memo[k]
    memo[k] = None
    seen, todo = set(), [0]
    while todo:
        i = todo.pop()
        if i in seen or f.blocks[i].cleanup:
            continue
        seen.add(i)
        t = f.blocks[i].term
        nxt = None
        if t[0] == "switch":
            p = op_place(t[2])
            ds = defs(f)[0].get(p[0], []) if p and len(p) == 1 else []
            if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "bin":
                rv = ds[0][2]
                l, r = values(f, rv[2], ends, smp, 8), values(f, rv[3], ends, smp, 8)
                fn = {"Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b,
                      "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b}.get(rv[1])
                if fn and len(l) == len(r) == 1 and None not in l | r:
                    k2 = int(fn(*l, *r))
                    nxt = next((b for v, b in t[3] if int(v) == k2), t[4])
        todo += [nxt] if nxt is not None else f.blocks[i].succ
    memo[k] = seen
    return seen


def values(f, o, ends, smp, d=0):
    """Values an operand can have when the ends of the selection are the sample's; None in the set: not known."""
    if d > 25:
        return {None}
    p = op_place(o)
    if not p:
        n = re.match(r"^(?:const )?(\d+)(?:_usize)?$", str(o.get("k", "")))
        return {int(n.group(1))} if n else {None}
    for e in (p[1:] and [("part", p[0], p[1][1])] if len(p) == 2 and isinstance(p[1], list) and p[1][0] == "f" else [("arg", p[0])] if len(p) == 1 and 0 < p[0] <= f.nargs else []):
        if e in ends:
            return {smp[ends[e]]}
    whole, part = defs(f)
    live = live_blocks(f, ends, smp)
    if live is not None and len(whole.get(p[0], [])) > 1:
        whole = {p[0]: [x for x in whole[p[0]] if x[0] in live]}
    if len(p) == 2 and isinstance(p[1], list) and p[1][0] == "f":
        out = set()
        for x in whole.get(p[0], []):
            if x[1] == "rv" and x[2][0] == "agg" and x[2][1] == "tuple" and p[1][1] < len(x[2][4]):
                out |= values(f, x[2][4][p[1][1]], ends, smp, d + 1)
            elif x[1] == "rv" and x[2][0] == "bin" and x[2][1].endswith("WithOverflow") and p[1][1] == 0:
                out |= binary(f, x[2], ends, smp, d)
            elif x[1] == "rv" and x[2][0] == "use":
                q = op_place(x[2][1])
                out |= values(f, {"c": q + p[1:]}, ends, smp, d + 1) if q and len(q) == 1 else {None}
            else:
                out.add(None)
        return out or {None}
    if len(p) != 1 or part.get(p[0]):
        return {None}
    out = set()
    for x in whole.get(p[0], []):
        if x[1] == "rv":
            rv = x[2]
            if rv[0] in ("use", "cast"):
                out |= values(f, rv_operands(rv)[0], ends, smp, d + 1)
            elif rv[0] == "bin":
                out |= binary(f, rv, ends, smp, d)
            else:
                out.add(None)
        else:
            c = x[2]
            s = c.callee.short
            vs = [values(f, a, ends, smp, d + 1) for a in c.args]
            fn = {"min": min, "max": max, "saturating_sub": lambda a, b: max(a - b, 0), "abs_diff": lambda a, b: abs(a - b)}.get(s)
            if fn and len(vs) == 2:
                out |= {None if a is None or b is None else fn(a, b) for a in vs[0] for b in vs[1]}
            else:
                out.add(None)
    return out or {None}


def binary(f, rv, ends, smp, d):
    l, r = values(f, rv[2], ends, smp, d + 1), values(f, rv[3], ends, smp, d + 1)
    o = rv[1].replace("WithOverflow", "").replace("Unchecked", "")
    fn = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b}.get(o)
    return {None if not fn or a is None or b is None else fn(a, b) for a in l for b in r}


def region(ctx, A):
    m = ctx.m
    DELETES = ("rope_delete_in_block", "rope_merge_block_range", "rope_remove_block", "rope_replace_block_content")
    memo = {}

    def takes_text(f):
        for g in [f] + m.closures_in(f):
            for c in g.calls:
                for t in m.targets(c.callee):
                    if is_command(t) or is_td(t) and not t.exported and t.uid not in A.adjs:
                        if t.uid not in memo:
                            memo[t.uid] = any(h.name.rsplit("::", 1)[-1] in DELETES for h in m.reach([t]).values())
                        if memo[t.uid]:
                            return True
        return False
    # parameters that become the region
    regs = {u: (1, 2) for u in A.adjs}
    grown = True
    while grown:
        grown = False
        for f in A.tdfns:
            if f.uid in regs or f.kind == "closure":
                continue
            for c in f.calls:
                for t in m.targets(c.callee):
                    if t.uid in regs:
                        ks = [leaf(f, c.args[i]) for i in regs[t.uid]]
                        if ks[0] and ks[0][0] == "arg" and not ends_of(ctx, A, f):
                            regs[f.uid] = (ks[0][1] - 1, ks[1][1] - 1 if ks[1] and ks[1][0] == "arg" else None)
                            grown = True
    n = 0
    for f in A.tdfns:
        if f.uid in regs:
            continue
        ends = ends_of(ctx, A, f)
        if not ends:
            continue
        for c in f.calls:
            if f.blocks[c.bb].cleanup:
                continue
            for t in m.targets(c.callee):
                if t.uid not in regs:
                    continue
                i, j = regs[t.uid]
                smp = [s for s in SAMPLES if c.bb in live_blocks(f, ends, s)]
                at = [values(f, c.args[i], ends, s) for s in smp]
                rm = [values(f, c.args[j], ends, s) if j is not None else {None} for s in smp]
                n += 1
                if not any(None in v for v in at):
                    ok = all(v == {min(s)} or len(v) > 1 and min(s) in v for v, s in zip(at, smp))
                    ctx.ob("region", "%s:start" % f.name, ok, c.where, "the region does not start at the smaller end of the selection")
                if not any(None in v for v in rm):
                    ok = all(v == {0} for v in rm) or all(v == {abs(s[0] - s[1])} or len(v) > 1 and abs(s[0] - s[1]) in v for v, s in zip(rm, smp))
                    ctx.ob("region", "%s:removed" % f.name, ok, c.where, "the removed length is not the length of the selection")
                    some_removed = bool(rm) and rm[0] != {0}
                    tk = takes_text(f)
                    if ok and some_removed != tk:
                        ctx.ob("region", "%s:takes" % f.name, False, c.where,
                               "text is reported as removed by a command that takes none out" if some_removed else "the command can take the selected text out, but nothing is reported as removed")
                    elif ok:
                        ctx.ob("region", "%s:takes" % f.name, True, c.where)
    ctx.floor("region", 8)


def content_events(f):
    out = []
    for i, b in enumerate(f.blocks):
        if b.cleanup:
            continue
        for s in b.stmts:
            if s[0] == "=" and s[3][0] == "agg" and s[3][1] == EVENT and s[3][2] == "ContentsChanged":
                out.append((i, dict(zip(s[3][3], s[3][4]))))
    return out


def expr_key(f, o, d=0):
    """Structural key of the expression an operand holds (copies, casts and pure arithmetic followed)."""
    p = op_place(o)
    if not p:
        return str(o.get("k", "?")).replace("const ", "").split("_")[0]
    if d > 20:
        return "?"
    if len(p) == 2 and isinstance(p[1], list) and p[1][0] == "f" and p[1][1] == 0:
        ds = defs(f)[0].get(p[0], [])
        if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "bin" and ds[0][2][1].endswith("WithOverflow"):
            rv = ds[0][2]
            return "%s(%s,%s)" % (rv[1].replace("WithOverflow", ""), expr_key(f, rv[2], d + 1), expr_key(f, rv[3], d + 1))
    if len(p) > 1 and isinstance(p[1], list) and p[1][0] == "f" and p[1][3] in ("tuple", ""):
        x = tuple_part(f, p[0], p[1][1])
        if x is not None and len(p) == 2:
            return expr_key(f, x, d + 1)
    if len(p) > 1:
        fs = ".".join(str(e[2]) for e in p[1:] if isinstance(e, list) and e[0] == "f")
        return "%s.%s" % (expr_key(f, {"c": [p[0]]}, d + 1), fs)
    l = p[0]
    if 0 < l <= f.nargs:
        return "arg%d" % l
    ds = defs(f)[0].get(l, [])
    if len(ds) != 1:
        return "l%d" % l
    if ds[0][1] == "rv":
        rv = ds[0][2]
        if rv[0] in ("use", "cast"):
            return expr_key(f, rv_operands(rv)[0], d + 1)
        if rv[0] == "ref":
            return expr_key(f, {"c": rv[2]}, d + 1)
        if rv[0] == "bin":
            return "%s(%s,%s)" % (rv[1], expr_key(f, rv[2], d + 1), expr_key(f, rv[3], d + 1))
        return "l%d" % l
    c = ds[0][2]
    if c.callee.short in ("deref", "deref_mut", "clone", "borrow"):
        return expr_key(f, c.args[0], d + 1)
    return "%s(%s)" % (c.callee.short, ",".join(expr_key(f, a, d + 1) for a in c.args))


def registered(ctx, A, f, o, depth=3):
    """The value reaches (as a weak reference) the document's cursor list on every path that builds it."""
    m = ctx.m
    sl = bslice(f, o)
    for c in sl.calls:
        for t in m.targets(c.callee):
            if is_td(t) and CDATA in t.local_ty(0) and depth and registered(ctx, A, t, RET(), depth - 1):
                return True
    for c in f.calls:
        if f.blocks[c.bb].cleanup or not (c.callee.name or "").endswith("::push"):
            continue
        if not any(x == ("field", INNER, "cursors") for x in ctx.prov(f).op(c.args[0])):
            continue
        s2 = bslice(f, c.args[1])
        if s2.locals & sl.locals and any(x.callee.short == "downgrade" for x in s2.calls):
            # on every path to a return
            L = lambda i, bb=c.bb: {"P"} if i == bb else ()
            if all("P" in mu for oc, ek, bb, mu, my in explore(f, [0], L, after=False) if ek != "err"):
                return True
    return False


def adjust_all(ctx, A):
    """The adjusting function(s): every element of the cursor list, both ends by the same function of the same arguments."""
    m = ctx.m
    for u in A.adjs:
        f = m.fns[u]
        body = [g for h in A.cursor_helpers(f) for g in [h] + m.closures_in(h)]
        sites = {"position": [], "anchor": [], "cell_selection_override": []}
        for g in body:
            for i, b in enumerate(g.blocks):
                if b.cleanup:
                    continue
                for s in b.stmts:
                    fd = field_dest(s)
                    if fd and fd[0] == CDATA:
                        sites[fd[1]].append((g, i, s))
        keys = {}
        for n in ("position", "anchor"):
            ctx.ob("adjust-all", "%s:moves-%s" % (f.name, n), len(sites[n]) >= 1, f.loc, "the %s of a cursor is not adjusted" % n)
            for g, i, s in sites[n]:
                k = expr_key(g, rv_operands(s[3])[0]) if rv_operands(s[3]) else "?"
                keys.setdefault(n, set()).add(re.sub(r"\bl\d+\b", "_", k).replace("." + n, ".SELF").replace("arg1", "_"))
        ctx.ob("adjust-all", "%s:same-rule" % f.name, keys.get("position") == keys.get("anchor"), f.loc,
               "position and anchor are adjusted differently: %s / %s" % (keys.get("position"), keys.get("anchor")))
        ctx.ob("adjust-all", "%s:clears-cell-selection" % f.name, bool(sites["cell_selection_override"]) and all(
            A.is_none(g, s[3]) for g, i, s in sites["cell_selection_override"]), f.loc, "the cell selection survives an edit that may invalidate it")
        # both ends on the same iterations: from each position store, the anchor store is always passed (and vice versa)
        together = True
        for a, b in (("position", "anchor"), ("anchor", "position"), ("position", "cell_selection_override")):
            for g, i, s in sites[a]:
                blocks = {j for h, j, _ in sites[b] if h is g}
                if i in blocks:
                    continue
                before = any(dominates(g, j, i) for j in blocks)
                after = bool(blocks) and all("B" in mu for oc, ek, bb, mu, my in explore(
                    g, [i], lambda x: {"B"} if x in blocks else ()))
                together = together and (before or after)
        ctx.ob("adjust-all", "%s:both-ends" % f.name, together, f.loc, "a cursor's position is moved on a path on which its anchor is not (or the reverse), or its cell selection is kept")
        # no picking / no early end over the list
        bad = picks(f, body)
        ctx.ob("adjust-all", "%s:every-cursor" % f.name, not bad, f.loc, "the walk over the cursors can skip some: %s" % bad)
        miss = skipped_cursor(ctx, A, body)
        ctx.ob("adjust-all", "%s:none-skipped" % f.name, not miss, f.loc, "a live cursor can be passed over: %s" % miss)
        drops(ctx, A, f)


PICK = {"take", "skip", "take_while", "skip_while", "step_by", "nth", "last", "first", "find", "find_map", "position", "max_by_key", "min_by_key",
        "rev_take", "peekable", "any", "all", "split_first", "split_last", "get", "pop", "truncate", "swap_remove", "remove", "dedup"}


def picks(f, body):
    out = []
    for g in body:
        for c in g.calls:
            if g.blocks[c.bb].cleanup:
                continue
            if c.callee.short in PICK and ("iter" in (c.callee.name or c.callee.decl) or "slice" in (c.callee.name or c.callee.decl) or "Vec" in (c.callee.name or c.callee.decl)):
                out.append(c.callee.short + "@" + c.where.rsplit(":", 1)[-1])
        # a loop that can be left before the iterator is exhausted
    for g in body:
        nx = [c for c in g.calls if c.callee.short == "next" and not g.blocks[c.bb].cleanup]
        for c in nx:
            vals = outcome_edges(g, c)
            done = {t for (i, t), k in vals.items() if k == "err"}
            some = {t for (i, t), k in vals.items() if k == "ok"}
            for t in some:
                # from the Some arm, returning without coming back to `next`
                r = reachable_from(g, t, avoid=(c.bb,))
                if any(g.blocks[x].term[0] == "ret" for x in list(r) + [t]):
                    out.append("leaves the loop early")
    return out


def skipped_cursor(ctx, A, body):
    """A path from a cursor of the list to the next one (or the end) that neither moves it nor found it dead."""
    m = ctx.m
    movers = {g.uid for g in body if writes_field(g, CDATA, "position")}
    out = []
    for g in body:
        store = set()
        for i, b in enumerate(g.blocks):
            if b.cleanup:
                continue
            if any(field_dest(s) == (CDATA, "position") for s in b.stmts):
                store.add(i)
            c = g.call_at(i)
            if c and any(t.uid in movers for t in list(m.targets(c.callee)) + A.locks.sync_closures(g, c)):
                if c.callee.short not in ("next",):
                    store.add(i)
        if not store:
            continue
        dead = set()
        heads, starts = set(), []
        for c in g.calls:
            if g.blocks[c.bb].cleanup:
                continue
            if c.callee.short == "upgrade":
                dead |= {e for e, k in outcome_edges(g, c).items() if k == "err"}
            if c.callee.short == "next":
                heads.add(c.bb)
                starts += [t for (i, t), k in outcome_edges(g, c).items() if k == "ok"]
        if not heads:
            if g.kind != "closure" and touches(g, INNER, "cursors"):
                continue        # hands the walk to closures, which are checked themselves
            starts = [0]
        seen, st = set(), [x for x in starts if x not in store]
        while st:
            i = st.pop()
            if i in seen or i in store:
                continue
            seen.add(i)
            if i in heads or g.blocks[i].term[0] == "ret":
                out.append("%s:%s" % (g.file, g.blocks[i].term[1]))
                break
            st += [t for t in g.blocks[i].succ if (i, t) not in dead]
    return out


def dominates(g, a, b):
    """Every path entry -> b passes a."""
    if a == 0:
        return True
    return b not in reachable_from(g, 0, avoid=(a,)) and b != 0


def drops(ctx, A, f):
    """Entries leave INNER.cursors only by a retain whose test is that the reference is still alive."""
    m = ctx.m
    for g in A.tdfns:
        for c in g.calls:
            if g.blocks[c.bb].cleanup or not c.args:
                continue
            n = c.callee.short
            if n not in ("retain", "retain_mut", "clear", "truncate", "remove", "swap_remove", "drain", "pop", "split_off", "dedup", "take", "replace"):
                continue
            if not any(x == ("field", INNER, "cursors") for x in ctx.prov(g).op(c.args[0])):
                continue
            good = False
            if n.startswith("retain"):
                cl = closure_value(ctx, g, op_place(c.args[1])) if op_place(c.args[1]) else None
                if cl:
                    k = expr_key(cl, RET())
                    good = bool(re.match(r"^(Gt|Ne|Lt)\((strong_count\(.*\),0|0,strong_count\(.*\))\)$", k)) or k.startswith("is_some(upgrade(")
            ctx.ob("adjust-all", "keeps-live:%s" % g.name, good, c.where, "live cursors can be dropped from the list that edits adjust")


def C12(ctx):
    A = api(ctx)
    m = ctx.m
    ctx.rule("marked", "after every editing, formatting, replace, undo or redo command succeeds, the document is marked modified on every success path (a replace that changed nothing excepted)")
    ctx.rule("announced", "the same paths queue the matching change notification (ContentsChanged for text edits, FormatChanged for formatting, "
             "a content, format, flow or block-count notification otherwise) and UndoRedoChanged")
    ctx.rule("counted", "after a command that may change the text, the block count check runs")
    ctx.rule("flow-checked", "after a command that may change the order of an existing frame's children, the flow check (which announces inserted and removed flow elements) runs")
    ctx.rule("delivered", "every notification that is queued is collected and handed to the subscribers before the public call returns")
    ctx.rule("modified-told", "the modified flag is only cleared by code that tells the listeners")
    cmds = {}
    for f in A.tdfns:
        for c, t in A.edits(f):
            if is_command(t):
                cmds[t.name] = t

    def want(t):
        # undo groups and history housekeeping are not edits
        return is_command(t) and not long_op(ctx, t) and not replaces_document(ctx, t) and changes_document(ctx, t)
    org = edit_origins(ctx, A, want)
    viol, ok = A.pending(org, lambda tag: ["MOD"], True, A.noop_edges)
    report(ctx, "marked", viol, ok, "the document is not marked modified after %s")

    NOTE = ("EV:ContentsChanged", "EV:FormatChanged", "FLOW", "BC", "EV:DocumentReset")

    def need(tag):
        t = cmds[tag]
        if "new_position" in A.result_fields(t)[1] or "::document_search_commands::" in tag:
            return ["EV:ContentsChanged", "EV:UndoRedoChanged"]
        if "::document_formatting_commands::" in tag:
            return ["EV:FormatChanged", "EV:UndoRedoChanged"]
        return [NOTE, "EV:UndoRedoChanged"]
    viol, ok = A.pending(org, need, True, A.noop_edges)
    report(ctx, "announced", viol, ok, "listeners are not told about %s")
    org2 = edit_origins(ctx, A, lambda t: want(t) and "rope" in A.mw[t.uid])
    viol, ok = A.pending(org2, lambda tag: ["BC"], True, A.noop_edges)
    report(ctx, "counted", viol, ok, "a changed block count goes unnoticed after %s")
    fm = flow_changers(ctx)
    org3 = edit_origins(ctx, A, lambda t: want(t) and (t.short in ("undo", "redo") or any(u in fm for u in m.reach(t))))
    viol, ok = A.pending(org3, lambda tag: ["FLOW"], True, A.noop_edges)
    report(ctx, "flow-checked", viol, ok, "inserted or removed flow elements go unannounced after %s")
    # delivery
    q = defaultdict(list)
    for f in A.tdfns:
        for c in f.calls:
            if f.blocks[c.bb].cleanup:
                continue
            if "QUEUE" in A.lab(c, tuple(A.L.srcs(f, x, ()) for x in c.args)):
                q[f.uid].append((c, "queued event"))
    viol, ok = A.pending(q, lambda tag: ["TAKE", "DISP"], False)
    report(ctx, "delivered", viol, ok, "%s never reaches the subscribers")
    from r_undo import labels_before
    # what the next comparison starts from
    ctx.rule("baseline", "after a change of the block count or the flow was announced, the new state is what the next check compares with")
    for fld, us, evs in (("last_block_count", A.bcs, ("BlockCountChanged",)), ("last_child_order", A.flows, ("FlowElementsInserted", "FlowElementsRemoved"))):
        for u in sorted(us):
            f = m.fns[u]
            sets = {}
            for i, b in enumerate(f.blocks):
                for s in b.stmts:
                    if not b.cleanup and field_dest(s) == (INNER, fld):
                        sets[i] = s
            vals = [(rv_operands(s[3]), "%s:%s" % (f.file, s[1])) for s in sets.values()]
            for i, c in swapped(f, INNER, fld).items():
                sets[i] = c
                vals.append((c.args[1:], c.where))
            for ops, w in vals:
                own = (INNER, fld) in bslice(f, *ops, follow=lambda c: not m.targets(c.callee)).fields
                ctx.ob("baseline", "value:%s:%s" % (f.name, fld), not own, w, "the state the next check compares with is mixed with the old one")
            gen = lambda j: {"SET"} if j in sets else ()
            for c in f.calls:
                if f.blocks[c.bb].cleanup or not sets:
                    continue
                labs = A.lab(c, tuple(A.L.srcs(f, x, ()) for x in c.args))
                told = {a[1] for x in c.args if op_place(x) and EVENT in f.local_ty(op_place(x)[0]) for a in bslice(f, x).aggs if a[0] == EVENT} & set(evs)
                if not told or not any(t.self_ty == INNER for t in m.targets(c.callee)) and "QUEUE" not in labs:
                    continue
                good = c.bb in sets or "SET" in labels_before(f, c.bb, gen) or all("SET" in r[3] for r in explore(f, [c.bb], gen))
                ctx.ob("baseline", "kept:%s:%s" % (f.name, sorted(told)[0]), good, c.where,
                       "%s is announced, but the next check may still compare with the state before" % sorted(told)[0])
    ctx.floor("baseline", 4)
    # clearing the flag
    for f in A.tdfns:
        for b in f.blocks:
            if b.cleanup:
                continue
            for s in b.stmts:
                if field_dest(s) == (INNER, "modified") and not A.is_true(s[3]):
                    i = f.blocks.index(b)
                    good = all("EV:ModificationChanged" in mu for oc, ek, bb, mu, my in A.L.explore(f, [i], after=False))
                    ctx.ob("modified-told", "flag:%s" % f.name, good, "%s:%s" % (f.file, s[1]), "the modified flag is changed silently")
    ctx.floor("marked", 30)
    ctx.floor("announced", 30)
    ctx.floor("counted", 15)
    ctx.floor("flow-checked", 8)
    ctx.floor("delivered", 30)
    ctx.floor("modified-told", 1)
    return ctx.finish(explanation="Path-sensitive obligations after every command call, lifted through helpers and closures to the public API.")


def flow_changers(ctx):
    """Editing functions that change child_order of a frame they did not just create."""
    out = set()
    for f in ctx.m.fns.values():
        if f.crate not in ("text_document_editing", "text_document_search"):
            continue
        for b in f.blocks:
            if b.cleanup:
                continue
            for s in b.stmts:
                if s[0] != "=":
                    continue
                p = None
                fd = field_dest(s)
                if fd and fd[0].endswith("::Frame") and fd[1] == "child_order":
                    p = s[2]
                elif s[3][0] == "ref" and s[3][1] and any(isinstance(e, list) and e[0] == "f" and e[3].endswith("::Frame") and e[2] == "child_order" for e in s[3][2][1:]):
                    p = s[3][2]
                if p is None:
                    continue
                names = {n.rsplit("::", 1)[-1] for x in ctx.prov(f).local(p[0]) if x[0] == "call" for n in [x[1]]}
                if not (any(n.endswith("create_frame") for n in names) and not any(n.endswith(("get_frame", "get_frame_multi")) for n in names)):
                    out.add(f.uid)
    return out


def changes_document(ctx, t):
    """The command reaches a recorded command or undo/redo (not merely history housekeeping)."""
    names = {"begin_composite", "end_composite", "cancel_composite", "clear_stack", "clear_all_stacks", "create_new_stack", "delete_stack",
             "can_undo", "can_redo", "set_active_stack"}
    return t.short not in names


def C09(ctx):
    A = api(ctx)
    m = ctx.m
    ctx.rule("replaced", "after the whole document was replaced in the foreground, every success path clears the undo history, drops the cached text, "
             "re-highlights, announces DocumentReset and UndoRedoChanged, and refreshes the block-count and flow baselines")
    ctx.rule("started", "starting a background replacement clears the undo history and announces it")
    ctx.rule("completed", "when a background operation completes, the cached text is dropped, highlighting redone, DocumentReset announced and the baselines refreshed "
             "before LongOperationFinished is announced, all while the document is locked")
    org = edit_origins(ctx, A, lambda t: replaces_document(ctx, t) and not long_op(ctx, t))
    full = ["CLEAR", "CACHE", "HL", "EV:DocumentReset", "EV:UndoRedoChanged", "BC", "CHILD"]
    for lab in full:
        viol, ok = A.pending(org, lambda tag, lab=lab: [lab], True)
        report2(ctx, "replaced", lab, viol, ok)
    org = edit_origins(ctx, A, lambda t: replaces_document(ctx, t) and long_op(ctx, t))
    for lab in ["CLEAR", "EV:UndoRedoChanged"]:
        viol, ok = A.pending(org, lambda tag, lab=lab: [lab], True)
        report2(ctx, "started", lab, viol, ok)
    # completion handlers: closures (subscribed to the event hub) that queue LongOperationFinished
    for f in A.tdfns:
        if f.kind != "closure":
            continue
        mu, my = A.L.fn(f)
        ev = finish_kind(ctx, A, f)
        if ev is None:
            continue
        if ev != "Completed":
            continue
        # on paths that found the document still alive
        for oc, ek, bb, mu2, my2 in A.L.explore(f, [0], after=False):
            if "EV:LongOperationFinished" not in my2:
                continue
        pts = [i for i, b in enumerate(f.blocks) if not b.cleanup and "EV:LongOperationFinished" in A.L.block(f, i)[0]]
        for lab in ["CACHE", "HL", "EV:DocumentReset", "BC", "CHILD"]:
            good = bool(pts)
            for i in pts:
                st = must_before(A, f, i)
                good = good and lab in st
            ctx.ob("completed", "%s:%s" % (f.name, lab), good, f.loc, "completion of a background import is announced without %s" % lab)
        for oc, ek, bb, mu2, my2 in A.L.explore(f, pts):
            ctx.ob("completed", "%s:delivered" % f.name, {"TAKE", "DISP"} <= mu2, f.loc, "the completion event is queued but not delivered")
    ctx.floor("replaced", 14)
    ctx.floor("started", 4)
    ctx.floor("completed", 6)
    return ctx.finish(explanation="Same lifted path obligations, for the import commands and the long-operation completion handler.")


def report2(ctx, kind, lab, viol, ok):
    report(ctx, kind, viol, ok, "incomplete whole-document replacement: after %s a success path misses " + lab.replace("%", ""))


def must_before(A, f, bb):
    res = None
    ins = {0: frozenset()}
    todo = deque([0])
    while todo:
        i = todo.popleft()
        o = ins[i] | A.L.block(f, i)[0]
        for t in f.blocks[i].succ:
            n = o if t not in ins else ins[t] & o
            if t not in ins or n != ins[t]:
                ins[t] = n
                todo.append(t)
    return ins.get(bb, frozenset())


def finish_kind(ctx, A, f):
    """Long-operation event variant the closure is subscribed to, if it reports the end of an operation."""
    if "EV:LongOperationFinished" not in A.L.fn(f)[1]:
        return None
    for g, i, rv, dst in creators(ctx).get(f.uid, []):
        for c in g.calls:
            if g.blocks[c.bb].cleanup:
                continue
            for a in c.args:
                p = op_place(a)
                if p and closure_value(ctx, g, p) is f:
                    sl = bslice(g, *[x for x in c.args[1:] if x is not a])
                    for ad, v in sl.aggs:
                        if ad.endswith("LongOperationEvent"):
                            return v
    return "?"
