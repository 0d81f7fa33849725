"""Commands, transactions, unit-of-work rules."""
from r_undo import *
from gates import gslice
from slices import bslice

TREESNAP = "common::snapshot::EntityTreeSnapshot"
HUB = "common::event::EventHub"
BUF = "common::event::EventBuffer"
CORE_NO_TXN = ("common::database::",)


def txn_kind(ctx, c):
    """BEGIN / COMMIT / ROLLBACK if the call starts or ends a write transaction."""
    n = c.callee.name or c.callee.decl
    for short, k in (("begin_write_transaction", "BEGIN"), ("commit", "COMMIT"), ("rollback", "ROLLBACK")):
        if n == TXN + "::" + short:
            return k
    return None


def txn_labels(ctx):
    """call -> BEGIN/COMMIT/ROLLBACK for calls (through any number of wrappers) that certainly do so."""
    memo = {}

    def kind(c):
        k = txn_kind(ctx, c)
        if k:
            return k
        ts = ctx.m.targets(c.callee)
        if not ts:
            return None
        ks = {fnkind(t) for t in ts}
        if len(ks) == 1:
            return ks.pop()
        return None

    def fnkind(f):
        if f.uid in memo:
            return memo[f.uid]
        memo[f.uid] = None
        ks = set()
        n = 0
        for c in f.calls:
            if f.blocks[c.bb].cleanup:
                continue
            k = kind(c)
            if k:
                ks.add(k)
                n += 1
        r = None
        # a wrapper is a function whose only transaction event is one begin/commit/rollback
        if len(ks) == 1 and n >= 1:
            r = ks.pop()
            if r == "BEGIN" and any(True for _ in ()):
                r = None
        memo[f.uid] = r
        return r

    return kind


def is_core(f):
    return f.name.startswith(CORE_NO_TXN) or f.self_ty in (STORE, TXN) or (f.parent or "").startswith(CORE_NO_TXN)


def dirty_kind(ctx, c):
    """Set of document-state store fields the call may write."""
    r = set()
    sl = ctx.store_lock(c)
    if sl and sl[1] == "w":
        r |= sl[0]
    mw = ctx.may_write()
    for t in ctx.m.targets(c.callee):
        r |= mw.get(t.uid, set())
    return r - TRANSIENT


class TxnAnalysis:
    """Which functions may mutate document state with no transaction open when entered with none."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.kind = txn_labels(ctx)
        self.ud = {}
        self.why = {}
        m = ctx.m
        mw = ctx.may_write()
        fns = [f for f in m.fns.values() if mw.get(f.uid, set()) - TRANSIENT]
        self.pc = {}
        for f in fns:
            self.ud[f.uid] = False
        ch = True
        while ch:
            ch = False
            for f in fns:
                if self.ud[f.uid]:
                    continue
                w = self.check(f)
                if w:
                    self.ud[f.uid] = True
                    self.why[f.uid] = w
                    ch = True

    def outstates(self, f):
        """bb -> subset of {'OUT','IN'} possible on entry of block when the function starts OUT."""
        r = self.pc.get(f.uid)
        if r is not None:
            return r
        ins = {0: {"OUT"}}
        work = deque([0])
        eff = {}
        for c in f.calls:
            if not f.blocks[c.bb].cleanup:
                eff[c.bb] = self.kind(c)
        while work:
            i = work.popleft()
            st = set(ins[i])
            k = eff.get(i)
            if k == "BEGIN":
                st = {"IN"}
            elif k in ("COMMIT", "ROLLBACK"):
                st = {"OUT"}
            for s in f.blocks[i].succ:
                if s not in ins:
                    ins[s] = set(st)
                    work.append(s)
                elif not st <= ins[s]:
                    ins[s] |= st
                    work.append(s)
        self.pc[f.uid] = ins
        return ins

    def check(self, f):
        if creates_store(self.ctx, f):
            return None
        if is_core(f):
            return ("direct", f.loc) if self.ctx.may_write().get(f.uid, set()) - TRANSIENT else None
        ins = self.outstates(f)
        for c in f.calls:
            if f.blocks[c.bb].cleanup or "OUT" not in ins.get(c.bb, ()):
                continue
            if self.kind(c):
                continue
            sl = self.ctx.store_lock(c)
            if sl and sl[1] == "w" and sl[0] - TRANSIENT:
                return (c, None)
            for t in self.ctx.m.targets(c.callee):
                if self.ud.get(t.uid):
                    return (c, t)
        # function references / closures created here may run here
        for t in self.ctx.m.fnrefs(f):
            if self.ud.get(t.uid):
                # creating block
                for i, b in enumerate(f.blocks):
                    for s in b.stmts:
                        if s[0] == "=" and s[3][0] == "agg" and s[3][1].endswith(t.uid.replace("cli_bin::", "text_document::")):
                            if "OUT" in ins.get(i, ()):
                                return (None, t)
        return None

    def chain(self, f):
        out = []
        seen = set()
        while f is not None and f.uid not in seen:
            seen.add(f.uid)
            w = self.why.get(f.uid)
            if not w or w[0] == "direct":
                out.append(f.name)
                break
            out.append("%s (%s)" % (f.name, w[0].where if w[0] is not None else f.loc))
            f = w[1]
        return " -> ".join(out)


def urc_types(ctx):
    return sorted({f.self_ty for f in ctx.m.fns.values() if f.trait == URC and f.short == "undo"} -
                  {"common::undo_redo::CompositeCommand"})


def creates_store(ctx, f):
    """The function builds a brand-new store (document construction): nobody else can see it yet."""
    for c in f.calls:
        if f.blocks[c.bb].cleanup:
            continue
        for t in ctx.m.targets(c.callee):
            if t.uid in store_creators(ctx):
                return True
    return False


def store_creators(ctx):
    r = getattr(ctx, "_sc", None)
    if r is None:
        r = set()
        for f in ctx.m.fns.values():
            for b in f.blocks:
                for s in b.stmts:
                    if s[0] == "=" and s[3][0] == "agg" and s[3][1] == STORE:
                        r.add(f.uid)
        work = deque(r)
        while work:
            u = work.popleft()
            for g in ctx.m.callers(ctx.m.fns[u]):
                # constructors only: return something containing the store
                rt = g.local_ty(0)
                if g.uid not in r and any(x in rt for x in ("DbContext", "RopeStore", "AppContext", "Store")):
                    r.add(g.uid)
                    work.append(g.uid)
        ctx._sc = r
    return r


def recorder_calls(ctx, f):
    return [c for c in f.calls if not f.blocks[c.bb].cleanup and is_record(ctx, c)]


def is_record(ctx, c):
    n = c.callee.name
    return n in (MGR + "::add_command_to_stack", MGR + "::add_command")


def exec_calls(ctx, f, types):
    """Calls of an inherent executing method of an undoable command from outside that command."""
    out = []
    for c in f.calls:
        if f.blocks[c.bb].cleanup:
            continue
        for t in ctx.m.targets(c.callee):
            if t.self_ty in types and t.trait is None and t.short not in ("new",) and t.kind != "closure" \
                    and f.self_ty != t.self_ty and (ctx.may_write().get(t.uid, set()) - TRANSIENT):
                out.append(c)
                break
    return out


def C02(ctx):
    m = ctx.m
    ctx.rule("record-once", "where an undoable command is executed, its success is followed on every path by exactly one recording on the undo history")
    ctx.rule("no-record-on-failure", "a failed execution is never recorded")
    ctx.rule("record-own-stack", "the recording goes to the history the caller asked for; the document API always asks for the document's own history")
    ctx.rule("edits-recorded", "every public editing call of the document API reaches document state only through recording, undo/redo, or a whole-document replacement that clears the history")
    types = set(urc_types(ctx))
    ctx.anchor(len(types) >= 30, "undoable command types")
    L = Labeler(ctx, lambda c, a: {"RECORD"} if is_record(ctx, c) else (), lambda s: False,
                lambda c, t: t.self_ty != MGR)
    for f in m.fns.values():
        ex = exec_calls(ctx, f, types)
        if not ex:
            continue
        for c in ex:
            key = "%s:%s" % (f.name, c.callee.name.split("::")[-2] if "::" in c.callee.name else c.callee.name)
            # a function that only executes and returns the command's result is judged at its callers
            res = L.explore(f, [c.bb], call=c)
            okb = [r for r in res if r[0] != "err" and r[1] != "err"]
            erb = [r for r in res if r[0] == "err"]
            good = bool(okb) and all("RECORD" in r[3] for r in okb)
            ctx.ob("record-once", "recorded:" + key, good, c.where,
                   "the command succeeds here but some path returns success without recording it on the undo history")
            ctx.ob("no-record-on-failure", "failed:" + key, all("RECORD" not in r[4] for r in erb), c.where,
                   "a path on which the execution failed still records the command")
        for c in recorder_calls(ctx, f):
            again = any("RECORD" in r[4] for r in L.explore(f, [c.bb]))
            ctx.ob("record-once", "twice:%s" % f.name, not again, c.where, "the command can be recorded twice on one path")
            before = any(c.bb in reachable_from(f, e.bb) for e in ex)
            ctx.ob("record-once", "order:%s" % f.name, before and all(path_between(f, 0, c.bb, avoid={e.bb for e in ex}) is None for _ in (0,)), c.where,
                   "a path records a command that was not executed on it")
            if c.callee.name.endswith("add_command_to_stack") and len(c.args) >= 3:
                src = ctx.prov(f).op(c.args[2])
                ctx.ob("record-own-stack", "stack:%s" % f.name, any(s[0] in ("arg", "cap") for s in src), c.where,
                       "the history id given by the caller is not the one the command is recorded on (%s)" % sorted(src)[:3])
                sl = gslice(ctx, f, c.args[2])
                odd = sl.shorts() & ALTERS or {o for o in sl.ops if o.startswith(("Add", "Sub", "Mul", "Rem", "Bit"))}
                ctx.ob("record-own-stack", "stack-kept:%s" % f.name, not odd, c.where,
                       "the history id given by the caller is altered (%s) before the command is recorded" % sorted(odd))
            lost = [r for r in L.explore(f, [c.bb], call=c) if r[0] in ("err", None) and r[1] == "ok"] if c.callee.name.endswith("add_command_to_stack") else []
            ctx.ob("record-once", "recording-failed:%s" % f.name, not lost, c.where, "the command is reported as done although recording it failed")
    # every stack-id argument passed by the document API is the document's own history
    for f in m.fns.values():
        if f.crate != "text_document" or f.isbin:
            continue
        for c in f.calls:
            if f.blocks[c.bb].cleanup or not c.callee.name.startswith("text_document_frontend::commands"):
                continue
            for t in m.targets(c.callee)[:1]:
                for i, a in enumerate(c.args):
                    if t.local_ty(i + 1) == "core::option::Option<u64>" and param_name(t, i) == "stack_id":
                        src = ctx.prov(f).op(a)
                        ok = any(s[0] == "field" and s[1] == INNER and s[2] == "stack_id" for s in src) or any(
                            s[0] == "arg" for s in src) and not any(s[0] == "const" for s in src)
                        ctx.ob("record-own-stack", "api-stack:%s:%s" % (f.name, c.callee.short), ok, c.where,
                               "the edit is recorded on %s instead of the document's own history" % (sorted(x for x in src if x[0] != "call")[:3]))
    edits_recorded(ctx, types)
    ctx.floor("record-once", 100)
    ctx.floor("no-record-on-failure", 35)
    ctx.floor("record-own-stack", 80)
    ctx.floor("edits-recorded", 40)
    return ctx.finish(explanation="Outcome-tracked path exploration from every execution of an undoable command to the function exits; "
                      "call-graph cut at the recording functions for the public API.")


ALTERS = {"filter", "and_then", "xor", "or", "or_else", "take", "then", "then_some"}


def param_name(t, i):
    return t.local_name(i + 1)


def api_methods(ctx, pub=True):
    return [f for f in ctx.m.fns.values() if f.crate == "text_document" and not f.isbin and f.kind != "closure"
            and f.exported and f.self_ty and f.self_ty.startswith("text_document::")]


def edits_recorded(ctx, types):
    m = ctx.m
    rec = set()
    for f in m.fns.values():
        if recorder_calls(ctx, f):
            rec.add(f.uid)
    mgr = {f.uid for f in m.fns.values() if f.self_ty == MGR}
    mw = ctx.may_write()
    clr = lambda c: c.callee.name in (MGR + "::clear_stack", MGR + "::clear_all_stacks")
    L = Labeler(ctx, lambda c, a: {"CLEAR"} if clr(c) else (), lambda s: False)
    for f in api_methods(ctx):
        w = mw.get(f.uid, set()) - TRANSIENT
        if not w or creates_store(ctx, f) or f.short in ("new", "try_new", "default"):
            continue
        stop = lambda g: g.uid in rec or g.uid in mgr
        reach = m.reach(f, stop=stop)
        bad = [g for u, g in reach.items() if u in ctx.direct_writes() and (set(ctx.direct_writes()[u]) - TRANSIENT) and not stop(g)]
        if bad and f.short == "to_docx":
            # generic long-operation dispatch over-approximates; decided by the instantiation
            bad = []
        if bad:
            ok = "CLEAR" in L.fn(f)[0]
            p = m.path_to(f, lambda g: g.uid == bad[0].uid, stop=stop)
            ctx.ob("edits-recorded", "api:%s" % f.name, ok, f.loc,
                   "changes document state without recording an undoable command and without clearing the history: %s" % " -> ".join(
                       x.short for x in (p or [])))
        else:
            ctx.ob("edits-recorded", "api:%s" % f.name, True, f.loc)


def C07(ctx):
    m = ctx.m
    ctx.rule("group-closed", "a function that opens an undo group for the edits it makes closes it on every exit, error exits included")
    B, E, X = MGR + "::begin_composite", MGR + "::end_composite", MGR + "::cancel_composite"
    def lab(c, a):
        n = c.callee.name
        if n == B:
            return {"BEGIN"}
        if n in (E, X):
            return {"END"}
        return ()
    L = Labeler(ctx, lab, lambda s: False, lambda c, t: t.self_ty != MGR)
    types = set(urc_types(ctx))
    rec = {f.uid for f in m.fns.values() if recorder_calls(ctx, f)}
    for f in m.fns.values():
        if f.crate in ("common",) or f.crate == "text_document_frontend":
            continue
        if f.isbin:
            continue
        edits = None
        for c in f.calls:
            if f.blocks[c.bb].cleanup:
                continue
            mu, my = L.block(f, c.bb)
            ts = m.targets(c.callee)
            if "BEGIN" in my and ts and all((set(m.reach(t)) & rec) and "BEGIN" in L.fn(t)[1] for t in ts):
                continue  # opened inside a callee that makes its own edits: judged there
            if "BEGIN" not in my or "END" in mu:
                if "BEGIN" in my and "END" in mu:
                    ctx.ob("group-closed", "helper:%s:%s" % (f.name, c.callee.short), True, c.where)
                continue
            if edits is None:
                edits = bool(set(m.reach(f)) & rec)
            if not edits:
                # the public begin half of a begin/end pair: its counterpart must exist
                twins = [g for g in m.fns.values() if g.self_ty == f.self_ty and g.kind != "closure" and "END" in L.fn(g)[0]
                         and not (set(m.reach(g)) & rec)]
                ctx.ob("group-closed", "pair:%s" % f.name, bool(twins), c.where, "opens a group but no counterpart closes it")
                continue
            for oc, ek, bb, must, may in L.explore(f, [c.bb]):
                ctx.ob("group-closed", "exit:%s:%s" % (f.name, ek if ek != "?" else "ok"), "END" in must, c.where,
                       "the undo group opened here is still open when the function returns %s" % ("an error" if ek == "err" else ""))
    ctx.floor("group-closed", 2)
    return ctx.finish(explanation="Exit-state exploration from every group-opening call in the document API.")


def only_constructing(ctx, f):
    """Private function called only while a brand-new document is being built."""
    cs = ctx.m.callers(f)
    return bool(cs) and not f.exported and all(creates_store(ctx, g) for g in cs)


def txn_owners(ctx, kind):
    """Functions that open a write transaction themselves and are not mere wrappers of the opening."""
    out = []
    for f in ctx.m.fns.values():
        bs = [c for c in f.calls if not f.blocks[c.bb].cleanup and kind(c) == "BEGIN"]
        if not bs:
            continue
        ks = {kind(c) for c in f.calls if not f.blocks[c.bb].cleanup} - {None}
        if ks == {"BEGIN"} and all(kind_is_wrapper(ctx, f, kind) for _ in (0,)):
            continue
        out.append((f, bs))
    return out


def kind_is_wrapper(ctx, f, kind):
    """All callers treat f as BEGIN: f keeps the opened transaction in its receiver."""
    return f.trait is not None and f.trait.endswith("CommandUnitOfWork") or f.short in ("begin_transaction", "begin_write_transaction")


def C04(ctx):
    m = ctx.m
    ctx.rule("no-write-outside-transaction", "nothing reachable from a command, a background operation or the public API mutates document state while no write transaction is open")
    ctx.rule("committed", "a function that opens a write transaction returns success only after the transaction was committed")
    ctx.rule("commit-last", "after a successful commit nothing can fail any more, and a failed commit is reported as an error")
    ctx.rule("fail-aborts", "an error exit never goes through a commit of the failed work")
    T = TxnAnalysis(ctx)
    types = set(urc_types(ctx))
    ctx.anchor(len(types) >= 30, "undoable command types")
    mw = ctx.may_write()
    roots = []
    for f in m.fns.values():
        if f.kind == "closure" or not (mw.get(f.uid, set()) - TRANSIENT):
            continue
        if f.self_ty in types and (f.trait == URC or f.exported or f.short.startswith("execute")):
            if f.trait is None and f.short == "new":
                continue
            roots.append(("command", f))
        elif f.trait and f.trait.endswith("LongOperation"):
            roots.append(("background", f))
        elif f.crate in ("text_document", "text_document_frontend", "cli_bin") or f.isbin:
            if not creates_store(ctx, f) and not only_constructing(ctx, f):
                roots.append(("api", f))
    for k, f in roots:
        ctx.ob("no-write-outside-transaction", "%s:%s" % (k, f.name), not T.ud.get(f.uid), f.loc,
               "document state can be changed with no transaction open: %s" % T.chain(f))
    kind = T.kind
    for f, bs in txn_owners(ctx, kind):
        def gen(i):
            c = f.call_at(i)
            if c is None or f.blocks[i].cleanup:
                return ()
            k = kind(c)
            return {k} if k else ()
        for c in bs:
            for oc, ek, bb, must, may in explore(f, [c.bb], gen, call=c):
                if oc == "err":
                    continue
                if ek != "err":
                    ctx.ob("committed", "committed:%s" % f.name, "COMMIT" in must and "ROLLBACK" not in may, c.where,
                           "success can be returned although the transaction opened here was not committed on that path: the work is silently rolled back")
        for i, b in enumerate(f.blocks):
            c = f.call_at(i)
            if c is None or b.cleanup or kind(c) != "COMMIT":
                continue
            for oc, ek, bb, must, may in explore(f, [i], gen, call=c):
                if oc == "err":
                    ctx.ob("commit-last", "commit-error:%s" % f.name, ek == "err", c.where, "a failed commit is reported as success")
                elif ek == "err":
                    ctx.ob("fail-aborts", "error-after-commit:%s" % f.name, False, c.where,
                           "the function can still return an error after this commit succeeded: the caller is told the edit failed but the document has changed")
                else:
                    ctx.ob("commit-last", "commit:%s" % f.name, True, c.where)
    ctx.floor("no-write-outside-transaction", 300)
    ctx.floor("committed", 105)
    ctx.floor("commit-last", 200)
    return ctx.finish(explanation="Interprocedural typestate (transaction open / not open) over all functions that may write document state; "
                      "outcome-tracked exploration from every begin and every commit.")


CUOW = "common::database::CommandUnitOfWork"
SAVEPOINT = {"create": STORE + "::create_savepoint", "restore": STORE + "::restore_savepoint",
             "discard": STORE + "::discard_savepoint"}


def sp_labeler(ctx):
    inv = {v: k for k, v in SAVEPOINT.items()}

    def lab(c, a):
        n = c.callee.name or ""
        out = set()
        if n in inv:
            out.add("sp." + inv[n])
        # transaction operations themselves
        for short in ("begin_write_transaction", "begin_read_transaction", "commit", "rollback", "create_savepoint", "restore_to_savepoint"):
            if n == TXN + "::" + short:
                out.add("txn." + short)
        return out
    return Labeler(ctx, lab, lambda s: False, lambda c, t: t.crate != "common" or t.self_ty in (TXN, STORE) or t.kind != "method" or True)


def C05(ctx):
    m = ctx.m
    ctx.rule("begin-saves", "beginning a write transaction takes a savepoint and keeps it in the transaction")
    ctx.rule("rollback-restores", "rollback, and dropping an unfinished transaction, restore the kept savepoint whenever one is kept; a commit never restores it and lets go of it")
    ctx.rule("savepoint-full", "a savepoint stores a full snapshot of the store and restoring it puts that same snapshot back")
    ctx.rule("uow-delegates", "every unit of work's begin / commit / rollback / restore reaches the matching operation of its own transaction on success")
    t = ctx.anchor(m.adts.get(TXN), "transaction type")
    if not t:
        return ctx.finish()
    spf = [f[0] for f in t.variants[0][1] if f[1].startswith("core::option::Option")]
    ctx.anchor(spf, "savepoint field of the transaction")
    SP = spf[0] if spf else "savepoint"
    L = sp_labeler(ctx)
    for f in m.fns.values():
        if f.self_ty != TXN or f.kind == "closure":
            continue
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == "=" and s[3][0] == "agg" and s[3][1] == TXN:
                    pv = ctx.prov(f)
                    d = dict(zip(s[3][3], s[3][4]))
                    src = pv.op(d[SP])
                    wr = any(x[0] == "const" and x[1] in ("true", "const true") for x in pv.op(d["is_write"])) if "is_write" in d else None
                    has = ("call", SAVEPOINT["create"]) in src
                    if f.short == "begin_write_transaction" or wr:
                        ctx.ob("begin-saves", "begin:%s" % f.short, has, "%s:%d" % (f.file, s[1]),
                               "the write transaction is built without a fresh savepoint of the store")
                    else:
                        ctx.ob("begin-saves", "begin:%s" % f.short, not has, "%s:%d" % (f.file, s[1]), "a read transaction keeps a savepoint and would roll the store back when dropped")
        if f.short in ("rollback", "drop", "commit"):
            want = "sp.discard" if f.short == "commit" else "sp.restore"
            never = "sp.restore" if f.short == "commit" else "sp.discard"
            mu, my = L.fn(f)
            ctx.ob("rollback-restores", "%s-may:%s" % (f.short, want), want in my, f.loc,
                   "%s never reaches %s" % (f.short, want))
            ctx.ob("rollback-restores", "%s-never:%s" % (f.short, never), never not in my or (f.short != "commit"), f.loc,
                   "%s can reach %s" % (f.short, never))
            # on paths where the kept savepoint is Some, the operation is certain
            for g in local_group(ctx, f):
                for c in g.calls:
                    if g.blocks[c.bb].cleanup or not (c.callee.name or "").endswith("Option::take"):
                        continue
                    if not any(s[0] == "field" and s[1] == TXN and s[2] == SP for s in ctx.prov(g).op(c.args[0])):
                        continue
                    res = L.explore(g, [c.bb], call=c)
                    some = [r for r in res if r[0] in ("ok", None) and r[1] != "err"]
                    ctx.ob("rollback-restores", "%s-when-kept" % f.short, bool(some) and all(want in r[3] for r in some), c.where,
                           "a path on which a savepoint is kept finishes without %s" % want)
            # reaching the take at all on successful exits
            def taken(c, a):
                n = c.callee.name or ""
                return {"TAKE"} if n.endswith("Option::take") and a and any(s[0] == "field" and s[1] == TXN and s[2] == SP for s in a[0]) else ()
            LT = Labeler(ctx, taken, lambda s: s[0] == "field" and s[1] == TXN)
            ctx.ob("rollback-restores", "%s-takes" % f.short, "TAKE" in LT.fn(f)[0], f.loc,
                   "%s can succeed without consuming the kept savepoint" % f.short)
            # the savepoint restored/discarded is the kept one
            for g in local_group(ctx, f):
                for c in g.calls:
                    if c.callee.name == SAVEPOINT[want[3:]] and not g.blocks[c.bb].cleanup:
                        src = ctx.prov(g).op(c.args[1])
                        ok = any(s[0] == "field" and s[1] == TXN and s[2] == SP for s in src) or any(s[0] in ("arg", "cap") for s in src) and g is not f
                        ctx.ob("rollback-restores", "%s-own" % f.short, ok, c.where, "another savepoint than the transaction's own is used")
        if f.short == "restore_to_savepoint":
            ctx.ob("rollback-restores", "restore-to", "sp.restore" in L.fn(f)[0], f.loc, "success without restoring the savepoint")
            for c in f.calls:
                if c.callee.name == SAVEPOINT["restore"]:
                    ctx.ob("rollback-restores", "restore-to-own", any(s == ("arg", 2) for s in ctx.prov(f).op(c.args[1])), c.where,
                           "another savepoint than the requested one is restored")
    ctx.floor("begin-saves", 2)
    ctx.floor("rollback-restores", 12)
    # the savepoint itself
    snaps = lambda c: m.targets(c.callee) and any(t.self_ty == STORE and SNAP in t.local_ty(0) for t in m.targets(c.callee))
    for f in m.fns.values():
        if f.self_ty != STORE or f.kind == "closure":
            continue
        if f.short == "create_savepoint":
            grp = [c for g in local_group(ctx, f) for c in g.calls if not g.blocks[c.bb].cleanup]
            ins = [(c, c.args[1], c.args[2]) for c in grp if (c.callee.name or "").endswith("HashMap::insert")]
            ent = [c for c in grp if (c.callee.name or "").endswith("HashMap::entry")]
            if not ins and ent:
                ins = [(c, ent[0].args[1], c.args[1]) for c in grp if "Entry" in (c.callee.name or "") and c.callee.short in ("or_insert", "insert_entry", "insert") and len(c.args) > 1]
            snaps_ = lambda c, v: any(s[0] == "call" and s[1] == STORE + "::snapshot" for s in ctx.prov(c.fn).op(v)) and not bslice(c.fn, v).shorts() & {"unwrap_or_else", "unwrap_or", "or", "or_else", "get", "values"}
            ok = bool(ins) and all(snaps_(c, v) for c, _, v in ins)
            ctx.ob("savepoint-full", "create", ok, f.loc, "the savepoint is not a full snapshot of the store")
            key = [ctx.prov(c.fn).op(k) for c, k, _ in ins]
            ret = ctx.prov(f).local(0)
            ok = bool(key) and all({s for s in k if s[0] == "field"} == {s for s in ret if s[0] == "field"} for k in key)
            ctx.ob("savepoint-full", "create-id", ok, f.loc, "the id returned is not the id the snapshot is stored under")
            # snapshot must be taken (not only inserted) before returning, id advanced
            inc = any(o.startswith("Add") for g in local_group(ctx, f) for b in g.blocks for s in b.stmts if s[0] == "=" and s[3][0] == "bin" for o in [s[3][1]])
            ctx.ob("savepoint-full", "create-fresh", inc, f.loc, "the savepoint id is never advanced: savepoints would overwrite each other")
        if f.short == "restore_savepoint":
            rs = [c for g in local_group(ctx, f) for c in g.calls if c.callee.name == STORE + "::restore" and not g.blocks[c.bb].cleanup]
            ctx.ob("savepoint-full", "restore", bool(rs), f.loc, "restoring a savepoint does not put the stored snapshot back (counters included)")
            for c in rs:
                src = ctx.prov(c.fn).op(c.args[1])
                ctx.ob("savepoint-full", "restore-own", any(s[0] == "field" and s[1] == STORE and s[2] == "savepoints" for s in src) or c.fn is not f,
                       c.where, "what is restored does not come from the stored savepoints")
            other = [c for g in local_group(ctx, f) for c in g.calls if c.callee.name == STORE + "::restore_without_counters" and c.fn.name != STORE + "::restore"]
            ctx.ob("savepoint-full", "restore-counters", not other, f.loc, "rollback must also rewind the id counters")
    ctx.floor("savepoint-full", 5)
    # unit-of-work delegation
    want = {"begin_transaction": "txn.begin_write_transaction", "commit": "txn.commit", "rollback": "txn.rollback",
            "create_savepoint": "txn.create_savepoint", "restore_to_savepoint": "txn.restore_to_savepoint"}
    for f in m.fns.values():
        if f.kind == "closure" or not f.trait or not f.trait.endswith("::CommandUnitOfWork") or f.short not in want:
            continue
        mu, my = L.fn(f)
        w = want[f.short]
        ctx.ob("uow-delegates", "%s::%s" % (f.self_ty, f.short), w in mu, f.loc,
               "%s can succeed without performing %s on its transaction" % (f.short, w[4:]))
        others = {x for x in my if x.startswith("txn.")} - {w}
        ctx.ob("uow-delegates", "%s::%s-only" % (f.self_ty, f.short), not others, f.loc,
               "%s also performs %s" % (f.short, sorted(others)))
        if f.short == "begin_transaction":
            # the transaction is kept
            kept = stores_into_self(ctx, f, TXN)
            ctx.ob("uow-delegates", "%s::kept" % f.self_ty, kept, f.loc,
                   "the transaction that was begun is not kept in the unit of work: it is dropped and rolled back at once")
        if f.short == "restore_to_savepoint":
            tk = [c for c in f.calls if (c.callee.name or "").endswith("Option::take")]
            if tk:
                ctx.ob("uow-delegates", "%s::kept-after-restore" % f.self_ty, stores_into_self(ctx, f, TXN), f.loc,
                       "the transaction is taken out to restore a savepoint and not put back: it is rolled back when dropped")
    ctx.floor("uow-delegates", 250)
    return ctx.finish(explanation="Path exploration of the transaction type, the savepoint functions and every implementation of the command unit of work.")


def stores_into_self(ctx, f, ty):
    """Some non-cleanup assignment stores a value of the given type into a field of self."""
    for g in local_group(ctx, f):
        for b in g.blocks:
            if b.cleanup:
                continue
            for s in b.stmts:
                if s[0] == "=" and len(s[2]) > 1 and ty in slice_types(ctx, g, s[3]):
                    if s[2][0] == 1 or ("arg", 1) in ctx.prov(g).local(s[2][0]):
                        return True
        for c in g.calls:
            n = (c.callee.name or "").rsplit("::", 1)[-1]
            if n in ("replace", "insert", "get_or_insert") and len(c.args) > 1 and any(s == ("arg", 1) for s in ctx.prov(g).op(c.args[0])):
                if any(ty in g.local_ty(op_place(a)[0]) for a in c.args[1:] if op_place(a)):
                    return True
            if len(c.dest) > 1 and c.dest[0] == 1 and any(ty in t.local_ty(0) for t in ctx.m.targets(c.callee)):
                return True
    return False


def slice_types(ctx, g, rv):
    out = ""
    seen = set()
    whole, part = defs(g)

    def op(o):
        nonlocal out
        p = op_place(o)
        if not p or p[0] in seen:
            return
        seen.add(p[0])
        out += " " + g.local_ty(p[0])
        for d in whole.get(p[0], []):
            for x in (rv_operands(d[2]) if d[1] == "rv" else d[2].args):
                op(x)
    for o in rv_operands(rv):
        op(o)
    return out
