"""C06: change notifications follow commits."""
from r_cap import *

EVENT = "common::event::Event"
ORIGIN = "common::event::Origin"
SEND = HUB + "::send_event"
LONGMGR = "common::long_operation::LongOperationManager"


def is_send(c):
    return c.callee.name == SEND


def event_aggs(fn, c):
    """Event variants that may be sent by this call, as (enum, variant), from the function's own constructions."""
    sl = bslice(fn, *c.args[1:])
    return {a for a in sl.aggs if a[0].startswith("common::event::")}


def sends(ctx):
    return [c for f in ctx.m.fns.values() for c in f.calls if not f.blocks[c.bb].cleanup and is_send(c)]


def buf_op(c):
    n = c.callee.name or ""
    if n.startswith(BUF + "::"):
        return n.rsplit("::", 1)[-1]
    return None


def cuow_impls(ctx, meth):
    """Implementations of a unit of work's transaction method: command units of work and write units of work."""
    out = []
    for f in ctx.m.fns.values():
        if f.short == meth and f.trait and f.self_ty and f.kind != "closure" and f.self_ty not in (TXN,):
            if f.trait == CUOW or f.trait.endswith("::WriteUoW"):
                out.append(f)
    return out


def C06(ctx):
    m = ctx.m
    ctx.rule("commit-then-send", "a unit of work sends the queued notifications only after its transaction committed, and never after a failed commit")
    ctx.rule("commit-sends-all", "a successful commit hands every queued notification to the event hub")
    ctx.rule("rollback-discards", "rolling back (or restoring a savepoint) throws the queued notifications away and sends none of them")
    ctx.rule("begin-queues", "beginning a transaction starts the queueing of notifications")
    ctx.rule("none-inside", "between the begin and the commit of a transaction nothing sends a notification about the document directly")
    ctx.rule("feature-event", "a successful feature command announces itself exactly once, with its own event; a failed one does not")
    ctx.rule("undo-event", "undo and redo are announced only after they succeeded")

    def lab(c, a):
        r = []
        k = txn_kind(ctx, c)
        if k:
            r.append(k)
        if is_send(c):
            r.append("SEND")
        b = buf_op(c)
        if b:
            r.append("BUF." + b)
        if short(c) in ("into_iter", "drain", "for_each", "iter"):
            if any(s[0] == "call" and s[1] == BUF + "::flush" for s in (a[0] if a else ())):
                r.append("ITERFLUSH")
        return r
    L = Labeler(ctx, lab, keep=lambda s: s[0] == "field" or (s[0] == "call" and s[1].startswith(BUF)),
                enter=lambda c, t: t.self_ty not in (TXN, BUF, HUB) and not c.callee.virt)
    for f in cuow_impls(ctx, "commit"):
        txn = [c for c in f.calls if not f.blocks[c.bb].cleanup and ("COMMIT" in L.block(f, c.bb)[0])]
        if not txn:
            continue
        snd = [i for i, b in enumerate(f.blocks) if not b.cleanup and "SEND" in L.block(f, i)[1]]
        # one commit call decides
        for c in txn:
            bad = None
            for oc, ek, bb, mu, my in L.explore(f, [c.bb], call=c):
                if oc != "ok" and "SEND" in my:
                    bad = "notifications are sent although the commit %s" % ("failed" if oc else "may have failed")
            for i in snd:
                if i != c.bb and "COMMIT" not in labels_before(f, i, lambda j: L.block(f, j)[0]):
                    bad = "notifications are sent before the transaction is committed"
            ctx.ob("commit-then-send", f.self_ty, bad is None, f.loc, bad or "")
        good, why = True, ""
        for oc, ek, bb, mu, my in L.explore(f, [0], after=False):
            if ek == "err":
                continue
            if not ("BUF.flush" in mu and "SEND" in my):
                good, why = False, "a successful commit can return without sending the queued notifications"
            elif not sends_flushed(ctx, f):
                good, why = False, "what is sent after the commit is not what was queued"
        ctx.ob("commit-sends-all", f.self_ty, good, f.loc, why)
    for meth in ("rollback", "restore_to_savepoint"):
        for f in cuow_impls(ctx, meth):
            may = L.fn(f)[1]
            if not (has_buffer(ctx, f.self_ty)):
                continue
            good, why = True, ""
            for oc, ek, bb, mu, my in L.explore(f, [0], after=False):
                if ek == "err":
                    continue
                if not (mu & {"BUF.discard", "BUF.flush", "BUF.begin_buffering"}):
                    good, why = False, "the queued notifications survive the %s" % meth
                if "BUF.flush" in my and "SEND" in my and sends_flushed(ctx, f):
                    good, why = False, "queued notifications are sent by the %s" % meth
            if meth == "rollback" and "SEND" in may:
                good, why = False, "a rollback sends notifications"
            ctx.ob("rollback-discards", "%s::%s" % (f.self_ty, meth), good, f.loc, why)
    for f in cuow_impls(ctx, "begin_transaction"):
        if not has_buffer(ctx, f.self_ty):
            continue
        good = all("BUF.begin_buffering" in mu for oc, ek, bb, mu, my in L.explore(f, [0], after=False) if ek != "err")
        ctx.ob("begin-queues", f.self_ty, good, f.loc, "" if good else "a transaction can begin without queueing notifications: they would be lost")
    ctx.floor("commit-then-send", 30)
    ctx.floor("commit-sends-all", 30)
    ctx.floor("rollback-discards", 60)
    ctx.floor("begin-queues", 30)
    buffer_impl(ctx)
    none_inside(ctx)
    features(ctx)
    undo_events(ctx)
    return ctx.finish(explanation="Path exploration of every unit of work, feature controller and the undo manager; who-may-send rule over the call graph.")


def has_buffer(ctx, T):
    a = ctx.m.adts.get(T)
    return bool(a) and any(BUF in f[1] for v in a.variants for f in v[1])


def sends_flushed(ctx, f):
    """The event handed to the hub comes out of the flushed queue."""
    for g in local_group(ctx, f):
        for c in g.calls:
            if g.blocks[c.bb].cleanup or not is_send(c):
                continue
            sl = bslice(g, *c.args[1:])
            if BUF + "::flush" in sl.call_names():
                return True
            if g.kind == "closure" and any(a != 1 for a in sl.args):
                # the closure is run for each flushed event
                if any(k.callee.name == BUF + "::flush" for h in local_group(ctx, f) for k in h.calls):
                    return True
            if g is not f and sl.args:
                for h in ctx.m.callers(g):
                    for k in h.calls:
                        if g in ctx.m.targets(k.callee) and BUF + "::flush" in bslice(h, *k.args).call_names():
                            return True
    return False


def buffer_impl(ctx):
    """The queue itself: push keeps an event while queueing, flush hands all over, discard empties."""
    m = ctx.m
    ctx.rule("queue", "the queue keeps every event pushed while queueing, flush hands all of them over and empties it, discard and begin empty it")

    def lab(c, a):
        n = short(c)
        if a and any(s[:2] == ("field", BUF) and s[2] == "pending" for s in a[0]):
            if n in ("push", "push_back", "extend"):
                return {"PUSH"}
            if n in ("clear", "truncate"):
                return {"EMPTY"}
            if n in ("take", "replace", "drain", "split_off"):
                return {"TAKE", "EMPTY"}
        return ()

    def stmt(fn, s):
        if s[0] == "=" and proj_owned_fields(s[2])[-1:] == [(BUF, "pending")]:
            return {"EMPTY"}
        if s[0] == "=" and proj_owned_fields(s[2])[-1:] == [(BUF, "buffering")]:
            o = rv_operands(s[3])
            v = o[0].get("k", "") if o else ""
            return {"ON"} if "true" in v else {"OFF"} if "false" in v else ()
        return ()
    L = Labeler(ctx, lab, stmt=stmt)
    want = {"begin_buffering": {"EMPTY", "ON"}, "flush": {"TAKE", "EMPTY", "OFF"}, "discard": {"EMPTY", "OFF"}}
    for f in m.fns.values():
        if f.self_ty != BUF or f.trait or f.kind == "closure":
            continue
        if f.short in want:
            good = all(want[f.short] <= set(mu) for oc, ek, bb, mu, my in L.explore(f, [0], after=False))
            ctx.ob("queue", f.short, good, f.loc, "" if good else "%s must %s" % (f.short, " and ".join(sorted(want[f.short]))))
        elif f.short == "push":
            pushes = "PUSH" in L.fn(f)[1]
            # the only condition that may drop an event is the queueing flag
            bad = None
            for i, b in enumerate(f.blocks):
                if not b.cleanup and b.term[0] == "switch":
                    sl = bslice(f, b.term[2])
                    if not sl.fields <= {(BUF, "buffering")} or (not sl.fields and (sl.args or sl.calls)):
                        bad = i
            empt = "EMPTY" in L.fn(f)[1]
            ctx.ob("queue", "push", pushes and bad is None and not empt, f.loc, "pushed events can be dropped or the queue emptied while queueing")
    ctx.floor("queue", 4)


def none_inside(ctx):
    """Nothing sends directly while a transaction is open."""
    m = ctx.m
    # functions that may reach a direct send, not counting the transaction end points
    ends = {f.uid for meth in ("commit", "restore_to_savepoint") for f in cuow_impls(ctx, meth)}
    direct = {}
    for c in sends(ctx):
        if c.fn.uid in ends or root_fn(m, c.fn).uid in ends:
            continue
        ev = event_aggs(c.fn, c)
        if ev and all(a[0] in (EVENT, ORIGIN, "common::event::LongOperationEvent", "alloc::string::String") for a in ev) and \
                any(a[0] == "common::event::LongOperationEvent" for a in ev):
            continue
        direct.setdefault(c.fn.uid, c)
    reach = dict(direct)
    work = deque(direct)
    while work:
        u = work.popleft()
        for g in m.callers(m.fns[u]):
            if g.uid not in reach and g.uid not in ends:
                reach[g.uid] = None
                work.append(g.uid)
    kind = txn_labels(ctx)
    n = 0
    ta = TxnAnalysis.__new__(TxnAnalysis)
    ta.ctx, ta.kind, ta.pc = ctx, kind, {}
    for f in m.fns.values():
        ks = [c for c in f.calls if not f.blocks[c.bb].cleanup and kind(c) == "BEGIN"]
        if not ks or any(True for c in f.calls if False):
            continue
        if not any(kind(c) == "COMMIT" for c in f.calls):
            continue
        ins = ta.outstates(f)
        bad = None
        for c in f.calls:
            if f.blocks[c.bb].cleanup or "IN" not in ins.get(c.bb, ()) or kind(c):
                continue
            if is_send(c) and c.fn.uid in direct:
                bad = c
            for t in m.targets(c.callee):
                if t.uid in reach:
                    bad = c
        n += 1
        ctx.ob("none-inside", f.name, bad is None, bad.where if bad else f.loc,
               "" if bad is None else "%s sends a notification before the transaction is committed" % short(bad))
    # repositories and units of work only queue
    for u, c in direct.items():
        f = m.fns[u]
        layer = f.self_ty and (f.self_ty.endswith("Repository") or f.self_ty.endswith("UnitOfWork") or f.self_ty.endswith("UoW"))
        rr = root_fn(m, f)
        layer = layer or (rr.self_ty or "").endswith(("Repository", "UnitOfWork", "UoW"))
        if layer and only_from(m, rr, ends):
            continue
        ctx.ob("none-inside", "layer:%s" % f.name, not layer, c.where, "a repository or unit of work sends a notification directly instead of queueing it" if layer else "")
    ctx.floor("none-inside", 100)


def only_from(m, f, ends, depth=4):
    """f is called, and only from the transaction end points (possibly through helpers)."""
    cs = m.callers(f)
    return bool(cs) and depth > 0 and all(root_fn(m, g).uid in ends or only_from(m, root_fn(m, g), ends, depth - 1) for g in cs)


def root_fn(m, f):
    while f.kind == "closure" and f.parent in m.fns:
        f = m.fns[f.parent]
    return f


def camel(s):
    return "".join(p.capitalize() for p in s.split("_"))


def features(ctx):
    m = ctx.m
    feat_enums = set()
    for v in m.adts[ORIGIN].variants:
        t = v[1][0][1] if v[1] else ""
        if t in m.adts and all(not x[1] for x in m.adts[t].variants) and v[0].startswith("Document"):
            feat_enums.add(t)
    ctx.anchor(len(feat_enums) >= 5, "feature event enums")
    types = {f.self_ty for f in m.fns.values() if f.self_ty and f.self_ty.endswith("UseCase") and "::use_cases::" in f.self_ty and not f.self_ty.startswith("common::")}

    def is_exec(c):
        for t in m.targets(c.callee):
            if t.self_ty in types and t.trait is None and not is_ctor(t, t.self_ty) and t.kind != "closure":
                return t.self_ty
        return None

    def lab(c, a):
        r = []
        if is_send(c):
            r.append("SEND")
        return r
    L = Labeler(ctx, lab, enter=lambda c, t: t.crate == c.fn.crate and is_exec(c) is None and not c.callee.virt)
    done = set()
    for f in m.fns.values():
        if f.self_ty in types or f.self_ty and f.self_ty.endswith("UseCase"):
            continue
        for c in f.calls:
            if f.blocks[c.bb].cleanup:
                continue
            T = is_exec(c)
            if not T or root_fn(m, f).self_ty in types:
                continue
            if "SEND" not in L.fn(f)[1] and not feature_controller(f):
                continue
            bad = None
            n = 0
            for oc, ek, bb, mu, my in L.explore(f, [c.bb], call=c):
                if oc == "err" or (oc is None and ek == "err"):
                    if "SEND" in my:
                        bad = "a failed command is announced"
                elif ek != "err" and "SEND" not in mu:
                    bad = "a successful command can return without announcing itself"
            pre = labels_may_before(f, c.bb, lambda i: L.block(f, i)[1])
            if "SEND" in pre:
                bad = "the command is announced before it ran"
            # exactly once
            sb = [i for i, b in enumerate(f.blocks) if not b.cleanup and "SEND" in L.block(f, i)[1]]
            for i in sb:
                for j in sb:
                    if j in reachable_from(f, i):
                        bad = "the command can be announced twice"
            ctx.ob("feature-event", "%s:%s" % (f.name, T.rsplit("::", 1)[-1]), bad is None, c.where, bad or "")
            # which event
            want = T.rsplit("::", 1)[-1]
            want = want[:-7] if want.endswith("UseCase") else want
            got = set()
            for g in local_group(ctx, f):
                for b in g.blocks:
                    if b.cleanup:
                        continue
                    for s in b.stmts:
                        if s[0] == "=" and s[3][0] == "agg" and s[3][1] in feat_enums:
                            if g is f or True:
                                got.add(s[3][2])
            ctx.ob("feature-event", "%s:which" % f.name, got == {want}, f.loc,
                   "" if got == {want} else "the command announces %s instead of %s" % (sorted(got), want))
    ctx.floor("feature-event", 60)


def feature_controller(f):
    return f.file.endswith("_controller.rs") and "direct_access" not in f.file and f.trait is None and f.kind != "closure" and \
        any("EventHub" in f.local_ty(i) for i in range(1, f.nargs + 1)) and not any("LongOperationManager" in f.local_ty(i) for i in range(1, f.nargs + 1))


def labels_may_before(fn, bb, gen):
    out = set()
    seen = set()
    todo = list(fn.preds()[bb])
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        out |= set(gen(i) or ())
        todo += list(fn.preds()[i])
    return out


def undo_events(ctx):
    m = ctx.m
    UE = "common::event::UndoRedoEvent"

    def sent(c):
        return {v for a, v in event_aggs(c.fn, c) if a == UE}

    def lab(c, a):
        for mth in ("undo", "redo"):
            if urc_call(c, mth):
                return {"cmd." + mth}
        if is_send(c):
            return {"SEND." + v for v in sent(c)}
        # a helper that is told which event to send
        if any(passes_on(t) for t in m.targets(c.callee)):
            return {"SEND." + v for a, v in event_aggs(c.fn, c) if a == UE}
        return ()

    def passes_on(t):
        return t.crate == "common" and any(t.local_ty(i).lstrip("&") == UE for i in range(1, t.nargs + 1)) and any(
            is_send(k) and any(t.local_ty(i).lstrip("&") == UE for i in bslice(t, *k.args[1:]).args) for k in t.calls if not t.blocks[k.bb].cleanup)

    L = Labeler(ctx, lab, enter=lambda c, t: c.callee.tr != URC and t.crate == "common")
    for f in m.fns.values():
        if f.self_ty != MGR or f.trait or f.kind == "closure":
            continue
        for c in f.calls:
            if f.blocks[c.bb].cleanup:
                continue
            for mth, ev in (("undo", "Undone"), ("redo", "Redone")):
                if not urc_call(c, mth):
                    continue
                src = ctx.prov(f).op(c.args[0])
                if not any(s[0] == "field" and s[1] == STACKDATA for s in src):
                    continue
                bad = None
                for oc, ek, bb, mu, my in L.explore(f, [c.bb], call=c):
                    s = {x[5:] for x in my if x.startswith("SEND.")}
                    if oc == "err" and s:
                        bad = "a failed %s is announced" % mth
                    if oc == "ok" and ev not in s:
                        bad = "a successful %s is not announced as %s" % (mth, ev)
                    if oc == "ok" and s - {ev}:
                        bad = "a successful %s is announced as %s" % (mth, sorted(s - {ev}))
                pre = {x for x in labels_may_before(f, c.bb, lambda i: L.block(f, i)[1]) if x.startswith("SEND.")}
                if pre:
                    bad = "the %s is announced before it ran" % mth
                ctx.ob("undo-event", "%s:%s" % (f.name, mth), bad is None, c.where, bad or "")
    ctx.floor("undo-event", 2)
