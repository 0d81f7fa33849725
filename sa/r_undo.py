"""Undo/redo, transactions, unit-of-work and snapshot rules."""
import re
from gates import gslice
from slices import bslice
from core import *

URC = "common::undo_redo::UndoRedoCommand"
TXN = "common::database::transactions::Transaction"
MGR = "common::undo_redo::UndoRedoManager"
STACKDATA = "common::undo_redo::StackData"
TRANSIENT = {"savepoints", "next_savepoint_id"}  # bookkeeping of the savepoints themselves


def doc_fields(ctx):
    a = ctx.anchor(ctx.m.adts.get(STORE), "store type")
    return [f for f in a.fields if f not in TRANSIENT] if a else []


# ------------------------------------------------------------------ C01
def transfers(ctx, fn, depth=3):
    """[(bb, store_field, snap_fields, where)] assignments `*store.F.write() = snap.G`."""
    m = ctx.m
    pv = ctx.prov(fn)
    out = []

    def sf(src):
        return {x[2] for x in src if x[0] == "field" and x[1] == STORE}

    def nf(src):
        return {x[2] for x in src if x[0] == "field" and x[1] == SNAP}

    for i, b in enumerate(fn.blocks):
        if b.cleanup:
            continue
        for s in b.stmts:
            if s[0] == "=" and "*" in s[2][1:]:
                dst = pv.place(s[2][:1])
                src = pv.rvalue(s[3], frozenset())
                # only the value actually written counts
                w = sf(dst)
                if len(w) == 1 and any(x[0] == "call" and "RwLock" in x[1] and x[1].endswith("::write") for x in dst):
                    out.append((i, w.pop(), nf(src), "%s:%d" % (fn.file, s[1])))
        c = fn.call_at(i)
        if c is not None and c.callee.short in ("clone_from", "replace") and len(c.args) == 2 and not m.targets(c.callee):
            dst = pv.op(c.args[0])
            w = sf(dst)
            if len(w) == 1 and any(x[0] == "call" and "RwLock" in x[1] and x[1].endswith("::write") for x in dst):
                out.append((i, w.pop(), nf(pv.op(c.args[1])), c.where))
        if c is not None and m.targets(c.callee) and len(c.args) >= 2:
            per = [pv.op(a) for a in c.args]
            st = [sf(x) for x in per if sf(x)]
            sn = [nf(x) for x in per if nf(x)]
            if len(st) == 1 and len(st[0]) == 1 and len(sn) == 1:
                # helper(&store.F, snap.G)
                if any(_writes_lock(ctx, t) for t in m.targets(c.callee)):
                    out.append((i, list(st[0])[0], sn[0], c.where))
            elif depth and sn == [] and not st:
                # helper(store, snap): recurse
                for t in m.targets(c.callee):
                    if t is not fn and _takes(t, SNAP) and _takes(t, STORE):
                        for x in transfers(ctx, t, depth - 1):
                            fl = flag_consts(t, c)
                            tm = must_blocks_with(t, fl) if fl else ctx_must_blocks(t)
                            if x[0] in tm:
                                out.append((i, x[1], x[2], x[3]))
    return out


def _takes(fn, ty):
    return any(ty in fn.local_ty(l) for l in range(1, fn.nargs + 1))


def _writes_lock(ctx, t):
    for u in ctx.m.reach(t):
        for c in ctx.m.fns[u].calls:
            n = c.callee.name
            if n.endswith("RwLock::write"):
                return True
    return False


def flag_consts(t, c):
    """{parameter: bool} of the constant flags that call c passes to t."""
    out = {}
    for i, a in enumerate(c.args):
        if t.local_ty(i + 1) == "bool" and op_place(a) is None and a.get("k") in ("true", "false", "const true", "const false"):
            out[i + 1] = a["k"].endswith("true")
    return out


def must_blocks_with(fn, flags):
    return _must_blocks(fn, flags)


def live_succ(fn, i, flags):
    t = fn.blocks[i].term
    if flags and t[0] == "switch":
        p = op_place(t[2])
        for _ in range(6):
            if not p or len(p) > 1 or p[0] in flags:
                break
            ds = defs(fn)[0].get(p[0], [])
            if len(ds) != 1 or ds[0][1] != "rv" or ds[0][2][0] != "use":
                break
            p = op_place(ds[0][2][1])
        if p and len(p) == 1 and p[0] in flags:
            for v, b in t[3]:
                if int(v) == int(flags[p[0]]):
                    return [b]
            return [t[4]] if t[4] is not None else []
    return fn.blocks[i].succ


def ctx_must_blocks(fn):
    """Blocks on every entry->return path (non-unwind)."""
    r = getattr(fn, "_mb", None)
    if r is None:
        r = fn._mb = _must_blocks(fn, None)
    return r


def _must_blocks(fn, flags):
    if True:
        ins = {0: frozenset([0])}
        work = deque([0])
        while work:
            i = work.popleft()
            for s in live_succ(fn, i, flags):
                n = ins[i] | {s}
                if s not in ins:
                    ins[s] = frozenset(n)
                    work.append(s)
                else:
                    k = (ins[s] & ins[i]) | {s}
                    if k != ins[s]:
                        ins[s] = frozenset(k)
                        work.append(s)
        r = None
        for x in fn.returns():
            if x in ins:
                r = ins[x] if r is None else r & ins[x]
        r = r or frozenset()
    return r


def C01(ctx):
    m = ctx.m
    ctx.rule("capture", "every document-state field of the store is copied into the same field of a snapshot")
    ctx.rule("restore", "every restore writes each captured field back from the same field of the snapshot on every path; "
             "the undo restore leaves the id counters alone, the rollback restore resets them too")
    fields = doc_fields(ctx)
    snap = ctx.anchor(m.adts.get(SNAP), "snapshot type")
    if not fields or not snap:
        return ctx.finish()
    for f in fields:
        ctx.ob("capture-field", "snapshot-has-field:%s" % f, f in snap.fields, snap.file,
               "store field `%s` holds document state but the snapshot type has no field of that name" % f)
    builders = 0
    for fn in m.fns.values():
        if fn.trait:  # derived Clone/Default
            continue
        for i, b in enumerate(fn.blocks):
            for s in b.stmts:
                if s[0] == "=" and s[3][0] == "agg" and s[3][1] == SNAP:
                    builders += 1
                    pv = ctx.prov(fn)
                    for n, o in zip(s[3][3], s[3][4]):
                        src = {x[2] for x in pv.op(o) if x[0] == "field" and x[1] == STORE}
                        ctx.ob("capture", "capture:%s:%s" % (fn.name, n), src == {n}, "%s:%d" % (fn.file, s[1]),
                               "snapshot field `%s` is filled from store field(s) %s" % (n, sorted(src) or "none"))
                        part = gslice(ctx, fn, o).shorts() & {"filter", "filter_map", "take", "skip", "retain", "take_while", "skip_while", "step_by", "truncate", "map_while", "drain", "find", "remove", "clear"}
                        ctx.ob("capture", "capture-whole:%s:%s" % (fn.name, n), not part, "%s:%d" % (fn.file, s[1]),
                               "snapshot field `%s` is only a selection (%s) of the store field" % (n, sorted(part)))
    ctx.floor("capture", 26)
    # restore functions: functions taking the store and a snapshot, that transfer fields
    rest = []
    for fn in m.fns.values():
        if fn.kind == "closure" or not (_takes(fn, STORE) and _takes(fn, SNAP)):
            continue
        if fn.self_ty and fn.self_ty != STORE and fn.self_ty != SNAP:
            continue
        tr = transfers(ctx, fn)
        if len(tr) >= 4:
            rest.append((fn, tr))
    entry_full, entry_undo, flagged = set(), set(), set()
    for fn, tr in rest:
        must = ctx_must_blocks(fn)
        got = defaultdict(set)
        for bb, f, g, w in tr:
            ctx.ob("restore-pair", "restore:%s:%s" % (fn.name, f), g == {f}, w,
                   "store field `%s` is restored from snapshot field(s) %s" % (f, sorted(g) or "none"))
            if bb in must:
                got[f].add(w)
        for f in fields:
            if f == "counters":
                continue
            ctx.ob("restore-field", "restore-all:%s:%s" % (fn.name, f), f in got, fn.loc,
                   "restore function does not write back store field `%s` on every path" % f)
        if "counters" not in got and any(f == "counters" for _, f, _, _ in tr) and any(fn.local_ty(i) == "bool" for i in range(1, fn.nargs + 1)):
            flagged.add(fn.uid)  # restores the counters on request: judged at its callers
            continue
        (entry_full if "counters" in got else entry_undo).add(fn.uid)
    # which restore is used by whom
    undo_roots = [f for f in m.fns.values() if f.trait == URC and f.short == "undo"]
    txn = [f for f in m.fns.values() if f.self_ty == TXN and f.short in ("rollback", "drop", "restore_to_savepoint")]
    rs = {f.uid for f, _ in rest} - flagged
    nu = 0
    for f in undo_roots:
        # stop at transaction rollback (drop edges are not calls)
        reach = m.reach(f, stop=lambda g: g.self_ty == TXN and g.short in ("rollback", "restore_to_savepoint"))
        hit = rs & set(reach)
        if hit:
            nu += 1
            bad = hit & entry_full
            ctx.ob("undo-restore", "undo-keeps-counters:%s" % f.self_ty, not bad, f.loc,
                   "undo reaches a restore that also rewinds the id counters: %s" % [m.fns[b].name for b in bad])
    ctx.floor("undo-restore", 20)
    for f in txn:
        hit = rs & set(m.reach(f, stop=lambda g: g.uid in entry_full))
        ctx.ob("rollback-restore", "rollback-full:%s" % f.name, bool(hit & entry_full) and not (hit & entry_undo), f.loc,
               "rollback must restore the complete store, id counters included")
    ctx.floor("rollback-restore", 3)
    ctx.floor("restore-pair", 25)
    return ctx.finish(explanation="Field-by-field provenance of snapshot construction and of every restore function, "
                      "and call-graph reachability from undo/rollback to the right restore.")


# ------------------------------------------------------------------ undo manager state machine
def urc_call(c, meth):
    return c.callee.tr == URC and c.callee.decl.endswith("::" + meth) or (
        c.callee.decl == URC + "::" + meth)


def stack_labels(ctx):
    """Labeler for operations on the undo/redo vectors and on recorded commands."""
    OPS = {"push": "push", "pop": "pop", "clear": "clear", "append": "push", "extend": "push", "insert": "push",
           "drain": "clear", "truncate": "clear", "split_off": "clear", "take": "clear", "replace": "clear",
           "remove": "pop", "swap_remove": "pop"}

    def lab(c, a):
        for mth in ("undo", "redo", "merge", "can_merge"):
            if urc_call(c, mth):
                return {"cmd." + mth}
        n = c.callee.name or c.callee.decl
        sh = n.rsplit("::", 1)[-1]
        if a and sh in OPS and not ctx.m.targets(c.callee):
            fl = {s[2] for s in a[0] if s[0] == "field" and s[1] == STACKDATA and s[2] in ("undo_stack", "redo_stack")}
            if len(fl) == 1:
                return {"%s.%s" % (OPS[sh], fl.pop())}
            if not fl and any(s[0] == "field" and s[1] == MGR and s[2] == "stacks" for s in a[0]) and sh in ("clear",):
                return {"clear.undo_stack", "clear.redo_stack"}
        return ()

    def stmt(fn, s):
        # `stack.redo_stack = Vec::new()` / `*stack = StackData::default()`
        if s[0] == "=" and len(s[2]) > 1:
            p = s[2]
            last = p[-1]
            if isinstance(last, list) and last[0] == "f" and last[3] == STACKDATA:
                return {"clear." + last[2]}
            if last == "*" and base_ty(fn.local_ty(p[0])) == STACKDATA:
                return {"clear.undo_stack", "clear.redo_stack"}
        return ()

    keep = lambda s: s[0] == "field" and s[1] in (STACKDATA, MGR)
    # virtual command calls are events, not helpers
    return Labeler(ctx, lab, keep, lambda c, t: c.callee.tr != URC, stmt)


def C08(ctx):
    m = ctx.m
    ctx.rule("undo-moves", "after a successful command undo the command goes to the redo history and nowhere else; after a failed one it goes back to the undo history")
    ctx.rule("redo-moves", "the mirror image for redo")
    ctx.rule("record-clears-redo", "every path that adds a new command to the undo history (push or merge) also clears the redo history")
    ctx.rule("composite-order", "a group undoes its commands last-to-first and redoes them first-to-last")
    ctx.anchor(m.adts.get(STACKDATA), "stack data type")
    L = stack_labels(ctx)
    mgr = [f for f in m.fns.values() if f.crate == "common" and "undo_redo" in f.file and not f.file.endswith("commands.rs")]
    in_cmd = lambda f: f.trait == URC
    for f in mgr:
        if in_cmd(f):
            continue
        for c in f.calls:
            if f.blocks[c.bb].cleanup:
                continue
            for kind, dst, back in (("undo", "redo_stack", "undo_stack"), ("redo", "undo_stack", "redo_stack")):
                if not urc_call(c, kind):
                    continue
                # popped from the right history first
                src = ctx.prov(f).op(c.args[0])
                from_comp = any(s[0] == "field" and s[1].endswith("CompositeCommand") for s in src) or \
                    any(s[0] == "field" and s[1] == MGR and s[2] == "in_progress_composite" for s in src)
                if from_comp:
                    continue
                popped = {s[2] for s in src if s[0] == "field" and s[1] == STACKDATA}
                ctx.ob(kind + "-moves", "%s-source:%s" % (kind, f.name), popped == {back}, c.where,
                       "the command being %sne is taken from %s, expected %s" % (kind, sorted(popped) or "elsewhere", back))
                for oc, ek, bb, must, may in L.explore(f, [c.bb], call=c):
                    ok = oc == "ok" or (oc is None and ek != "err")
                    if oc is None:
                        good = ("push." + dst in may) and ("push." + back in may)
                    elif ok:
                        good = "push." + dst in must and "push." + back not in may
                    else:
                        good = "push." + back in must and "push." + dst not in may
                    ctx.ob(kind + "-moves", "%s:%s:%s" % (kind, f.name, "success" if ok else "failure"), good, c.where,
                           "after a %s %s the command must be put on %s only (certain: %s, possible: %s)" % (
                               "successful" if ok else "failed", kind, dst if ok else back, sorted(must), sorted(may)))
                    if ok and oc:
                        ctx.ob(kind + "-moves", "%s-keeps:%s" % (kind, f.name), not any(x.startswith("clear.") for x in may), c.where,
                               "%s must not clear a history (%s)" % (kind, sorted(may)))
    ctx.floor("undo-moves", 3)
    ctx.floor("redo-moves", 3)
    # recording
    def cleared(f, i, call, seen=()):
        """Every continuation of block i certainly clears the redo history (here or in every caller),
        or the command certainly came back out of an undo/redo."""
        before = labels_before(f, i, lambda j: L.block(f, j)[0])
        if before & {"cmd.redo", "cmd.undo", "clear.redo_stack"}:
            return True
        bad = False
        for oc, ek, bb, must, may in L.explore(f, [i], call=call):
            if call is not None and oc == "err":
                continue  # merge refused: falls through to the push
            if "clear.redo_stack" not in must:
                bad = True
            if call is not None and oc == "ok" and "push.undo_stack" in may:
                return False
        if not bad:
            return True
        if len(seen) > 3 or f.exported:
            return False
        cs = [c for g in m.callers(f) for c in g.calls if f in m.targets(c.callee)]
        return bool(cs) and all(cleared(c.fn, c.bb, None, seen + (f.uid,)) for c in cs if c.fn.uid not in seen)

    for f in mgr:
        if in_cmd(f):
            continue
        for c in f.calls:
            if f.blocks[c.bb].cleanup:
                continue
            merge = urc_call(c, "merge")
            push = not m.targets(c.callee) and "push.undo_stack" in lab_self(ctx, L, c)
            if merge or push:
                ctx.ob("record-clears-redo", "record:%s:%s" % (f.name, "merge" if merge else "push"),
                       cleared(f, c.bb, c if merge else None), c.where,
                       "a new command reaches the undo history here but the redo history is not cleared on every path "
                       "(or a merged command is pushed again)")
    ctx.floor("record-clears-redo", 3)
    # composite iteration order
    comp = "common::undo_redo::CompositeCommand"
    for kind, opp in (("undo", "redo"), ("redo", "undo")):
        fs = [f for f in m.fns.values() if f.trait == URC and f.self_ty == comp and f.short == kind]
        ctx.anchor(fs, "composite " + kind)
        for f in fs:
            group = local_group(ctx, f)
            main = [c for u in group for c in u.calls if urc_call(c, kind) and not u.blocks[c.bb].cleanup]
            back = [c for u in group for c in u.calls if urc_call(c, opp) and not u.blocks[c.bb].cleanup]
            # forward calls are those that a successful run can pass through
            fwd = [c for c in main if c.fn is not f or on_ok_path(f, c.bb)]
            ctx.ob("composite-order", "composite:%s" % kind, bool(fwd) and all(walks_backwards(ctx, f, c) == (kind == "undo") for c in fwd), f.loc,
                   "the group's %s must walk its commands in %s order and %s each" % (kind, "reverse" if kind == "undo" else "recording", kind))
            bad = [c for c in back if c.fn is f and on_ok_path(f, c.bb)]
            ctx.ob("composite-order", "composite-only:%s" % kind, not bad, f.loc,
                   "a successful %s of the group also %ss one of its commands" % (kind, opp))
            comps = [c for c in back if c.fn is not f or not on_ok_path(f, c.bb)]
            ctx.ob("composite-atomic", "composite-atomic:%s" % kind, bool(comps) and all(
                opp == "redo" or walks_backwards(ctx, f, c) for c in comps), f.loc,
                "when one command of the group fails, the ones that already went through %s must be taken back (%s)" % (kind, opp))
            fk = {k for c in fwd for k in index_keys(c)}
            for c in fwd:
                ctx.ob("composite-order", "composite-all:%s" % kind, not (b := partial_walk(c)), c.where,
                       "a successful %s of the group does not reach every command of it: %s" % (kind, b))
            for c in comps:
                ctx.ob("composite-atomic", "composite-exact:%s" % kind, not (b := wrong_return(c, fk, kind)), c.where,
                       "when a command's %s fails, the commands taken back are not exactly those that went through before: %s" % (kind, b))
    ctx.floor("composite-order", 4)
    ctx.floor("composite-atomic", 2)
    stack_ends(ctx, mgr)
    right_history(ctx, mgr)
    composite_lifecycle(ctx, L)
    # clearing: both halves
    for f in mgr:
        if f.self_ty != MGR or in_cmd(f):
            continue
        if f.short.startswith("clear"):
            mu = L.fn(f)[1]
            ctx.ob("clear-both", "clear:%s" % f.short, {"clear.undo_stack", "clear.redo_stack"} <= mu, f.loc,
                   "clearing the history must empty both the undo and the redo side")
    ctx.floor("clear-both", 2)
    return ctx.finish(explanation="Path exploration of every function of the undo manager with outcome tracking of the command call.")


def linop(fn, o):
    """(what the number is counted from, constant) for simple chains of copies, casts and +/- constants."""
    k = 0
    for _ in range(30):
        p = op_place(o)
        if p is None:
            v = re.match(r"(\d+)_", str(o.get("k", "")))
            return ("const", k + int(v.group(1))) if v else (None, 0)
        if len(p) > 1 and not (len(p) == 2 and p[1] in ("*",)) and not (len(p) == 2 and isinstance(p[1], list) and p[1][0] == "f" and p[1][1] == 0):
            return (str(p), k)
        ds = defs(fn)[0].get(p[0], [])
        if len(ds) != 1 or defs(fn)[1].get(p[0]):
            return (("local", p[0]), k)
        if ds[0][1] != "rv":
            c = ds[0][2]
            sh = c.callee.short
            if sh in ("saturating_sub", "wrapping_sub") and len(c.args) == 2:
                b, v = linop(fn, c.args[1])
                if b == "const":
                    k -= v
                    o = c.args[0]
                    continue
            if sh == "len":
                return ("len", k)
            return (("call", id(c)), k)
        r = ds[0][2]
        if r[0] in ("use", "cast"):
            o = rv_operands(r)[0]
            q = op_place(o)
            if q and len(q) > 1 and not (len(q) == 2 and isinstance(q[1], list) and q[1][0] == "f" and q[1][1] == 0):
                return (str(q), k)
            continue
        if r[0] == "bin" and r[1].startswith(("Add", "Sub")):
            b, v = linop(fn, r[3])
            if b == "const":
                k += v if r[1].startswith("Add") else -v
                o = r[2]
                continue
            b, v = linop(fn, r[2])
            if b == "const" and r[1].startswith("Add"):
                k += v
                o = r[3]
                continue
        if r[0] == "ref" and len(r[2]) == 1:
            o = {"c": r[2]}
            continue
        return (("local", p[0]), k)
    return (None, 0)


def bounds(c):
    """[(kind, operand)] of the ranges and adaptors that the receiver of c was picked by."""
    fn = c.fn
    s = bslice(fn, c.args[0])
    out = []
    for b in fn.blocks:
        for st in b.stmts:
            if st[0] == "=" and len(st[2]) == 1 and st[2][0] in s.locals and st[3][0] == "agg" and st[3][1].startswith("core::ops::range::Range"):
                for n, o in zip(st[3][3], st[3][4]):
                    out.append((n + ("=" if "Inclusive" in st[3][1] and n == "end" else ""), o))
    for k in s.calls:
        n = k.callee.name or k.callee.decl
        if ("Iterator" in n or "iter::" in n) and k.callee.short in ("skip", "take", "step_by", "nth", "filter", "skip_while", "take_while", "filter_map"):
            out.append((k.callee.short, k.args[1] if len(k.args) > 1 else None))
        if "RangeInclusive" in n and k.callee.short == "new":
            out += [("start", k.args[0]), ("end=", k.args[1])]
    return out


def index_keys(c):
    return {linop(c.fn, k.args[1])[0] for k in bslice(c.fn, c.args[0]).calls if k.callee.short in ("index_mut", "index", "get_mut") and len(k.args) > 1} - {None, "const"}


def partial_walk(c):
    for kind, o in bounds(c):
        if kind in ("step_by", "nth", "filter", "skip_while", "take_while", "filter_map"):
            return "it goes through .%s()" % kind
        b, k = linop(c.fn, o)
        if kind in ("start", "skip") and b == "const" and k != 0:
            return "it starts at %d" % k
        if kind in ("end", "take") and (b == "len" and k < 0 or b == "const"):
            return "it ends at %s%+d" % (b, k)
        if kind == "end=" and b == "len" and k < -1:
            return "it ends early"
    return None


def wrong_return(c, keys, kind):
    for what, o in bounds(c):
        b, k = linop(c.fn, o)
        if what in ("start", "skip") and b in keys and k != 1 and kind == "undo":
            return "they start at the failing command %+d" % k
        if what in ("start", "skip") and b == "const" and k != 0 and kind == "redo":
            return "they start at %d" % k
        if what in ("end", "take") and b in keys and k != 0 and kind == "redo":
            return "they end at the failing command %+d" % k
        if what == "end=" and b in keys and k != -1 and kind == "redo":
            return "the failing command itself is among them"
        if what in ("end", "take") and (b == "len" and k < 0 or b == "const") and kind == "undo":
            return "the last ones are left out"
    return None


def stack_ends(ctx, fns):
    """Histories and groups grow at the end and are used from the end."""
    ctx.rule("last-in-first-out", "commands are added at the end of a history or group, and the one undone or redone is the last of its history")
    comp = "common::undo_redo::CompositeCommand"
    n = 0
    for f in fns:
        for c in f.calls:
            if f.blocks[c.bb].cleanup or not c.args:
                continue
            src = ctx.prov(f).op(c.args[0])
            own = {s[2] for s in src if s[0] == "field" and s[1] in (STACKDATA, comp) and s[2] in ("undo_stack", "redo_stack", "commands")}
            if ctx.m.targets(c.callee) or len(own) != 1:
                continue
            fld = own.pop()
            if c.callee.short == "push":
                n += 1
                ctx.ob("last-in-first-out", "push:%s:%s" % (f.name, fld), True, c.where, "")
            elif c.callee.short in ("insert", "push_front"):
                b, k = linop(f, c.args[1]) if c.callee.short == "insert" and len(c.args) > 1 else ("const", 0)
                ctx.ob("last-in-first-out", "insert:%s:%s" % (f.name, fld), not (b == "const" or b == "len" and k != 0), c.where,
                       "a command is put into %s in front of older ones" % fld)
        for c in f.calls:
            if f.blocks[c.bb].cleanup or not any(urc_call(c, k) for k in ("undo", "redo")):
                continue
            if f.self_ty == comp:
                continue
            n += 1
            bad = None
            for k in bslice(f, c.args[0]).calls:
                if k.callee.short in ("first", "first_mut", "pop_front", "front_mut", "swap_remove") and "Vec" in (k.callee.name or k.callee.decl) + "[T]Vec":
                    bad = "it is taken with %s" % k.callee.short
                if k.callee.short in ("remove", "index_mut", "get_mut") and len(k.args) > 1 and "hash" not in (k.callee.name or k.callee.decl).lower():
                    b, v = linop(f, k.args[1])
                    if b == "const" or b == "len" and v != -1:
                        bad = "it is taken from place %s%+d" % ("" if b == "const" else b, v)
            ctx.ob("last-in-first-out", "last:%s" % f.name, bad is None, c.where, "the command used is not the last one of its history: %s" % bad)
    ctx.floor("last-in-first-out", 6)


def right_history(ctx, fns):
    """A command is recorded, undone and redone on the history that was asked for."""
    ctx.rule("asked-history", "the history a command is recorded on, or taken from, is the one named by the caller or by the open group")
    comp = "common::undo_redo::CompositeCommand"
    for f in fns:
        if f.self_ty != MGR:
            continue
        for c in f.calls:
            if f.blocks[c.bb].cleanup or c.callee.short not in ("get_mut", "entry", "get", "remove", "index_mut") or len(c.args) < 2:
                continue
            src = ctx.prov(f).op(c.args[0])
            if not any(s[0] == "field" and s[1] == MGR and s[2] == "stacks" for s in src) or any(s[0] == "field" and s[1] == STACKDATA for s in src):
                continue
            k = gslice(ctx, f, c.args[1])
            other = {n for t, n in k.fields if t == MGR and n not in ("composite_stack_id", "in_progress_composite", "stacks")}
            named = {n for t, n in k.fields if t in (MGR, comp)} | k.args
            sums = {o for o in k.ops if o.startswith(("Add", "Sub", "Mul"))}
            asks = any("u64" in f.local_ty(i) for i in range(1, f.nargs + 1))
            bad = "computed from %s" % sorted(other) if other else "computed with %s" % sorted(sums) if sums else \
                "always the same one" if not named - {1} and not {n for t, n in k.fields if t in (MGR, comp)} and asks else None
            ctx.ob("asked-history", "history:%s" % f.name, bad is None, c.where, "the history used here is %s, not the one asked for" % bad)
    ctx.floor("asked-history", 6)


def lab_self(ctx, L, c):
    """Labels of the call itself; an argument of a helper is resolved through its callers."""
    a = [L.srcs(c.fn, x, ()) for x in c.args]
    g = set(L.lab(c, a))
    if g or not c.args:
        return g
    args = {s[1] for s in ctx.prov(c.fn).op(c.args[0]) if s[0] == "arg"}
    for n in args:
        for h in ctx.m.callers(c.fn):
            for k in h.calls:
                if c.fn in ctx.m.targets(k.callee) and n - 1 < len(k.args):
                    a2 = [L.srcs(h, k.args[n - 1], ())] + a[1:]
                    g |= set(L.lab(c, a2))
    return g


def labels_before(fn, bb, gen):
    """Labels certain on every path from entry to (just before) block bb."""
    ins = {0: frozenset()}
    work = deque([0])
    while work:
        i = work.popleft()
        o = ins[i] | frozenset(gen(i) or ())
        for s in fn.blocks[i].succ:
            n = o if s not in ins else ins[s] & o
            if s not in ins or n != ins[s]:
                ins[s] = n
                work.append(s)
    return ins.get(bb, frozenset())


def local_group(ctx, f, depth=3):
    """f, its closures and the non-trait helpers of the same file it calls."""
    out, todo = {}, [(f, depth)]
    while todo:
        g, d = todo.pop()
        if g.uid in out:
            continue
        out[g.uid] = g
        for c in ctx.m.closures[g.uid]:
            todo.append((c, d))
        if d:
            for t in ctx.m.callees(g):
                if t.file == f.file and not t.trait:
                    todo.append((t, d - 1))
    return list(out.values())


def on_ok_path(fn, bb):
    return bb in ok_reachable(fn)


REVS = ("rev", "next_back", "rfold", "try_rfold", "reverse", "rposition", "pop", "rsplit")


def slice_info(ctx, fn, o, seen=None, depth=40):
    """(call short names, binary operators) in the backward slice of an operand."""
    names, ops = set(), set()
    seen = set()
    whole, part = defs(fn)

    def loc(l):
        if l in seen:
            return
        seen.add(l)
        for d in whole.get(l, []):
            if d[1] == "rv":
                rv(d[2])
            else:
                cal(d[2])
        for d in part.get(l, []):
            if d[2] == "rv":
                rv(d[3])
            else:
                cal(d[3])

    def cal(c):
        names.add((c.callee.name or c.callee.decl).rsplit("::", 1)[-1])
        for a in c.args:
            opnd(a)

    def rv(r):
        if r[0] == "bin":
            ops.add(r[1])
        for x in rv_operands(r):
            opnd(x)

    def opnd(x):
        p = op_place(x)
        if p:
            loc(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i":
                    loc(e[1])

    opnd(o)
    return names, ops


def walks_backwards(ctx, root, c):
    """The command a trait call works on comes out of a reversed traversal."""
    names, ops = slice_info(ctx, c.fn, c.args[0])
    if c.fn is not root:
        # inside a closure / helper: the traversal is where the group iterates
        for g in local_group(ctx, root):
            names |= {(k.callee.name or k.callee.decl).rsplit("::", 1)[-1] for k in g.calls}
    return bool(names & set(REVS)) or any(o.startswith("Sub") for o in ops)


def composite_lifecycle(ctx, L):
    """Wherever the open group is closed (taken, replaced by None), its target history is forgotten too."""
    m = ctx.m
    ctx.rule("group-forgotten", "whenever the open undo group is closed, the history it was meant for is forgotten with it")

    def fld(s):
        return s[0] == "field" and s[1] == MGR and s[2] in ("in_progress_composite", "composite_stack_id")

    def assigned_none(fn, s):
        if s[0] != "=" or len(s[2]) < 2:
            return None
        last = s[2][-1]
        if isinstance(last, list) and last[0] == "f" and last[3] == MGR and last[2] in ("in_progress_composite", "composite_stack_id"):
            rv = s[3]
            none = rv[0] == "agg" and rv[2] == "None"
            if rv[0] == "use":
                src = alias_src(rv[1])
                w = defs(fn)[0].get(src, []) if src is not None else []
                none = bool(w) and all(d[1] == "rv" and d[2][0] == "agg" and d[2][2] == "None" for d in w)
            return (last[2], none)
        return None

    def stmt(fn, s):
        r = assigned_none(fn, s)
        return {"none:" + r[0]} if r and r[1] else ()

    def lab(c, a):
        sh = (c.callee.name or "").rsplit("::", 1)[-1]
        if sh in ("take", "replace") and a:
            fl = {x[2] for x in a[0] if fld(x)}
            if len(fl) == 1 and (sh == "take"):
                return {"none:" + fl.pop()}
        return ()

    LL = Labeler(ctx, lab, fld, lambda c, t: t.self_ty == MGR, stmt)
    n = 0
    for f in m.fns.values():
        if f.self_ty != MGR or f.kind == "closure":
            continue
        for i, b in enumerate(f.blocks):
            if b.cleanup:
                continue
            own = set()
            for s in b.stmts:
                own |= set(stmt(f, s))
            c = f.call_at(i)
            if c is not None:
                own |= set(lab(c, [LL.srcs(f, x, ()) for x in c.args]))
            if "none:in_progress_composite" in own:
                n += 1
                before = labels_before(f, i, lambda j: LL.block(f, j)[0])
                ok = "none:composite_stack_id" in before or "none:composite_stack_id" in own or all(
                    "none:composite_stack_id" in r[3] for r in LL.explore(f, [i]))
                ctx.ob("group-forgotten", "group-closed:%s" % f.name, ok, "%s:%d" % (f.file, f.line),
                       "the open group is closed here but the history it targets stays set on some path: "
                       "the next group on another history is refused")
    ctx.floor("group-forgotten", 3)
