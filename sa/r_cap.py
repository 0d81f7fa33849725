"""C03: what an undoable command saves for its undo and redo."""
from r_txn import *
from slices import *

CONSUME = ("take", "pop_back", "pop_front", "pop", "drain", "split_off")


def short(c):
    return (c.callee.name or c.callee.decl).rsplit("::", 1)[-1]


def type_methods(ctx, T):
    return [f for f in ctx.m.fns.values() if f.self_ty == T and f.kind != "closure"]


def is_ctor(f, T):
    return f.trait is None and base_ty(f.local_ty(0)) == T


def ctor_config(ctx, T):
    """Fields the constructor fills from its arguments: configuration, not saved state."""
    r = set()
    for f in type_methods(ctx, T):
        if not is_ctor(f, T):
            continue
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == "=" and s[3][0] == "agg" and s[3][1] == T:
                    for n, o in zip(s[3][3], s[3][4]):
                        if bslice(f, o).args:
                            r.add(n)
    return r


def used_places(fn, b):
    for s in b.stmts:
        if s[0] == "=":
            for o in rv_operands(s[3]):
                p = op_place(o)
                if p:
                    yield p
    t = b.term
    if t[0] == "call":
        for o in t[3]:
            p = op_place(o)
            if p:
                yield p
    elif t[0] == "switch":
        p = op_place(t[2])
        if p:
            yield p


THROUGH = {"as_mut", "iter_mut", "deref_mut", "deref", "get_mut", "last_mut", "first_mut", "index_mut", "unwrap", "expect", "borrow_mut", "branch", "ok_or", "ok_or_else", "next"}


def saved_labeler(ctx, T):
    kind = txn_labels(ctx)

    def stmt(fn, s):
        r = []
        if s[0] == "=":
            of = proj_owned_fields(s[2])
            r += ["SET:" + n for o, n in of if o == T]
            for o in rv_operands(s[3]):
                p = op_place(o)
                if p:
                    r += ["GET:" + n for ow, n in proj_owned_fields(p) if ow == T]
        return r

    def lab(c, a):
        r = []
        k = kind(c)
        if k:
            r.append(k)
        n = short(c)
        of = [x for x in proj_owned_fields(c.dest) if x[0] == T]
        r += ["SET:" + x[1] for x in of]
        if a:
            for s in a[0]:
                if s[0] == "field" and s[1] == T:
                    if n in CONSUME:
                        r.append("CONSUME:" + s[2])
                    elif recv_mut(c) and n not in ("as_mut", "iter_mut", "deref_mut", "clear", "get_mut") and not n.startswith("get_or_insert") \
                            and not any(x[0] == "call" and x[1].rsplit("::", 1)[-1] not in THROUGH for x in a[0]):
                        r.append("SET:" + s[2])
        return r

    def keep(s):
        return s[0] == "field" and s[1] == T
    return Labeler(ctx, lab, keep=keep, stmt=stmt, enter=lambda c, t: t.self_ty == T and t.short not in ("undo", "redo") and not c.callee.virt)


def recv_mut(c):
    if not c.args:
        return False
    p = op_place(c.args[0])
    return bool(p) and c.fn.local_ty(p[0]).startswith("&mut")


def may_read(ctx):
    r = getattr(ctx, "_mr", None)
    if r is None:
        r = defaultdict(set)
        for f in ctx.m.fns.values():
            for c in f.calls:
                if not f.blocks[c.bb].cleanup:
                    sl = ctx.store_lock(c)
                    if sl:
                        r[f.uid] |= sl[0]
        work = deque(r)
        while work:
            u = work.popleft()
            for g in ctx.m.callers(ctx.m.fns[u]):
                n = len(r[g.uid])
                r[g.uid] |= r[u]
                if len(r[g.uid]) != n:
                    work.append(g.uid)
        ctx._mr = r
    return r


def read_kind(ctx, c):
    r = set()
    sl = ctx.store_lock(c)
    if sl:
        r |= sl[0]
    mr = may_read(ctx)
    for t in ctx.m.targets(c.callee):
        r |= mr.get(t.uid, set())
    return r - TRANSIENT


def back_edges(fn):
    """Edges closing a loop (depth-first)."""
    r = getattr(fn, "_be", None)
    if r is None:
        r, color, st = set(), {}, [(0, iter(fn.blocks[0].succ))]
        color[0] = 1
        while st:
            i, it = st[-1]
            for t in it:
                if fn.blocks[t].cleanup:
                    continue
                if color.get(t) == 1:
                    r.add((i, t))
                elif t not in color:
                    color[t] = 1
                    st.append((t, iter(fn.blocks[t].succ)))
                    break
            else:
                color[i] = 2
                st.pop()
        fn._be = r
    return r


def reach_fwd(fn, bb, loops):
    """Blocks reachable after bb; without loops: back edges are not taken."""
    be = back_edges(fn)
    seen, todo = set(), [t for t in fn.blocks[bb].succ if loops or (bb, t) not in be]
    while todo:
        i = todo.pop()
        if i in seen or fn.blocks[i].cleanup:
            continue
        seen.add(i)
        todo += [t for t in fn.blocks[i].succ if loops or (i, t) not in be]
    return seen


def snapshot_ty(t):
    return "EntityTreeSnapshot" in t or "RopeStoreSnapshot" in t


def saved_adts(ctx, T):
    """Undo-data structures of the command: its crate's own types reachable from its saved fields."""
    m = ctx.m
    crate = T.split("::")[0]
    out, todo = set(), [T]
    while todo:
        a = m.adts.get(todo.pop())
        if not a:
            continue
        for vn, fs in a.variants:
            for f in fs:
                for n, b in m.adts.items():
                    if n not in out and n != T and n.startswith(crate + "::") and n in f[1] and n.startswith(T.rsplit("::", 1)[0] + "::") \
                            and not n.endswith("Dto") and re.search(r"(?<![\w:])%s(?![\w:])" % re.escape(n), f[1]):
                        out.add(n)
                        todo.append(n)
    return out


def C03(ctx):
    m = ctx.m
    ctx.rule("saved-on-success", "every successful execution assigns each piece of state its undo relies on; what redo relies on is assigned by the execution or the undo")
    ctx.rule("saved-again", "state that undo (redo) consumes is assigned again by redo (undo), and is not consumed by an undo or redo that fails")
    ctx.rule("saved-before-change", "what is saved as the state before the edit is read before the edit changes that state")
    ctx.rule("undo-uses-saved", "a successful undo passes a change of the document that takes the saved state, and every part of the saved data is used by the undo")
    ctx.rule("undo-covers-edit", "the undo writes every kind of document state the edit wrote")
    ctx.rule("merge-keeps-both", "when two commands merge, the saved redo input, result and extents take in the merged command's")
    ctx.rule("redo-repeats", "redo runs the same edit as the first execution (or restores a snapshot)")
    kind = txn_labels(ctx)
    types = urc_types(ctx)
    for T in types:
        check_type(ctx, T, kind)
    ctx.floor("saved-on-success", 60)
    ctx.floor("saved-before-change", 30)
    ctx.floor("undo-uses-saved", 45)
    ctx.floor("undo-covers-edit", 30)
    ctx.floor("merge-keeps-both", 6)
    ctx.floor("redo-repeats", 25)
    return ctx.finish(explanation="Path exploration and backward slices over every undoable command type (%d)." % len(types))


def check_type(ctx, T, kind):
    m = ctx.m
    sn = T.rsplit("::", 1)[-1]
    ms = type_methods(ctx, T)
    undo = [f for f in ms if f.short == "undo" and f.trait == URC]
    redo = [f for f in ms if f.short == "redo" and f.trait == URC]
    if not ctx.anchor(undo and redo, "undo/redo of " + T):
        return
    undo, redo = undo[0], redo[0]
    L = saved_labeler(ctx, T)
    cfg = ctor_config(ctx, T)

    def needed(f):
        r = set()
        for c in f.calls:
            if f.blocks[c.bb].cleanup:
                continue
            if kind(c) == "COMMIT" or "COMMIT" in L.block(f, c.bb)[0]:
                r |= {x[4:] for x in labels_before(f, c.bb, lambda i: L.block(f, i)[0]) if x.startswith("GET:")}
        return r - cfg
    nu, nr = needed(undo), needed(redo)
    execs = []
    for f in ms:
        if f.trait is None and not is_ctor(f, T) and "COMMIT" in L.fn(f)[1]:
            execs.append(f)
    ctx.anchor(execs, "executing method of " + T)
    uset = None
    for oc, ek, bb, mu, my in L.explore(undo, [0], after=False):
        if ek != "err":
            uset = {x[4:] for x in my if x.startswith("SET:")}
    # commit-exits of execute
    for f in execs:
        for F in sorted(nu | nr):
            bad = None
            for oc, ek, bb, mu, my in L.explore(f, [0], after=False):
                if ek == "err":
                    continue
                if "SET:" + F not in mu and not (F in nr and F not in nu and uset and F in uset):
                    bad = bb
            ctx.ob("saved-on-success", "%s::%s::%s" % (T, f.short, F), bad is None, f.loc,
                   "" if bad is None else "%s can succeed without saving `%s`, which %s needs" % (f.short, F, "undo" if F in nu else "redo"))
    if not nu:
        ctx.ob("saved-on-success", "%s::undo" % T, False, undo.loc, "the undo relies on nothing that was saved by the execution")
    # consumed state
    for f, g in ((undo, redo), (redo, undo)):
        cons = {x[8:] for x in L.fn(f)[1] if x.startswith("CONSUME:")}
        for F in sorted(cons):
            gs = set()
            for oc, ek, bb, mu, my in L.explore(g, [0], after=False):
                if ek != "err":
                    gs |= {x[4:] for x in my if x.startswith("SET:")}
            fs = None
            for oc, ek, bb, mu, my in L.explore(f, [0], after=False):
                if ek != "err":
                    s = {x[4:] for x in mu if x.startswith("SET:")}
                    fs = s if fs is None else fs & s
            ctx.ob("saved-again", "%s::%s::%s" % (T, f.short, F), F in gs or F in (fs or ()), f.loc,
                   "%s takes `%s` away and %s never saves it again: the command works only once" % (f.short, F, g.short))
            bad = None
            for c in f.calls:
                if f.blocks[c.bb].cleanup or "CONSUME:" + F not in L.block(f, c.bb)[1]:
                    continue
                for oc, ek, bb, mu, my in L.explore(f, [c.bb]):
                    if ek == "err" and "SET:" + F not in mu:
                        bad = c
            ctx.ob("saved-again", "%s::%s::%s::failure" % (T, f.short, F), bad is None, bad.where if bad else f.loc,
                   "a failing %s has already taken `%s` away" % (f.short, F))
    restores_all(ctx, T, undo)
    own_conditions(ctx, T, undo)
    capture(ctx, T, sn, execs, undo, redo)
    undo_uses(ctx, T, sn, undo, nu, execs, L)
    merges(ctx, T, sn, ms, execs, nu, nr)
    redo_repeats(ctx, T, sn, undo, redo, execs)


PICKS = {"take", "skip", "step_by", "nth", "skip_while", "take_while", "map_while", "filter", "split_at", "truncate", "first", "last", "split_first", "split_last"}


def restores_all(ctx, T, undo):
    """The undo goes through everything that was saved."""
    for g in exec_group(ctx, [undo]):
        bad = None
        for c in g.calls:
            if g.blocks[c.bb].cleanup or c.callee.short not in PICKS or not c.args:
                continue
            n = (c.callee.name or c.callee.decl)
            if "Option" in n or "Rope" in n or "str" in n.split("::")[0]:
                continue
            s = bslice(g, c.args[0])
            if any(o == T or o in saved_adts(ctx, T) for o, _ in s.fields) or any(g.local_ty(a).lstrip("&").startswith(("[", "alloc::vec::Vec<")) and any(x in g.local_ty(a) for x in saved_adts(ctx, T)) for a in s.args):
                bad = c
        ctx.ob("undo-uses-saved", "%s::all::%s" % (T, g.short), bad is None, bad.where if bad else g.loc,
               "" if bad is None else "the undo goes through a selection (%s) of what was saved only" % bad.callee.short)


def saved_parts(ctx, g, adts, *ops):
    """Saved pieces of data (not ids) an operand is made of."""
    return {(o, n) for o, n in bslice(g, *ops).fields if o in adts and not n.endswith(("_id", "_ids"))}


def zero_test(g, o):
    """A comparison with zero."""
    p = op_place(o)
    for d in defs(g)[0].get(p[0], []) if p else []:
        if d[1] == "rv" and d[2][0] == "bin" and d[2][1] in ("Gt", "Ne", "Eq", "Lt", "Ge"):
            return any(op_place(x) is None and str(x.get("k", "")).startswith("0") for x in d[2][2:4])
    return False


def own_conditions(ctx, T, undo):
    """Whether one saved part is put back does not depend on what another saved part looks like."""
    from r_fields import controls
    adts = saved_adts(ctx, T)
    if not adts:
        return
    for g in exec_group(ctx, [undo]):
        acts = []
        for i, b in enumerate(g.blocks):
            if b.cleanup:
                continue
            for s in b.stmts:
                if s[0] == "=" and "*" in s[2][1:]:
                    acts.append((i, saved_parts(ctx, g, adts, *rv_operands(s[3])), "%s:%d" % (g.file, s[1])))
            c = g.call_at(i)
            if c is not None and (dirty_kind(ctx, c) or recv_mut(c) and short(c) in ("insert", "extend", "push", "clone_from") or any(
                    t.crate == "common" and t.nargs and t.local_ty(1).startswith("&mut") for t in ctx.m.targets(c.callee))):
                acts.append((i, saved_parts(ctx, g, adts, *c.args), c.where))
        for i, A, w in acts:
            if not A:
                continue
            bad = None
            for sw in controls(g, i):
                t = g.blocks[sw].term
                p = op_place(t[2]) if t[0] == "switch" else None
                if not p or g.local_ty(p[0]) != "bool" or zero_test(g, t[2]):
                    continue
                B = saved_parts(ctx, g, adts, t[2])
                if B and not B & A:
                    bad = B
            ctx.ob("undo-uses-saved", "%s::own-condition::%s:%s" % (T, g.short, ",".join(sorted(n for _, n in A))), bad is None, w,
                   "" if bad is None else "whether %s is put back depends on %s" % (sorted(n for _, n in A), sorted(n for _, n in bad)))


def exec_group(ctx, roots):
    """The command's own functions: methods, closures and same-file helpers."""
    out = {}
    for r in roots:
        for g in local_group(ctx, r, 5):
            out[g.uid] = g
    return list(out.values())


def capture(ctx, T, sn, execs, undo, redo):
    """Captures of the old state come before the changes."""
    m = ctx.m
    adts = saved_adts(ctx, T)
    grp = exec_group(ctx, execs + [redo, undo])
    caps = []          # (fn, call, kind)
    for g in grp:
        for c in g.calls:
            if g.blocks[c.bb].cleanup:
                continue
            if short(c).startswith("snapshot") and snapshot_ty(g.local_ty(c.dest[0])) and not any(t in grp for t in m.targets(c.callee)):
                caps.append((g, c, "snapshot", None))
            if short(c) == "create_savepoint":
                caps.append((g, c, "snapshot", None))
        for i, b in enumerate(g.blocks):
            if b.cleanup:
                continue
            for s in b.stmts:
                if s[0] == "=" and s[3][0] == "agg" and s[3][1] in adts and s[3][3] and not s[3][3][0].isdigit():
                    for n, o in zip(s[3][3], s[3][4]):
                        sl = bslice(g, o)
                        cut = [c for c in sl.calls if c.callee.short in ("truncate", "take", "skip", "step_by", "nth", "pop") and "Option" not in (c.callee.name or c.callee.decl)
                               and not any(x in (c.callee.name or "") for x in ("Rope", "Chars"))] if "alloc::vec::Vec<" in (g.local_ty(op_place(o)[0]) if op_place(o) else "") else []
                        why = "goes through %s" % short(cut[0]) if cut else dropped(ctx, g, o)
                        ctx.ob("saved-before-change", "%s::whole::%s::%s" % (T, s[3][1].rsplit("::", 1)[-1], n), not why, "%s:%d" % (g.file, s[1]),
                               "what is saved as `%s` %s" % (n, why))
                        for c in sl.calls:
                            if dirty_kind(ctx, c):
                                continue
                            if read_kind(ctx, c):
                                caps.append((g, c, "read", n))
    # values returned by entity reads and saved directly (direct access: get_multi -> undo_stack)
    for g in execs:
        for c in g.calls:
            if g.blocks[c.bb].cleanup or not c.args:
                continue
            if ("field", T) in {(x[0], x[1]) for x in ctx.prov(g).op(c.args[0]) if len(x) > 1} and len(c.args) > 1 and recv_mut(c):
                for k in bslice(g, *c.args[1:]).calls:
                    if read_kind(ctx, k) and not dirty_kind(ctx, k) and not short(k) in ("create_savepoint",):
                        caps.append((g, k, "read", short(c)))
        for b in g.blocks:
            for s in b.stmts:
                if s[0] == "=" and any(o == T for o, n in proj_owned_fields(s[2])):
                    for k in bslice(g, *rv_operands(s[3])).calls:
                        if short(k).startswith("get_") and read_kind(ctx, k) and not dirty_kind(ctx, k):
                            caps.append((g, k, "read", proj_fields(s[2])[-1]))
    if not caps and T not in CAPTURE_FREE:
        ctx.ob("saved-before-change", "%s::captures" % T, False, execs[0].loc if execs else "", "nothing of the old state is captured before the edit")
    seen = set()
    for g, c, k, what in caps:
        key = "%s::%s::%s" % (T, g.short, c.callee.name.rsplit("::", 1)[-1] if c.callee.name else short(c))
        if what:
            key += "::" + what
        w = conflict(ctx, g, c, k, grp, set())
        if key in seen and not w:
            continue
        seen.add(key)
        ctx.ob("saved-before-change", key, w is None, c.where,
               "" if w is None else "the state is captured after %s at %s already changed it" % (short(w), w.where))


def dropped(ctx, g, o):
    """Whether what was read is saved or thrown away depends on what was read."""
    from r_fields import controls
    p = op_place(o)
    for _ in range(6):
        if not p or len(p) > 1:
            return None
        ds = defs(g)[0].get(p[0], [])
        if len(ds) != 1 or ds[0][1] != "rv" or ds[0][2][0] != "use":
            break
        p = op_place(ds[0][2][1])
    if not p or len(ds) < 2:
        return None
    kept, empty = set(), []
    for d in ds:
        if d[1] == "call" and short(d[2]) in ("new", "default") and not d[2].args:
            empty.append(d[0])
        elif d[1] == "rv" and d[2][0] == "agg" and d[2][2] == "None":
            empty.append(d[0])
        elif d[1] == "rv" and d[2][0] == "use" and op_place(d[2][1]):
            kept |= {op_place(d[2][1])[0]}
    if not kept or not empty:
        return None
    for b in empty:
        for sw in controls(g, b):
            t = g.blocks[sw].term
            q = op_place(t[2]) if t[0] == "switch" else None
            if q and g.local_ty(q[0]) == "bool":
                s = bslice(g, t[2])
                if s.locals & kept and "is_empty" not in s.shorts() and not zero_test(g, t[2]):
                    return "is thrown away depending on what it is"
    return None


CAPTURE_FREE = {
    # nothing existed before: undo removes what was created
    "common::direct_access::use_cases::create_orphan::UndoableCreateOrphanUseCase",
}


def conflict(ctx, g, c, k, grp, seen):
    """A change that precedes capture c (in g, or before a call of g in its group)."""
    want = read_kind(ctx, c)
    if (g.uid, c.bb) in seen:
        return None
    seen.add((g.uid, c.bb))
    for d in g.calls:
        if g.blocks[d.bb].cleanup or d is c:
            continue
        dk = dirty_kind(ctx, d)
        if not dk or (k == "read" and not dk & want):
            continue
        if is_txn(ctx, d) or own_capture(ctx, d):
            continue
        if c.bb in reach_fwd(g, d.bb, False):
            return d
    for h in ctx.m.callers(g):
        if h not in grp:
            continue
        for d in h.calls:
            if not h.blocks[d.bb].cleanup and g in ctx.m.targets(d.callee):
                w = conflict_at(ctx, h, d, k, want, grp, seen)
                if w:
                    return w
    return None


def conflict_at(ctx, h, call, k, want, grp, seen):
    if (h.uid, call.bb) in seen:
        return None
    seen.add((h.uid, call.bb))
    for d in h.calls:
        if h.blocks[d.bb].cleanup or d is call:
            continue
        dk = dirty_kind(ctx, d)
        if dk and (k == "snapshot" or dk & want) and not is_txn(ctx, d) and not own_capture(ctx, d) and call.bb in reach_fwd(h, d.bb, False):
            return d
    for g2 in ctx.m.callers(h):
        if g2 in grp:
            for d in g2.calls:
                if not g2.blocks[d.bb].cleanup and h in ctx.m.targets(d.callee):
                    w = conflict_at(ctx, g2, d, k, want, grp, seen)
                    if w:
                        return w
    return None


def is_txn(ctx, c):
    return txn_labels(ctx)(c) is not None or short(c) in ("create_savepoint", "discard_savepoint")


def own_capture(ctx, d):
    """The callee captures the old state itself and hands it back (its own captures are checked in it)."""
    return any(snapshot_ty(t.local_ty(0)) for t in ctx.m.targets(d.callee))


def restoring(c):
    return short(c).startswith("restore")


def undo_uses(ctx, T, sn, undo, nu, execs, L0):
    m = ctx.m
    adts = saved_adts(ctx, T)
    grp = exec_group(ctx, [undo])
    owners = {T} | adts
    kind = txn_labels(ctx)
    # 1. every field of the saved structures is read by the undo
    for a in sorted(adts):
        for vn, fs in m.adts[a].variants:
            for f in fs:
                if f[0].isdigit():
                    continue
                used = any((a, f[0]) in proj_owned_fields(p) for g in grp for b in g.blocks for p in used_places(g, b))
                ctx.ob("undo-uses-saved", "%s::%s::%s" % (T, a.rsplit("::", 1)[-1], f[0]), used, undo.loc,
                       "`%s` is saved by the edit but never used by its undo" % f[0])
    # 2. a saved field reaches a change of the document
    def keep(s):
        return s[0] == "field" and s[1] in owners

    def lab(c, a):
        r = []
        k = kind(c)
        if k:
            return [k]
        if dirty_kind(ctx, c) and not is_txn(ctx, c):
            if any(a) or any((o in owners) for o, n in bslice(c.fn, *c.args).fields):
                r.append("SAVEDWRITE")
        if a and a[0] and short(c) in ("into_iter", "iter", "iter_mut", "next", "drain"):
            r.append("SAVEDITER")
        return r
    L = Labeler(ctx, lab, keep=keep, enter=lambda c, t: t in grp)
    bad = None
    n = 0
    for oc, ek, bb, mu, my in L.explore(undo, [0], after=False):
        if ek == "err":
            continue
        if "COMMIT" not in my:
            continue
        n += 1
        if "COMMIT" in mu:
            ok = "SAVEDWRITE" in mu or ("SAVEDITER" in mu and "SAVEDWRITE" in my)
        else:
            ok = "SAVEDWRITE" in my
        if not ok:
            bad = bb
    # paths that commit without passing the write
    for c in undo.calls:
        if undo.blocks[c.bb].cleanup or kind(c) != "COMMIT":
            continue
        lb = labels_before(undo, c.bb, lambda i: L.block(undo, i)[0])
        if "SAVEDWRITE" not in lb and not ("SAVEDITER" in lb and "SAVEDWRITE" in L.fn(undo)[1]):
            bad = c.bb
    ctx.ob("undo-uses-saved", "%s::undo" % T, n > 0 and bad is None, undo.loc,
           "the undo can report success without putting the saved state back")
    covers(ctx, T, undo, grp, execs, adts)


def writes_of(ctx, fns_calls):
    r = set()
    for c in fns_calls:
        if not is_txn(ctx, c):
            r |= dirty_kind(ctx, c)
    return r - {"counters"}


def group_calls(ctx, grp):
    return [c for g in grp for c in g.calls if not g.blocks[c.bb].cleanup]


def many_updates(ctx, calls):
    """Entities updated in bulk: X_multi, or X inside a loop."""
    r = set()
    for c in calls:
        n = short(c)
        mm = re.match(r"update_(\w+?)(_multi|_with_relationships(?:_multi)?)?$", n)
        if mm and dirty_kind(ctx, c):
            if n.endswith("_multi") or c.bb in reach_fwd(c.fn, c.bb, True):
                r.add(mm.group(1))
    return r


def arm_blocks(fn, adt, m):
    """variant -> blocks run only for that variant (switch on the discriminant of a value of that type)."""
    whole, _ = defs(fn)
    for i, b in enumerate(fn.blocks):
        if b.cleanup or b.term[0] != "switch":
            continue
        p = op_place(b.term[2])
        if not p:
            continue
        for d in whole.get(p[0], []):
            if d[1] == "rv" and d[2][0] == "discr":
                q = d[2][1]
                if place_ty_is(fn, q, adt, m):
                    arms = {}
                    vs = m.adts[adt].variants
                    for val, tgt in b.term[3]:
                        if int(val) < len(vs):
                            arms[vs[int(val)][0]] = tgt
                    rest = [v[0] for v in vs if v[0] not in arms]
                    if len(rest) == 1:
                        arms[rest[0]] = b.term[4]
                    reach = {v: {t} | reachable_from(fn, t) for v, t in arms.items()}
                    return {v: reach[v] - set().union(*([reach[w] for w in reach if w != v] or [set()])) for v in reach}, \
                        set.intersection(*reach.values()) if reach else set()
    return None


def place_ty_is(fn, q, adt, m):
    """Whether place q has the given enum type."""
    t = fn.local_ty(q[0])
    for e in q[1:]:
        if isinstance(e, list) and e[0] == "f":
            a = m.adts.get(e[3])
            t = ""
            if a:
                for vn, fs in a.variants:
                    for f in fs:
                        if f[0] == e[2]:
                            t = f[1]
            elif e[2].isdigit() and e[3].startswith("core::"):
                t = adt      # payload of Option / Result
    t = re.sub(r"^(&('\w+ )?(mut )?)+", "", t).strip()
    while t.startswith("alloc::boxed::Box<"):
        t = ty_args(t)[0]
    return t == adt


def covers(ctx, T, undo, grp, execs, adts):
    m = ctx.m
    ucalls = group_calls(ctx, grp)
    enums = [a for a in sorted(adts) if len(m.adts[a].variants) > 1 and any(v[1] for v in m.adts[a].variants)]
    eg = exec_group(ctx, execs)
    if enums:
        e = enums[0]
        found = None
        for g in grp:
            found = arm_blocks(g, e, m)
            if found:
                arms, common = found
                host = g
                break
        if not found:
            ctx.ob("undo-covers-edit", "%s::arms" % T, False, undo.loc, "the undo does not distinguish the kinds of saved data")
            return
        for v in m.adts[e].variants:
            makers = [g for g in eg for b in g.blocks for s in b.stmts
                      if not b.cleanup and s[0] == "=" and s[3][0] == "agg" and s[3][1] == e and s[3][2] == v[0]]
            blocks = arms.get(v[0], set())
            acalls = [c for c in host.calls if c.bb in blocks]
            extra = []
            for c in acalls:
                for t in m.targets(c.callee):
                    if t in grp:
                        extra += group_calls(ctx, local_group(ctx, t))
            uw = writes_of(ctx, acalls + extra)
            ctx.ob("undo-covers-edit", "%s::%s::maker" % (T, v[0]), bool(makers), undo.loc, "no execution saves %s" % v[0])
            for g in makers:
                root = g
                while root.kind == "closure" and root.parent in m.fns:
                    root = m.fns[root.parent]
                if any(makers_of_other(x, e, v[0]) for x in [root]):
                    continue
                fc = group_calls(ctx, local_group(ctx, root, 5))
                compare(ctx, "%s::%s" % (T, v[0]), root, writes_of(ctx, fc), uw, many_updates(ctx, fc), many_updates(ctx, acalls + extra),
                        any(restoring(c) and dirty_kind(ctx, c) for c in acalls + extra))
        return
    fc = group_calls(ctx, eg)
    compare(ctx, T, execs[0] if execs else undo, writes_of(ctx, fc), writes_of(ctx, ucalls), many_updates(ctx, fc), many_updates(ctx, ucalls),
            any(restoring(c) and dirty_kind(ctx, c) for c in ucalls))


def makers_of_other(g, e, v):
    return any(s[0] == "=" and s[3][0] == "agg" and s[3][1] == e and s[3][2] != v for b in g.blocks if not b.cleanup for s in b.stmts)


def compare(ctx, key, f, fw, uw, fm, um, restores):
    miss = fw - uw
    ctx.ob("undo-covers-edit", key, not miss, f.loc, "the edit changes %s but its undo never writes it" % ", ".join(sorted(miss)))
    if not restores:
        miss = fm - um
        ctx.ob("undo-covers-edit", key + "::bulk", not miss, f.loc,
               "the edit updates many %s entities but its undo does not" % ", ".join(sorted(miss)))


def fields_touched(ctx, f, T):
    """field of self -> list of operands stored into it (assignments and mutating calls)."""
    r = defaultdict(list)
    for b in f.blocks:
        if b.cleanup:
            continue
        for s in b.stmts:
            if s[0] == "=" and len(s[2]) > 1:
                of = proj_owned_fields(s[2])
                base = ctx.prov(f).local(s[2][0])
                hits = {n for o, n in of if o == T} | {x[2] for x in base if x[0] == "field" and x[1] == T and ("arg", 1) in base}
                sub = {(o, n) for o, n in of if o != T}
                for h in hits:
                    r[h].append((sub, s[3]))
    return r


def merges(ctx, T, sn, ms, execs, nu, nr):
    """merge(): redo input, result, time stamps and extents of the merged command are taken over."""
    m = ctx.m
    mg = [f for f in ms if f.short == "merge" and f.trait == URC]
    if not mg:
        return
    f = mg[0]
    adts = saved_adts(ctx, T)
    # what came from `other`: places rooted in the downcast of argument 2
    def from_other(ops):
        sl = bslice(f, *ops)
        return 2 in sl.args

    touched = set()        # (owner, field) modified with data of the other command
    plain = set()          # (owner, field) modified at all
    for b in f.blocks:
        if b.cleanup:
            continue
        for s in b.stmts:
            if s[0] == "=" and len(s[2]) > 1:
                of = set(proj_owned_fields(s[2]))
                if not of and s[2][1:] == ["*"]:
                    of = {(x[1], x[2]) for x in ctx.prov(f).local(s[2][0]) if x[0] == "field"}
                top = {(o, n) for o, n in of if o == T}
                plain |= of
                if from_other(rv_operands(s[3])):
                    touched |= of
    for c in f.calls:
        if f.blocks[c.bb].cleanup:
            continue
        of = set(proj_owned_fields(c.dest))
        plain |= of
        if of and from_other(c.args):
            touched |= of
        if recv_mut(c) and len(c.args) > 1:
            fs = {(x[1], x[2]) for x in ctx.prov(f).op(c.args[0]) if x[0] == "field"}
            if 1 in bslice(f, c.args[0]).args:
                plain |= fs
                if from_other(c.args[1:]):
                    touched |= fs
    if not plain:
        # default merge: no command type claims it
        return
    dto_adts = set()
    a = m.adts[T]
    for fl in a.variants[0][1]:
        n, t = fl[0], fl[1]
        inner = ty_args(t)[0] if ty_args(t) else t
        base = base_ty(inner)
        if base.endswith("Dto") and n in (nr | nu):
            # the redo input must change
            sub = {(o, x) for o, x in plain if o == base} | ({(T, n)} & plain)
            ctx.ob("merge-keeps-both", "%s::%s" % (T, n), bool(sub), f.loc, "merging does not extend `%s`, so redo repeats only the first command" % n)
            dto_adts.add(base)
        elif base.endswith("Dto") or base.endswith("Instant"):
            ctx.ob("merge-keeps-both", "%s::%s" % (T, n), (T, n) in touched, f.loc,
                   "merging does not take over `%s` of the merged command" % n)
    # what was saved from before the first command stays
    for F in sorted(nu):
        t = m.adts[T].field_ty(F)
        if snapshot_ty(t) or any(x in t for x in adts):
            whole = any(s[0] == "=" and len(s[2]) > 1 and proj_owned_fields(s[2])[-1:] == [(T, F)] for b in f.blocks if not b.cleanup for s in b.stmts)
            ctx.ob("merge-keeps-both", "%s::%s::kept" % (T, F), not whole, f.loc, "merging replaces `%s`, the state from before the first command" % F)
    # extents: saved numbers computed from the DTO text that merge extends
    ext = {(o, x) for o, x in plain if o in dto_adts}
    extents = set()
    for g in exec_group(ctx, execs):
        for b in g.blocks:
            for s in b.stmts:
                if s[0] == "=" and not b.cleanup and s[3][0] == "agg" and s[3][1] in adts and s[3][3]:
                    for n, o in zip(s[3][3], s[3][4]):
                        ty = m.adts[s[3][1]].field_ty(n)
                        if ty not in INTS:
                            continue
                        sl = bslice(g, o)
                        if sl.fields & ext and not any(read_kind(ctx, c) for c in sl.calls):
                            ok = (s[3][1], n) in touched
                            extents.add((s[3][1], n))
                            ctx.ob("merge-keeps-both", "%s::%s" % (T, n), ok, f.loc,
                                   "merging does not extend `%s` by the merged command's: the undo removes too little" % n)


    for o, n in sorted(plain):
        if o in adts and not n.isdigit():
            ctx.ob("merge-keeps-both", "%s::%s::%s::kept" % (T, o.rsplit("::", 1)[-1], n), (o, n) in extents, f.loc,
                   "merging overwrites `%s`, state saved from before the first command" % n)


INTS = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize")


def redo_repeats(ctx, T, sn, undo, redo, execs):
    """Redo's writes are those of the execution (same helper, same kinds of state)."""
    eg, rg = exec_group(ctx, execs), exec_group(ctx, [redo])
    fc, rc = group_calls(ctx, eg), group_calls(ctx, rg)
    fw, rw = writes_of(ctx, fc), writes_of(ctx, rc)
    miss = fw - rw
    ctx.ob("redo-repeats", T, not miss, redo.loc, "the edit changes %s but its redo never writes it" % ", ".join(sorted(miss)))
