"""C43: bulk operations treat every element they are given."""
from gates import *
from r_cap import *
from r_ent import *


PICK = {"first", "last", "nth", "skip", "take", "step_by", "split_first", "split_last", "split_at", "truncate", "pop", "skip_while",
        "take_while", "map_while", "drain", "min", "max", "find", "find_map", "chunks_exact", "get", "get_mut", "index", "swap_remove", "nth_back",
        "next_back", "first_mut", "last_mut", "rev", "dedup", "sort", "sort_unstable", "reverse", "peekable"}
# operations that hand the whole collection on
WHOLE = {"iter", "into_iter", "iter_mut", "cloned", "copied", "enumerate", "zip", "map", "to_vec", "collect", "deref", "as_ref", "clone", "as_slice",
         "to_owned", "into", "borrow", "inspect", "by_ref", "from", "from_iter", "extend", "as_deref", "unwrap", "branch"}
COLL = ("&[", "&alloc::vec::Vec<", "alloc::vec::Vec<", "&mut alloc::vec::Vec<")
CRATES = ("common", "direct_access")


def coll_params(f):
    return [a for a in range(1, f.nargs + 1) if f.local_ty(a).startswith(COLL)]


def bulk_fns(ctx):
    for f in ctx.m.fns.values():
        if f.kind == "closure":
            continue
        if f.crate not in CRATES or "::tests" in f.name:
            continue
        ps = coll_params(f)
        if ps and (f.short.endswith("_multi") or (f.short == "execute" and "Multi" in f.name)):
            yield f, ps


def whole_of(ctx, fn, o, params, grp, me=None):
    """The operand is (an iterator or copy of) a whole collection parameter."""
    def keep(c):
        return c.callee.short in WHOLE or c is me
    s = bslice(fn, o, follow=keep)
    if any(c.callee.short not in WHOLE and c is not me for c in s.calls):
        return False
    if fn.kind == "closure":
        return any(whole_of(ctx, f2, o2, params, grp) for cap in s.caps for f2, o2 in cap_operands(ctx, fn, cap))
    return bool(s.args & params)


def loop_exits(fn, k):
    comp, _ = sccs(fn)
    for b, x in comp.items():
        if x != k:
            continue
        for t in fn.blocks[b].succ:
            if comp.get(t) != k and not fn.blocks[t].cleanup:
                yield b, t


def ok_reach(fn, b):
    """Can a successful return be reached from block b?"""
    errs = err_blocks(fn)
    seen, todo = {b}, [b]
    rets = set(fn.returns())
    while todo:
        i = todo.pop()
        if i in errs:
            continue
        if i in rets:
            return True
        for t in fn.blocks[i].succ:
            if t not in seen and not fn.blocks[t].cleanup:
                seen.add(t)
                todo.append(t)
    return False


def next_of(fn, k):
    comp, _ = sccs(fn)
    return [c for c in live(fn) if comp.get(c.bb) == k and c.callee.short == "next" and "Iterator" in (c.callee.decl or "")]


def exhausted_edge(fn, b, nx):
    """Block b branches on the value `next` returned."""
    t = fn.blocks[b].term
    if t[0] != "switch":
        return False
    p = op_place(t[2])
    if not p:
        return False
    for d in defs(fn)[0].get(p[0], []):
        if d[1] == "rv" and d[2][0] == "discr" and d[2][1][0] in {c.dest[0] for c in nx}:
            return True
    return False


def bulk_obs(ctx, fs):
    for f, ps in fs:
        grp = [g for g in local_group(ctx, f, 3)]
        own = [f] + [g for g in grp if g.kind == "closure" and g.uid.startswith(f.uid)]
        for g in own:
            bad = [c for c in live(g) if c.callee.short in PICK and c.args and whole_of(ctx, g, c.args[0], set(ps), grp)]
            ctx.ob("no-picking", g.uid, not bad, bad[0].where if bad else f.loc, "" if not bad else "uses only part of the elements given (%s)" % bad[0].callee.short)
            comp, _ = sccs(g)
            for k in set(comp.values()):
                nx = [c for c in next_of(g, k) if whole_of(ctx, g, c.args[0], set(ps), grp, c)]
                if not nx:
                    continue
                for b, t in loop_exits(g, k):
                    if exhausted_edge(g, b, nx):
                        continue
                    good = not ok_reach(g, t)
                    ctx.ob("no-early-end", "%s:bb%d" % (g.uid, b), good, nx[0].where, "" if good else "the loop over the given elements can end successfully before all of them were handled")
                skipped(ctx, g, k, nx)


def C43(ctx):
    ctx.rule("no-picking", "a bulk operation never picks single elements out of the collection it was given")
    ctx.rule("no-early-end", "a loop over the elements given ends successfully only when the elements are used up")
    ctx.rule("each-handled", "no element of the collection is passed over in the loop that handles them, unless looking it up in the store finds nothing")
    bulk_obs(ctx, sorted(bulk_fns(ctx), key=lambda x: x[0].uid))
    ctx.floor("no-picking", 200)
    ctx.floor("no-early-end", 20)
    ctx.floor("each-handled", 20)
    return ctx.finish(explanation="Loop and slice rules over every bulk (_multi) operation of the entity tables, repositories, use cases and controllers.")


ACT = {"insert", "remove", "push", "get_mut", "entry", "extend", "extend_from_slice"}


def skipped(ctx, g, k, nx):
    """Every element taken from the collection reaches the loop's own work, unless a lookup of it came back empty."""
    comp, _ = sccs(g)
    body = {b for b, x in comp.items() if x == k}
    heads = {c.bb for c in nx}
    act = set()
    for c in live(g):
        if c.bb in body and c.bb not in heads:
            ts = ctx.m.targets(c.callee)
            if c.callee.short in ACT or any(t.crate == g.crate and t.uid != g.uid and any(t.local_ty(a).startswith("&mut") for a in range(1, t.nargs + 1)) for t in ts):
                act.add(c.bb)
    if not act:
        return
    look = {i for i in body if lookup_switch(g, i)}
    for h in heads:
        # start at the successors of next and of the switch on its result
        par, todo, esc = {}, list(g.blocks[h].succ), None
        for t in todo:
            par[t] = h
        while todo:
            i = todo.pop()
            if i not in body or g.blocks[i].cleanup or i in act or i in look:
                continue
            if i in heads:
                esc = i
                break
            for t in g.blocks[i].succ:
                if t not in par or t in heads:
                    par.setdefault(t, i)
                    todo.append(t)
        ctx.ob("each-handled", "%s" % g.uid, esc is None, nx[0].where, "" if esc is None else "an element can be passed over without being handled")


def lookup_switch(g, i):
    """Branches on whether a map lookup or a filter found something."""
    t = g.blocks[i].term
    if t[0] != "switch":
        return False
    p = op_place(t[2])
    if not p or len(p) != 1:
        return False
    for d in defs(g)[0].get(p[0], []):
        if d[1] == "rv" and d[2][0] == "discr":
            for e in defs(g)[0].get(d[2][1][0], []):
                if e[1] == "call" and e[2].callee.short in ("get", "get_mut", "remove", "cloned", "copied"):
                    return True
        if d[1] == "call" and d[2].callee.short in ("contains", "contains_key"):
            return True
    return False
