"""New and removed content takes its place in the reading order (C17)."""
from paths import *
from gates import gslice, Gates
from core import *
from r_undo import local_group
import re

EDIT = ("insert", "push", "extend", "splice", "append", "extend_from_slice", "retain", "remove", "swap_remove", "drain", "truncate", "clear", "dedup", "retain_mut", "insert_mut")
DROP = ("retain", "remove", "swap_remove", "drain", "truncate", "clear", "dedup", "retain_mut")


def field_end(p, name):
    return p and len(p) > 1 and isinstance(p[-1], list) and p[-1][0] == "f" and str(p[-1][-1]) == name or p and any(isinstance(e, list) and e[0] == "f" and name in [str(x) for x in e[1:]] for e in p[-1:])


def lent(ctx):
    """Parameters that some caller gives a reading order to: {(function, parameter)}."""
    r = getattr(ctx, "_lent", None)
    if r is None:
        r = ctx._lent = set()
        ch = True
        while ch:
            ch = False
            for f in use_fns(ctx):
                refs = order_refs(ctx, f)
                for c in f.calls:
                    for i, a in enumerate(c.args):
                        p = op_place(a)
                        if p and len(p) == 1 and p[0] in refs and f.local_ty(p[0]).startswith("&mut"):
                            for t in ctx.m.targets(c.callee):
                                if t.crate.startswith("text_document") and (t.uid, i + 1) not in r:
                                    r.add((t.uid, i + 1))
                                    ch = True
    return r


def order_refs(ctx, fn):
    """Locals that are references to some `x.child_order` -> base place."""
    out = {i: [i] for i in range(1, fn.nargs + 1) if (fn.uid, i) in ctx._lent} if getattr(ctx, "_lent", None) else {}
    for b in fn.blocks:
        for s in b.stmts:
            if s[0] == "=" and len(s[2]) == 1 and s[3][0] == "ref" and field_end(s[3][2], "child_order"):
                out[s[2][0]] = s[3][2]
    ch = True
    while ch:
        ch = False
        for b in fn.blocks:
            for s in b.stmts:
                if s[0] == "=" and len(s[2]) == 1 and s[2][0] not in out:
                    src = None
                    if s[3][0] == "use":
                        src = op_place(s[3][1])
                    elif s[3][0] == "ref":
                        src = s[3][2]
                    if src and src[0] in out and all(e == "*" for e in src[1:]):
                        out[s[2][0]] = out[src[0]]
                        ch = True
        for c in fn.calls:
            if c.callee.short in ("deref_mut", "deref", "as_mut", "borrow_mut", "as_mut_slice") and c.args and len(c.dest) == 1 and c.dest[0] not in out:
                p = op_place(c.args[0])
                if p and len(p) == 1 and p[0] in out:
                    out[c.dest[0]] = out[p[0]]
                    ch = True
    return out


def sinks(ctx, fn):
    """[(kind, bb, line, base place, value operands, index operand)] of every change of a child_order."""
    lent(ctx)
    refs = order_refs(ctx, fn)
    out = []
    for c in fn.calls:
        if fn.blocks[c.bb].cleanup or c.callee.short not in EDIT or not c.args:
            continue
        p = op_place(c.args[0])
        if p and p[0] in refs and fn.local_ty(p[0]).startswith("&mut"):
            idx = c.args[1] if c.callee.short in ("insert", "splice", "remove") and len(c.args) > 1 else None
            out.append((c.callee.short, c.bb, c.line, refs[p[0]], c.args[2:] if c.callee.short in ("insert", "splice") else c.args[1:], idx))
    for c in fn.calls:
        for i, a in enumerate(c.args):
            p = op_place(a)
            if not fn.blocks[c.bb].cleanup and p and len(p) == 1 and p[0] in refs and any((t.uid, i + 1) in lent(ctx) for t in ctx.m.targets(c.callee)):
                out.append(("lend", c.bb, c.line, refs[p[0]], [], None))
    for i, b in enumerate(fn.blocks):
        if b.cleanup:
            continue
        for s in b.stmts:
            if s[0] == "=" and field_end(s[2], "child_order"):
                out.append(("assign", i, s[1], s[2], rv_operands(s[3]) if s[3][0] != "ref" else [], None))
        if b.term[0] == "call":
            c = fn.call_at(i)
            if field_end(c.dest, "child_order"):
                out.append(("assign", i, c.line, c.dest, c.args, None))
    return out


def ident(c):
    """Calls an id keeps its identity through: anything but calls of the unit of work, the store and the text."""
    n = c.callee.name or ""
    return not (c.callee.tr and ("UnitOfWork" in c.callee.tr or "Cfc" in c.callee.tr or "CellFrame" in c.callee.tr)) and "rope_helpers" not in n and "_commands" not in n and not c.callee.short.startswith(("get_", "find_"))


def births(ctx, sl, seen=None):
    """The creating calls among the sources of a slice: (entity, call)."""
    out = set()
    for c in sl.calls:
        e = born(c)
        if e:
            out.add((e, c.fn.uid, c.bb))
    return out


def born(c):
    if c.callee.short in ("create_block", "cfc_create_block", "create_orphan_block"):
        return "Block"
    if c.callee.short in ("create_frame", "cfc_create_frame", "create_orphan_frame"):
        return "Frame"
    return None


def creating(ctx, f, c):
    """Whether c is a call of the unit of work (or of the public commands) that creates one block or frame."""
    return born(c) and not f.blocks[c.bb].cleanup and "::tests" not in f.uid and c.dest and any(("entities::" + born(c)) in f.local_ty(c.dest[0]) or (born(c) + "Dto") in f.local_ty(c.dest[0]) for _ in (0,))


def use_fns(ctx):
    return [f for f in ctx.m.fns.values() if f.crate in ("text_document_editing", "text_document_io", "text_document", "text_document_formatting") and "units_of_work" not in f.loc and "::tests" not in f.uid
            and not (f.trait and (f.trait.endswith("Trait") or "CellFrameCreator" in f.trait)) and "_controller" not in f.uid]


def family(ctx, f):
    """The functions of f's file, and those that call f from elsewhere with the functions of their file."""
    r = getattr(ctx, "_fam", None)
    if r is None:
        r = ctx._fam = defaultdict(list)
        for g in use_fns(ctx):
            r[g.file].append(g)
    out = {g.uid: g for g in r[f.file]}
    for g in ctx.m.callers(f):
        g = ctx.m.fns.get(g, g) if isinstance(g, str) else g
        for h in r[g.file]:
            out[h.uid] = h
    return list(out.values())


def value_sources(fn, o, depth=14, seen=None):
    """What a number is computed from: through copies, casts, additions, min/max and Option/Result plumbing."""
    seen = seen if seen is not None else set()
    p = op_place(o)
    if p is None:
        return [("const", o)]
    k = json_key(p)
    if k in seen or depth < 0:
        return []
    seen.add(k)
    l, proj = p[0], [e for e in p[1:] if e != "*"]
    out = []
    if proj and isinstance(proj[0], list) and proj[0][0] == "f" and proj[0][3] == "tuple":
        from slices import tuple_part
        t = tuple_part(fn, l, proj[0][1])
        if t is not None:
            return value_sources(fn, t, depth - 1, seen)
    whole, part = defs(fn)
    ds = whole.get(l, [])
    if not ds and 0 < l <= fn.nargs:
        return [("arg", l, proj)]
    for d in ds:
        if d[1] == "rv":
            r = d[2]
            if r[0] in ("use", "cast", "bin", "un", "ref"):
                for x in rv_operands(r) if r[0] != "ref" else [{"c": r[2]}]:
                    q = op_place(x)
                    keep = proj if r[0] in ("use", "ref") else []
                    out += value_sources(fn, {"c": list(q) + keep} if q and keep else x, depth - 1, seen)
            elif r[0] == "agg":
                if proj and isinstance(proj[0], list) and proj[0][0] in ("f", "d"):
                    rest = [e for e in proj if e[0] == "f"]
                    i = rest[0][1] if rest else 0
                    if i < len(r[4]):
                        x = r[4][i]
                        q = op_place(x)
                        out += value_sources(fn, {"c": list(q) + rest[1:]} if q and rest[1:] else x, depth - 1, seen)
                else:
                    for x in r[4]:
                        out += value_sources(fn, x, depth - 1, seen)
            else:
                out.append(("rv", r[0]))
        else:
            c = d[2]
            if c.callee.short in ("branch", "from_residual", "unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "min", "max", "ok_or", "ok_or_else", "saturating_add", "clone", "into", "from", "try_into", "context", "with_context", "checked_add", "wrapping_add", "deref", "map", "as_ref", "copied", "cloned"):
                for a in c.args[:2]:
                    q = op_place(a)
                    out += value_sources(fn, a, depth - 1, seen) if not (q and "closure" in fn.local_ty(q[0])) else []
            else:
                out.append(("call", c, proj))
    return out


NEGS = {"Neg", "Sub", "SubWithOverflow", "Mul", "MulWithOverflow"}
FRAME = "common::entities::Frame"
SEARCHES = ("position", "rposition", "len", "find_position")
PLUMB = ("branch", "from_residual", "unwrap", "expect", "unwrap_or", "unwrap_or_default", "min", "max", "ok_or", "ok_or_else", "saturating_add", "clone", "into", "from", "try_into", "context", "with_context", "checked_add",
         "wrapping_add", "deref", "as_ref", "copied", "cloned", "clamp", "or")


def index_sources(ctx, f, o, grp, vals, depth=3):
    """[(ok, what, where)] for everything an index into a reading order is computed from."""
    out = []
    for s in value_sources(f, o):
        if s[0] == "const":
            continue
        if s[0] == "arg":
            ups = [(g, c) for g in grp for c in g.calls if any(t is f for t in ctx.m.targets(c.callee)) and len(c.args) >= s[1]]
            if f.kind == "closure" or not ups or depth < 0:
                out.append((f.kind == "closure", "a parameter", f.loc))
            for g, c in ups:
                out += index_sources(ctx, g, c.args[s[1] - 1], grp, [], depth - 1)
            continue
        if s[0] != "call":
            out.append((False, s[0], f.loc))
            continue
        c = s[1]
        n = c.callee.short
        if n == "next":
            sl = gslice(ctx, f, *c.args, group=grp, depth=1, follow=ident)
            mine = any(any(x is c for x in gslice(ctx, f, v, group=grp, depth=1, follow=ident).calls) for v in vals)
            over = (FRAME, "child_order") in sl.fields
            ranged = any(a[0].startswith("core::ops::range::Range") for a in sl.aggs)
            out.append((mine or over or ranged and not any(x.callee.short == "enumerate" for x in sl.calls), "a count over another list", c.where))
        elif n in ("map_or", "map_or_else", "map", "and_then", "unwrap_or_else", "is_some_and"):
            for a in c.args:
                q = op_place(a)
                t = closure_value_of(ctx, f, q) if q else None
                if t is not None:
                    out += index_sources(ctx, t, {"c": [0]}, grp, [], depth - 1)
                elif n == "map_or" and a is c.args[0] or n in ("and_then", "map_or_else") and a is c.args[0]:
                    continue_on = [x for x in index_sources(ctx, f, a, grp, vals, depth - 1) if numeric(f, a)]
                    out += continue_on
                else:
                    out += index_sources(ctx, f, a, grp, vals, depth - 1)
        elif n in SEARCHES:
            sl = gslice(ctx, f, *c.args, group=grp, depth=1, follow=ident)
            out.append(((FRAME, "child_order") in sl.fields or any("child_order" in str(x) for x in sl.caps), "%s of another list" % n, c.where))
        else:
            ts = [t for t in ctx.m.targets(c.callee) if t.crate in ("text_document_editing", "text_document_io", "text_document", "common") and t.blocks]
            if ts and depth >= 0 and not c.callee.virt and not s[2]:
                for t in ts[:3]:
                    out += index_sources(ctx, t, {"c": [0]}, grp, [], depth - 1)
            else:
                out.append((False, "%s" % n, c.where))
    return out


def numeric(f, a):
    q = op_place(a)
    t = f.local_ty(q[0]) if q else ""
    return "usize" in t


def closure_value_of(ctx, f, q):
    from gates import closure_value
    return closure_value(ctx, f, q)


def no_parent(ctx, f, c):
    """Whether a frame is created without a parent: the main frame of a document."""
    dflt = False
    for a in c.args:
        from slices import bslice
        sl = bslice(f, a)
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == "=" and s[3][0] == "agg" and s[3][1].rsplit("::", 1)[-1] in ("Frame", "CreateFrameDto") and s[2][0] in sl.locals and "parent_frame" in (s[3][3] or []):
                    ps = bslice(f, s[3][4][s[3][3].index("parent_frame")])
                    return not ps.aggs - {("core::option::Option", "None")} and not any(x.callee.short not in ("default", "now") for x in ps.calls)
        dflt |= any(x.callee.short == "default" and "rame" in x.fn.local_ty(x.dest[0]) for x in sl.calls)
    return dflt


def stores(ctx, c, depth=2):
    """Whether a call stores entities it is given."""
    if "update" in c.callee.short and (c.callee.tr or "_commands" in (c.callee.name or "")):
        return True
    return depth > 0 and any(t.crate.startswith("text_document") and t.crate == c.fn.crate and not t.trait and any(stores(ctx, x, depth - 1) for x in t.calls) for t in ctx.m.targets(c.callee))


def kept(ctx, f, bb, base, some=False):
    """Whether every successful path from block bb stores the frame in `base`."""
    l = base[0]
    from r_longop import walk
    done = set()
    for c in f.calls:
        if f.blocks[c.bb].cleanup or not stores(ctx, c):
            continue
        for a in c.args:
            if l in gslice(ctx, f, a, depth=0, follow=ident).locals:
                done.add(c.bb)
    from r_longop import loops
    for comp in loops(f):
        if len(comp) > 1 and comp & done:
            for c in f.calls:
                if c.bb in comp and c.callee.short == "next" and l in gslice(ctx, f, *c.args, depth=0, follow=ident).locals:
                    done.add(c.bb)              # the loop goes over the changed frames
    if some:
        return bool(walk(f, (), bb) & done)         # entries taken out: storing may depend on whether there were any
    errs = {i for i, b in enumerate(f.blocks) if ret_place_assign_kind(f, i) == "err"}
    bad = {c.bb for c in f.calls if c.callee.short == "from_residual"}
    left = walk(f, (), bb, done | errs | bad) & set(f.returns())
    return not left or bb in done


def C17(ctx):
    ctx.rule("linked", "every block an operation creates is entered in the reading order of a frame; every frame in that of its parent or in its table cell, or it is a main frame, which has no parent")
    ctx.rule("signed", "a block is entered by its id, a frame by its negated id")
    ctx.rule("placed", "the index of an insertion into a frame's reading order was searched in that reading order (or is its end), never in another list")
    ctx.rule("kept", "a frame whose reading order was changed is stored on every successful path")
    ctx.rule("unlisted", "removing blocks or frames from the store takes them out of the reading order of the frame that lists them")
    ctx.rule("settled", "a committed transaction has recomputed the derived positions, counts and frame ranges")
    fns = use_fns(ctx)
    linked = set()
    for f in fns:
        grp = family(ctx, f)
        count = defaultdict(int)
        for kind, bb, line, base, vals, idx in sinks(ctx, f):
            loc = "%s:%s" % (f.loc.rsplit(":", 1)[0], line)
            count[kind] += 1
            key = "%s/%s%d" % (f.uid, kind, count[kind])
            if FRAME in f.local_ty(base[0]) and len([e for e in base if e != "*"]) == 2:
                ctx.ob("kept", "kept/" + key, f.local_ty(base[0]).startswith("&mut") or kept(ctx, f, bb, base, kind in DROP), loc, "the changed reading order of the frame can be lost")
            if kind in DROP:
                continue
            linked |= births(ctx, gslice(ctx, f, *vals, group=grp, depth=3, follow=ident))
            if idx is not None and kind in ("insert", "splice"):
                bad = [x for x in index_sources(ctx, f, idx, grp, vals) if not x[0]]
                ctx.ob("placed", "placed/" + key, not bad, loc, "the place in the reading order comes from %s at %s" % bad[0][1:] if bad else "")
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == "=" and s[3][0] == "agg" and s[3][1].endswith("TableCell") and "cell_frame" in (s[3][3] or []):
                    linked |= {x for x in births(ctx, gslice(ctx, f, s[3][4][s[3][3].index("cell_frame")], group=grp, depth=3, follow=ident)) if x[0] == "Frame"}
    for f in fns:
        n = defaultdict(int)
        for c in f.calls:
            if creating(ctx, f, c):
                e = born(c)
                n[e] += 1
                ctx.ob("linked", "linked/%s/%s%d" % (f.uid, e, n[e]), (e, f.uid, c.bb) in linked or e == "Frame" and no_parent(ctx, f, c), c.where, "the %s created here is never entered in a reading order" % e.lower())
        # signs
        if any(k[0] not in DROP for k in sinks(ctx, f)):
            grp = family(ctx, f)
            for c in f.calls:
                if c.callee.short in ("push", "insert", "once", "from") and not f.blocks[c.bb].cleanup and c.args:
                    a = c.args[-1]
                    q = op_place(a)
                    if q and len(q) == 1 and f.local_ty(q[0]) == "i64":
                        sl = gslice(ctx, f, a, group=grp, depth=1, follow=ident)
                        es = {b[0] for b in births(ctx, sl)}
                        if len(es) == 1:
                            ctx.ob("signed", "signed/%s/%d" % (f.uid, sum(1 for x in f.calls if x.callee.short == c.callee.short and x.line <= c.line)), bool(sl.ops & NEGS) if es == {"Frame"} else "Neg" not in sl.ops, c.where, "a %s is entered with the wrong sign" % "".join(es).lower())
    unlisted(ctx)
    settled(ctx)
    for r, n in (("linked", 35), ("signed", 15), ("placed", 10), ("kept", 20)):
        ctx.floor(r, n)
    return ctx.finish(explanation="Identity slices from every creating call to the reading orders and table cells that take the id, value sources of every insertion index, must-store analysis of every changed frame, must-pass of the recomputations in commit.")


def unlisted(ctx):
    n = 0
    for f in ctx.m.fns.values():
        if f.crate != "common" or f.kind == "closure" or "::tests" in f.uid or not re.search(r"direct_access::(block|frame)::", f.uid):
            continue
        grp = local_group(ctx, f, 2)
        rm = [c for c in f.calls if c.callee.short in ("remove", "retain", "remove_entry") and not f.blocks[c.bb].cleanup and c.args and op_place(c.args[0]) and re.search(r"(Map<u64|HashMap<u64).*entities::(Block|Frame)\b", f.local_ty(op_place(c.args[0])[0]))]
        for c in rm[:1]:
            n += 1
            drops = [(g, k) for g in grp for k in sinks(ctx, g) if k[0] in DROP]
            asg = [(g, k) for g in grp for k in sinks(ctx, g) if k[0] == "assign" and any(x.callee.short in ("filter", "filter_map", "retain") for o in k[4] for x in gslice(ctx, g, o, depth=1).calls)]
            ctx.ob("unlisted", "unlisted/%s" % f.uid, bool(drops or asg), c.where, "what was removed stays in the reading order of their frame")
    ctx.ob("unlisted", "anchor", n > 0, "common::direct_access::block", "no function removes blocks from the store")


DERIVED_FIELDS = (("Block", "document_position"), ("Document", "character_count"), ("Document", "block_count"), ("Frame", "byte_range"))


def computes(ctx, f, ent, name):
    """Whether f itself gives the field of an entity a newly computed value."""
    own = "common::entities::" + ent
    for b in f.blocks:
        if b.cleanup:
            continue
        for s in b.stmts:
            if s[0] != "=":
                continue
            if len(s[2]) > 1 and isinstance(s[2][-1], list) and s[2][-1][0] == "f" and (s[2][-1][3], s[2][-1][2]) == (own, name):
                return True
            if s[3][0] == "agg" and s[3][1] == own and name in (s[3][3] or []):
                q = op_place(s[3][4][s[3][3].index(name)])
                if q and not any(isinstance(e, list) and e[0] == "f" and e[2] == name for e in q[1:]):
                    return True
    return False


def settled(ctx):
    from r_longop import walk, bool_edges
    tx = [f for f in ctx.m.fns.values() if f.crate == "common" and f.short == "commit" and f.self_ty and f.self_ty.endswith("transactions::Transaction")]
    ctx.ob("settled", "anchor", len(tx) == 1, "common::database::transactions", "Transaction::commit not found")
    for f in tx:
        for ent, name in DERIVED_FIELDS:
            good = set()
            for c in f.calls:
                if f.blocks[c.bb].cleanup:
                    continue
                for t in ctx.m.targets(c.callee):
                    if t.crate == "common" and any(g.crate == "common" and "rope_helpers" in g.uid and computes(ctx, g, ent, name) for g in [t] + list(ctx.m.reach(t).values())):
                        good.add(c.bb)
            errs = {i for i, b in enumerate(f.blocks) if ret_place_assign_kind(f, i) == "err"} | {c.bb for c in f.calls if c.callee.short == "from_residual"}
            ctx.ob("settled", "settled/%s.%s" % (ent, name), bool(good) and not walk(f, (), 0, good | errs) & set(f.returns()), f.loc, "a transaction can be committed without recomputing %s.%s" % (ent, name))
