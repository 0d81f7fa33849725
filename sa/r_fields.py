"""Conversions carry every attribute to its namesake (C23); attribute merges are attribute-wise (C22)."""
from r_api import *
from core import SNAP, STORE, INNER
from gates import gslice, closure_of


def norm(n):
    return n[4:] if n.startswith("fmt_") else n


def strip_wrap(t):
    for _ in range(3):
        mt = re.match(r"^core::(?:option::Option|result::Result)<", t)
        if not mt:
            break
        t = ty_args(t)[0]
    return t


def struct_of(m, t, by_ref=True):
    if t.startswith("&") and not by_ref:
        return None
    a = m.adts.get(base_ty(peel(t)))
    return a if a and not a.enum and a.variants and len(a.fields) >= 3 else None


def same_kind(m, A, a, B, b):
    """False when one side is a plain value (an id, say) and the other a record of its own."""
    def k(X, x):
        for f in X.variants[0][1]:
            if f[0] == x:
                t = strip_wrap(f[1])
                if t.startswith("alloc::vec::Vec<"):
                    t = ty_args(t)[0]
                z = m.adts.get(base_ty(t))
                return bool(z and not z.enum and len(z.fields) > 1)
        return False
    return k(A, a) == k(B, b)


def converters(ctx):
    """(fn, arg, A, B, {normalised name: (A field, B field)}) for every function turning one struct value into another."""
    r = getattr(ctx, "_convs", None)
    if r is not None:
        return r
    m = ctx.m
    out = []
    for f in m.fns.values():
        if f.kind == "closure" or f.exp is True or not f.nargs or f.nargs > 6 or "test_harness" in f.crate:
            continue
        B = struct_of(m, strip_wrap(f.local_ty(0)), False)
        if not B:
            continue
        if any(re.search(r"DbContext|AppContext|EventHub|RopeStore\b|Transaction|UndoRedoManager", f.local_ty(i)) for i in range(1, f.nargs + 1)):
            continue
        for i in range(1, f.nargs + 1):
            A = struct_of(m, f.local_ty(i))
            if not A or A.uid == B.uid:
                continue
            an = {norm(x): x for x in A.fields}
            com = {norm(x): (an[norm(x)], x) for x in B.fields if norm(x) in an and same_kind(m, A, an[norm(x)], B, x)}
            if len(com) >= 3 and 2 * len(com) >= min(len(A.fields), len(B.fields)):
                out.append((f, i, A, B, com))
    ctx._convs = out
    return out


def field_values(f, B):
    """B field -> [(operand or call, block, line)] stored when building or filling a B value in f."""
    out = defaultdict(list)
    n = 0
    for i, b in enumerate(f.blocks):
        if b.cleanup:
            continue
        for s in b.stmts:
            if s[0] != "=":
                continue
            if s[3][0] == "agg" and s[3][1] == B.uid:
                n += 1
                for x, o in zip(s[3][3], s[3][4]):
                    out[x].append((o, i, s[1]))
            d = field_dest(s)
            if d and d[0] == B.uid:
                out[d[1]].append((s[3], i, s[1]))
        t = b.term
        if t[0] == "call" and len(t[4]) > 1 and isinstance(t[4][-1], list) and t[4][-1][0] == "f" and t[4][-1][3] == B.uid:
            out[t[4][-1][2]].append((f.call_at(i), i, t[1]))
    return out, n


def data_structs(m):
    """uid -> {normalised field name: field} of the plain named-field structs of the workspace."""
    out = {}
    for u, a in m.adts.items():
        if a.enum or not a.variants or len(a.fields) < 3 or a.uid in (STORE, SNAP, INNER):
            continue
        if any(re.search(r"sync::|Arc<|dyn ", f[1]) for f in a.variants[0][1]):
            continue
        out[u] = {norm(x): x for x in a.fields}
    return out


def postdoms(f):
    """block -> set of blocks on every path from it to an exit (cleanup ignored)."""
    r = getattr(f, "_pdom", None)
    if r is not None:
        return r
    n = len(f.blocks)
    ids = [i for i in range(n) if not f.blocks[i].cleanup]
    exits = [i for i in ids if not [t for t in f.blocks[i].succ if not f.blocks[t].cleanup]]
    full = set(ids)
    pd = {i: ({i} if i in exits else set(full)) for i in ids}
    ch = True
    while ch:
        ch = False
        for i in reversed(ids):
            if i in exits:
                continue
            ss = [pd[t] for t in f.blocks[i].succ if t in pd]
            s = set.intersection(*ss) | {i} if ss else {i}
            if s != pd[i]:
                pd[i] = s
                ch = True
    f._pdom = pd
    return pd


def controls(f, bb):
    """Switch blocks that decide (directly or through another) whether block bb runs."""
    memo = f.__dict__.setdefault("_ctl", {}) if hasattr(f, "__dict__") else {}
    if bb in memo:
        return memo[bb]
    pd = postdoms(f)
    direct = defaultdict(set)
    if "d" not in memo:
        for i, b in enumerate(f.blocks):
            if b.cleanup or b.term[0] != "switch":
                continue
            for t in b.succ:
                if t in pd:
                    for x in pd[t] - (pd[i] - {i}):
                        direct[x].add(i)
        memo["d"] = direct
    direct = memo["d"]
    out, todo = set(), [bb]
    while todo:
        for s in direct.get(todo.pop(), ()):
            if s not in out:
                out.add(s)
                todo.append(s)
    memo[bb] = out
    return out


def guard_slice(ctx, f, bb):
    s = Slice()
    for i in controls(f, bb):
        from gates import merge
        merge(s, gslice(ctx, f, f.blocks[i].term[2]))
    return s


def stores(ctx, f, structs):
    """[(B uid, field, operands, block, line, how)] of every value stored in a field of a data struct."""
    out = []
    for i, b in enumerate(f.blocks):
        if b.cleanup:
            continue
        for s in b.stmts:
            if s[0] != "=":
                continue
            if s[3][0] == "agg" and s[3][1] in structs and s[3][3]:
                for x, o in zip(s[3][3], s[3][4]):
                    out.append((s[3][1], x, [o], i, s[1], "agg", s[2][0]))
            d = field_dest(s)
            if d and d[0] in structs:
                rv = s[3]
                out.append((d[0], d[1], [{"c": rv[2]}] if rv[0] == "ref" else rv_operands(rv), i, s[1], "set", s[2][0]))
        t = b.term
        if t[0] == "call" and len(t[4]) > 1 and isinstance(t[4][-1], list) and t[4][-1][0] == "f" and t[4][-1][3] in structs:
            c = f.call_at(i)
            out.append((t[4][-1][3], t[4][-1][2], list(c.args), i, t[1], "set", t[4][0]))
    return out


def xslice(ctx, f, *ops):
    """The expression a value is computed by: own statements, std adapters and closures; no workspace helper entered."""
    from gates import merge
    own = lambda c: not ctx.m.targets(c.callee)
    s = bslice(f, *ops, follow=own)
    for c in list(s.calls):
        if not own(c):
            for a in c.args:
                merge(s, bslice(f, a, follow=own))
    for a in list(s.aggs):
        if a[0].startswith("closure "):
            t = closure_of(ctx, f, a[0])
            if t:
                merge(s, bslice(t, {"c": [0]}, follow=own))
    return s


def vfields(ctx, f, ops, bb):
    """Fields an expression depends on: by value, and by the branches that choose between its values."""
    from gates import merge
    s = xslice(ctx, f, *ops)
    whole, _ = defs(f)
    here = controls(f, bb)
    done = set()
    for l in list(s.locals):
        ds = [d for d in whole.get(l, []) if not f.blocks[d[0]].cleanup]
        if len(ds) < 2:
            continue
        for d in ds:
            for w in controls(f, d[0]) - here - done:
                done.add(w)
                merge(s, xslice(ctx, f, f.blocks[w].term[2]))
    return s


# ------------------------------------------------------------------ transfer sites
OVERLAY = re.compile(r"(Set|Merge)\w*FormatDto$|::HighlightFormat$")
# the text position addressed by the call, not the frame's layout position
NOT_SHARED = {("SetFrameFormatDto", "position")}
PARSED = {"heading_level", "is_code_block", "code_language"}
FORMAT_STRUCTS = {"CharacterFormat", "TextFormat", "HighlightFormat", "BlockFormat", "SetTextFormatDto", "SetBlockFormatDto",
                  "FrameFormat", "TableFormat", "CellFormat", "ListFormat"}


def sh(u):
    return u.rsplit("::", 1)[-1]


def shared(S, A, B):
    return {x for x in set(S[A]) & set(S[B]) if (sh(A), x) not in NOT_SHARED and (sh(B), x) not in NOT_SHARED}


def product_fns(ctx):
    for f in ctx.m.fns.values():
        if f.exp is True or "test_harness" in f.crate or "test_harness" in f.name or f.crate.startswith("cli"):
            continue
        yield f


def borrow_stores(ctx, f, S):
    """Fields of data structs handed to a call by mutable borrow: `fill(&src.x, &mut dst.x)`."""
    whole, _ = defs(f)
    for c in f.calls:
        if f.blocks[c.bb].cleanup:
            continue
        for k, a in enumerate(c.args):
            p = op_place(a)
            if not p or len(p) != 1:
                continue
            l = p[0]
            for _ in range(4):
                ds = [d for d in whole.get(l, []) if d[1] == "rv" and d[2][0] == "ref" and d[2][1]]
                if len(ds) != 1:
                    break
                q = ds[0][2][2]
                e = q[-1]
                if isinstance(e, list) and e[0] == "f":
                    if e[3] in S and len(c.args) > 1:
                        yield (e[3], e[2], [x for j, x in enumerate(c.args) if j != k], c.bb, c.line, "lend", q[0])
                    break
                l = q[0]


def transfers(ctx):
    """(f, A, B) -> list of (attribute, A attributes its value depends on, how, block, line, slice)."""
    r = getattr(ctx, "_transfers", None)
    if r is not None:
        return r
    S = data_structs(ctx.m)
    out = defaultdict(list)
    for f in product_fns(ctx):
        for (B, x, ops, i, line, how, dl) in list(stores(ctx, f, S)) + list(borrow_stores(ctx, f, S)):
            s = vfields(ctx, f, ops, i)
            for A in {T for T, a in s.fields if T in S}:
                fs = {norm(a) for T, a in s.fields if T == A}
                out[(f, A, B)].append((norm(x), fs, how, i, line, s, ops, dl))
    ctx._transfers = (S, out)
    return ctx._transfers


def loc_of(f, line):
    return "%s:%s" % (f.file, line)


def fmt_names(S):
    r = set()
    for u in S:
        if sh(u) in FORMAT_STRUCTS:
            r |= {norm(x) for x in S[u]}
        r |= {norm(x) for x in S[u].values() if x.startswith("fmt_")}
    return r - {"position"}


def C22(ctx):
    ctx.rule("merge-own-value", "where attributes of a requested or highlight format are applied onto an existing format, each attribute takes its value from the same attribute of the request only")
    ctx.rule("merge-own-presence", "whether an attribute is overwritten depends on that attribute of the request only; an attribute the request leaves unset keeps its existing value, a set one wins")
    ctx.rule("merge-cover", "every attribute the request and the format have in common is applied")
    S, tr = transfers(ctx)
    m = ctx.m
    pairs = defaultdict(list)
    for (f, A, B), v in tr.items():
        if OVERLAY.search(A) and not OVERLAY.search(B) or (A == B and sh(A) == "HighlightFormat"):
            good = {x for x, fs, *_ in v if x in fs and x in shared(S, A, B)}
            if good:
                pairs[(A, B)].append((f, v, good))
    for (A, B), sites in sorted(pairs.items()):
        com = shared(S, A, B)
        done = set().union(*[g for _, _, g in sites])
        if len(done) < 3:
            continue
        whole = all(re.search(r"^core::option::Option<", t) for n, t in [x[:2] for x in m.adts[A].variants[0][1]] if norm(n) in com)
        for f, v, good in sites:
            v = [t for t in v if t[0] in com]
            common = None
            for t in v:
                if t[0] in t[1]:
                    k = controls(f, t[3])
                    common = set(k) if common is None else common & k
            for x, fs, how, bb, line, s, ops, dl in sorted(v, key=lambda t: (t[0], t[4])):
                key = "%s:%s->%s:%s" % (f.short if hasattr(f, "short") else sh(f.name), sh(A), sh(B), x)
                at = loc_of(f, line)
                other = (fs & com) - {x}
                ctx.ob("merge-own-value", key, x in fs and not other, at,
                       "" if x in fs and not other else "attribute '%s' is set from %s" % (x, sorted(other) or "nothing of its own"))
                if x not in fs or not whole:
                    continue
                g = Slice()
                from gates import merge
                for w in controls(f, bb) - common:
                    merge(g, xslice(ctx, f, f.blocks[w].term[2]))
                gf = {norm(a) for T, a in g.fields if T == A and norm(a) in com}
                hasbase = any(T == B and norm(a) == x for T, a in s.fields)
                ok, why = True, ""
                if gf - {x}:
                    ok, why = False, "is applied depending on attribute(s) %s" % sorted(gf - {x})
                elif how == "set" and x not in gf and not hasbase and A != B:
                    ok, why = False, "is overwritten even when the request leaves it unset"
                elif how == "agg" and not hasbase and A != B:
                    ok, why = False, "does not fall back to the existing value when the request leaves it unset"
                if ok and hasbase and A != B:
                    for c in s.calls:
                        if c.callee.short in ("or", "or_else", "unwrap_or", "unwrap_or_else", "map_or", "map_or_else", "xor") and c.args:
                            r0 = xslice(ctx, f, c.args[0])
                            if any(T == B and norm(a) == x for T, a in r0.fields) and not any(T == A and norm(a) == x for T, a in r0.fields):
                                ok, why = False, "is taken from the existing format even when the request sets it"
                            elif c.callee.short in ("map_or", "map_or_else", "xor"):
                                continue
                ctx.ob("merge-own-presence", key, ok, at, "" if ok else "attribute '%s' %s" % (x, why))
        f = sites[0][0]
        for x in sorted(com):
            ctx.ob("merge-cover", "%s->%s:%s" % (sh(A), sh(B), x), x in done, "%s:%s" % (f.file, f.line),
                   "" if x in done else "attribute '%s' of the request is never applied" % x)
    ctx.floor("merge-own-value", 80)
    ctx.floor("merge-own-presence", 60)
    ctx.floor("merge-cover", 80)
    return ctx.finish(explanation="Every place that applies a requested or highlight format onto an existing one, attribute by attribute.")


def enum_arg(m, t):
    t = t.lstrip("&")
    for _ in range(2):
        x = re.match(r"^core::option::Option<(.*)>$", t)
        if x:
            t = x.group(1).lstrip("&")
    a = m.adts.get(base_ty(t))
    return a if a and a.enum and len(a.variants) > 1 else None


def enum_maps(ctx):
    """(f, switch block, A, B, {A variant: set of B variants produced on its edge}) of enum-to-enum conversions."""
    m = ctx.m
    out = []
    for f in product_fns(ctx):
        whole, _ = defs(f)
        for i, b in enumerate(f.blocks):
            if b.cleanup or b.term[0] != "switch":
                continue
            p = op_place(b.term[2])
            if not p or len(p) != 1:
                continue
            A = None
            for d in whole.get(p[0], []):
                if d[1] == "rv" and d[2][0] == "discr":
                    A = enum_arg(m, place_type(f, d[2][1]))
            if not A:
                continue
            av = [v[0] for v in A.variants]
            edges = {av[int(k)]: t for k, t in b.term[3] if int(k) < len(av)}
            rest = set(av) - set(edges)
            if len(rest) == 1 and f.blocks[b.term[4]].term[0] != "unreach":
                edges[rest.pop()] = b.term[4]
            if len(edges) < 2:
                continue
            prod = {}
            for v, t in edges.items():
                got, seen, todo = defaultdict(set), {i}, [t]
                while todo:
                    j = todo.pop()
                    if j in seen or f.blocks[j].cleanup:
                        continue
                    seen.add(j)
                    for s in f.blocks[j].stmts:
                        if s[0] == "=" and s[3][0] == "agg" and s[3][1] in m.adts and m.adts[s[3][1]].enum and s[3][1] != A.uid:
                            got[s[3][1]].add(s[3][2])
                    todo += f.blocks[j].succ
                prod[v] = (got, t)
            cand = set().union(*[set(g) for g, _ in prod.values()])
            for u in cand:
                B = m.adts[u]
                bv = {v[0] for v in B.variants}
                if set(av) == bv and len(bv) >= 2 and all(u in g for g, _ in prod.values()):
                    # what an edge produces itself, before joining the other arms
                    join = set.intersection(*[g[u] for g, _ in prod.values()])
                    out.append((f, i, A, B, {v: g[u] - join for v, (g, _) in prod.items()}, b.term[1]))
    return out


def place_type(f, p):
    t = f.local_ty(p[0])
    for e in p[1:]:
        if isinstance(e, list) and e[0] == "f":
            a = f._m.adts.get(e[3]) if hasattr(f, "_m") else None
            if a:
                for v in a.variants:
                    for n, ft in [x[:2] for x in v[1]]:
                        if n == e[2]:
                            t = ft
            else:
                return ""
    return t


def C23(ctx):
    ctx.rule("convert-attribute", "a function that turns one record into another fills every attribute both have from the same-named attribute of its source and from no other, on every path")
    ctx.rule("convert-site", "wherever a record is filled with formatting attributes of another record, each attribute comes from its namesake only")
    ctx.rule("convert-cover", "and no formatting attribute the two records share is left out")
    ctx.rule("convert-enum", "conversions between enumerations with the same variants map every variant to its namesake")
    m = ctx.m
    S, tr = transfers(ctx)
    FM = fmt_names(S)
    for f, i, A, B, com in converters(ctx):
        vals, n = field_values(f, B)
        name = "%s:%s->%s" % (f.name[-50:], sh(A.uid), sh(B.uid))
        if not n and not vals:
            ok = any(m.targets(c.callee) or c.callee.short in ("into", "from") for c in f.calls)
            ctx.ob("convert-delegate", name, ok, "%s:%s" % (f.file, f.line), "" if ok else "conversion neither fills nor delegates")
            continue
        lends = {x: (ops, bb, line) for (T, x, ops, bb, line, how, dl) in borrow_stores(ctx, f, S) if T == B.uid}
        helper = any(any(base_ty(peel(f.local_ty((op_place(a) or [0])[0]))) == B.uid and f.local_ty((op_place(a) or [0])[0]).startswith("&mut")
                         for a in c.args) and m.targets(c.callee) for c in f.calls)
        for k, (a, b) in sorted(com.items()):
            if (sh(A.uid), k) in NOT_SHARED or (sh(B.uid), k) in NOT_SHARED:
                continue
            vs = [(v, bb, ln) for v, bb, ln in vals.get(b, [])]
            have, other, line = False, set(), f.line
            unknown = helper
            for v, bb, ln in vs:
                ops = v.args if hasattr(v, "args") else ([{"c": v[2]}] if isinstance(v, list) and v[0] == "ref" else rv_operands(v) if isinstance(v, list) else [v])
                s = vfields(ctx, f, ops, bb)
                fl = {x for T, x in s.fields if T == A.uid}
                have |= a in fl
                line = ln
                other |= fl - {a}
                if (B.uid, b) in s.fields and any(m.targets(c.callee) for c in s.calls):
                    unknown = True
                cond = set()
                for w in controls(f, bb):
                    cond |= {x for T, x in xslice(ctx, f, f.blocks[w].term[2]).fields if T == A.uid and norm(x) in com}
                if len(vs) > 1 or (vs and n == 0):
                    other |= cond - {a}
            if b in lends:
                s = vfields(ctx, f, lends[b][0], lends[b][1])
                fl = {x for T, x in s.fields if T == A.uid}
                have |= a in fl
                other |= fl - {a}
            ok = (have or unknown) and not other
            ctx.ob("convert-attribute", "%s:%s" % (name, k), ok, loc_of(f, line),
                   "" if ok else ("'%s' also depends on %s" % (b, sorted(other)) if other else "'%s' is not filled from '%s'" % (b, a)))
    done = {(f.uid, A.uid, B.uid) for f, i, A, B, com in converters(ctx)}
    for (f, A, B), v in sorted(tr.items(), key=lambda k: (k[0][0].name, k[0][1], k[0][2])):
        com = shared(S, A, B) & FM
        if len(com) < 3 or (f.uid, A, B) in done or OVERLAY.search(A):
            continue
        groups = defaultdict(list)
        for t in v:
            if A == B and any(c.callee.short in ("default", "new") for c in t[5].calls):
                continue
            groups[(t[3], t[4]) if t[2] == "agg" else "set"].append(t)
        setcov = {(t[0], t[7]) for t in groups.get("set", []) if t[0] in t[1]}
        for gk, ts in sorted(groups.items(), key=repr):
            good = {x for x, fs, *_ in ts if x in fs} & com
            need = set()
            if sh(A) == "ParsedBlock" and good & PARSED:
                need |= PARSED & com
            if len(good) >= 3 and 2 * len(good) > len(com):
                need |= com
            if not need:
                continue
            name = "%s:%s->%s" % (f.name[-50:], sh(A), sh(B))
            for x, fs, how, bb, line, s, ops, dl in ts:
                if x not in com:
                    continue
                other = (fs & com) - {x}
                if x in fs or other:
                    ctx.ob("convert-site", "%s:%s" % (name, x), not other, loc_of(f, line),
                           "" if not other else "'%s' depends on %s" % (x, sorted(other)))
            for x in sorted(need):
                ok = x in good or (x, ts[0][7]) in setcov
                if not ok and gk != "set":
                    ok = any(t[0] == x and any((B, S[B][x]) in t[5].fields and m.targets(c.callee) for c in t[5].calls) for t in tr[(f, A, B)])
                if not ok and gk != "set" and x in {t2[0] for k2, v2 in tr.items() if k2[0] is f and k2[2] == B and k2[1] == B
                                                    for t2 in v2 if (t2[3], t2[4]) == gk and any(m.targets(c.callee) and "default" not in c.callee.short for c in t2[5].calls)}:
                    ok = True          # ..helper(src)
                ctx.ob("convert-cover", "%s:%s" % (name, x), ok, loc_of(f, ts[0][4]),
                       "" if ok else "attribute '%s' is dropped here" % x)
    for f, i, A, B, mp, line in enum_maps(ctx):
        for v, got in sorted(mp.items()):
            ok = got == {v}
            ctx.ob("convert-enum", "%s:%s->%s:%s" % (f.name[-50:], sh(A.uid), sh(B.uid), v), ok, loc_of(f, line),
                   "" if ok else "variant %s becomes %s" % (v, sorted(got)))
    ctx.floor("convert-attribute", 800)
    ctx.floor("convert-site", 300)
    ctx.floor("convert-enum", 30)
    return ctx.finish(explanation="All record conversions, formatting transfers and enumeration conversions of the workspace.")
