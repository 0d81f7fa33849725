"""C24, C25, C39-C42: the entity tables and repositories."""
from r_event import *
from gates import *

E = "common::entities::"
ENTS = ["Root", "Document", "Frame", "Block", "List", "Table", "TableCell", "Resource"]
# relationship field -> (target, owning): confirmed by reading crates/common/src/direct_access/*/
REL = {
    ("Root", "document"): ("Document", True),
    ("Document", "frames"): ("Frame", True), ("Document", "lists"): ("List", True),
    ("Document", "resources"): ("Resource", True), ("Document", "tables"): ("Table", True),
    ("Frame", "blocks"): ("Block", True), ("Frame", "parent_frame"): ("Frame", False), ("Frame", "table"): ("Table", False),
    ("Block", "list"): ("List", False), ("Table", "cells"): ("TableCell", True), ("TableCell", "cell_frame"): ("Frame", False),
}
# per-block side tables that disappear with their block
SIDE = {"Block": ["format_runs", "block_images"]}
DA = "common::direct_access::"


def snake(s):
    return re.sub(r"(?<!^)([A-Z])", r"_\1", s).lower()


def repo_ty(e):
    return DA + "%s::%s_repository::%sRepository" % (snake(e), snake(e), e)


def table_trait(e):
    return DA + "%s::%s_repository::%sTable" % (snake(e), snake(e), e)


def field_enum(e):
    return DA + "%s::%s_repository::%sRelationshipField" % (snake(e), snake(e), e)


def ent_map(ctx):
    """entity -> store field that maps ids to it, by type."""
    r = {}
    a = ctx.m.adts[STORE]
    for n in a.fields:
        t = a.field_ty(n)
        for e in ENTS:
            if re.search(r"HashMap<u64, %s%s[,>]" % (re.escape(E), e), t):
                r[e] = n
    return r


def methods(ctx, ty, name=None, trait=None):
    return [f for f in ctx.m.fns.values() if f.self_ty == ty and f.kind != "closure"
            and (name is None or f.short == name) and (trait is None or f.trait == trait)]


def table_impl(ctx, e, name):
    return [f for f in ctx.m.fns.values() if f.trait == table_trait(e) and f.short == name and f.kind != "closure"]


def tcall(c, e, *names):
    """Call of a method of entity e's table."""
    n = c.callee.decl or c.callee.name
    return n.startswith(table_trait(e) + "::") and (not names or n.rsplit("::", 1)[-1] in names)


def rcall(c, e, *names):
    n = c.callee.name or ""
    return n.startswith(repo_ty(e) + "::") and (not names or n.rsplit("::", 1)[-1] in names)


def live(fn):
    return [c for c in fn.calls if not fn.blocks[c.bb].cleanup]


def group_of(ctx, f, primary=True):
    """The function, its closures and the private helpers it calls in its own file (not sibling API methods)."""
    return local_group(ctx, f, 4)


def locks(ctx, fn, c):
    sl = ctx.store_lock(c)
    return sl if sl else None


def own_removals(ctx, grp, field):
    """Calls that drop an entry of the store map `field`."""
    out = []
    for g in grp:
        for c in live(g):
            if c.callee.short in ("remove", "clear", "retain", "without") and c.args:
                if any(s[0] == "field" and s[1] == STORE and s[2] == field for s in guards(ctx, g, c.args[0], grp)):
                    out.append((g, c))
    return out


def guards(ctx, g, o, grp=()):
    """Store fields the operand is (a guard or reference of), without entering unrelated data."""
    out = set()
    for s in ctx.prov(g).op(o):
        if s[0] == "field" and s[1] == STORE:
            out.add(s)
        elif s[0] == "cap" and g.kind == "closure":
            for h, x in cap_operands(ctx, g, s[1]):
                out |= guards(ctx, h, x)
        elif s[0] == "arg" and grp:
            for h in grp:
                for c in live(h):
                    if h.uid != g.uid and g in ctx.m.targets(c.callee) and s[1] - 1 < len(c.args):
                        out |= guards(ctx, h, c.args[s[1] - 1])
    return out


def field_changes(ctx, grp, ent, fld):
    """Places in the group where field `fld` of an entity is changed: (fn, where, kind, data)."""
    out = []
    ow = E + ent
    for g in grp:
        for i, b in enumerate(g.blocks):
            if b.cleanup:
                continue
            for s in b.stmts:
                if s[0] != "=":
                    continue
                last = [x for x in s[2][1:] if isinstance(x, list) and x[0] == "f"]
                if last and last[-1][3] == ow and last[-1][2] == fld:
                    out.append((g, i, "assign", s[3]))
                if s[3][0] == "ref" and s[3][1] == 1:
                    pf = [x for x in s[3][2][1:] if isinstance(x, list) and x[0] == "f"]
                    if pf and pf[-1][3] == ow and pf[-1][2] == fld:
                        out.append((g, i, "borrow", s))
                if s[3][0] == "agg" and s[3][1] == ow and fld in s[3][3]:
                    o = s[3][4][s[3][3].index(fld)]
                    sl = bslice(g, o)
                    p = op_place(o)
                    if not (p and [x[2] for x in p[1:] if isinstance(x, list) and x[0] == "f"] == [fld]):
                        out.append((g, i, "agg", o))
            if b.term[0] == "call":
                p = b.term[4]
                last = [x for x in p[1:] if isinstance(x, list) and x[0] == "f"]
                if last and last[-1][3] == ow and last[-1][2] == fld:
                    out.append((g, i, "callassign", g.call_at(i)))
    return out


def retained_polarity(ctx, grp, ent, fld):
    """True when some retain on the field keeps the entries found in the removed set."""
    bad = []
    for g, i, k, s in field_changes(ctx, grp, ent, fld):
        if k != "borrow":
            continue
        for c in live(g):
            if c.callee.short == "retain" and c.args and s[2][0] in bslice(g, c.args[0], follow=lambda c: True).locals:
                for a in c.args[1:]:
                    p = op_place(a)
                    for d in defs(g)[0].get(p[0], []) if p else []:
                        if d[1] == "rv" and d[2][0] == "agg" and d[2][1].startswith("closure "):
                            t = closure_of(ctx, g, d[2][1])
                            if t and direct_contains(t):
                                bad.append((g, c))
    return bad


def direct_contains(t):
    """Closure whose result is `set.contains(x)` itself, not negated."""
    ds = defs(t)[0].get(0, [])
    if len(ds) != 1:
        return False
    d = ds[0]
    for _ in range(4):
        if d[1] == "call":
            return d[2].callee.short in ("contains", "contains_key")
        if d[2][0] == "use":
            p = op_place(d[2][1])
            if not p or len(p) != 1:
                return False
            n = defs(t)[0].get(p[0], [])
            if len(n) != 1:
                return False
            d = n[0]
            continue
        return False
    return False


def C24(ctx):
    m = ctx.m
    ctx.rule("no-dangling", "removing an entity clears it from every relationship field that can point at it, in the store map of the pointing entity")
    ctx.rule("side-data", "removing a block drops its formatting runs and its images")
    ctx.rule("cascade", "removing an entity removes everything it owns, and does so before or after the entity itself on every successful path")
    ctx.rule("owner-told", "removing an entity takes it out of its owner's list: the owners are looked up before the removal and rewritten after it")
    ctx.rule("owned", "an entity created under an owner is added to the owner's list together with the existing entries")
    maps = ent_map(ctx)
    ctx.anchor(len(maps) == len(ENTS), "a store map per entity type")
    for e in ENTS:
        en = m.adts.get(field_enum(e))
        fl = {snake(v[0]) for v in en.variants} if en else set()
        want = {f for (s, f) in REL if s == e}
        ctx.ob("relations", e, fl == want, "", "" if fl == want else "relationship fields of %s are %s, the rules know %s" % (e, sorted(fl), sorted(want)))
    tables(ctx, maps)
    for e in ENTS:
        cascade(ctx, e)
        owners(ctx, e)
    from r_bulk import bulk_fns, bulk_obs
    ctx.rule("no-picking", "a removal works on every id it was given, never on picked ones")
    ctx.rule("no-early-end", "a loop over the removed ids ends successfully only when they are used up")
    ctx.rule("each-handled", "no removed id is passed over")
    bulk_obs(ctx, [x for x in sorted(bulk_fns(ctx), key=lambda x: x[0].uid) if x[0].short == "remove_multi"])
    ctx.floor("no-dangling", 11)
    ctx.floor("side-data", 2)
    ctx.floor("cascade", 14)
    ctx.floor("owner-told", 14)
    ctx.floor("owned", 14)
    return ctx.finish(explanation="Relationship-table driven rules over the eight entity tables and repositories (MIR, path-sensitive must-pass).")


def tables(ctx, maps):
    for e in ENTS:
        impls = table_impl(ctx, e, "remove_multi")
        ctx.anchor(len(impls) >= 1, "remove_multi of the %s table" % e)
        for f in impls:
            grp = group_of(ctx, f)
            rem = own_removals(ctx, grp, maps.get(e, ""))
            ctx.ob("removes", e, bool(rem), f.loc, "" if rem else "remove_multi does not remove from the %s map" % e)
            rg = Gates(ctx, lambda fn, c: any(c is r[1] for r in rem), grp)
            for (s, fld), (t, own) in REL.items():
                if t != e:
                    continue
                key = "%s removal clears %s.%s" % (e, s, fld)
                ch = field_changes(ctx, grp, s, fld)
                sm = maps.get(s)
                G = Gates(ctx, lambda fn, c: (lambda sl: bool(sl) and sm in sl[0])(ctx.store_lock(c)), grp)
                put = [c for g in grp for c in live(g) if c.callee.short in ("insert", "get_mut", "entry", "alter", "iter_mut", "values_mut", "update", "retain")
                       and c.args and any(x[2] == sm for x in guards(ctx, g, c.args[0], grp))]
                good, why = True, ""
                if not ch:
                    good, why = False, "%s.%s is never cleared: it keeps pointing at the removed %s" % (s, fld, e)
                elif not put:
                    good, why = False, "the cleaned %s is not written back to the store" % s
                elif any(k == "agg_some" for _, _, k, _ in ch):
                    good = False
                else:
                    at = [b for b in rg.blocks(f)]
                    for b in at:
                        if not G.required(f, b):
                            good, why = False, "a successful removal can skip the %s map" % s
                    bad = retained_polarity(ctx, grp, s, fld)
                    if bad:
                        good, why = False, "keeps exactly the removed ids"
                ctx.ob("no-dangling", key, good, f.loc, why)
            for side in SIDE.get(e, []):
                r2 = own_removals(ctx, grp, side)
                G = Gates(ctx, lambda fn, c: any(c is r[1] for r in r2), grp)
                good = bool(r2) and all(G.required(f, b) for b in rg.blocks(f))
                ctx.ob("side-data", "%s removal drops %s" % (e, side), good, f.loc,
                       "" if good else "the %s of a removed block can stay in the store" % side)


def repo_group(ctx, f):
    """A repository method with its closures and private helpers."""
    return local_group(ctx, f, 3)


def cascade(ctx, e):
    for nm, tn in (("remove", "remove"), ("remove_multi", "remove_multi")):
        for f in methods(ctx, repo_ty(e), nm):
            grp = repo_group(ctx, f)
            tr = Gates(ctx, lambda fn, c: tcall(c, e, "remove", "remove_multi"), grp)
            at = tr.blocks(f)
            ctx.ob("removes", "%s::%s" % (repo_ty(e), nm), bool(at), f.loc, "" if at else "does not remove from the table")
            for (s, fld), (t, own) in REL.items():
                if s != e or not own:
                    continue

                def pred(fn, c):
                    if not rcall(c, t, "remove", "remove_multi"):
                        return False
                    sl = gslice(ctx, fn, *c.args[2:], group=grp)
                    return (E + e, fld) in sl.fields
                G = Gates(ctx, pred, grp, dep=lambda sl: (E + e, fld) in sl.fields)
                good = bool(at) and G.any_in(f) and all(G.required(f, b) for b in at)
                ctx.ob("cascade", "%s.%s via %s" % (e, fld, nm), good, f.loc,
                       "" if good else "removing a %s can leave the %s it owns (%s) behind" % (e, t, fld))


def owners(ctx, e):
    own = [(s, fld) for (s, fld), (t, o) in REL.items() if t == e and o]
    for s, fld in own:
        var = "".join(x.capitalize() for x in fld.split("_"))
        for nm in ("remove", "remove_multi"):
            for f in methods(ctx, repo_ty(e), nm):
                grp = repo_group(ctx, f)
                tr = Gates(ctx, lambda fn, c: tcall(c, e, "remove", "remove_multi"), grp)
                at = tr.blocks(f)

                def isq(fn, c):
                    return rcall(c, s, "get_relationships_from_right_ids") and right_field(ctx, fn, c, s, fld, grp)

                def isset(fn, c):
                    return rcall(c, s, "set_relationship", "set_relationship_multi") and right_field(ctx, fn, c, s, fld, grp)
                Q = Gates(ctx, isq, grp)
                W = Gates(ctx, isset, grp)
                good, why = True, ""
                for b in at:
                    if Q.escape(f, 0, b) is not None:
                        good, why = False, "the owners are not looked up before the removal"
                    if W.escape(f, b, None, after=True) is not None:
                        good, why = False, "the owners' lists are not rewritten after the removal"
                if not at:
                    good, why = False, "no removal found"
                ctx.ob("owner-told", "%s via %s" % (e, nm), good, f.loc, why)
        for nm in ("create", "create_multi"):
            for f in methods(ctx, repo_ty(e), nm):
                grp = repo_group(ctx, f)

                def isw(fn, c):
                    if not (rcall(c, s, "set_relationship") and right_field(ctx, fn, c, s, fld, grp)):
                        return False
                    sl = gslice(ctx, fn, c.args[-1], group=grp)
                    made = any(tcall(x, e, "create", "create_multi") for x in sl.calls)
                    old = any(rcall(x, s, "get_relationship") for x in sl.calls)
                    return made and (old or e == "Document")
                W = Gates(ctx, isw, grp)
                T = Gates(ctx, lambda fn, c: tcall(c, e, "create", "create_multi"), grp)
                at = T.blocks(f)
                good = bool(at) and all(W.escape(f, b, None, after=True) is None for b in at)
                ctx.ob("owned", "%s::%s" % (e, nm), good, f.loc,
                       "" if good else "a created %s can be missing from %s.%s, or push out the ones already there" % (e, s, fld))


def right_field(ctx, fn, c, s, fld, grp):
    en = field_enum(s)
    sl = gslice(ctx, fn, *c.args[1:], group=grp, inner=False)
    vs = {a[1] for a in sl.aggs if a[0] == en}
    for o in sl.consts:
        vs |= const_variant(o, en)
    if not vs:
        return len(ctx.m.adts[en].variants) == 1
    return {snake(v) for v in vs} == {fld}


def const_variant(o, en):
    t = str(o)
    return set(re.findall(re.escape(en) + r"::(\w+)", t))


# ---------------------------------------------------------------- C25
def C25(ctx):
    m = ctx.m
    ctx.rule("counter-only-grows", "next_id hands out the counter and adds one, in one exclusive section")
    ctx.rule("counter-writers", "nothing but next_id and the restore of a transaction rollback writes the id counters")
    ctx.rule("rollback-only", "a restore that winds the counters back is used only when the transaction that made the entities is rolled back")
    ctx.rule("fresh-or-refused", "a created entity gets a fresh id, or its explicit id is refused when taken")
    ctx.rule("own-counter", "each kind of entity draws its ids from one counter of its own")
    ctx.rule("new-means-zero", "code that builds a new entity leaves its id unset, so that the store assigns it")
    nid = ctx.m.find(STORE + "::next_id")
    nid = nid[0] if isinstance(nid, list) else nid
    ctx.anchor(nid, "RopeStore::next_id")
    grp = local_group(ctx, nid, 3)
    lk = [(g, c, ctx.store_lock(c)) for g in grp for c in live(g) if ctx.store_lock(c)]
    wr = [x for x in lk if "counters" in x[2][0]]
    good, why = True, ""
    if len(wr) != 1 or wr[0][2][1] != "w":
        good, why = False, "the counter is not read and advanced under one exclusive lock"
    adds = [b for g in grp for blk in g.blocks if not blk.cleanup for b in blk.stmts if b[0] == "=" and b[3][0] == "bin" and b[3][1].startswith("Add")
            and any(str(o.get("k", "")).startswith("1") for o in rv_operands(b[3]) if isinstance(o, dict))]
    subs = [b for g in grp for blk in g.blocks if not blk.cleanup for b in blk.stmts if b[0] == "=" and b[3][0] == "bin" and not b[3][1].startswith("Add")]
    calls = {c.callee.short for g in grp for c in live(g)}
    if good and not (adds or calls & {"checked_add", "saturating_add", "wrapping_add", "add_assign"}):
        good, why = False, "the counter is not advanced"
    if good and not stored_counter(ctx, grp):
        good, why = False, "the advanced counter is not stored"
    if good and subs:
        good, why = False, "the counter is changed by something other than an addition"
    ctx.ob("counter-only-grows", "next_id", good, nid.loc, why)
    # writers
    writers = {}
    for f in m.fns.values():
        for c in live(f):
            sl = ctx.store_lock(c)
            if sl and "counters" in sl[0] and sl[1] == "w":
                writers[root_fn(m, f).uid] = root_fn(m, f)
    allowed_restores = []
    for f in writers.values():
        if f.uid in {g.uid for g in grp}:
            ctx.ob("counter-writers", f.name, True, f.loc)
            continue
        ok = f.self_ty == STORE and any(base_ty(re.sub(r"^&(mut )?", "", f.local_ty(i))) == SNAP for i in range(1, f.nargs + 1))
        ctx.ob("counter-writers", f.name, ok, f.loc, "" if ok else "writes the id counters: ids may be handed out again")
        if ok:
            allowed_restores.append(f)
    ctx.floor("counter-writers", 2)
    for f in allowed_restores:
        # every chain of callers ends in Transaction::rollback / restore_to_savepoint
        seen, todo, bad = set(), [f], None
        while todo:
            g = todo.pop()
            for h in m.callers(g):
                if h.uid in seen:
                    continue
                seen.add(h.uid)
                if h.self_ty == TXN and h.short in ("rollback", "restore_to_savepoint", "drop"):
                    continue
                if h.self_ty == STORE:
                    todo.append(h)
                else:
                    bad = h
        ctx.ob("rollback-only", f.name, bad is None, f.loc, "" if bad is None else "%s winds the id counters back outside a rollback" % bad.name)
    ctx.floor("rollback-only", 1)
    keys = defaultdict(set)
    maps = ent_map(ctx)
    for e in ENTS:
        for f in table_impl(ctx, e, "create_multi") + table_impl(ctx, e, "create"):
            g2 = local_group(ctx, f, 3)
            ins = [(g, c) for g in g2 for c in live(g) if c.callee.short in ("insert", "update", "entry") and c.args
                   and any(x[2] == maps.get(e) for x in guards(ctx, g, c.args[0], g2))]
            if not ins:
                continue
            nids = [(g, c) for g in g2 for c in live(g) if c.callee.name == STORE + "::next_id"]
            for g, c in nids:
                for o in gslice(ctx, g, c.args[1], group=g2).consts:
                    if isinstance(o, dict) and "str" in o.get("ty", ""):
                        keys[e].add(o["k"])
            good, why = True, ""
            if not nids:
                good, why = False, "no fresh id is drawn"
            for g, c in ins:
                sl = gslice(ctx, g, *c.args[1:], group=g2)
                if not any(x.callee.name == STORE + "::next_id" for x in sl.calls):
                    good, why = False, "an entity is stored under an id that was not drawn from the counter"
                # a block that inserts without next_id must be preceded by a duplicate check
                chk = Gates(ctx, lambda fn, x: x.callee.name == STORE + "::next_id" or (
                    x.callee.short in ("contains_key", "get") and x.args
                    and any(y[2] == maps.get(e) for y in guards(ctx, fn, x.args[0], g2))), g2)
                gates = {i for i in chk_blocks(ctx, chk, g)}
                if path_to_avoiding(g, c.bb, gates):
                    good, why = False, "an entity with an explicit id can overwrite the one that has it"
                if not any(a == ("common::error::RepositoryError", "DuplicateId") for h in g2 for a in aggs_of(h)):
                    good, why = False, "a taken id is not refused"
            ctx.ob("fresh-or-refused", e + "::" + f.short, good, f.loc, why)
    ctx.floor("fresh-or-refused", 8)
    allk = defaultdict(set)
    for e, ks in keys.items():
        for k in ks:
            allk[k].add(e)
    for e in ENTS:
        ks = keys.get(e, set())
        good = len(ks) == 1 and all(len(allk[k]) == 1 for k in ks)
        ctx.ob("own-counter", e, good, "", "" if good else "ids of %s are drawn from %s, shared by %s" % (e, sorted(ks), sorted({x for k in ks for x in allk[k]})))
    n = 0
    for f in m.fns.values():
        if f.trait and (f.trait.startswith("core::clone") or f.trait.startswith("core::convert") or "serde" in f.trait or f.trait.startswith("core::default")):
            continue
        if any(f.trait == table_trait(e) for e in ENTS) or f.name.startswith(DA) and "_table::" in f.name:
            continue
        for b in f.blocks:
            if b.cleanup:
                continue
            for s in b.stmts:
                if s[0] == "=" and s[3][0] == "agg" and s[3][1] in {E + e for e in ENTS}:
                    o = s[3][4][s[3][3].index("id")]
                    sl = bslice(f, o)
                    n += 1
                    zero = (op_place(o) is None and str(o.get("k", "")).startswith("0")) or (sl.calls and sl.shorts() <= {"default"})
                    keep = any(x[0] == E + s[3][1].rsplit("::", 1)[-1] and x[1] == "id" for x in sl.fields)
                    ctx.ob("new-means-zero", "%s builds %s" % (root_fn(m, f).name, s[3][1].rsplit("::", 1)[-1]), zero or keep,
                           "%s:%d" % (f.file, s[1]), "" if zero or keep else "a new entity is given an id that the store did not assign")
    ctx.floor("new-means-zero", 20)
    return ctx.finish(explanation="Who-may-write over the id counters, call-chain rule for rewinding restores, must-precede rule for inserts, constant agreement.")


def aggs_of(f):
    return {(s[3][1], s[3][2]) for b in f.blocks if not b.cleanup for s in b.stmts if s[0] == "=" and s[3][0] == "agg"}


def stored_counter(ctx, grp):
    for g in grp:
        for i, b in enumerate(g.blocks):
            if b.cleanup:
                continue
            for s in b.stmts:
                if s[0] == "=" and len(s[2]) > 1 and s[2][1] == "*":
                    sl = bslice(g, *rv_operands(s[3]))
                    if any(o.startswith("Add") for o in sl.ops) or "checked_add" in sl.shorts():
                        return True
            c = g.call_at(i)
            if c is not None and c.callee.short in ("insert", "add_assign"):
                return True
    return False


def chk_blocks(ctx, G, fn):
    """Gate blocks without lifting out of loops: the rule must hold in every iteration."""
    out = set()
    for i, b in enumerate(fn.blocks):
        if b.cleanup:
            continue
        c = fn.call_at(i)
        if c is not None:
            if G.pred(fn, c):
                out.add(i)
            else:
                ts = [t for t in ctx.m.targets(c.callee) if t.uid in G.group and t.uid != fn.uid]
                if ts and all(G.any_in(t) for t in ts):
                    out.add(i)
    return out


def path_to_avoiding(fn, bb, gates):
    if bb in gates:
        return False
    seen, todo = {0}, [0]
    while todo:
        i = todo.pop()
        if i == bb:
            return True
        if i in gates or fn.blocks[i].cleanup:
            continue
        for t in fn.blocks[i].succ:
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return False


# ---------------------------------------------------------------- C39
MUT = {"create": "Created", "create_multi": "Created", "update": "Updated", "update_multi": "Updated",
       "update_with_relationships": "Updated", "update_with_relationships_multi": "Updated",
       "set_relationship": "Updated", "set_relationship_multi": "Updated", "move_relationship_ids": "Updated",
       "remove": "Removed", "remove_multi": "Removed"}


def event_of(ctx, fn, c, grp):
    """(set of DirectAccessEntity variants, set of EntityEvent variants, slice of the ids) of a push."""
    sl = gslice(ctx, fn, *c.args[1:], group=grp, inner=False)
    de = {a[1] for a in sl.aggs if a[0] == "common::event::DirectAccessEntity"}
    ev = {a[1] for a in sl.aggs if a[0] == "common::event::EntityEvent"}
    return de, ev


def is_push(c):
    return c.callee.name == BUF + "::push"


def C39(ctx):
    m = ctx.m
    ctx.rule("announced", "every successful change of an entity through its repository queues the matching event of that entity type")
    ctx.rule("only-after", "the event is queued only once the change was made, so a failed change announces nothing")
    ctx.rule("ids", "the event names the entities that were changed")
    ctx.rule("restored", "restoring a snapshot announces the entities that came back")
    for e in ENTS:
        for f in methods(ctx, repo_ty(e)):
            direct = {(c.callee.decl or "").rsplit("::", 1)[-1] for c in live(f) if tcall(c, e)} & set(MUT)
            if f.short == "restore":
                grp = repo_group(ctx, f)
                G = Gates(ctx, lambda fn, c: is_push(c), grp)
                rs = Gates(ctx, lambda fn, c: c.callee.short in ("restore_store",), grp)
                evs = set()
                for g in grp:
                    evs |= {a for a in aggs_of(g) if a[0] in ("common::event::DirectAccessEntity", "common::event::EntityEvent")}
                good = ("common::event::DirectAccessEntity", e) in evs and ("common::event::EntityEvent", "Created") in evs and G.any_in(f)
                ctx.ob("restored", e, good, f.loc, "" if good else "a restored %s is not announced" % e)
            if not direct:
                grp = repo_group(ctx, f)
                if f.short in MUT or f.short.replace("_orphan", "") in MUT:
                    # the method delegates: what it reaches decides
                    direct = {(c.callee.decl or "").rsplit("::", 1)[-1] for g in grp for c in live(g) if tcall(c, e)} & set(MUT)
                if not direct:
                    continue
            grp = repo_group(ctx, f)
            for tn in sorted(direct):
                kind = MUT[tn]

                def pred(fn, c):
                    if not is_push(c):
                        return False
                    de, ev = event_of(ctx, fn, c, grp)
                    return e in de and kind in ev
                P = Gates(ctx, pred, grp)
                T = Gates(ctx, lambda fn, c: tcall(c, e, tn), grp)
                at = T.blocks(f)
                good, why = True, ""
                for b in at:
                    if b not in P.blocks(f) and P.escape(f, b, None, after=True) is not None:
                        good, why = False, "a successful %s can go unannounced (no %s(%s) event)" % (tn, e, kind)
                ctx.ob("announced", "%s::%s %s" % (e, f.short, tn), good, f.loc, why)
                good, why = True, ""
                for b in P.blocks(f):
                    if b not in at and T.escape(f, 0, b) is not None:
                        good, why = False, "the %s event can be queued without the change" % kind
                    # and not on the failure edge of the change
                for c in live(f):
                    if tcall(c, e, tn) and after_failure(f, c, P.blocks(f)):
                        good, why = False, "the %s event is queued although the change failed" % kind
                ctx.ob("only-after", "%s::%s %s" % (e, f.short, tn), good, f.loc, why)
            for g in grp:
                for i, b in enumerate(g.blocks):
                    if b.cleanup:
                        continue
                    for s in b.stmts:
                        if s[0] == "=" and s[3][0] == "agg" and s[3][1] == EVENT:
                            o = s[3][4][s[3][3].index("ids")]
                            sl = gslice(ctx, g, o, group=grp, inner=False)
                            ok = any(tcall(c, e) or rcall(c, e) for c in sl.calls) or bool(sl.args - {1, 2}) or g.kind == "closure" or g.uid != f.uid
                            ctx.ob("ids", "%s::%s" % (e, f.short), ok, "%s:%d" % (g.file, s[1]), "" if ok else "the event does not name the changed entities")
    ctx.floor("announced", 90)
    ctx.floor("only-after", 90)
    ctx.floor("restored", 8)
    return ctx.finish(explanation="Must-pass (after the table change) and must-precede rules over every mutating repository method of eight entity types.")


def after_failure(fn, c, blocks):
    """Whether a gate block is reachable from the failing outcome of the call and leads on to it."""
    for oc, ek, bb, mu, my in explore(fn, [c.bb], lambda i: {"P"} if i in blocks else (), call=c):
        if oc == "err" and "P" in my:
            return True
    return False


# ---------------------------------------------------------------- C40
REPO_RE = re.compile(re.escape(DA) + r"\w+::\w+_repository::(\w+?)Repository(RO)?::(\w+)$")
SAME = {"move_relationship": "move_relationship_ids"}


def C40(ctx):
    m = ctx.m
    ctx.rule("names-agree", "a unit-of-work operation calls the repository operation of the same name on the entity type it is for, and nothing else")
    ctx.rule("arguments", "it passes its own parameters on, each in its place")
    ctx.rule("result", "it returns what the repository returned")
    ctx.rule("own-transaction", "it works inside its own open transaction")
    n = 0
    for f in m.fns.values():
        if f.kind == "closure" or not f.trait:
            continue
        cand = any(REPO_RE.match(c.callee.name or "") for c in live(f))
        named = uow_trait(f)
        if not named:
            continue
        grp = [g for g in local_group(ctx, f, 3)]
        rc = []
        for g in grp:
            for c in live(g):
                mm = REPO_RE.match(c.callee.name or "")
                if mm and mm.group(3) != "new":
                    rc.append((mm.group(1), mm.group(3), g, c))
        exp = expected(f, ctx)
        if exp is None:
            continue
        n += 1
        key = "%s::%s" % (f.self_ty, f.short)
        ent, meth = exp
        good = len(rc) == 1 and rc[0][0] == ent and match_name(rc[0][1], meth)
        ctx.ob("names-agree", key, good, f.loc, "" if good else "expected one call of %s.%s, found %s" % (ent, meth, [(a, b) for a, b, _, _ in rc]))
        if not good:
            continue
        g, c = rc[0][2], rc[0][3]
        params = list(range(2, f.nargs + 1))
        tail = c.args[len(c.args) - len(params):] if params else []
        bad = None
        for p, a in zip(params, tail):
            if g.uid != f.uid:
                break
            sl = bslice(g, a)
            if (sl.args - {1}) != {p}:
                bad = "parameter %d is not passed on in its place" % (p - 1)
        ctx.ob("arguments", key, bad is None, f.loc, bad or "")
        sl = gslice(ctx, f, RET(), group=grp)
        ok = c in sl.calls or any(x.callee.name == c.callee.name for x in sl.calls)
        ctx.ob("result", key, ok, f.loc, "" if ok else "the repository's answer is not returned")
        mk = gslice(ctx, g, c.args[0], group=grp)
        ok = any(x[1] == "transaction" for x in mk.fields)
        ctx.ob("own-transaction", key, ok, f.loc, "" if ok else "does not use the unit of work's transaction")
    ctx.floor("names-agree", 700)
    return ctx.finish(explanation="Cross-checking of every unit-of-work operation (feature crates and direct access) against the repository operation it stands for.")


def uow_trait(f):
    t = f.trait.rsplit("::", 1)[-1]
    return t.endswith("UnitOfWorkTrait") or t.endswith("UnitOfWorkROTrait") or t in (
        "WriteUoW", "ReadUoW", "OwnedWriteUoW", "WriteRelUoW", "ReadRelUoW")


def expected(f, ctx):
    """(entity, method tokens) the operation's own name stands for."""
    t = f.trait.rsplit("::", 1)[-1]
    if t.endswith("UoW"):
        mm = re.search(r"::(\w+?)(Write|Read)UoW$", f.self_ty or "")
        if not mm or mm.group(1) not in ENTS:
            return None
        if f.short in ("begin_transaction", "end_transaction", "commit", "rollback", "create_savepoint", "restore_to_savepoint", "store"):
            return None
        return mm.group(1), sorted(SAME.get(f.short, f.short).split("_"))
    toks = f.short.split("_")
    best = None
    for e in ENTS:
        et = snake(e).split("_")
        for k in range(len(toks) - len(et) + 1):
            w = [x[:-1] if x.endswith("s") and x != "frames_" and j == len(et) - 1 and x[:-1] == et[j] else x for j, x in enumerate(toks[k:k + len(et)])]
            if w == et and (best is None or len(et) > len(best[1])):
                best = (e, et, k)
    if not best:
        return None
    rest = toks[:best[2]] + toks[best[2] + len(best[1]):]
    if not rest or rest[0] not in ("create", "get", "update", "remove", "restore", "snapshot", "set", "move"):
        return None
    return best[0], sorted(rest)


def match_name(meth, toks):
    return sorted(meth.split("_")) == toks


# ---------------------------------------------------------------- C41
class VariantGates(Gates):
    """Gates evaluated on the paths taken for one variant of an enum."""

    def __init__(self, ctx, pred, group, enum, var, dep=None):
        super().__init__(ctx, pred, group, dep)
        self.enum, self.var = enum, var

    def dead(self, fn):
        k = ("dead", fn.uid)
        if k not in self.memo:
            r = arm_blocks(fn, self.enum, self.ctx.m)
            d = set()
            if r:
                arms, _ = r
                for v, bl in arms.items():
                    if v != self.var:
                        d |= bl
            self.memo[k] = d
        return self.memo[k]

    def escape(self, fn, start=0, goal=None, after=False):
        g = self.blocks(fn) - self.dead(fn)
        errs = err_blocks(fn) | self.dead(fn)
        goals = set(fn.returns()) if goal is None else {goal}
        seen, todo = set(), []
        todo = [t for t in fn.blocks[start].succ] if after else [start]
        while todo:
            i = todo.pop()
            if i in seen or i in self.dead(fn):
                continue
            seen.add(i)
            if i in goals:
                return [start, i]
            if i in g or fn.blocks[i].cleanup or i in errs:
                continue
            todo += fn.blocks[i].succ
        return None


def C41(ctx):
    m = ctx.m
    ctx.rule("targets-exist", "a relationship is set only after every target was looked up in the repository of that relationship's own entity type")
    ctx.rule("refused", "when a target is missing the call fails and nothing is written")
    for e in ENTS:
        en = field_enum(e)
        if en not in m.adts:
            continue
        for nm in ("set_relationship", "set_relationship_multi"):
            for f in methods(ctx, repo_ty(e), nm):
                grp = repo_group(ctx, f)
                T = Gates(ctx, lambda fn, c: tcall(c, e, "set_relationship", "set_relationship_multi"), grp)
                at = T.blocks(f)
                for v, _ in m.adts[en].variants:
                    tgt = REL.get((e, snake(v)), (None,))[0]
                    key = "%s.%s via %s" % (e, snake(v), nm)
                    if tgt is None:
                        ctx.ob("targets-exist", key, False, f.loc, "unknown relationship")
                        continue

                    def pred(fn, c):
                        if not (rcall(c, tgt, "get_multi", "get") or (tgt == e and tcall(c, e, "get_multi", "get"))):
                            return False
                        sl = gslice(ctx, fn, *c.args[1:], group=grp, inner=False)
                        return bool(sl.args - {1, 2}) or fn.kind == "closure" or fn.uid != f.uid

                    def dep(sl):
                        return bool(sl.args - {1, 2})
                    G = VariantGates(ctx, pred, grp, en, v, dep)
                    has = any(pred(g, c) and c.bb not in G.dead(g) for g in grp for c in live(g))
                    good, why = True, ""
                    if not at:
                        good, why = False, "no write found"
                    elif not has or not G.any_in(f):
                        good, why = False, "the targets are never looked up among the %s entities" % tgt
                    else:
                        for b in at:
                            if G.escape(f, 0, b) is not None:
                                good, why = False, "the relationship can be written without looking the targets up"
                    ctx.ob("targets-exist", key, good, f.loc, why)
                    # a refusal after the lookup that leads to an error
                    good = False
                    for g in grp:
                        for c in live(g):
                            if pred(g, c) and c.bb not in G.dead(g):
                                fw = reachable_from(g, c.bb)
                                for i in fw:
                                    if i in G.dead(g):
                                        continue
                                    if any(s[0] == "=" and s[3][0] == "agg" and s[3][1:3] == ["common::error::RepositoryError", "MissingRelationshipTarget"]
                                           for s in g.blocks[i].stmts):
                                        # the error must depend on the lookup and keep the write from happening
                                        nxt = {i} | reachable_from(g, i)
                                        wb = {x.bb for x in live(g) if tcall(x, e, "set_relationship", "set_relationship_multi")}
                                        if not (nxt & wb):
                                            good = True
                    ctx.ob("refused", key, good, f.loc, "" if good else "a missing target does not stop the write")
    ctx.floor("targets-exist", 22)
    ctx.floor("refused", 22)
    return ctx.finish(explanation="Per-variant must-precede rule over both relationship setters of every entity type.")


# ---------------------------------------------------------------- C42
def C42(ctx):
    m = ctx.m
    ctx.rule("scalar-update", "a plain update keeps the relationships that are in the store, for every relationship field, whatever the caller's copy says")
    ctx.rule("full-update", "an update with relationships stores the caller's relationships")
    ctx.rule("selector", "a relationship selector reads and writes its own field, never another one")
    ctx.rule("caller-data", "an update does not change any other field on its way to the store")
    maps = ent_map(ctx)
    for e in ENTS:
        rels = [fld for (s, fld) in REL if s == e]
        adt = m.adts[E + e]
        for nm in ("update_multi", "update"):
            for f in table_impl(ctx, e, nm):
                grp = local_group(ctx, f, 3)
                ins = inserts(ctx, grp, maps[e])
                if not ins:
                    continue
                for fld in rels:
                    ch = field_changes(ctx, grp, e, fld)
                    good = False
                    for g, i, k, d in ch:
                        ops = rv_operands(d) if k == "assign" else ([d] if k == "agg" else d.args if k == "callassign" else [])
                        sl = gslice(ctx, g, *ops, group=grp)
                        if (E + e, fld) in sl.fields and any(c.callee.short in ("get", "get_mut", "index") and c.args and
                                                            any(x[2] == maps[e] for x in guards(ctx, h, c.args[0], grp))
                                                            for h in grp for c in live(h) if c in sl.calls):
                            good = True
                    # ... and the stored value is the one that was patched
                    ctx.ob("scalar-update", "%s.%s" % (e, fld), good, f.loc, "" if good else "a plain update of a %s can overwrite its %s with the caller's stale copy" % (e, fld))
                for fld in adt.fields:
                    if fld in rels:
                        continue
                    ch = [x for x in field_changes(ctx, grp, e, fld) if x[2] != "agg"]
                    ctx.ob("caller-data", "%s.%s" % (e, fld), not ch, f.loc, "" if not ch else "the caller's %s is replaced during an update" % fld)
        for nm in ("update_with_relationships_multi", "update_with_relationships"):
            for f in table_impl(ctx, e, nm):
                grp = local_group(ctx, f, 3)
                if not inserts(ctx, grp, maps[e]):
                    continue
                for fld in adt.fields:
                    ch = [x for x in field_changes(ctx, grp, e, fld)]
                    ctx.ob("full-update", "%s.%s" % (e, fld), not ch, f.loc, "" if not ch else "the caller's %s is not what is stored" % fld)
        en = field_enum(e)
        if en in m.adts:
            selectors(ctx, e, en, rels)
    ctx.floor("scalar-update", 11)
    ctx.floor("full-update", 60)
    ctx.floor("selector", 22)
    return ctx.finish(explanation="Field-transfer rules over the entity tables' update methods, per-variant field agreement of the relationship accessors.")


def inserts(ctx, grp, field):
    return [(g, c) for g in grp for c in live(g) if c.callee.short in ("insert", "get_mut", "update", "entry", "alter") and c.args
            and any(x[2] == field for x in guards(ctx, g, c.args[0], grp))]


def touched(fn, blocks, ow):
    """Fields of the entity read or written in these blocks."""
    r = set()
    for i in blocks:
        b = fn.blocks[i]
        if b.cleanup:
            continue
        ps = []
        for s in b.stmts:
            if s[0] == "=":
                ps.append(s[2])
                if s[3][0] == "ref":
                    ps.append(s[3][2])
                if s[3][0] == "discr":
                    ps.append(s[3][1])
                ps += [op_place(o) for o in rv_operands(s[3]) if op_place(o)]
        if b.term[0] == "call":
            ps += [op_place(o) for o in b.term[3] if op_place(o)] + [b.term[4]]
        for p in ps:
            r |= {x[2] for x in p[1:] if isinstance(x, list) and x[0] == "f" and x[3] == ow}
    return r


def selectors(ctx, e, en, rels):
    m = ctx.m
    seen = defaultdict(int)
    for f in m.fns.values():
        if f.crate != m.adts[en].crate if hasattr(m.adts[en], "crate") else not f.name.startswith("common::") and not f.name.startswith("<common::"):
            continue
        if f.kind == "closure" or not any(base_ty(re.sub(r"^(&('\w+ )?(mut )?)+", "", f.local_ty(i))) == en for i in range(1, f.nargs + 1)):
            continue
        r = arm_blocks(f, en, m)
        vs = [v[0] for v in m.adts[en].variants]
        if r is None:
            if len(vs) != 1:
                continue
            arms = {vs[0]: [i for i, b in enumerate(f.blocks) if not b.cleanup]}
        else:
            arms = r[0]
        for v, bl in arms.items():
            t = touched(f, bl, E + e) & set(rels)
            if not t:
                continue
            good = t == {snake(v)}
            seen[v] += 1
            ctx.ob("selector", "%s %s in %s" % (e, v, f.name), good, f.loc, "" if good else "the selector %s touches %s" % (v, sorted(t)))
