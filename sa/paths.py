"""Path exploration of one function body with outcome tracking, correlated branch conditions and
must/may label sets."""
from flow import *

TRY_BRANCH = "core::ops::try_trait::Try::branch"
# adapters that keep success/failure of their receiver
KEEP = {"map_err", "context", "with_context", "map", "inspect", "inspect_err", "as_ref", "as_mut", "copied", "cloned"}


def switch_info(fn, i):
    t = fn.blocks[i].term
    return t if t[0] == "switch" else None


def outcome_values(fn, call):
    """local -> kind, for locals holding (something derived from) the call's Result:
    'res' Result, 'cf' ControlFlow, 'opt' Option from .ok(), 'dres'/'dcf'/'dopt' discriminants,
    'isok'/'iserr' bools."""
    vals = {}
    if len(call.dest) != 1:
        return vals
    t = base_ty(fn.local_ty(call.dest[0]))
    vals[call.dest[0]] = "opt" if t == "core::option::Option" else "res"
    if t not in (RESULT, "core::option::Option", "core::ops::control_flow::ControlFlow"):
        if fn.local_ty(call.dest[0]) == "bool":
            vals[call.dest[0]] = "isok"
        else:
            return {}
    ch = True
    while ch:
        ch = False
        for i, b in enumerate(fn.blocks):
            if b.cleanup:
                continue
            for s in b.stmts:
                if s[0] != "=" or len(s[2]) != 1 or s[2][0] in vals:
                    continue
                rv = s[3]
                k = None
                if rv[0] in ("use",):
                    x = alias_src(rv[1])
                    if x in vals:
                        k = vals[x]
                elif rv[0] == "ref":
                    if len(rv[2]) == 1 and rv[2][0] in vals:
                        k = vals[rv[2][0]]
                elif rv[0] == "discr":
                    p = rv[1]
                    if p[0] in vals and all(e == "*" for e in p[1:]) and vals[p[0]] in ("res", "cf", "opt"):
                        k = "d" + vals[p[0]]
                elif rv[0] == "un" and rv[1] == "Not":
                    x = alias_src(rv[2])
                    if vals.get(x) == "isok":
                        k = "iserr"
                    elif vals.get(x) == "iserr":
                        k = "isok"
                if k:
                    vals[s[2][0]] = k
                    ch = True
            if b.term[0] == "call" and len(b.term[4]) == 1 and b.term[4][0] not in vals:
                c = fn.call_at(i)
                if not c.args:
                    continue
                p = op_place(c.args[0])
                if not p or len(p) != 1 or p[0] not in vals:
                    continue
                k0 = vals[p[0]]
                d = c.callee.decl
                sh = d.rsplit("::", 1)[-1]
                k = None
                if d == TRY_BRANCH:
                    k = "cf" if k0 in ("res", "opt", "cf") else None
                elif sh in KEEP and k0 in ("res", "opt"):
                    k = k0
                elif sh == "ok" and k0 == "res":
                    k = "opt"
                elif sh in ("ok_or", "ok_or_else") and k0 == "opt":
                    k = "res"
                elif sh in ("is_ok", "is_some"):
                    k = "isok"
                elif sh in ("is_err", "is_none"):
                    k = "iserr"
                if k:
                    vals[b.term[4][0]] = k
                    ch = True
    return vals


OKVAL = {"dres": 0, "dcf": 0, "dopt": 1, "isok": 1, "iserr": 0}


def outcome_edges(fn, call):
    """(bb, succ) -> 'ok' | 'err' for switches deciding the call's outcome."""
    vals = outcome_values(fn, call)
    out = {}
    for i, b in enumerate(fn.blocks):
        if b.cleanup or b.term[0] != "switch":
            continue
        p = op_place(b.term[2])
        if not p or len(p) != 1 or vals.get(p[0]) not in OKVAL:
            continue
        okv = OKVAL[vals[p[0]]]
        seen_ok = False
        for v, t in b.term[3]:
            k = "ok" if int(v) == okv else "err"
            seen_ok = seen_ok or k == "ok"
            out[(i, t)] = "both" if out.get((i, t), k) != k else k
        t = b.term[4]
        listed = {int(v) for v, _ in b.term[3]}
        k = "err" if okv in listed else "ok"
        if listed >= {0, 1}:
            continue
        out[(i, t)] = "both" if out.get((i, t), k) != k else k
    return {k: v for k, v in out.items() if v != "both"}


def stable_locals(fn):
    r = getattr(fn, "_stable", None)
    if r is None:
        whole, part = defs(fn)
        bad = set(part)
        for l, d in whole.items():
            if len(d) != 1 or l <= fn.nargs and l > 0:
                bad.add(l)
        for b in fn.blocks:
            for s in b.stmts:
                if s[0] == "=" and s[3][0] == "ref" and s[3][1]:
                    bad.add(s[3][2][0])
                if s[0] == "=" and s[3][0] == "raw":
                    bad.add(s[3][1][0])
        r = {l for l in range(len(fn.locals)) if l not in bad}
        fn._stable = r
    return r


def cond_key(fn, o, depth=6):
    if "k" in o:
        return ("k", o["k"])
    p = op_place(o)
    st = stable_locals(fn)
    if p[0] not in st:
        return None
    whole, _ = defs(fn)
    d = whole.get(p[0], [])
    if len(p) == 1 and depth and len(d) == 1 and d[0][1] == "rv":
        rv = d[0][2]
        if rv[0] == "use":
            k = cond_key(fn, rv[1], depth - 1)
            if k:
                return k
        elif rv[0] == "bin":
            a, b = cond_key(fn, rv[2], depth - 1), cond_key(fn, rv[3], depth - 1)
            if a and b:
                return ("bin", rv[1], a, b)
        elif rv[0] == "un":
            a = cond_key(fn, rv[2], depth - 1)
            if a:
                return ("un", rv[1], a)
        elif rv[0] == "discr" and rv[1][0] in st and "*" not in rv[1]:
            return ("discr", json_key(rv[1]))
    if "*" in p:
        return None
    return ("l", json_key(p))


def json_key(p):
    import json
    return json.dumps(p)


NEG = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}


def norm_cond(k):
    """(key, flip): canonical polarity."""
    if k and k[0] == "un" and k[1] == "Not":
        kk, f = norm_cond(k[2])
        return kk, not f
    if k and k[0] == "bin" and k[1] in ("Ne", "Ge", "Le"):
        return ("bin", NEG[k[1]], k[2], k[3]), True
    return k, False


def cond_switches(fn):
    """bb -> (key, {succ: value}) for boolean/int switches on stable expressions used twice+."""
    r = getattr(fn, "_csw", None)
    if r is not None:
        return r
    tmp = {}
    cnt = defaultdict(int)
    for i, b in enumerate(fn.blocks):
        if b.cleanup or b.term[0] != "switch":
            continue
        k = cond_key(fn, b.term[2])
        if not k:
            continue
        k, flip = norm_cond(k)
        tmp[i] = (k, flip)
        cnt[k] += 1
    out = {}
    for i, (k, flip) in tmp.items():
        if cnt[k] < 2:
            continue
        t = fn.blocks[i].term
        m = {}
        vals = [(int(v), x) for v, x in t[3]]
        if len(vals) == 1 and vals[0][0] in (0, 1):
            a = vals[0][0]
            m[(vals[0][1])] = a ^ (1 if flip else 0)
            m[t[4]] = (1 - a) ^ (1 if flip else 0)
            if vals[0][1] != t[4]:
                out[i] = (k, m)
    fn._csw = out
    return out


def ret_switches(fn):
    """(bb, succ) -> 'ok' | 'err' for switches that test the value the function will return."""
    r = getattr(fn, "_rsw", None)
    if r is not None:
        return r
    r = {}
    if base_ty(fn.local_ty(0)) == RESULT:
        vals = {l: "res" for l in ret_aliases(fn) if base_ty(fn.local_ty(l)) == RESULT}
        for _ in range(3):
            for i, b in enumerate(fn.blocks):
                if b.cleanup:
                    continue
                for s in b.stmts:
                    if s[0] != "=" or len(s[2]) != 1 or s[2][0] in vals:
                        continue
                    rv = s[3]
                    if rv[0] == "ref" and len(rv[2]) == 1 and vals.get(rv[2][0]) == "res":
                        vals[s[2][0]] = "res"
                    elif rv[0] == "discr" and vals.get(rv[1][0]) == "res" and all(e == "*" for e in rv[1][1:]):
                        vals[s[2][0]] = "dres"
                    elif rv[0] == "un" and rv[1] == "Not" and vals.get(alias_src(rv[2])) in ("isok", "iserr"):
                        vals[s[2][0]] = "iserr" if vals[alias_src(rv[2])] == "isok" else "isok"
                if b.term[0] == "call" and len(b.term[4]) == 1 and b.term[4][0] not in vals:
                    c = fn.call_at(i)
                    p = op_place(c.args[0]) if c.args else None
                    sh = c.callee.decl.rsplit("::", 1)[-1]
                    if p and len(p) == 1 and vals.get(p[0]) == "res" and sh in ("is_ok", "is_err"):
                        vals[b.term[4][0]] = "isok" if sh == "is_ok" else "iserr"
        for i, b in enumerate(fn.blocks):
            if b.cleanup or b.term[0] != "switch":
                continue
            p = op_place(b.term[2])
            if not p or len(p) != 1 or vals.get(p[0]) not in OKVAL:
                continue
            okv = OKVAL[vals[p[0]]]
            listed = {int(v) for v, _ in b.term[3]}
            for v, t in b.term[3]:
                k = "ok" if int(v) == okv else "err"
                r[(i, t)] = "both" if r.get((i, t), k) != k else k
            if not listed >= {0, 1}:
                t = b.term[4]
                k = "err" if okv in listed else "ok"
                r[(i, t)] = "both" if r.get((i, t), k) != k else k
    fn._rsw = {k: v for k, v in r.items() if v != "both"}
    return fn._rsw


def bool_locals(fn):
    """Bool locals assigned constants in several places whose value reaches a call argument (path-sensitive flags)."""
    r = getattr(fn, "_bools", None)
    if r is not None:
        return r
    whole, part = defs(fn)
    want = set()
    for c in fn.calls:
        if fn.blocks[c.bb].cleanup:
            continue
        for a in c.args:
            p = op_place(a)
            if p and len(p) == 1 and fn.local_ty(p[0]) == "bool":
                want.add(p[0])
    work = list(want)
    tup = set()
    while work:
        l = work.pop()
        for d in whole.get(l, []):
            if d[1] == "rv" and d[2][0] == "use":
                p = op_place(d[2][1])
                if p and len(p) == 1 and fn.local_ty(p[0]) == "bool" and p[0] not in want:
                    want.add(p[0])
                    work.append(p[0])
                elif p and len(p) == 2 and isinstance(p[1], list) and p[1][0] == "f" and p[1][3] in ("tuple", ""):
                    tup.add((p[0], p[1][1]))
    for l, i in tup:
        want.add((l, i))
    consts = lambda l: sum(1 for d in whole.get(l, []) if d[1] == "rv" and d[2][0] == "use" and "k" in d[2][1])
    if not any(isinstance(l, tuple) or consts(l) >= 2 for l in want):
        want = set()
    fn._bools = want
    return want


def const_bool(o):
    k = str(o.get("k", "")).replace("const ", "").strip()
    return {"true": 1, "false": 0}.get(k)


def step_bools(fn, i, kb, want):
    if not want:
        return kb
    d = dict(kb)

    def val(o):
        if "k" in o:
            return const_bool(o)
        p = op_place(o)
        if len(p) == 1:
            return d.get(p[0])
        if len(p) == 2 and isinstance(p[1], list) and p[1][0] == "f":
            return d.get((p[0], p[1][1]))
        return None

    def put(k, v):
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v

    for s in fn.blocks[i].stmts:
        if s[0] != "=" or len(s[2]) != 1:
            continue
        l, rv = s[2][0], s[3]
        if l in want:
            put(l, val(rv[1]) if rv[0] == "use" else None)
        for k in [x for x in want if isinstance(x, tuple) and x[0] == l]:
            if rv[0] == "agg" and rv[1] == "tuple" and k[1] < len(rv[4]):
                put(k, val(rv[4][k[1]]))
            elif rv[0] == "use" and op_place(rv[1]) and len(op_place(rv[1])) == 1:
                put(k, d.get((op_place(rv[1])[0], k[1])))
            else:
                put(k, None)
    return tuple(sorted(d.items(), key=repr))


def explore(fn, starts, gen, call=None, after=True, stop=None, init=None, skip=None):
    """Forward exploration.  starts: blocks.  gen(bb)->labels.  call: Call whose outcome is tracked.
    Returns list of (outcome, exitkind, bb, must, may); exitkind 'ok'/'err'/'?' from the return place."""
    errs = err_blocks(fn)
    is_res = base_ty(fn.local_ty(0)) == RESULT
    oe = outcome_edges(fn, call) if call is not None else {}
    vals = outcome_values(fn, call) if call is not None else {}
    alias = ret_aliases(fn)
    returns_res = bool(set(vals) & alias)
    cs = cond_switches(fn)
    rs = ret_switches(fn)
    want = bool_locals(fn) if getattr(gen, "kb", False) else ()
    ins, mays = {}, {}
    work = deque()

    def push(k, must, may):
        if k not in ins:
            ins[k], mays[k] = must, may
            work.append(k)
        else:
            nm, ny = ins[k] & must, mays[k] | may
            if nm != ins[k] or ny != mays[k]:
                ins[k], mays[k] = nm, ny
                work.append(k)

    def step(i, t, oc, ek, facts):
        """next state along edge or None if infeasible"""
        if skip and skip(i, t):
            return None
        if ek == "?" and (i, t) in rs:
            ek = rs[(i, t)]
        k = oe.get((i, t))
        if k:
            if oc and oc != k:
                return None
            oc = k
        if i in cs:
            key, m = cs[i]
            v = m.get(t)
            d = dict(facts)
            if v is not None:
                if key in d and d[key] != v:
                    return None
                d[key] = v
                facts = tuple(sorted(d.items(), key=repr))
        return (t, oc, ek, facts)

    kb0 = lambda s: entry_bools(fn, s, want) if want else ()

    e0 = frozenset(init or ())
    for s in starts:
        if after:
            # facts implied by dominating conditions
            base = dominating_facts(fn, s)
            for t in fn.blocks[s].succ:
                n = step(s, t, None, "?", base)
                if n:
                    for kb in (kb0(s) if want else [()]):
                        push(n + (step_bools(fn, s, kb, want),), e0, e0)
        else:
            for kb in (kb0(s) if want and s else [()]):
                push((s, None, "?", (), kb), e0, e0)
    res = {}
    while work:
        k = work.popleft()
        i, oc, ek, facts, kb = k
        kb = step_bools(fn, i, kb, want)
        g = frozenset((gen(i, kb) if want else gen(i)) or ())
        must, may = ins[k] | g, mays[k] | g
        if is_res:
            rk = ret_place_assign_kind(fn, i)
            if rk == "err":
                ek = "err"
            elif rk == "ok":
                ek = "ok"
            elif rk is not None:
                ek = "?"
        if fn.blocks[i].term[0] == "ret":
            e2 = ek
            if ek == "?" and returns_res and oc:
                e2 = oc
            if not is_res:
                e2 = "ok"
            res[k] = (oc, e2, i, must, may)
            continue
        if stop and stop(i):
            continue
        for t in fn.blocks[i].succ:
            n = step(i, t, oc, ek, facts)
            if n:
                push(n + (kb,), must, may)
    return list(res.values())


def entry_bools(fn, bb, want):
    """Flag valuations possible on entry of block bb."""
    seen = {(0, ())}
    work = deque(seen)
    while work:
        i, kb = work.popleft()
        o = step_bools(fn, i, kb, want)
        for t in fn.blocks[i].succ:
            if (t, o) not in seen and len(seen) < 4000:
                seen.add((t, o))
                work.append((t, o))
    return sorted({kb for i, kb in seen if i == bb}, key=repr) or [()]


def dominating_facts(fn, bb):
    """Branch facts that hold on every path to bb (for correlated conditions)."""
    cs = cond_switches(fn)
    if not cs:
        return ()
    # forward: intersect facts
    ins = {0: {}}
    work = deque([0])
    while work:
        i = work.popleft()
        for t in fn.blocks[i].succ:
            d = dict(ins[i])
            if i in cs and t in cs[i][1]:
                d[cs[i][0]] = cs[i][1][t]
            if t not in ins:
                ins[t] = d
                work.append(t)
            else:
                n = {k: v for k, v in ins[t].items() if d.get(k) == v}
                if n != ins[t]:
                    ins[t] = n
                    work.append(t)
    return tuple(sorted(ins.get(bb, {}).items(), key=repr))
