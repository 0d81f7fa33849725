"""Byte offsets and character positions are never mixed (C45)."""
from units import *
from core import *

SKIPFN = ("fmt", "serialize", "deserialize", "hash", "clone", "eq", "ne", "partial_cmp", "cmp", "default")
SKIPCR = ("text_document-bin", "text_document_macros", "cli_bin", "text_document_test_harness")


def skip(f):
    return f.crate in SKIPCR or f.crate.endswith("tests") or "::tests::" in f.uid or f.short in SKIPFN and f.tritem is not None or f.short in SKIPFN and f.trait is not None


def place_of(w):
    return "%s:%d" % (w[0].file, w[1]) if w[0] else "a declaration"


def C45(ctx):
    U = Units(ctx.m, skip)
    col, prev, conf = U.solve()
    # functions with a value of a known unit
    per = defaultdict(set)
    for i in col:
        for j, w, why in U.edges[i]:
            if w[0] is not None:
                per[w[0].uid].add(col[i])
    bad = {}
    if conf:
        i, j, w, why = conf[0]
        a, sa = U.chain(prev, i)
        b, sb = U.chain(prev, j)
        path = list(reversed(a)) + [(i, w, why)] + b
        steps = []
        # the steps that, left out, leave no contradiction
        ids = [x for x, _, _ in reversed(a)]
        nodes = []
        k = i
        while k is not None:
            nodes.append(k)
            k = prev[k][0] if prev[k] else None
        nodes.reverse()
        k = j
        while k is not None:
            nodes.append(k)
            k = prev[k][0] if prev[k] else None
        for x, y in zip(nodes, nodes[1:]):
            sx, sy = U.edges[x], U.edges[y]
            cut = [e for e in sx if e[0] == y]
            U.edges[x] = [e for e in sx if e[0] != y]
            U.edges[y] = [e for e in sy if e[0] != x]
            if not U.solve()[2]:
                steps.append((cut[0][1], cut[0][2], x, y))
            U.edges[x], U.edges[y] = sx, sy
        txt = "%s (%s, %s) and %s (%s, %s) meet: %s" % (
            sa[0], sa[2], place_of(sa[1]), sb[0], sb[2], place_of(sb[1]),
            " -> ".join("%s %s" % (U.names.get(x, "a value"), place_of(w2)) for x, w2, _ in path[:14]))
        blame = [s for s in steps if s[0][0] is not None] or [(w, why, i, j)]
        for s in blame:
            bad.setdefault(s[0][0].uid if s[0][0] else "declarations", []).append("%s at %s: %s" % (s[1], place_of(s[0]), txt))
    for u in sorted(set(per) | set(bad)):
        f = ctx.m.fns.get(u)
        ctx.ob("consistent", "consistent/%s" % u, u not in bad, f.loc if f else u, bad[u][0] if u in bad else "", )
    ctx.rule("consistent", "the numbers that a function adds, subtracts, compares, stores, passes and returns together are all bytes or all characters")
    ctx.floor("consistent", 400)
    n = defaultdict(int)
    for k, v in U.roots.items():
        if k[0] == "F" and v.id in col:
            n[col[v.id]] += 1
    ctx.note("%d values, %d with a unit; %d fields hold bytes, %d characters; %d places fix a unit" % (U.n, len(col), n["bytes"], n["characters"], len(U.seeds)))
    return ctx.finish(explanation="Unit inference over the MIR of the whole program: values are unified structurally through assignments, arithmetic, comparisons, calls, fields, captures and iterator adapters; "
                      "string, rope and character primitives and declared names fix a unit; a class that holds both is a mix-up.")
