"""Formatting runs and images stay on the characters they belong to (C18): the interval routines of format_runs."""
from gates import *
from absint import *

MOD = "common::format_runs::"


def group_of(ctx, mod):
    return {u for u, f in ctx.m.fns.items() if f.name.startswith(mod) or u.startswith(mod) or ("<" not in u[:1] and mod in u)}


def setup():
    st = St()
    return st


def bounds(st, *cs):
    """each (x, y, c): x - y <= c over atom names (None = 0)"""
    for x, y, c in cs:
        st.zone.assume((x,) if x else None, (y,) if y else None, c)
    return st


def field_names(a):
    return [x[0] if isinstance(x, (list, tuple)) else x["name"] if isinstance(x, dict) else x for x in a.fields]


class Runs:
    def __init__(self, ctx):
        self.ctx = ctx
        m = ctx.m
        self.I = Interp(m, group_of(ctx, MOD))
        self.fr = [n for n in field_names(m.adts[MOD + "FormatRun"])]
        self.im = [n for n in field_names(m.adts[MOD + "ImageAnchor"])]

    def run(self, a, b, fmt):
        d = {"byte_start": a, "byte_end": b, "format": ("u", (fmt,))}
        return ("s", "FormatRun", 0, tuple(d.get(n, ("u", (fmt, n))) for n in self.fr))

    def img(self, a, tag="img"):
        return ("s", "ImageAnchor", 0, tuple(a if n == "byte_offset" else ("u", (tag, n)) for n in self.im))

    def run_out(self, st, v):
        v = self.I.deref(st, v)
        g = dict(zip(self.fr, v[3])) if v[0] == "s" else {n: self.I.field(st, v, i) for i, n in enumerate(self.fr)}
        return g["byte_start"][1], g["byte_end"][1], self.I.deref(st, g["format"])

    def img_out(self, st, v):
        v = self.I.deref(st, v)
        g = {n: self.I.field(st, v, i) for i, n in enumerate(self.im)}
        rest = tuple(repr(g[n]) for n in self.im if n != "byte_offset")
        return g["byte_offset"][1], {}, ("u", rest)

    def outs(self, st, lst, kind="run"):
        return [(self.run_out if kind == "run" else self.img_out)(st, st.mem[("h", e)]) for e in self.I.items(st, lst)]


def piece(st, I, start, end, fmt, shift=None):
    return (add(start, shift or {}), add(end, shift or {}), fmt)


def normal(I, st, pieces, images=False):
    """[(state, pieces without empty ones, neighbours with one format joined)]"""
    acc = [(st, ())]
    for p in pieces:
        nxt = []
        for t, got in acc:
            if images:
                nxt.append((t, got + (p,)))
                continue
            for t2, empty in I.compare(t, "Ge", p[0], p[1]):
                if empty[1]:
                    nxt.append((t2, got))
                    continue
                if got:
                    for t3, ab in I.compare(t2, "Eq", got[-1][1], p[0]):
                        if not ab[1]:
                            nxt.append((t3, got + (p,)))
                            continue
                        for t4, same in I.opaque_eq(t3, got[-1][2], p[2], False):
                            nxt.append((t4, got[:-1] + ((got[-1][0], p[1], got[-1][2]),) if same[1] else got + (p,)))
                else:
                    nxt.append((t2, got + (p,)))
        acc = nxt
    return acc


def same(I, st, x, y):
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if not (st.eq(p[0], q[0]) and st.eq(p[1], q[1])):
            return False
        if repr(p[2]) != repr(q[2]):
            r = I.opaque_eq(st, p[2], q[2], False)
            if len(r) != 1 or not r[0][1][1]:
                return False
    return True


def split_cases(I, st, conds):
    """[(state, truths)] for comparisons (op, f, g)."""
    acc = [(st, ())]
    for o, f, g in conds:
        acc = [(t2, v + (b[1],)) for t, v in acc for t2, b in I.compare(t, o, f, g)]
    return acc


def show_st(st):
    out = []
    for (x, y), c in sorted(st.zone.d.items(), key=repr):
        if x is None or y is None or not isinstance(x, tuple) or len(x) > 1 or len(y) > 1:
            continue
        out.append("%s%s%s" % (x[0], "<" if c == -1 else "<=" if c == 0 else "<=%d+" % c, y[0]))
    return ", ".join(out[:20])


def show_pieces(ps):
    return "[%s]" % ", ".join("%s..%s" % (form_str(p[0]), form_str(p[1])) for p in ps)


def form_str(f):
    out = ""
    for k, v in sorted(f.items(), key=lambda x: (x[0] == 1, repr(x[0]))):
        n = "%d" % abs(v) if k == 1 else (k[0] if isinstance(k, tuple) and len(k) == 1 else "?")
        c = "" if k == 1 or abs(v) == 1 else "%d*" % abs(v)
        out += ("-" if v < 0 else "+" if out else "") + c + n
    return out or "0"


def judge(ctx, R, fname, rule, build, expect, kind="run", tight=False):
    """build(st) -> (args, list value(s) to read, or None to read the return value); expect(I, st) -> [(state, [pieces per list])]."""
    I = R.I
    f = ctx.m.fns.get(MOD + fname)
    key = "%s/%s" % (rule, fname)
    if f is None:
        return ctx.ob(rule, key, False, "%s%s" % (MOD, fname), "the routine is gone")
    I.steps = 0
    st = setup()
    args, read = build(st)
    bad, und, n = [], None, 0
    try:
        for e, r in I.enter(st, f, args):
            if und:
                break
            for t, want in expect(I, e):
                lists = read(t, r)
                todo = [(t, [])]
                for got, w in zip(lists, want):
                    nxt = []
                    for u, acc in todo:
                        for u1, x in normal(I, u, got, kind == "img"):
                            for u2, y in normal(I, u1, w, kind == "img"):
                                nxt.append((u2, acc + [(x, y)]))
                    todo = nxt
                for u, acc in todo:
                    if not u.feasible():
                        continue
                    n += 1
                    for (x, y), raw in zip(acc, lists):
                        if tight and len(x) != len(raw):
                            bad.append((show_st(u), show_pieces(raw), show_pieces(y)))
                        if not same(I, u, x, y):
                            bad.append((show_st(u), show_pieces(x), show_pieces(y)))
    except (Lost, KeyError, IndexError, TypeError, ValueError) as ex:
        und = "%s: %s" % (type(ex).__name__, ex)
    if und:
        ctx.note("undecided %s: %s" % (key, und))
        return None
    if n == 0:
        return ctx.ob(rule, key, False, f.loc, "no path returns")
    return ctx.ob(rule, key, not bad, f.loc, bad and "with %s it yields %s instead of %s" % bad[0] or "%d cases" % n)


def C18(ctx):
    m = ctx.m
    R = Runs(ctx)
    I = R.I
    a, b, s, e, o, k, t, d = (atom((x,)) for x in ("a", "b", "s", "e", "o", "n", "t", "d"))
    F = ("u", ("fmt",))
    rb = (("a", "b", -1), (None, "a", 0))

    def one_run(st, extra=()):
        bounds(st, *(rb + tuple(extra)))
        return I.new_list(st, [R.run(N(a), N(b), "fmt")])

    def own(kind, lst):
        cell = ("l", ("arg",), 0)
        return ("r", cell, ()), cell

    def mutating(extra, *more, img=False, after=None):
        def build(st):
            if img:
                bounds(st, (None, "a", 0), *extra)
                l = I.new_list(st, [R.img(N(a))])
            else:
                l = one_run(st, extra)
            cell = ("l", ("arg",), 0)
            st.mem[cell] = l
            more_v = [x(st) if callable(x) else x for x in more]

            def read(t, r):
                lst = I.deref(t, t.mem[cell])
                out = [R.outs(t, lst, "img" if img else "run")]
                return out + ([after(t, r)] if after else [])
            return [("r", cell, ())] + more_v, read
        return build

    def reading(extra, *more, img=False, pair=False, fmts=False):
        def build(st):
            if img:
                bounds(st, (None, "a", 0), *extra)
                l = I.new_list(st, [R.img(N(a))])
            else:
                l = one_run(st, extra)

            def read(t, r):
                r = I.deref(t, r)
                if pair:
                    return [R.outs(t, r[3][0], "img" if img else "run"), R.outs(t, r[3][1], "img" if img else "run")]
                if fmts:
                    vs = [t.mem[("h", x)] for x in I.items(t, r)]
                    return [[(v[3][0][1], {}, I.deref(t, v[3][1])) for v in vs]]
                return [R.outs(t, r, "img" if img else "run")]
            return [l] + list(more), read
        return build

    # shifting
    def ex_shift(I, st):
        return [(u, [[(add(a, d), add(b, d), F)] if c[0] else [(a, b, F)]]) for u, c in split_cases(I, st, [("Ge", a, t)])]
    nn = ((None, "t", 0),)
    judge(ctx, R, "shift_after", "shift", mutating(nn, N(t), N(d)), ex_shift)
    G = ("u", tuple(repr(("u", ("img", n))) for n in R.im if n != "byte_offset"))

    def ex_ishift(I, st):
        return [(u, [[(add(a, d) if c[0] else a, {}, G)]]) for u, c in split_cases(I, st, [("Ge", a, t)])]
    judge(ctx, R, "shift_images_after", "shift", mutating(nn, N(t), N(d), img=True), ex_ishift, kind="img")

    # inserting n bytes at o
    ni = ((None, "o", 0), (None, "n", 0))

    def ex_ins(I, st):
        out = []
        for u, (z, front, apart) in split_cases(I, st, [("Eq", k, {}), ("Ge", a, o), ("Lt", b, o)]):
            out.append((u, [[(a, b, F) if z or apart else (add(a, k), add(b, k), F) if front else (a, add(b, k), F)]]))
        return out
    judge(ctx, R, "shift_runs_for_insert", "insert", mutating(ni, N(o), N(k)), ex_ins)

    def ex_iins(I, st):
        return [(u, [[(add(a, k) if c[0] else a, {}, G)]]) for u, c in split_cases(I, st, [("Ge", a, o)])]
    judge(ctx, R, "shift_images_for_insert", "insert", mutating(ni, N(o), N(k), img=True), ex_iins, kind="img")

    # deleting s..e
    nd = ((None, "s", 0), (None, "e", 0))
    ln = add(e, s, -1)

    def ex_del(I, st):
        out = []
        for u, (void,) in split_cases(I, st, [("Le", e, s)]):
            if void:
                out.append((u, [[(a, b, F)]]))
                continue
            for w, (a1, a2, b1, b2) in split_cases(I, u, [("Le", a, s), ("Le", a, e), ("Le", b, s), ("Le", b, e)]):
                x = a if a1 else s if a2 else add(a, ln, -1)
                y = b if b1 else s if b2 else add(b, ln, -1)
                out.append((w, [[(x, y, F)]]))
        return out
    judge(ctx, R, "shift_runs_for_delete", "delete", mutating(nd, N(s), N(e)), ex_del, tight=True)
    c2, d2 = atom(("c",)), atom(("q",))
    FS = [("u", ("f1",)), ("u", ("f2",))]

    def two_build(st):
        bounds(st, (None, "a", 0), ("a", "b", -1), ("b", "c", 0), ("c", "q", -1), (None, "s", 0), ("s", "e", -1))
        cell = ("l", ("arg",), 0)
        st.mem[cell] = I.new_list(st, [R.run(N(a), N(b), "f1"), R.run(N(c2), N(d2), "f2")])
        return [("r", cell, ()), N(s), N(e)], lambda t, r: [R.outs(t, I.deref(t, t.mem[cell]))]

    def two_ex(I, st):
        acc = [(st, [])]
        for f, (x, y) in zip(FS, ((a, b), (c2, d2))):
            nxt = []
            for u, got in acc:
                for w, (x1, x2, y1, y2) in split_cases(I, u, [("Le", x, s), ("Le", x, e), ("Le", y, s), ("Le", y, e)]):
                    nxt.append((w, got + [(x if x1 else s if x2 else add(x, ln, -1), y if y1 else s if y2 else add(y, ln, -1), f)]))
            acc = nxt
        return [(u, [g]) for u, g in acc]
    judge(ctx, R, "shift_runs_for_delete", "delete-join", two_build, two_ex, tight=True)

    def ex_idel(I, st):
        out = []
        for u, (void, front, inside) in split_cases(I, st, [("Le", e, s), ("Lt", a, s), ("Lt", a, e)]):
            gone = not void and not front and inside
            ps = [] if gone else [(a if void or front else add(a, ln, -1), {}, G)]
            out.append((u, [ps, [(lin(1 if gone else 0), {}, ("u", ("count",)))]]))
        return out
    judge(ctx, R, "shift_images_for_delete", "delete",
          mutating(nd, N(s), N(e), img=True, after=lambda t, r: [(I.deref(t, r)[1], {}, ("u", ("count",)))]), ex_idel, kind="img")

    # replacing s..e by runs inside it
    def left_right(I, st):
        out = []
        for w, (bl, ar, al, br) in split_cases(I, st, [("Le", b, s), ("Ge", a, e), ("Lt", a, s), ("Gt", b, e)]):
            left = [(a, b if bl else s, F)] if bl or al else []
            right = [(a if ar else e, b, F)] if ar or br else []
            if bl and ar:                                       # empty range
                left, right = ([(a, b, F)], []) if True else (left, right)
            out.append((w, left, right))
        return out

    def rng():
        return ("s", "Range", 0, (N(s), N(e)))
    sp = (("s", "e", 0), (None, "s", 0))
    judge(ctx, R, "splice_range", "replace", mutating(sp, rng(), lambda st: I.new_list(st, [])),
          lambda I, st: [(w, [l + r]) for w, l, r in left_right(I, st)], tight=True)
    sp2 = sp + (("s", "c", 0), ("c", "q", -1), ("q", "e", 0))
    NF = ("u", ("new",))
    judge(ctx, R, "splice_range", "replace-by", mutating(sp2, rng(), lambda st: I.new_list(st, [R.run(N(c2), N(d2), "new")])),
          lambda I, st: [(w, [l + [(c2, d2, NF)] + r]) for w, l, r in left_right(I, st)], tight=True)

    # splitting and copying
    def ex_split(I, st):
        out = []
        for w, (l, r) in split_cases(I, st, [("Le", b, o), ("Ge", a, o)]):
            left = [(a, b if l else o, F)] if not r else []
            right = [] if l else [({} if not r else add(a, o, -1), add(b, o, -1), F)]
            out.append((w, [left, right]))
        return out
    judge(ctx, R, "split_runs_at", "split", reading(((None, "o", 0),), N(o), pair=True), ex_split)

    def ex_isplit(I, st):
        return [(w, [[(a, {}, G)], []] if c[0] else [[], [(add(a, o, -1), {}, G)]]) for w, c in split_cases(I, st, [("Lt", a, o)])]
    judge(ctx, R, "split_images_at", "split", reading(((None, "o", 0),), N(o), img=True, pair=True), ex_isplit, kind="img")

    def ex_cap(I, st):
        out = []
        for w, (x, y, sl, er) in split_cases(I, st, [("Le", b, s), ("Ge", a, e), ("Ge", a, s), ("Le", b, e)]):
            out.append((w, [[] if x or y else [(a if sl else s, b if er else e, F)]]))
        return out
    judge(ctx, R, "capture_runs_in_range", "copy", reading(nd, N(s), N(e)), ex_cap)

    def ex_icap(I, st):
        fm = ("u", ("img", "format"))
        return [(w, [[(a, {}, fm)] if x and y else []]) for w, (x, y) in split_cases(I, st, [("Ge", a, s), ("Lt", a, e)])]
    judge(ctx, R, "capture_image_formats_in_range", "copy", reading(nd, N(s), N(e), img=True, fmts=True), ex_icap, kind="img")

    # joining neighbours
    def co_build(st):
        bounds(st, (None, "a", 0), ("a", "b", -1), ("b", "c", 0), ("c", "q", -1), ("q", "s", 0), ("s", "e", -1))
        l = I.new_list(st, [R.run(N(a), N(b), "f1"), R.run(N(c2), N(d2), "f2"), R.run(N(s), N(e), "f3")])
        cell = ("l", ("arg",), 0)
        st.mem[cell] = l
        return [("r", cell, ())], lambda t, r: [R.outs(t, I.deref(t, t.mem[cell]))]
    judge(ctx, R, "coalesce_in_place", "join", co_build,
          lambda I, st: [(st, [[(a, b, ("u", ("f1",))), (c2, d2, ("u", ("f2",))), (s, e, ("u", ("f3",)))]])], tight=True)
    for k, t in (("shift", "runs and images behind an edit move by its length, the others stay"), ("insert", "inserted text moves what lies behind it and extends the run it stands in or behind"),
                 ("delete", "deleting bytes clips, drops and moves runs and images exactly by those bytes"), ("delete-join", "runs that meet after a deletion are joined when they have one format"),
                 ("replace", "replacing a range keeps the runs outside it"), ("replace-by", "the runs given for a range replace those inside it"), ("split", "a split puts each run and image on the side its characters go to"),
                 ("copy", "a copied range carries exactly the formatting inside it"), ("join", "neighbouring runs are joined exactly when they touch and have one format")):
        ctx.rule(k, t)
    callers_shift(ctx)
    ctx.rule("split-along", "where a block is split inside its text, its runs and images are divided too")
    for k, n in (("insert", 2), ("delete", 2), ("delete-join", 1), ("replace", 1), ("replace-by", 1), ("split", 2), ("copy", 2), ("join", 1), ("shift", 2)):
        decided = sum(1 for o in ctx.obs if o[0] == k)
        ctx.note("%s: %d of %d routines decided" % (k, decided, n))
    ctx.floor("moved-along", 60)
    ctx.floor("split-along", 10)
    ctx.floor("same-range", 16)
    return ctx.finish(explanation="The interval routines are decided by abstract interpretation of their MIR: for a generic run or image and every ordering of its bounds and the edit's bounds (difference-bound "
                      "matrices) the result is compared with what the property demands. Each edit of a block's text must pass a routine that moves or rewrites its runs and images, with the same range.")


# -- the edits that change a block's text ----------------------------------------------------------------
ROPE = "common::database::rope_helpers::"
EDITS = {"rope_insert_in_block": "insert", "rope_delete_in_block": "delete", "rope_replace_block_content": "replace", "rope_split_block": "split",
         "rope_merge_block_range": "merge"}
MAPW = ("insert", "remove", "clear", "retain", "insert_with", "alter", "update")


def map_of(ctx, fn, c):
    """'runs' / 'images' when c changes the map of formatting runs or images of the store."""
    p = op_place(c.args[0]) if c.args else None
    if not p:
        return None
    ty = fn.local_ty(p[0])
    n = c.callee.name
    if c.callee.short in MAPW and "HashMap" in n or c.callee.short == "push" and "Vec" in n or c.callee.short == "insert" and "Vec" in n:
        if "FormatRun" in ty:
            return "runs"
        if "ImageAnchor" in ty:
            return "images"
    return None


def shift_pred(ctx, what, kind):
    names = {"insert": ("shift_%s_for_insert" % what, "shift_after", "shift_images_after"),
             "delete": ("shift_%s_for_delete" % what,)}.get(kind, ())

    def pred(fn, c):
        n = c.callee.name
        if n.startswith(MOD) and c.callee.short in names and (what in c.callee.short or what == "runs" and c.callee.short == "shift_after"):
            return True
        return map_of(ctx, fn, c) == what and c.callee.short not in ("push",) and "HashMap" in n
    return pred


def no_entry(ctx):
    """Edges taken when the block has no runs or no images at all."""
    memo = {}

    def cut(fn):
        if fn.uid not in memo:
            out = set()
            for c in fn.calls:
                if c.callee.short in ("get_mut", "get", "contains_key") and "HashMap" in c.callee.name and c.args:
                    p = op_place(c.args[0])
                    if p and ("FormatRun" in fn.local_ty(p[0]) or "ImageAnchor" in fn.local_ty(p[0])):
                        out |= {k for k, v in outcome_edges(fn, c).items() if v == "err"}
            memo[fn.uid] = out
        return memo[fn.uid]
    return cut


def canon(fn, o, depth=12):
    """The value of an operand as a tree over arguments, calls and constants; None when it has several definitions."""
    if not isinstance(o, dict) or "k" in o:
        k = str(o.get("k")) if isinstance(o, dict) else str(o)
        t = o.get("ty") if isinstance(o, dict) else ""
        if t in ("&str", "char"):
            x = lit(k)
            return ("text", x) if x is not None else ("k", k)
        n = num(k)
        return ("n", n) if n is not None else ("k", k)
    return canon_place(fn, op_place(o), depth)


def canon_place(fn, p, depth):
    whole, part = defs(fn)
    tail = tuple(e[1] for e in p[1:] if isinstance(e, list) and e[0] == "f")
    d = whole.get(p[0], [])
    if p[0] <= fn.nargs and not d:
        return ("arg", p[0], tail)
    if depth <= 0:
        return None
    if len(d) != 1:
        return ("var", p[0], tail) if d else None
    d = d[0]
    if d[1] == "rv":
        rv = d[2]
        if rv[0] in ("use", "cast"):
            o = rv_operands(rv)[0]
            if "k" in o:
                return canon(fn, o, depth - 1)
            q = op_place(o)
            return canon_place(fn, q + p[1:], depth - 1)
        if rv[0] == "ref":
            return canon_place(fn, rv[2] + [e for e in p[1:] if e != "*"], depth - 1)
        if rv[0] == "bin":
            a, b = canon(fn, rv[2], depth - 1), canon(fn, rv[3], depth - 1)
            if a is None or b is None:
                return None
            o = rv[1].replace("WithOverflow", "")
            if o == "Add" and a[:1] == ("n",) and b[:1] == ("n",):
                return ("n", a[1] + b[1])
            return ("bin", o, a, b)
        return ("var", p[0], tail)
    if d[1] == "call":
        c = fn.call_at(d[0])
        if c is None:
            return ("var", p[0], tail)
        s = c.callee.short
        if s in ("deref", "as_str", "borrow", "as_ref", "clone", "to_string", "into", "from", "to_owned", "as_mut", "deref_mut") and len(c.args) == 1:
            return canon(fn, c.args[0], depth - 1)
        if s == "len" and len(c.args) == 1:
            x = canon(fn, c.args[0], depth - 1)
            if x and x[0] == "text":
                return ("n", len(x[1].encode()))
            return ("len", x) if x else None
        if s == "len_utf8":
            x = canon(fn, c.args[0], depth - 1)
            if x and x[0] == "text":
                return ("n", len(x[1].encode()))
        return ("call", d[0], s, tail)
    return ("var", p[0], tail)


def known(v):
    return v is not None and "None" not in repr(v)


def callers_shift(ctx):
    m = ctx.m
    ctx.rule("moved-along", "an edit of a block's text also moves or rewrites that block's formatting runs and images on every path")
    ctx.rule("same-range", "runs and images are moved by the same offset and length as the text")
    group = [f for f in m.fns.values() if f.crate in USE_CRATES(m)]
    gid = {f.uid for f in group}
    cut = no_entry(ctx)
    gates = {}

    def gate(what, kind):
        k = (what, kind if kind in ("insert", "delete") else "any")
        if k not in gates:
            gates[k] = Gates(ctx, shift_pred(ctx, what, k[1]), group, cut=cut)
        return gates[k]

    def covered(f, bb, what, kind, seen=()):
        if gate(what, kind).required(f, bb):
            return True
        up = [c for g in m.callers(f) if g.uid in gid for c in g.calls if any(t.uid == f.uid for t in m.targets(c.callee))]
        if f.parent and not up:
            up = [c for g in (m.fns.get(f.parent),) if g for c in g.calls if any(op_place(a) and closure_value(ctx, g, op_place(a)) is f for a in c.args)]
        if f.uid in seen or not up or len(seen) > 3:
            return False
        return all(covered(c.fn, c.bb, what, kind, seen + (f.uid,)) for c in up)

    for f in group:
        if f.uid.startswith("common::database::rope_helpers"):
            continue
        for c in f.calls:
            if f.blocks[c.bb].cleanup or not c.callee.name.startswith(ROPE) or c.callee.short not in EDITS:
                continue
            kind = EDITS[c.callee.short]
            if kind == "split" and not any(x.callee.name.startswith("common::format_runs") for x in f.calls):
                continue                              # split behind the block's last character: no run or image lies behind it
            for what in ("runs", "images"):
                ok = covered(f, c.bb, what, kind)
                ctx.ob("moved-along" if kind != "split" else "split-along", "moved-along/%s/%s/%s" % (f.name, c.callee.short, what), ok, c.where,
                       "the block's text is changed on a path that never touches its %s" % ("formatting runs" if what == "runs" else "images"))
    for f in group:
        at = {s: [(c, canon(f, c.args[i])) for c in f.calls if not f.blocks[c.bb].cleanup and c.callee.short == s and c.callee.name.startswith("common::") and f.uid != c.callee.uid]
              for s, i in (("split_runs_at", 1), ("split_images_at", 1), ("rope_split_block", 2))}
        if any(not known(v) for l in at.values() for _, v in l):
            continue
        simple = not any(c.callee.short in ("rope_delete_in_block", "rope_replace_block_content", "rope_insert_in_block", "rope_insert_block_at") for c in f.calls)
        for s, other in (("split_runs_at", "split_images_at"), ("split_images_at", "split_runs_at")) + ((("split_runs_at", "rope_split_block"),) if simple and at["rope_split_block"] else ()):
            for c, v in at[s]:
                ctx.ob("same-range", "same-range/%s/%s/%s" % (f.name, s, other), any(v == w for _, w in at[other]), c.where,
                       "%s divides at %s, %s at %s" % (s, cshow(v), other, ", ".join(cshow(w) for _, w in at[other]) or "no place"))
    for f in group:
        ed = [c for c in f.calls if not f.blocks[c.bb].cleanup and c.callee.name.startswith(ROPE) and c.callee.short in ("rope_insert_in_block", "rope_delete_in_block")]
        fam = [f] + [g for g in m.fns.values() if g.parent == f.uid]
        sh = [c for g in fam[:1] for c in g.calls if not g.blocks[c.bb].cleanup and c.callee.name.startswith(MOD) and "_for_" in c.callee.short]
        for x in sh:
            kind = "insert" if x.callee.short.endswith("insert") else "delete"
            cand = [c for c in ed if EDITS[c.callee.short] == kind]
            if not cand:
                continue
            p = [canon(f, a) for a in x.args[1:3]]
            if not all(map(known, p)):
                continue
            ok, seen = False, []
            for c in cand:
                if kind == "insert":
                    t = canon(f, c.args[3])
                    q = [canon(f, c.args[2]), ("n", len(t[1].encode())) if t and t[0] == "text" else ("len", t)]
                else:
                    q = [canon(f, c.args[2]), canon(f, c.args[3])]
                if not all(map(known, q)):
                    ok = True
                seen.append(q)
                ok = ok or p == q
            ctx.ob("same-range", "same-range/%s/%s" % (f.name, x.callee.short), ok, x.where,
                   "%s moves by (%s) where the text changes by (%s)" % (x.callee.short, ", ".join(map(cshow, p)), " or ".join(", ".join(map(cshow, q)) for q in seen)))


def cshow(v):
    if v[0] == "n":
        return str(v[1])
    if v[0] in ("var", "arg"):
        return "_%s%s" % (v[1], "".join(".%s" % t for t in v[2]))
    if v[0] == "call":
        return "%s()" % v[2]
    if v[0] == "len":
        return "len(%s)" % cshow(v[1])
    if v[0] == "bin":
        return "%s(%s, %s)" % (v[1], cshow(v[2]), cshow(v[3]))
    return str(v[-1])


def USE_CRATES(m):
    return {f.crate for f in m.fns.values() if f.crate.startswith(("document_", "frontend", "text_document", "direct_access", "common"))}
