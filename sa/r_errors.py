"""An operation that fails tells its caller (C38)."""
from paths import *
from gates import closure_value
from core import *
from r_query import effects

OUTSIDE = ("text_document_test_harness", "text_document_macros", "text_document-bin", "cli_bin")
PANIC = {"unwrap", "expect"}
THROUGH = {"and_then", "map", "map_err", "context", "with_context", "inspect_err", "inspect", "transpose", "copied", "cloned"}
# Lookups whose failure only means that a shortcut is not taken (read-only, in the named use case).
FALLBACK = {("insert_fragment_uc", "get_list"), ("insert_html_at_position_uc", "get_list"), ("insert_fragment_uc", "find_block_at_position"), ("delete_text_uc", "get_frame")}
# Calls of the undo manager whose caller has no way to report: nothing of the document depends on their outcome.
NO_REPORT = {"begin_composite", "add_command_to_stack", "undo"}


def stem(f):
    return f.file.rsplit("/", 1)[-1][:-3]


def mine(f):
    return f.crate not in OUTSIDE and not f.crate.endswith("tests") and "::tests::" not in f.uid and "/test_" not in f.file and "/tests/" not in f.file


def returns_result(f):
    return base_ty(f.local_ty(0)) == RESULT


def lost(ctx, f, c, effectful, depth=3):
    """Why the error of call c can get lost in f, or None."""
    vals = outcome_values(f, c)
    al = ret_aliases(f)
    api = f.crate == "text_document"
    handed = any(vals.get(x) == "res" for x in al)
    calls = {x.bb: x for x in f.calls if x.bb != c.bb and effectful(x)}
    retry = lambda i: {"again"} if i in calls else ()
    for oc, ek, bb, must, may in explore(f, [c.bb], retry, call=c):
        if oc == "err" and ek == "ok" and not (api and returns_result(f) and "again" in must):
            if returns_result(f) and kept_error(f, vals, al):
                continue                                     # the error is kept in a variable and returned later
            return "after its failure the function ends as if nothing had happened"
        if oc is None and ek != "err" and not handed:
            use = [Call(f, i, b.term) for i, b in enumerate(f.blocks) if not b.cleanup and b.term[0] == "call" and b.term[3] and (op_place(b.term[3][0]) or [None])[0] in vals]
            names = {u.callee.short for u in use} - KEEP
            if use and names and names <= PANIC:
                continue
            nxt = [u for u in use if u.callee.short in THROUGH and base_ty(f.local_ty(u.dest[0])) == RESULT and len(u.dest) == 1]
            if nxt and len(nxt) == len(use) and depth:
                w = next((w for w in (lost(ctx, f, u, effectful, depth - 1) for u in nxt) if w), None)
                if w:
                    return w
                continue
            agg = stored(f, vals)
            if agg:
                continue
            return "its outcome is not looked at" + (" (%s)" % ", ".join(sorted(names)) if names else "")
    return None


def kept_error(f, vals, al):
    """The error itself is moved into a value that reaches the return place."""
    have = set()
    ch = True
    while ch:
        ch = False
        for i, b in enumerate(f.blocks):
            if b.cleanup:
                continue
            for s in b.stmts:
                if s[0] != "=" or s[2][0] in have:
                    continue
                for o in rv_operands(s[3]):
                    p = op_place(o)
                    if p and (p[0] in have or vals.get(p[0]) in ("res", "cf") and any(isinstance(e, list) and e[0] == "d" and e[1] in ("Err", "Break", 1) for e in p[1:])):
                        have.add(s[2][0])
                        ch = True
            if b.term[0] == "call" and b.term[4] and b.term[4][0] not in have and any((op_place(o) or [None])[0] in have for o in b.term[3]):
                have.add(b.term[4][0])
                ch = True
    return bool(have & (set(al) | {0}))


def stored(f, vals):
    """The outcome is put into a larger value (handed on)."""
    for b in f.blocks:
        for s in b.stmts:
            if s[0] == "=" and s[3][0] == "agg":
                for o in s[3][4]:
                    p = op_place(o)
                    if p and len(p) == 1 and vals.get(p[0]) == "res":
                        return True
    return False


def C38(ctx):
    ctx.rule("step-reported", "in the store, the repositories, the use cases and the command layer, the error of every fallible step ends the calling function with an error")
    ctx.rule("change-reported", "in the public API the error of every call that can change the document, or the undo history, ends the method with an error or is followed by another attempt")
    ctx.rule("all-collected", "fallible steps run over a collection are collected into one result, not flattened away")
    eff = effects(ctx)[0]
    ways = [eff["opens a write transaction"], eff["writes the store"], eff["changes the undo history"]]
    memo = {}

    def effectful(c):
        k = c.callee.uid or c.callee.name
        if k not in memo:
            memo[k] = any(t.uid in w for t in ctx.m.targets(c.callee) for w in ways)
        return memo[k]
    seen = defaultdict(int)
    for f in sorted(ctx.m.fns.values(), key=lambda f: f.uid):
        if not mine(f):
            continue
        api = f.crate == "text_document"
        for c in f.calls:
            if f.blocks[c.bb].cleanup or not c.dest or len(c.dest) != 1:
                continue
            if c.callee.short in ("flatten", "flat_map", "filter_map", "flatten_ok") and "Iterator" in (c.callee.tr or c.callee.name):
                for a in c.args:
                    p = op_place(a)
                    for g in producers(ctx, f, p) if p else ():
                        if returns_result(g) and (not api or any(effectful(x) for x in g.calls)):
                            k = "all/%s/%s" % (f.uid, c.callee.short)
                            ctx.ob("all-collected", k, False, c.where, "%s drops the errors of %s" % (c.callee.short, g.short))
            if base_ty(f.local_ty(c.dest[0])) != RESULT or not ctx.m.targets(c.callee):
                continue
            s = c.callee.short
            e = effectful(c)
            if api and not e:
                continue
            if not api and not e and (stem(f), s) in FALLBACK:
                continue
            if not returns_result(f) and s in NO_REPORT and "undo_redo" in (c.callee.name or ""):
                continue
            why = lost(ctx, f, c, effectful)
            if why and s == "execute" and reports_failure(f):
                why = None                                   # the background worker: the error becomes the operation's status
            rule = "change-reported" if api else "step-reported"
            k = "%s/%s/%s" % ("change" if api else "step", f.uid, s)
            seen[k] += 1
            ctx.ob(rule, "%s#%d" % (k, seen[k]), why is None, c.where, "%s in %s: %s" % (s, f.short, why or ""))
    ctx.floor("step-reported", 3000)
    ctx.floor("change-reported", 60)
    return ctx.finish(explanation="For every call of a fallible workspace function the paths behind it are explored with its outcome tracked (matches, ?, adapters, stored flags): on the failing side the caller must end with an error.")


def reports_failure(f):
    """An error of the called operation is turned into a status that carries it."""
    return any(s[0] == "=" and s[3][0] == "agg" and s[3][1].endswith("OperationStatus") and s[3][2] == "Failed" for b in f.blocks for s in b.stmts)


def producers(ctx, f, p):
    """Closures that produce the elements of the iterator in place p."""
    g = closure_value(ctx, f, p)
    if g is not None:
        return [g]
    out = []
    for x in f.calls:
        if len(x.dest) == 1 and x.dest[0] == p[0] and x.callee.short == "map" and len(x.args) == 2:
            q = op_place(x.args[1])
            g = closure_value(ctx, f, q) if q else None
            if g is not None:
                out.append(g)
    return out
