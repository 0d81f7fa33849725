"""Check context: obligations, floors, known findings, evidence, exit protocol."""
import json, os, sys, time
from facts import get_facts, FactsError, VERIF, REPO
from model import *
from flow import *
from paths import *
from labels import *

EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")

STORE = "common::database::rope_store::RopeStore"
SNAP = "common::database::rope_store::RopeStoreSnapshot"
INNER = "text_document::inner::TextDocumentInner"
CURSOR = "text_document::cursor::TextCursor"
DOCUMENT = "text_document::document::TextDocument"


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.facts = get_facts()
        self.m = Model(self.facts)
        self.flow = Flow(self.m)
        self.obs = []
        self.rules = []
        self.notes = []
        self.floors = []
        self.assumptions = []

    # -- obligations ---------------------------------------------------
    def rule(self, name, text):
        self.rules.append((name, text))

    def ob(self, kind, key, ok, where="", msg=""):
        """One decided obligation.  `key` identifies it without line numbers."""
        self.obs.append((kind, key, bool(ok), where, msg))
        return bool(ok)

    def floor(self, kind, n):
        c = sum(1 for o in self.obs if o[0] == kind)
        self.floors.append((kind, c, n))
        if c < n:
            self.obs.append((kind, "instances:%s" % kind, False, "",
                             "only %d instances of rule '%s' found, %d were confirmed by reading: "
                             "the construct the rule decides has disappeared" % (c, kind, n)))

    def anchor(self, x, what):
        if not x:
            self.obs.append(("anchor", "anchor:%s" % what, False, "", "anchor not found: %s" % what))
        return x

    def note(self, s):
        self.notes.append(s)

    # -- effects --------------------------------------------------------
    def store_lock(self, c):
        """(field, mode) if call c locks a RwLock field of the store."""
        n = c.callee.name or c.callee.decl
        if n.endswith("::RwLock::write") or n.endswith("::RwLock::try_write"):
            mode = "w"
        elif n.endswith("::RwLock::read") or n.endswith("::RwLock::try_read"):
            mode = "r"
        else:
            return None
        fs = self.prov(c.fn).op(c.args[0])
        fl = {x[2] for x in fs if x[0] == "field" and x[1] == STORE}
        if len(fl) >= 1:
            return (fl, mode)
        return (self._by_type(c), mode)

    def _by_type(self, c):
        """Lock reached through a helper parameter: all store fields of the guarded type."""
        a = self.m.adts.get(STORE)
        if not a or not c.callee.g:
            return set()
        t = c.callee.g[0]
        return {f[0] for f in a.variants[0][1] if ty_args(f[1])[:1] == [t]}

    def prov(self, fn):
        p = getattr(fn, "_prov", None)
        if p is None:
            p = Prov(fn, self.m)
            fn._prov = p
        return p

    def direct_writes(self):
        r = getattr(self, "_dw", None)
        if r is None:
            r = defaultdict(dict)
            for f in self.m.fns.values():
                for c in f.calls:
                    if f.blocks[c.bb].cleanup:
                        continue
                    sl = self.store_lock(c)
                    if sl and sl[1] == "w":
                        for x in sl[0]:
                            r[f.uid].setdefault(x, c)
            self._dw = r
        return r

    def may_write(self):
        """uid -> set of store fields possibly write-locked, transitively."""
        r = getattr(self, "_mw", None)
        if r is None:
            dw = self.direct_writes()
            r = {u: set(v) for u, v in dw.items()}
            work = deque(r)
            while work:
                u = work.popleft()
                for g in self.m.callers(self.m.fns[u]):
                    s = r.setdefault(g.uid, set())
                    n = len(s)
                    s |= r[u]
                    if len(s) != n:
                        work.append(g.uid)
            self._mw = r
        return r

    # -- end --------------------------------------------------------------
    def finish(self, level="other", explanation="", extra=None):
        known, fixed = load_known()
        viol = [o for o in self.obs if not o[2]]
        new, old = [], []
        for o in viol:
            k = (self.prop, o[1])
            (old if k in known else new).append(o)
        os.makedirs(EVID, exist_ok=True)
        ok = [o for o in self.obs if o[2]]
        kinds = defaultdict(int)
        for o in self.obs:
            kinds[o[0]] += 1
        samples = []
        seen = defaultdict(int)
        for o in ok:
            if seen[o[0]] < 4:
                seen[o[0]] += 1
                samples.append("%s | %s | %s%s" % (o[0], o[1], o[3], (" | " + o[4]) if o[4] else ""))
        cov = {
            "explanation": explanation or "static rules decided over the type-checked MIR of every workspace library and binary",
            "rules": ["%s: %s" % r for r in self.rules],
            "functions_analysed": len(self.m.fns),
            "crates_analysed": self.m.crates,
            "obligations": len(self.obs),
            "discharged": len(ok),
            "obligations_by_rule": dict(kinds),
            "floors": ["%s: %d found, at least %d required" % f for f in self.floors],
            "samples": samples[:40],
            "notes": self.notes[:60],
            "known_findings_reported": len(old),
        }
        if extra:
            cov.update(extra)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": cov, "assumptions": self.assumptions or BASE_ASSUMPTIONS,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
        }
        with open(os.path.join(EVID, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print("%s: %d functions, %d obligations (%s), %d discharged" % (
            self.prop, len(self.m.fns), len(self.obs),
            ", ".join("%s=%d" % k for k in sorted(kinds.items())), len(ok)))
        for o in old:
            print("KNOWN-FINDING: property=%s %s | %s" % (self.prop, o[1], o[4]))
        if new:
            rep = os.path.join(EVID, self.prop + ".report.txt")
            with open(rep, "w") as fh:
                for n, t in self.rules:
                    fh.write("rule %s: %s\n" % (n, t))
                for o in new:
                    fh.write("\n[%s] %s\n  at %s\n  %s\n" % (o[0], o[1], o[3], o[4]))
            for o in new:
                print("  [%s] %s at %s: %s" % (o[0], o[1], o[3], o[4]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            return 1
        return 0


BASE_ASSUMPTIONS = [
    "rustc's type checker, name resolution and MIR construction are correct",
    "trait-object calls are over-approximated by all implementations of the trait in the workspace",
    "unwinding (panic) paths are not considered unless the rule says so",
    "test-only code (cfg(test), tests/, benches/, examples/) is not part of the analysed program",
]


def load_known():
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l or l.startswith("#"):
                continue
            if l.startswith("fixed:"):
                fixed.append(l)
                continue
            if l.startswith("finding:"):
                # finding: property=<id> key=<key> :: text
                body, _, text = l[8:].partition("::")
                mm = re.match(r"\s*property=(\S+)\s+key=(.+?)\s*$", body)
                # keys may contain '::' themselves -> format uses ' :: ' separator
                parts = l[8:].split(" :: ", 1)
                mm = re.match(r"\s*property=(\S+)\s+key=(.+?)\s*$", parts[0])
                known[(mm.group(1), mm.group(2))] = parts[1] if len(parts) > 1 else ""
    return known, fixed
