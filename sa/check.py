#!/usr/bin/env python3
"""check.py <PROPERTY>: decide one property of /repo's current working tree statically."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from core import Ctx, FactsError


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import rules
    try:
        ctx = Ctx(prop, tier, seed)
    except FactsError as e:
        print("ERROR: cannot extract facts: %s" % e)
        return 2
    try:
        return rules.RULES[prop](ctx)
    except Exception as e:      # an anchor the rule dereferences is gone: fail closed, naming it
        tb = traceback.extract_tb(e.__traceback__)[-1]
        traceback.print_exc()
        ctx.ob("anchor", "anchor:rule-cannot-be-evaluated", False, "%s:%d" % (tb.filename, tb.lineno),
               "the rule lost the construct it decides (%s: %s)" % (type(e).__name__, e))
        return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
