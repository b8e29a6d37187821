"""bin/check <ID> [--only TAG]: decides one property for /repo's working tree."""
import argparse
import importlib
import os
import random
import sys
import time

import designs
import tlc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--only", default="")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-design", action="store_true")
    a = ap.parse_args()
    import core
    run = core.Run(a.prop, a.tier, a.seed)
    core.ZOO = run.zoo
    import props
    p = props.PROPS[a.prop]
    run.relative = p.relative
    thorough = a.tier == "thorough"
    rnd = random.Random("%s/%d" % (a.prop, a.seed))
    try:
        if not a.no_design:
            run.start_designs(designs.plan(a.prop, thorough))
        t = time.time()
        cases = p.cases(run, rnd, thorough)
        if a.only:
            cases = [c for c in cases if c.tag == a.only or c.tag.startswith(a.only)]
        viol, known = run.check(cases)
        run.join_designs()
        run.notes["cases"] = len(cases)
        run.notes["bounds"] = p.bounds
        rc = run.finish(viol, known, assumptions=p.assumptions)
    except tlc.MachineryError as e:
        print("MACHINERY ERROR: %s" % e)
        return 2
    return rc


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.exit(main())
