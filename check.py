#!/usr/bin/env python3
"""check.py <PROPERTY>: decides one property on the code in /repo (VERIF_SEED, VERIF_TIER)."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner, build

def simple(driver, rule, assumptions=()):
    def run(res):
        exe = build.build("asan", [driver])[driver]
        res.rule = rule
        res.assumptions = list(assumptions)
        runner.run_harness(res, exe, res.prop)
    return run

TY = "Values and texts are drawn from boundary tables, powers of two and ten, random bits and mutated canonical texts; each is judged against reference arithmetic written for this check, in exact-size heap buffers under ASan+UBSan. Distinct = distinct generated value or text."
CHECKS = {p: simple("types", TY) for p in ("T01", "T02", "T03", "T04", "T05", "T06")}
try:
    import more
    CHECKS.update(more.CHECKS)
except ImportError:
    pass

def main():
    prop = sys.argv[1]
    t0 = time.time()
    c = CHECKS[prop]
    level = "exploration"
    if isinstance(c, tuple): c, level = c
    res = runner.Result(prop)
    sys.setrecursionlimit(120000)
    try: c(res)
    except Exception: # what was already seen is reported; a check that could not finish gives no verdict
        import traceback
        e = traceback.format_exc(); print(e[:1500] + ("\n...\n" + e[-1500:] if len(e) > 3000 else e[1500:])); res.broken.append("the check itself failed: " + e.strip().splitlines()[-1])
    sys.exit(runner.finish(res, t0, level))

if __name__ == "__main__":
    main()
