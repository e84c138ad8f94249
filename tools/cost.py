"""Developer tool: estimate the cost of each space of a property (1 in N cases, one process)."""
import importlib
import os
import sys
import time
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("MC_REPO", "/repo"), ROOT]
warnings.simplefilter("ignore")
os.environ["MPLBACKEND"] = "Agg"
from mc import engine  # noqa


def main(prop, n=20, tier="quick"):
    mod = importlib.import_module("mc.props." + prop.lower())
    ctx = engine.Ctx()
    if hasattr(mod, "setup"):
        mod.setup(tier, ctx)
    cost = {}
    t0 = time.time()
    cases = list(engine.enumerate_cases(mod, tier))
    print("enumeration %.1fs, %d cases" % (time.time() - t0, len(cases)))
    for i, (sp, c) in enumerate(cases):
        k = cost.setdefault(sp, [0, 0, 0.0])
        k[0] += 1
        if i % n:
            continue
        t = time.time()
        engine.run_one(mod, sp, c, ctx)
        k[1] += 1
        k[2] += time.time() - t
    tot = 0
    for sp, (a, b, t) in cost.items():
        e = t / max(b, 1) * a
        tot += e
        print("%-16s %7d cases %8.1f ms/case %8.1f cpu s" % (sp, a, 1000 * t / max(b, 1), e))
    print("total %.0f cpu s" % tot)


main(sys.argv[1], *[int(a) for a in sys.argv[2:3]], *sys.argv[3:4])
