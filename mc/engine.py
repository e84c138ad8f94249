"""Exhaustive enumeration runner: splits the case list of a property over processes, compares every
transition of the implementation with the reference model, confirms and records violations."""
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback

from . import model as M

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BLOCK = 3
CASE_TIMEOUT = 60


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    pass


class Ctx:
    """Per worker counters, handed to every case."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.skip_why = {}
        self.outcomes = set()
        self.samples = []
        self.extra = {}

    def state(self, *key):
        self.states.add(hash(key))

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(key))

    def skip(self, why):
        self.skipped += 1
        self.skip_why[why] = self.skip_why.get(why, 0) + 1

    def bump(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


def _alarm(*_):
    raise CaseTimeout()


def run_one(mod, space, case, ctx):
    """-> None | (sig, message)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        kind, _, name = space.rpartition(":")
        M.UNIT = UNITS.get(kind, 1.0)
        r = mod.run(name, case, ctx)
        if r is None:
            return None
        if isinstance(r, str):
            return (r.split(":")[0], r)
        return r
    except CaseTimeout:
        return ("timeout", "did not terminate within %d s" % CASE_TIMEOUT)
    except Violation as e:
        return (str(e).split(":")[0], str(e))
    except Exception as e:
        # On the unchanged tree no case raises, so an exception is an outcome the property does not allow
        # (either the library failed internally or it returned something that cannot be interpreted).
        last = traceback.extract_tb(e.__traceback__)[-1]
        return ("error %s" % type(e).__name__, "error %s: %s (at %s:%s)" % (
            type(e).__name__, str(e)[:200], os.path.basename(last.filename), last.lineno))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def enumerate_cases(mod, tier):
    for name, gen in mod.spaces(tier):
        for case in gen:
            yield name, case
    yield from held_cases(mod)
    yield from vals_cases(mod)


# values far from the small integers of the alphabets: 0 and undefined are kept, so are sums and orders (except "near")
VALS = {"tiny": lambda v: v * 2.0 ** -40, "near": lambda v: 1 + v * 2.0 ** -20, "big": lambda v: v * 2 ** 30,
        "mixed": lambda v: v * 2.0 ** -40 if v > 0 else v}
UNITS = {"tiny": 2.0 ** -45, "mixed": 2.0 ** -45}  # the size below which differences are rounding


def vals_cases(mod):
    """every STRIDE-th case of the quick spaces again, with tiny, huge, nearly equal and mixed values"""
    stride = getattr(mod, "VALS_STRIDE", 0)
    n = 0
    for name, gen in mod.spaces("quick") if stride else ():
        if name in mod.VALS_SKIP:
            continue
        for case in itertools.islice(gen, n % stride, None, stride):
            kinds = [k for k in VALS if k + ":" not in mod.VALS_SKIP]
            k = kinds[n % len(kinds)]
            if k != "near" and "dates" in mod.VALS_SKIP and datelike(case):
                k = "near"  # amounts are Timedeltas: whole nanoseconds, of 64 bits
            c = with_vals(case, VALS[k])
            n += 1
            if c is not None:
                yield k + ":" + name, c


def datelike(x):
    from .gen import Leaf
    return x.dom.datelike if isinstance(x, Leaf) else isinstance(x, tuple) and any(datelike(y) for y in x)


def vals_text(mod):
    k = getattr(mod, "VALS_STRIDE", 0)
    return k and ("; every %dth case of the quick spaces%s again with the values of the functions scaled by 2^-40, by 2^30, "
                  "nearly equal (1 + v 2^-20), or of mixed magnitude" % (
                      k, mod.VALS_SKIP and " except " + ", ".join(mod.VALS_SKIP) or "")) or ""


def with_vals(case, g):
    from .gen import Leaf
    hit = []

    def num(v):
        if v is None or v == 0:
            return v
        hit.append(v)
        return g(v)

    def sub(x):
        if isinstance(x, Leaf):
            return Leaf(sub(x.f), *x[1:])
        if isinstance(x, M.F):
            return M.F(num(x.init), [(a, num(v)) for a, v in x.steps])
        if type(x) is tuple:
            return tuple(sub(y) for y in x)
        return x

    c = sub(case)
    return c if hit else None


def held_cases(mod):
    """every STRIDE-th case of the quick spaces again, on labels held in another resolution or dtype"""
    stride = getattr(mod, "HELD_STRIDE", 0)
    n = 0
    for name, gen in mod.spaces("quick") if stride else ():
        if name in mod.HELD_SKIP:
            continue
        for case in itertools.islice(gen, n % stride, None, stride):
            c = held(case, n)
            n += 1
            if c is not None:
                yield "held:" + name, c


def held_text(mod):
    k = getattr(mod, "HELD_STRIDE", 0)
    return k and ("; every %dth case of the quick spaces%s again in 12 domains whose labels are held as [s], [ms], [us] and mixed resolutions "
                  "(naive, tz-aware, Timedelta), int8, int16, uint8, uint64, Int64, UInt8, float32 or Float64" % (
                      k, mod.HELD_SKIP and " except " + ", ".join(mod.HELD_SKIP) or "")) or ""


def held(case, n):
    from .domains import HELD
    from .gen import Leaf
    hit = []

    def sub(x):
        if isinstance(x, Leaf):
            return Leaf(x.f, sub(x[1]), *x[2:])
        if isinstance(x, str) and x in HELD:
            hit.append(x)
            return HELD[x][n % len(HELD[x])]
        if type(x) is tuple:
            return tuple(sub(y) for y in x)
        return x

    c = sub(case)
    return c if len(set(hit)) == 1 else None


def _worker(modname, tier, w, W, deadline, conn, max_viol):
    import gc

    import warnings

    warnings.simplefilter("ignore")
    gc.freeze()
    out = {"error": None}
    ctx = Ctx()
    viol = []
    per_space = {}
    capped = False
    sigs = {}
    try:
        mod = importlib.import_module("mc.props." + modname)
        if hasattr(mod, "setup"):
            mod.setup(tier, ctx)
        for i, (space, case) in enumerate(enumerate_cases(mod, tier)):
            if (i // BLOCK) % W != w:
                continue
            if i % 16 == 0 and time.time() > deadline:
                capped = True
                break
            per_space[space] = per_space.get(space, 0) + 1
            r = run_one(mod, space, case, ctx)
            if r is not None:
                sigs[(space, r[0])] = sigs.get((space, r[0]), 0) + 1
                if sigs[(space, r[0])] <= 3:
                    viol.append((i, space, case, r[0], r[1], w))
                if sum(sigs.values()) >= max_viol:
                    capped = True
                    break
            elif len(ctx.samples) < 3 and i % 97 == 0:
                ctx.samples.append("%s: %r" % (space, case))
    except Exception:
        out["error"] = traceback.format_exc()
    out.update(states=ctx.states, transitions=ctx.transitions, traces=ctx.traces, skipped=ctx.skipped,
               skip_why=ctx.skip_why, outcomes=ctx.outcomes, samples=ctx.samples, extra=ctx.extra,
               viol=viol, per_space=per_space, capped=capped, sigs=sigs)
    conn.send(out)
    conn.close()


def explore(modname, tier, workers=None, budget=None, max_viol=None):
    W = workers or int(os.environ.get("MC_WORKERS", 0)) or min(8, os.cpu_count() or 1)
    budget = budget or (600 if tier == "quick" else 6 * 3600)
    max_viol = max_viol or int(os.environ.get("MC_MAX_VIOL", 60))
    deadline = time.time() + budget
    ctxm = mp.get_context("fork")
    procs = []
    for w in range(W):
        a, b = ctxm.Pipe(False)
        p = ctxm.Process(target=_worker, args=(modname, tier, w, W, deadline, b, max_viol))
        p.start()
        b.close()
        procs.append((p, a))
    outs = []
    for p, a in procs:
        try:
            outs.append(a.recv())
        except EOFError:
            outs.append({"error": "worker died"})
        p.join()
    res = dict(states=set(), transitions=0, traces=0, skipped=0, skip_why={}, outcomes=set(), samples=[], extra={},
               viol=[], per_space={}, capped=False, errors=[], sigs={}, workers=W)
    for o in outs:
        if o.get("error"):
            res["errors"].append(o["error"])
        if "states" not in o:
            continue
        res["states"] |= o["states"]
        res["outcomes"] |= o["outcomes"]
        for k in ("transitions", "traces", "skipped"):
            res[k] += o[k]
        for k in ("extra", "per_space", "sigs", "skip_why"):
            for a, b in o[k].items():
                res[k][a] = res[k].get(a, 0) + b
        res["samples"] += o["samples"]
        res["viol"] += o["viol"]
        res["capped"] |= o["capped"]
    res["viol"].sort(key=lambda v: v[0])
    return res


def _fresh(modname, tier, space, case, upto=None):
    """Run one case (or the whole history of a worker up to it) in a forked, otherwise unused process."""
    a, b = mp.get_context("fork").Pipe(False)

    def go():
        import warnings
        warnings.simplefilter("ignore")
        ctx = Ctx()
        mod = importlib.import_module("mc.props." + modname)
        if hasattr(mod, "setup"):
            mod.setup(tier, ctx)
        r = None
        if upto is None:
            r = run_one(mod, space, case, ctx)
        else:
            w, W, idx = upto
            for i, (sp, c) in enumerate(enumerate_cases(mod, tier)):
                if (i // BLOCK) % W == w:
                    r = run_one(mod, sp, c, ctx)
                if i >= idx:
                    break
        b.send(r)

    p = mp.get_context("fork").Process(target=go)
    p.start()
    b.close()
    try:
        r = a.recv()
    except EOFError:
        r = ("crash", "process died")
    p.join()
    return r


# ------------------------------------------------------------------ known findings
def known_findings():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [e for e in json.load(open(path)).get("findings", [])]


def match_known(prop, viol, known):
    i, space, case, sig, msg, w = viol
    for k in known:
        if k["property"] == prop and k.get("space") == space and k.get("case") == repr(case):
            return k
    return None


# ------------------------------------------------------------------ replay files
def write_replay(prop, modname, tier, viol, reproduced, W):
    i, space, case, sig, msg, w = viol
    d = os.path.join(ROOT, "replays", prop)
    os.makedirs(d, exist_ok=True)
    tag = hashlib.sha1(repr((space, case)).encode()).hexdigest()[:10]
    path = os.path.join(d, tag + ".json")
    mod = importlib.import_module("mc.props." + modname)
    rec = {"property": prop, "tier": tier, "space": space, "case_repr": repr(case),
           "case_pickle": pickle.dumps(case).hex(), "message": msg, "index": i, "worker": w, "workers": W,
           "reproduced_alone": reproduced,
           "how": "cd /verif && ./check replay %s" % path}
    if hasattr(mod, "explain"):
        try:
            rec["program"] = mod.explain(space, case)
        except Exception as e:
            rec["program"] = "unavailable: %s" % e
    with open(path, "w") as fh:
        json.dump(rec, fh, indent=1)
    return path


def replay(path):
    rec = json.load(open(path))
    case = pickle.loads(bytes.fromhex(rec["case_pickle"]))
    modname = rec["property"].lower()
    print("replaying %s %s %s" % (rec["property"], rec["space"], rec["case_repr"]))
    if rec.get("program"):
        print(rec["program"])
    if rec["reproduced_alone"]:
        r = _fresh(modname, rec["tier"], rec["space"], case)
    else:
        r = _fresh(modname, rec["tier"], rec["space"], case, (rec["worker"], rec["workers"], rec["index"]))
    print("result:", r)
    return 1 if r else 0


# ------------------------------------------------------------------ main
def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = prop.lower()
    mod = importlib.import_module("mc.props." + modname)
    res = explore(modname, tier)
    known = known_findings()
    new, old = [], {}
    for v in res["viol"]:
        k = match_known(prop, v, known)
        if k:
            old[k["id"]] = k
        else:
            new.append(v)
    wall = time.time() - t0
    cov = {
        "states": len(res["states"]),
        "transitions": res["transitions"],
        "traces_validated_against_impl": res["traces"],
        "samples": res["samples"][:12],
        "exhaustive": not res["capped"] and not res["errors"],
        "cases_per_space": res["per_space"],
        "distinct_outcomes": len(res["outcomes"]),
        "skipped": res["skipped"],
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, "") + held_text(mod) + vals_text(mod),
        "rule": getattr(mod, "RULE", ""),
    }
    if res["skip_why"]:
        cov["skip_reasons"] = res["skip_why"]
    if res["extra"]:
        cov["counts"] = res["extra"]
    if res["sigs"]:
        cov["violation_signatures"] = {"%s / %s" % k: n for k, n in sorted(res["sigs"].items())}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s %s: states=%d transitions=%d traces=%d outcomes=%d skipped=%d exhaustive=%s wall=%.1fs" % (
        prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
        cov["distinct_outcomes"], cov["skipped"], cov["exhaustive"], wall))
    if os.environ.get("MC_VERBOSE"):
        print(json.dumps(cov, indent=1, default=str))
    for k in old.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if new:
        shown = {}
        for v in new:
            if (v[1], v[3]) in shown or len(shown) >= 8:
                continue
            shown[(v[1], v[3])] = v
        for v in shown.values():
            i, space, case, sig, msg, w = v
            r1 = _fresh(modname, tier, space, case)
            r2 = _fresh(modname, tier, space, case)
            repro = r1 is not None and r2 is not None
            path = write_replay(prop, modname, tier, v, repro, res["workers"])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   space=%s case=%r\n   %s%s" % (space, case, msg, "" if repro else
                  "\n   (depends on the history of the exploring process; replay re-runs that history)"))
        return 1
    if res["errors"]:
        print("HARNESS ERROR\n" + "\n".join(res["errors"][:2]), file=sys.stderr)
        return 2
    return 0
