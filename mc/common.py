"""Shared machinery of the checks: process set-up, case runner, evidence, replay, known findings.

A check module defines
    PROPERTY = "Cxx"; LEVEL; RULE (text); ASSUMPTIONS (list)
    cases(tier)  -> list of JSON-able case descriptors (deterministic, simplest first)
    run_case(case) -> Result   (explores everything inside that case)
and ends with  common.main(sys.modules[__name__]).
"""
import os, sys, json, time, hashlib, shutil, tempfile, traceback, warnings, contextlib

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
# hard stop, well below the 900 s a check gets; reaching it is reported as a cap
# development aid (mutation runs): stop at the first violation that is not a known finding
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))
BUDGET = float(os.environ.get("VERIF_BUDGET", "780" if TIER == "quick" else "36000"))

SCRATCH = None


def setup():
    """Fresh scratch HOME and cwd, rayflare imported from /repo's working tree."""
    global SCRATCH
    if SCRATCH is not None:
        return
    SCRATCH = tempfile.mkdtemp(prefix="rfmc_")
    if not os.path.exists(os.path.join(os.path.expanduser("~"), ".solcore_config.txt")):
        pass
    os.environ["HOME"] = SCRATCH
    os.chdir(SCRATCH)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(SCRATCH, "pyc")
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    with contextlib.redirect_stdout(open(os.devnull, "w")):
        import solcore      # creates a folder in HOME: must not happen in several workers at the same time
        import rayflare
    got = os.path.realpath(rayflare.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("rayflare imported from %s" % got)
    import numpy as np
    np.seterr(all="ignore")


_n = [0]


def fresh_dir(tag="d"):
    _n[0] += 1
    p = os.path.join(SCRATCH, "%s_%d_%d" % (tag, os.getpid(), _n[0]))
    os.makedirs(p)
    return p


def rmdir(p):
    assert os.path.realpath(p).startswith(os.path.realpath(SCRATCH))
    shutil.rmtree(p, ignore_errors=True)


class Result:
    """Counts and violations of one case."""

    def __init__(self):
        self.states = 0        # distinct observed states / execution outcomes
        self.transitions = 0   # decisions / operations / comparisons of steps executed
        self.execs = 0         # executions of the real code driven to completion
        self.traces = 0        # executions compared step by step/outcome by outcome with the oracle
        self.outcomes = set()  # hashes of distinct observed outcomes
        self.viol = []
        self.capped = []
        self.notes = {}

    def seen(self, *key):
        self.outcomes.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def bad(self, what, sig=None, **detail):
        """A violation: `what` in words, `sig` a stable identification of the failing input."""
        if len(self.viol) < 20:
            self.viol.append({"what": what, "sig": sig or what, "detail": _js(detail)})

    def check(self, cond, what, sig=None, **detail):
        self.transitions += 1
        if not cond:
            self.bad(what, sig, **detail)
        return bool(cond)


def _js(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): _js(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [_js(v) for v in o]
    if isinstance(o, np.ndarray):
        return _js(o.tolist()) if o.size <= 64 else "array%s" % (o.shape,)
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return _js(o.item())
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, (int, float, str, bool)) or o is None:
        return o
    return repr(o)[:400]


def _known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


class CaseTimeout(BaseException):
    pass


def _run_one(args):
    i, case = args
    mod = _MOD
    import signal
    lim = int(case.get("_limit", 240 if TIER == "quick" else 7200))

    def onalarm(*a):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(lim)
    t0 = time.time()
    try:
        import numpy as np, random
        np.random.seed(SEED)
        random.seed(SEED)
        with contextlib.redirect_stdout(open(os.devnull, "w")):
            r = mod.run_case(case)
    except CaseTimeout:
        r = Result()
        r.bad("the calculation did not finish within %d s (unchanged code needs a small fraction of it)" % lim,
              sig="timeout", case=case)
    except Exception as e:
        r = Result()
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/rayflare/" in f.filename or "/solcore/" in f.filename]
        r.bad("exception %s: %s" % (type(e).__name__, str(e)[:300]),
              sig="exception " + type(e).__name__,
              trace="".join(traceback.format_exception(e))[-3000:],
              in_target=bool(where))
    finally:
        signal.alarm(0)
    return i, r, time.time() - t0


def main(mod):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--only", help="substring of the JSON of the cases to run")
    ap.add_argument("--sigs", help="file that gets every violation (property, signature, text), for triage")
    ap.add_argument("--times", action="store_true")
    a = ap.parse_args()
    setup()
    global _MOD
    _MOD = mod
    t0 = time.time()
    try:
        rc = _main(mod, a, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def _main(mod, a, t0):
    pid = mod.PROPERTY
    if a.replay:
        rec = json.load(open(a.replay))
        cs = [rec["case"]]
    else:
        cs = mod.cases(TIER)
        if a.case is not None:
            cs = [cs[a.case]]
        if a.only:
            cs = [c for c in cs if a.only in json.dumps(c)]
    results = {}
    capped = []
    known = [k for k in _known() if k["property"] == pid]

    def match(case, v):
        return [k for k in known if (v["sig"] == k.get("sig") or v["sig"] in k.get("sigs", ())) and
                all(case.get(kk) == vv for kk, vv in k.get("case", {}).items())]
    if hasattr(mod, "warm"):
        mod.warm()
    if len(cs) == 1 or JOBS == 1:
        for i, c in enumerate(cs):
            _, r, dt = _run_one((i, c))
            results[i] = r
            if a.times:
                print("%6.2fs %s" % (dt, json.dumps(c)[:150]), r.execs, r.states)
    else:
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        order = sorted(range(len(cs)), key=lambda i: -cs[i].get("_w", 1))
        with ctx.Pool(min(JOBS, len(cs)), maxtasksperchild=1 if getattr(mod, "FRESH", False) else None) as pool:
            it = pool.imap_unordered(_run_one, [(i, cs[i]) for i in order], chunksize=1)
            for _ in range(len(cs)):
                left = BUDGET - (time.time() - t0)
                try:
                    i, r, dt = it.next(timeout=max(left, 0.01))
                except mp.TimeoutError:
                    capped.append("time budget: %d of %d cases finished" % (len(results), len(cs)))
                    break
                results[i] = r
                if a.times:
                    print("%6.2fs %s" % (dt, json.dumps(cs[i])[:150]), r.execs, r.states)
                if FAILFAST and any(not match(cs[i], v) for v in r.viol):
                    capped.append("stopped at the first violation")
                    break
            pool.terminate()
    outcomes = set()
    tot = dict(states=0, transitions=0, execs=0, traces=0)
    new, hit = [], {}
    notes = {}
    for i in sorted(results):
        r = results[i]
        for k in tot:
            tot[k] += getattr(r, k)
        outcomes |= r.outcomes
        capped += r.capped
        for k, v in r.notes.items():
            if isinstance(v, (int, float)):
                notes[k] = max(notes.get(k, v), v) if k.startswith("max") else notes.get(k, 0) + v
        for v in r.viol:
            m = match(cs[i], v)
            if m:
                hit.setdefault(m[0]["id"], (m[0], v))
            else:
                new.append((cs[i], v))
    if a.sigs:
        json.dump([dict(sig=v["sig"], what=v["what"], case=c) for c, v in new], open(a.sigs, "w"), indent=1)
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
        "level": mod.LEVEL,
        "coverage": {
            "states": max(tot["states"], len(outcomes)), "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["traces"],
            "evaluations": tot["execs"], "distinct_nontrivial": len(outcomes),
            "rule": mod.RULE,
            "samples": [c for c in cs[:: max(1, len(cs) // 4)]][:5],
            "explanation": getattr(mod, "EXPLANATION", mod.RULE),
            "cases": len(cs), "cases_run": len(results), "caps": capped[:20], "notes": notes,
            "exhaustive": not capped and len(results) == len(cs),
            "known_findings_observed": sorted(hit),
        },
        "assumptions": mod.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if not a.replay and a.case is None and not a.only:
        json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s: cases=%d executions=%d distinct_outcomes=%d states=%d transitions=%d traces=%d caps=%d wall=%.1fs %s" % (
        pid, len(results), tot["execs"], len(outcomes), ev["coverage"]["states"], tot["transitions"],
        tot["traces"], len(capped), time.time() - t0, json.dumps(notes)))
    for k, (f, v) in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    if not new:
        if not results or tot["transitions"] == 0:
            print("ERROR: nothing explored")
            return 3
        return 0
    rd = os.path.join(EVID, "replays")
    os.makedirs(rd, exist_ok=True)
    seen = set()
    for case, v in new[:8]:
        if v["sig"] in seen:
            continue
        seen.add(v["sig"])
        h = hashlib.md5(json.dumps([case, v["sig"]], sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(rd, "%s-%s.json" % (pid, h))
        json.dump({"property": pid, "case": case, "violation": v,
                   "replay": "bash /verif/run.sh %s --replay %s" % (pid, p)}, open(p, "w"), indent=1)
        print("  %s  case=%s" % (v["what"][:300], json.dumps(case)[:200]))
        if v["detail"]:
            print("    " + json.dumps(v["detail"])[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, p))
    return 1
