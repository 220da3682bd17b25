"""C02: per-interaction probabilities and directions.  The complete decision tree of a ray in planar and faceted
structures (bare interfaces and interfaces carrying planar stacks) is enumerated on the real tracer; every leaf's
exact probability and outcome is compared with Fresnel/TMM and Snell computed independently, and expected R, T, A
with the closed form of incoherent planar optics."""
import sys, math
import numpy as np
import common
from rtlib import *
from optics import fresnel_R

PROPERTY = "C02"
LEVEL = "model_checking"
RULE = ("distinct (structure, direction, polarisation, outcome) with all reflect/transmit/absorb decisions of the "
        "ray enumerated with exact probabilities on the real code and compared with independent Fresnel/TMM optics")
ASSUMPTIONS = ["extinction coefficients of bulk media are below 0.01, so refraction directions are those of the real "
               "indices", "decision paths below 1e-4 are only bounded in mass",
               "planar stacks on facets are compared at the tabulated angle nearest to the local angle, skipping "
               "angles half way between two entries"]
EPS = 1e-4 if common.TIER == "quick" else 5e-6
P55, P55i, PL = ["pyr", 55, True], ["pyr", 55, False], ["planar"]
AR = [(1.38, 0.0, 90.0), (2.3, 0.02, 60.0)]
MET = [(0.6, 4.0, 25.0)]
ABS = [(3.0, 0.3, 40.0), (1.6, 0.0, 120.0), (2.0, 0.1, 70.0)]
SC = {
    "p0": dict(surfs=[PL], layers=[], n_out=1.5),
    "p0d": dict(surfs=[PL], layers=[], n_in=2.4, n_out=1.3),
    "p0k": dict(surfs=[PL], layers=[], n_out=3.5, k_out=0.005),
    "p1": dict(surfs=[PL, PL], layers=[(2.2, 0.02, 20)], n_out=1.5),
    "p1t": dict(surfs=[PL, PL], layers=[(1.5, 0.0, 7.7)], n_out=1.0),
    "p1d": dict(surfs=[["planar", 2.6], PL], layers=[(1.4, 0.03, 12)], n_in=2.0, n_out=1.2),
    "p2": dict(surfs=[PL, PL, PL], layers=[(1.5, 0.01, 5), (3.0, 0.05, 10.5)], n_out=1.0),
    "p3": dict(surfs=[PL] * 4, layers=[(1.5, 0.01, 5), (2.5, 0.05, 6), (1.3, 0.02, 4)], n_out=2.0),
    "s0": dict(surfs=[PL], layers=[], n_out=3.5, sheets={0: dict(layers=AR)}),
    "s0d": dict(surfs=[PL], layers=[], n_in=2.4, n_out=1.3, sheets={0: dict(layers=AR)}),
    "s1f": dict(surfs=[PL, PL], layers=[(2.5, 0.03, 15)], n_out=1.0, sheets={0: dict(layers=AR)}),
    "s1r": dict(surfs=[PL, PL], layers=[(2.5, 0.03, 15)], n_out=1.0, sheets={1: dict(layers=MET)}),
    "s1b": dict(surfs=[PL, PL], layers=[(2.5, 0.03, 15)], n_out=1.0, sheets={0: dict(layers=ABS), 1: dict(layers=MET)}),
    "s2m": dict(surfs=[PL] * 3, layers=[(1.8, 0.02, 5), (2.5, 0.03, 15)], n_out=1.4, sheets={1: dict(layers=ABS)}),
    "t1": dict(surfs=[P55], layers=[], n_out=2.5, sheets={0: dict(layers=ABS)}),
    "t2": dict(surfs=[P55i, PL], layers=[(2.5, 0.05, 20)], n_out=1.5, sheets={0: dict(layers=AR), 1: dict(layers=MET)}),
    "t3": dict(surfs=[PL, ["pyr", 40, False]], layers=[(2.5, 0.05, 20)], n_out=1.0, sheets={1: dict(layers=ABS)}),
    "tf": dict(surfs=[P55], layers=[], n_in=2.2, n_out=1.0),
    "tw": dict(surfs=[["pyr", 30, True]], layers=[], n_in=1.0, n_out=1.0),
}


def cases(tier):
    cs = []
    ths = [0.0, 0.3, 0.62, 0.9, 1.2, 1.45] if tier == "quick" else list(np.round(np.arange(0, 1.56, 0.06), 3))
    for s in SC:
        for pol in "ups":
            for th in ths:
                if s[0] == "t" and th > 0.7:
                    continue
                cs.append(dict(s=s, pol=pol, th=th, ph=0.0 if th == 0 else 2.2, m=0, dir=1, _w=3 if s[0] in "ts" else 1))
    for s in ("p1", "p2", "s1b", "s1f", "t3", "p3"):
        for m in range(1, len(SC[s]["layers"]) + 1):
            for dr in (1, -1):
                for th in ([0.2, 0.5, 0.9] if tier == "quick" else ths[1:]):
                    cs.append(dict(s=s, pol="u" if th < .8 else "p", th=th, ph=0.7, m=m, dir=dr))

    # fine sweeps: angle and azimuth (normal to grazing), refractive indices, thickness
    for k in ("p0", "p0d", "p0k", "s0", "s0d", "tf", "tw"):
        for pol in "ups":
            cs.append(dict(s=k, pol=pol, sweep="angle", m=0, dir=1, _w=8))
    for pol in "ups":
        cs.append(dict(s="p0", pol=pol, sweep="index", m=0, dir=1, _w=8))
        cs.append(dict(s="p1", pol=pol, sweep="width", m=0, dir=1, _w=8))
    return cs


def sweep(case, tier):
    """(scene, theta, phi)"""
    k, n = case["sweep"], (30 if tier == "quick" else 150)
    base = SC[case["s"]]
    if k == "angle":
        hi = 0.7 if case["s"][0] == "t" else 1.565
        th = [1e-9, 1e-5, 1e-3] + [float(t) for t in np.linspace(0.01, hi, n)]
        ph = [0.0, 0.4, math.pi / 2, 1.9, math.pi, 3.6, 3 * math.pi / 2, 5.9]
        for i, t in enumerate(th):
            yield base, t, ph[i % len(ph)]
        for f in np.linspace(0, 2 * math.pi, n):
            yield base, 0.5, float(f)
    elif k == "index":
        ns = [1.0, 1.01, 1.1, 1.33, 1.5, 1.9, 2.5, 3.4, 4.2, 5.5]
        for a in ns:
            for b in ns:
                for t in (0.0, 0.25, 0.8):
                    yield dict(base, n_in=a, n_out=b), t, 0.6
    else:
        for w in np.logspace(-1, 4, 16):
            for al in (1e-5, 1e-3, 0.1, 3.0):
                yield dict(base, layers=[(2.2, al, float(w))]), 0.55, 0.6


def slab(n0, n1, n2, al, w, th, pol):
    """incoherent slab: closed form of expected R, T for one polarisation state per interface encounter"""
    s = n0.real * math.sin(th)
    R01 = fresnel_R(n0, n1, th, pol) if s <= n1.real else 1.0
    if s > n1.real:
        return 1.0, 0.0
    t1 = math.asin(s / n1.real)
    R12 = fresnel_R(n1, n2, t1, pol) if s <= n2.real else 1.0
    R10 = fresnel_R(n1, n0, t1, pol)
    b = math.exp(-al * w / math.cos(t1))
    den = 1 - R12 * R10 * b * b
    return R01 + (1 - R01) * R12 * b * b * (1 - R10) / den, (1 - R01) * b * (1 - R12) / den


def run_case(case):
    res = common.Result()
    if "sweep" not in case:
        one(res, case, Scene(**SC[case["s"]]), None, case["th"], case["ph"])
    else:
        last = sc = None
        for spec, th, ph in sweep(case, common.TIER):
            if spec is not last:
                last, sc, st = spec, Scene(**spec), None
            st = one(res, case, sc, st, th, ph)
    res.states = len(res.outcomes)
    return res


def one(res, case, sc, st, th, ph):
    case = dict(case, th=th, ph=ph)
    m, dr = case["m"], case["dir"]
    It = 1e-3
    kw = dict(theta_in=case["th"], phi_in=case["ph"], pol=case["pol"], I_thresh=It, lookuptable_angles=40)
    if m:
        kw.update(initial_material=m, initial_direction=dr)
    st = st or sc.real()
    pos = [(0.37, 0.81)] if case["s"][0] in "ps" or "sweep" in case else [(0.37, 0.81), (0.62, 0.23), (0.18, 0.55)]
    for x, y in pos:
        o = at(x, y, **kw)
        p, d = sc.launch(x, y, case["th"], case["ph"], m, dr)
        R = sc.ref(case["pol"], It, eps=EPS / 3)
        try:
            exp = R.run(p, d, m)
        except Degenerate:
            res.notes["degenerate_skipped"] = res.notes.get("degenerate_skipped", 0) + 1
            continue
        pr = sum(e["p"] for e in exp if e["kind"] == "pruned")
        want = [(e["p"], vec(e, sc.sheets)) for e in exp if e["kind"] != "pruned"]
        ex = Explorer(eps=EPS)
        got, ER, ET = [], 0.0, 0.0
        for q, lg, r in ex.explore(lambda: st.calculate(o)):
            oc = real_outcome(r)
            v = vec(oc)
            got.append((q, v))
            ER += q * oc["R"]
            ET += q * oc["T"]
            res.execs += 1
            res.seen(case["s"], case["pol"], case["th"], m, dr, np.round(v, 5).tolist())
        res.transitions += ex.branches
        res.traces += len(got)
        res.check(abs(ex.mass + ex.pruned - 1) < 1e-9, "decision probabilities do not add up to 1")
        slack = ex.pruned + pr
        res.notes["max_pruned"] = max(res.notes.get("max_pruned", 0), slack)
        diff = compare(got, want, slack)
        res.check(diff is None, "decision tree differs from Fresnel/TMM/Snell: %s" % (diff,),
                  "%s %s th=%s m=%s dir=%s" % (case["s"], case["pol"], case["th"], m, dr) + (" ph=%s" % ph if "sweep" in case else ""), diff=diff, slack=slack)
        if case["s"] in ("p1", "p1t", "p1d") and m == 0:
            n1, al, w = sc.layers[0]
            Rr, Tr = slab(complex(sc.n_in), complex(n1, kfor(al, WL)), complex(sc.n_out), al, w, case["th"], case["pol"])
            tol = ex.pruned + It + 1e-6
            res.check(abs(ER - Rr) <= tol and abs(ET - Tr) <= tol,
                      "expected R/T %.6f/%.6f differ from the incoherent slab %.6f/%.6f" % (ER, ET, Rr, Tr))
    return st


if __name__ == "__main__":
    common.main(sys.modules[__name__])
