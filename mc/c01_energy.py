"""C01: a ray-traced structure accounts for all energy.  Every random decision of the real tracer (reflect / transmit /
absorb, random positions, random heights) is enumerated; the energy balance and the agreement of per-ray and total
results are checked on every path, single rays and batches of rays."""
import sys, math, copy
import numpy as np
import common
from rtlib import *

PROPERTY = "C01"
LEVEL = "model_checking"
RULE = ("distinct (structure, launch, reported result) over all decision paths of the real tracer whose energy balance "
        "and per-ray/total agreement was checked")
ASSUMPTIONS = ["paths below the pruning threshold are not executed; their total probability is reported",
               "a ray lost as extinguished may leave out at most the documented intensity threshold",
               "batches contain up to 8 rays"]
P55, P55i, PL = ["pyr", 55, True], ["pyr", 55, False], ["planar"]
ARC = [(1.4, 0.0, 80.0)]
ABS = [(3.0, 0.3, 40.0), (1.6, 0.02, 120.0)]
SC = {
    "bare": dict(surfs=[PL], layers=[], n_out=3.0),
    "pyr0": dict(surfs=[P55], layers=[], n_out=3.0),
    "slab": dict(surfs=[PL, PL], layers=[(2.5, 0.1, 6)], n_out=1.5),
    "clear": dict(surfs=[P55, PL], layers=[(1.5, 0.0, 6)], n_out=1.7),
    "cell": dict(surfs=[P55, ["pyr", 40, False]], layers=[(3.5, .1, 12)], n_out=1.0),
    "inv": dict(surfs=[P55i, PL], layers=[(2.5, .3, 10)], n_out=2.0),
    "vg": dict(surfs=[["vg", 50, "y"], PL], layers=[(2.5, .3, 10)], n_out=2.0),
    "off": dict(surfs=[["xyz", "off"], ["xyz", "flat21"]], layers=[(2.2, .3, 10)], n_out=1.8),
    "two": dict(surfs=[["xyz", "two"], PL], layers=[(2.2, .3, 10)], n_out=1.8),
    "three": dict(surfs=[PL, ["pyr", 35, True], PL, PL], layers=[(1.6, .05, 4), (2.6, .3, 6), (1.7, .02, 4)], n_out=1.0),
    "dense": dict(surfs=[P55i, PL], layers=[(1.5, .1, 10)], n_in=2.5, n_out=1.0),
    "opaque": dict(surfs=[P55, PL], layers=[(2.5, 4.0, 10)], n_out=1.0),
    "tmm0": dict(surfs=[PL], layers=[], n_out=3.0, sheets={0: dict(layers=ABS)}),
    "tmm1": dict(surfs=[P55, PL], layers=[(2.5, .05, 10)], n_out=1.0, sheets={0: dict(layers=ABS)}),
    "tmm2": dict(surfs=[P55, PL], layers=[(2.5, .05, 10)], n_out=1.0,
                 sheets={0: dict(layers=ARC), 1: dict(layers=ABS)}),
    "tmmp": dict(surfs=[P55, PL], layers=[(2.5, .05, 10)], n_out=1.0, sheets={0: dict(layers=ABS, prof=[1, 2])}),
    "tmm3": dict(surfs=[PL, P55i, PL], layers=[(1.5, .3, 3), (2.5, .2, 7)], n_out=1.0,
                 sheets={1: dict(layers=ABS), 2: dict(layers=[(0.3, 3.5, 60.0)])}),
    # built by hand below
    "randpyr": None, "randboth": None, "rough": None, "roughpyr": None,
}
EPS = 3e-4 if common.TIER == "quick" else 1e-5
DIRS = [(0.0, 0.0), (0.5, 0.7), (1.1, 2.9), (1.3, 5.0)]


def build(name):
    from rayflare.ray_tracing.rt import rt_structure
    import rayflare.textures as tx
    np.random.seed(5)
    if SC[name] is not None:
        sc = Scene(**SC[name])
        return sc.real(), len(sc.layers), [len(v["layers"]) for k, v in sorted(sc.sheets.items())], \
            all(l[1] == 0 for l in sc.layers) and not sc.sheets, True
    h = {"h": [0.2, 0.5, 0.9], "p": [0.5, 0.3, 0.2]}
    if name == "randpyr":
        s = [tx.regular_pyramids(50, True, 1, height_distribution=h), tx.planar_surface()]
    elif name == "randboth":
        s = [tx.regular_pyramids(50, True, 1, height_distribution=h),
             tx.regular_pyramids(40, False, 1, height_distribution=h)]
    elif name == "rough":
        s = [tx.rough_planar_surface(1, 0.3, 24), tx.planar_surface()]
    elif name == "roughpyr":
        s = [tx.rough_pyramids(55, True, 1, 0.1, 25, True), tx.planar_surface()]
    st = rt_structure(s, [Mat(2.5, kfor(0.2, WL))], [10e-6], Mat(1.0), Mat(1.5))
    return st, 1, [], False, False


def cases(tier):
    cs = []
    for s in SC:
        for th, ph in DIRS:
            cs.append(dict(k="one", s=s, th=th, ph=ph, pol="u"))
        cs.append(dict(k="one", s=s, th=0.8, ph=4.0, pol="s"))
        cs.append(dict(k="one", s=s, th=0.8, ph=4.0, pol="p"))
    for s in ("bare", "pyr0", "slab", "clear", "cell", "three", "tmm0", "tmm1", "tmm3", "opaque", "dense"):
        for shape in ((2, 1, 2), (1, 2, 2), (2, 2, 4), (1, 1, 3), (2, 1, 3)):
            if s == "tmm3" and shape != (2, 1, 2) and tier == "quick":
                continue
            cs.append(dict(k="batch", s=s, th=0.5, ph=0.7, pol="u", shape=list(shape)))
    for s in ("slab", "cell", "three", "tmm1", "off"):
        cs.append(dict(k="rand", s=s, th=0.4, ph=0.7, pol="u"))
    for s in ("pyr0", "inv", "tmm1"):
        cs.append(dict(k="iso", s=s, th=0.6, ph=0.7, pol="u"))
    for s in ("cell", "three", "tmm2", "tmm3", "randboth"):
        for m in ((1,) if s in ("cell", "randboth", "tmm2") else (1, 2)):
            for dr in (1, -1):
                cs.append(dict(k="in", s=s, th=0.6, ph=0.7, pol="u", m=m, dir=dr))
    for s in ("slab", "tmm1", "bare"):
        cs.append(dict(k="wl", s=s, th=0.4, ph=0.7, pol="u"))
    # all periodic schedules of decisions with a period of up to three, for larger batches and finer values of one
    # parameter at a time
    for s in ("slab", "cell", "three", "tmm2", "bare", "dense", "off"):
        cs.append(dict(k="many", s=s, par="rays"))
        cs.append(dict(k="many", s=s, par="th"))
        cs.append(dict(k="many", s=s, par="wl"))
    for s in ("cell", "three", "tmm2", "inv", "opaque"):
        cs.append(dict(k="many", s=s, par="thresh"))
        cs.append(dict(k="many", s=s, par="ph"))
    for s in ("slab", "cell"):
        cs.append(dict(k="many", s=s, par="width"))
        cs.append(dict(k="many", s=s, par="alpha"))
    cs.append(dict(k="many", s="slab", par="layers"))
    cs.append(dict(k="many", s="slab", par="index"))
    for c in cs:
        if c["s"][:3] == "tmm":
            c["_w"] = 5 + 20 * (c["k"] == "batch")
    if tier != "quick":
        cs += [dict(c, th=round(c["th"] + 0.17, 3), ph=round(c["ph"] + 1.3, 3)) for c in cs if c["k"] != "many"]
    return cs


def invariants(res, r, o, nl, nint, clear, n, tag, nw=1):
    It = o["I_thresh"]
    th = np.real(r["thetas"])
    npass = np.asarray(r["n_passes"])
    nin = np.asarray(r["n_interactions"])
    ok = res.check(th.shape == (nw, n) and npass.shape == (nw, n) and nin.shape == (nw, n) and
                   np.shape(r["phis"]) == (nw, n), "per-ray results have shape %s for %d rays" % (th.shape, n), tag)
    ok &= res.check(np.shape(r["R"]) == (nw,) and np.shape(r["T"]) == (nw,) and
                    np.shape(r["A_per_layer"]) == (nw, nl), "totals have wrong shape", tag)
    if not ok:
        return
    for w in range(nw):
        A = np.real(np.asarray(r["A_per_layer"]))[w]
        if nint:
            Ai = [np.real(np.asarray(a))[w] for a in r["A_per_interface"]]
        else:
            Ai = []
        # interfaces without layers report nothing
        Ai = np.concatenate([a for a in Ai] or [np.zeros(0)])
        R, T, R0 = (float(np.real(r[k][w])) for k in ("R", "T", "R0"))
        parts = np.concatenate([[R, T, R0], A, Ai])
        tag2 = tag
        res.check(np.isfinite(parts).all() and (parts >= -1e-12).all() and (parts <= 1 + 1e-9).all(),
                  "a reported quantity is outside [0,1]: %s" % parts.tolist(), tag2)
        tot = R + T + A.sum() + Ai.sum()
        dead = np.isnan(th[w]).sum()
        res.check(1 - It * dead / n - 1e-9 <= tot <= 1 + 1e-9,
                  "R + T + A = %.10f with %d of %d rays extinguished or absorbed (threshold %g)" % (tot, dead, n, It), tag2,
                  R=R, T=T, A=A, Ai=Ai)
        res.check(R0 <= R + 1e-12, "R0 = %.9f > R = %.9f" % (R0, R), tag2)
        res.check((nin[w] >= o.get("periodic", 1)).all() and (npass[w] >= 0).all(), "a ray without interaction", tag2)
        up, dn = (th[w] <= np.pi / 2).sum(), (th[w] > np.pi / 2).sum()
        res.check(R <= up / n + 1e-9 and T <= dn / n + 1e-9, "R, T larger than the share of rays that left", tag2,
                  R=R, T=T, up=up, dn=dn)
        res.check((up == 0) == (R == 0) and (dn == 0) == (T == 0), "rays left in a direction without power (or power "
                  "without rays)", tag2)
        if clear:
            res.check(abs(R - up / n) < 1e-9 and abs(T - dn / n) < 1e-9, "transparent structure: R, T differ from the "
                      "share of rays leaving up and down", tag2)
        if o.get("initial_material", 0) == 0:
            z = ((npass[w] == 0) & (th[w] <= np.pi / 2)).sum()
            res.check(abs(R0 - z / n) < 1e-9, "R0 = %.9f, %d of %d rays reflected without entering" % (R0, z, n), tag2)
            if o.get("periodic", 1):
                res.check((nin[w] >= npass[w]).all(), "fewer interactions than passes", tag2)
        res.seen(tag, np.round(parts, 8).tolist(), np.round(np.nan_to_num(th[w], nan=9), 6).tolist())


WORDS = [[0], [1], [0, 1], [1, 0], [0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 1, 1], [1, 0, 1], [1, 1, 0]]


def variants(case):
    """(label, scene, options) along one parameter"""
    full = common.TIER != "quick"
    base, p = SC[case["s"]], case["par"]
    kw = dict(theta_in=0.5, phi_in=0.7, I_thresh=0.02, depth_spacing_bulk=1e-6, depth_spacing=5e-9, nx=2, ny=2, n_rays=8)
    if p == "rays":
        for n in list(range(1, 19)) + [20, 25, 27, 31, 32, 33, 40, 50, 64] + ([99, 100, 101, 128] if full else []):
            nx, ny = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (1, 3), (5, 5), (4, 3)][n % 8]
            yield n, base, dict(kw, n_rays=n, nx=nx, ny=ny)
    elif p == "th":
        for th in np.concatenate([[1e-6, 1e-3], np.linspace(0.02, 1.56, 30 if not full else 150)]):
            yield round(float(th), 6), base, dict(kw, theta_in=float(th), pol="usp"[int(th * 20) % 3])
    elif p == "ph":
        for ph in np.linspace(0, 2 * np.pi, 25 if not full else 97):
            yield round(float(ph), 6), base, dict(kw, phi_in=float(ph))
    elif p == "wl":
        for n in [1, 2, 3, 4, 5, 6, 7, 8, 11, 16] + ([25] if full else []):
            yield n, base, dict(kw, wavelength=np.linspace(400, 900, n) * 1e-9, n_rays=4 if n < 8 else 3)
    elif p == "thresh":
        for t in np.logspace(-6, -0.3, 16 if not full else 60):
            yield "%.3g" % t, base, dict(kw, I_thresh=float(t))
    elif p == "width":
        for w in np.logspace(-1.3, 3.5, 16 if not full else 60):
            yield "%.3g" % w, dict(base, layers=[base["layers"][0][:2] + (float(w),)]), dict(kw, depth_spacing_bulk=w * 0.071e-6)
    elif p == "alpha":
        for a in np.logspace(-6, 2.5, 18 if not full else 60):
            yield "%.3g" % a, dict(base, layers=[(base["layers"][0][0], float(a), base["layers"][0][2])]), kw
    elif p == "index":
        for a in (1.0, 1.01, 1.4, 2.0, 3.5):
            for b in (1.0, 1.3, 2.0, 3.6, 5.0):
                for c in (1.0, 1.7, 4.0):
                    yield "%s/%s/%s" % (a, b, c), dict(base, n_in=a, layers=[(b,) + base["layers"][0][1:]], n_out=c), kw
    elif p == "layers":
        for m in range(1, 9):
            L = [(1.5 + 0.3 * ((5 * i) % 7), [0.0, 0.02, 0.1][i % 3], 3.0 + i) for i in range(m)]
            yield m, dict(base, surfs=[PL] * (m + 1), layers=L), kw


def many(res, case):
    memo = {}
    for label, spec, kw in variants(case):
        sc = Scene(**spec)
        o = opts(**kw)
        key = (repr(spec), len(o.wavelength))
        if key not in memo:
            memo.clear()
            memo[key] = sc.real(options=opts(wavelength=o.wavelength, lookuptable_angles=40) if sc.sheets else None)
        st = memo[key]
        nint = [len(v["layers"]) for k, v in sorted(sc.sheets.items())]
        nw = len(o.wavelength)
        n = int(np.ceil(o["n_rays"] / (o["nx"] * o["ny"]))) * o["nx"] * o["ny"]
        words = WORDS if nw == 1 and n <= 32 or common.TIER != "quick" else WORDS[2:7]
        for w in words:
            ex = Explorer(positions=[0.31, 0.66], word=w, max_draws=10 ** 7)
            tag = "%s %s=%s schedule=%s" % (case["s"], case["par"], label, w)
            for q, lg, r in ex.explore(lambda: st.calculate(o)):
                res.execs += 1
                invariants(res, r, o, len(sc.layers), nint, all(l[1] == 0 for l in sc.layers) and not sc.sheets, n, tag, nw)
            res.transitions += ex.branches
    res.states = len(res.outcomes)
    res.traces += res.execs


def run_case(case):
    res = common.Result()
    if case["k"] == "many":
        many(res, case)
        return res
    b = build(case["s"])
    st, nl, nint, clear, _ = b
    kw = dict(theta_in=case["th"], phi_in=case["ph"], pol=case["pol"], I_thresh=0.02,
              depth_spacing_bulk=1e-6, depth_spacing=5e-9)
    k = case["k"]
    exk = {"positions": [0.31, 0.66]}
    tag = "%s %s th=%s ph=%s pol=%s" % (case["s"], k, case["th"], case["ph"], case["pol"])
    eps = EPS * (3 if case["s"] == "tmm3" else 1)
    n, nw = 1, 1
    L = np.array([st.surfaces[0].Lx, st.surfaces[0].Ly])
    single = None
    if k == "batch":
        nx, ny, nr = case["shape"]
        n = int(np.ceil(nr / (nx * ny))) * nx * ny
        eps = EPS * 10
        xs = np.linspace(0.21, 0.74, nx) if nx > 1 else np.array([0.21])
        ys = np.linspace(0.37, 0.83, ny) if ny > 1 else np.array([0.37])
        lim = dict(x_limits=[0.21 * L[0], 0.74 * L[0]], y_limits=[0.37 * L[1], 0.83 * L[1]])
        o = opts(nx=nx, ny=ny, n_rays=nr, **lim, **kw)
        tag += " %s" % case["shape"]
        # expectation and outcome table of single rays at the same positions
        tab, ER, ET, EA, pr1 = {}, 0, 0, 0, 0
        for x in xs:
            for y in ys:
                e1 = Explorer(eps=EPS / 10)
                for q, lg, r in e1.explore(lambda: st.calculate(at(x * L[0], y * L[1], **kw))):
                    res.execs += 1
                    v = real_outcome(r)
                    ER += q * v["R"] / (len(xs) * len(ys))
                    ET += q * v["T"] / (len(xs) * len(ys))
                    EA = EA + q * np.concatenate([v["A"], v["Ai"]]) / (len(xs) * len(ys))
                    if v["kind"] in "RT":
                        key = (round(v["theta"], 7), round(v["phi"], 7), v["n_pass"], v["n_int"])
                        tab.setdefault(key, set()).add(round(v["R"] + v["T"], 12))
                pr1 += e1.pruned / (len(xs) * len(ys))
        single = (tab, ER, ET, EA, pr1)
    elif k == "wl":
        nw = 2
        o = at(0.37 * L[0], 0.61 * L[1], **kw)
        o.wavelength = np.array([WL, 750e-9])
        if nint:
            st = Scene(**SC[case["s"]]).real(options=opts(wavelength=o.wavelength, lookuptable_angles=40))
        eps = EPS * 3
    else:
        o = None
    if k == "rand":
        kw["randomize_surface"] = True
        kw["I_thresh"] = 0.1
        eps = EPS * 3
    if k == "iso":
        kw["periodic"] = 0
    if k == "in":
        kw.update(initial_material=case["m"], initial_direction=case["dir"])
    launches = [o] if o is not None else [at(a * L[0], c * L[1], **kw) for a, c in
                                          ([(0.13, 0.37), (0.62, 0.21), (0.41, 0.83)] if common.TIER == "quick" else
                                           [(0.13, 0.37), (0.62, 0.21), (0.41, 0.83), (0.93, 0.11), (0.52, 0.47)])]
    for o in launches:
        ex = Explorer(eps=eps, max_paths=4000 if common.TIER == "quick" else 60000, **exk)
        mR = mT = 0
        mA = 0
        for q, lg, r in ex.explore(lambda: (copy.deepcopy(st) if "rand" in case["s"] else st).calculate(o)):
            res.execs += 1
            invariants(res, r, o, nl, nint, clear, n, tag, nw)
            if single:
                mR += q * float(np.real(r["R"][0]))
                mT += q * float(np.real(r["T"][0]))
                v = real_outcome_totals(r)
                mA = mA + q * v
                tab = single[0]
                lo = hi = 0.0
                known = True
                for t, p, a, i in zip(np.real(r["thetas"][0]), np.real(r["phis"][0]), r["n_passes"][0], r["n_interactions"][0]):
                    if np.isnan(t):
                        continue
                    I = tab.get((round(float(t), 7), round(float(p), 7), int(a), int(i)))
                    if I is None:
                        known = False
                        break
                    lo, hi = lo + min(I) / n, hi + max(I) / n
                if known:
                    res.traces += 1
                    s = float(np.real(r["R"][0] + r["T"][0]))
                    res.check(lo - 1e-8 <= s <= hi + 1e-8, "power leaving %.8f does not belong to the rays that left "
                              "(%.8f..%.8f)" % (s, lo, hi), tag)
        res.transitions += ex.branches
        res.check(abs(ex.mass + ex.pruned - 1) < 1e-9, "decision probabilities do not add up", tag, m=ex.mass, p=ex.pruned)
        if ex.capped:
            res.notes["capped_by_paths"] = res.notes.get("capped_by_paths", 0) + 1
        res.notes["max_pruned"] = max(res.notes.get("max_pruned", 0), ex.pruned)
        if single:
            sl = ex.pruned + single[4] + 1e-9
            _, ER, ET, EA, _ = single
            if len(launches[0]["x_limits"]):
                res.check(abs(mR - ER) <= sl and abs(mT - ET) <= sl and (abs(mA - EA) <= sl).all(),
                          "the mean over a batch differs from the mean over its single rays", tag, mR=mR, ER=ER, mT=mT,
                          ET=ET, mA=mA, EA=EA, slack=sl)
    res.states = len(res.outcomes)
    res.traces += res.execs
    return res


def real_outcome_totals(r):
    A = np.real(np.asarray(r["A_per_layer"])[0])
    Ai = []
    if isinstance(r["A_per_interface"], list):
        for a in r["A_per_interface"]:
            Ai += list(np.real(np.asarray(a)).ravel())
    return np.concatenate([A, Ai])


if __name__ == "__main__":
    common.main(sys.modules[__name__])
