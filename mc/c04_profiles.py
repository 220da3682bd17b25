"""C04: depth profiles of ray-traced structures.  Every decision path of a ray is enumerated on the real tracer; on
each path the reported bulk profile is compared with the exponentials deposited by the passes of the matching
reference path, its integral per layer with the reported absorption, and interface profiles with the absorption and
the planar-stack profile of the absorbing event."""
import sys, math
import numpy as np
import common
from rtlib import *
import tmm as tmmlib

PROPERTY = "C04"
LEVEL = "model_checking"
RULE = ("distinct (structure, depth grid, direction, path outcome) whose profile was compared with the deposit of the "
        "reference path and integrated per layer")
ASSUMPTIONS = ["depth spacings that do not divide layer widths (on exact multiples rounding decides which layer a grid point belongs to)",
               "layers holding fewer than two grid points have no integral and are skipped",
               "shape compared within 5% (8% in the fine scans) (the tracer deposits on the depth grid); integrals within 1e-6"]
P55, P55i, PL = ["pyr", 55, True], ["pyr", 55, False], ["planar"]
ABS = [(3.0, 0.3, 40.0), (1.6, 0.02, 120.0), (2.0, 0.1, 70.0)]
MET = [(0.6, 4.0, 25.0)]
SC = {
    "b1": dict(surfs=[PL, PL], layers=[(2.2, 0.05, 20)], n_out=1.5),
    "b2": dict(surfs=[PL, PL, PL], layers=[(1.5, 0.02, 5.3), (3.0, 0.2, 10.5)], n_out=1.0),
    "b3": dict(surfs=[P55, PL, PL, PL], layers=[(1.5, 0.0, 3), (2.5, 0.1, 6.4), (1.8, 0.05, 4)], n_out=2.0),
    "bt": dict(surfs=[P55, ["pyr", 40, False]], layers=[(3.0, 0.05, 12)], n_out=1.0),
    "bv": dict(surfs=[["vg", 50, "y"], PL], layers=[(3.0, 0.4, 9)], n_out=1.0),
    "f0": dict(surfs=[PL], layers=[], n_out=1.5, sheets={0: dict(layers=ABS, prof=[1, 2, 3])}),
    "f1": dict(surfs=[PL, PL], layers=[(2.5, 0.03, 15)], n_out=1.0, sheets={0: dict(layers=ABS, prof=[1, 3])}),
    "f2": dict(surfs=[PL, PL], layers=[(2.5, 0.03, 15)], n_out=1.0,
               sheets={0: dict(layers=ABS, prof=[2]), 1: dict(layers=MET + ABS, prof=[1, 2, 4])}),
    "f3": dict(surfs=[P55, PL], layers=[(2.5, 0.03, 15)], n_out=1.0,
               sheets={0: dict(layers=ABS, prof=[1, 2, 3]), 1: dict(layers=MET)}),
    "f4": dict(surfs=[PL, PL, PL], layers=[(2.5, 0.03, 5), (1.5, .01, 7)], n_out=1.0,
               sheets={1: dict(layers=ABS, prof=[1])}),
    # weakly absorbing layers: the absorption of an event is large (all of the ray), that of the planar stack is not
    "fw": dict(surfs=[PL, PL], layers=[(2.5, 0.3, 15)], n_out=1.0, sheets={0: dict(layers=[(2.0, 2e-4, 60.0)], prof=[1])}),
    "fx": dict(surfs=[PL, PL], layers=[(2.5, 0.3, 15)], n_out=1.5,
               sheets={0: dict(layers=[(1.8, 0.0, 30.0), (2.0, 1e-4, 60.0), (1.6, 2e-3, 40.0)], prof=[2])}),
}
WEAK = {"fw": 3e-5, "fx": 3e-5}
EPS = 2e-4 if common.TIER == "quick" else 1e-5


def cases(tier):
    cs = []
    for s in SC:
        for th, ph in [(0.0, 0.0), (0.5, 0.8), (0.9, 2.3)]:
            for dz in ([0.0913, 0.23, 0.97] if s[0] == "b" else [0.4713]):
                for pol in ("u", "s") if s[0] == "f" else ("u",):
                    cs.append(dict(s=s, th=th, ph=ph, dz=dz, di=0.831, pol=pol, m=0, dir=1))
    for s in ("b2", "b3", "f1", "f2", "f4", "f3", "fw", "fx"):
        for m in range(1, len(SC[s]["layers"]) + 1):
            for dr in (1, -1):
                cs.append(dict(s=s, th=0.4, ph=0.8, dz=0.197, di=0.631 if s[0] == "f" else 0.831, pol="u" if dr == 1 else "p",
                               m=m, dir=dr))
    for dz in (0.513, 0.371):
        cs.append(dict(s="b2", th=0.3, ph=0.8, dz=dz, di=0.831, pol="u", m=0, dir=1, multi=True))
    # fine values of one parameter at a time
    for par in ("dz", "width", "alpha", "th", "layers", "mult"):
        cs.append(dict(s="b1", sweep=par, pol="u", m=0, dir=1, _w=6))
    for par in ("di", "dlayer", "kappa", "th", "nlayers"):
        cs.append(dict(s="f0", sweep=par, pol="u", m=0, dir=1, _w=6))
        cs.append(dict(s="f1", sweep=par, pol="sp"[len(par) % 2], m=0, dir=1, _w=9))
    if tier != "quick":
        cs = cs + [dict(c, th=round(c["th"] + 0.13, 3), dz=round(c["dz"] * 0.717, 5)) for c in cs if not c.get("multi") and "sweep" not in c]
    return cs


def expected(passes, sc, z):
    """profile (1/um) deposited by the passes of a path on the grid z"""
    cw = np.cumsum([0] + sc.widths)
    out = np.zeros(len(z))
    for m, I, c, up in passes:
        n, al, w = sc.layers[m - 1]
        k = (z >= cw[m - 1]) & (z < cw[m])
        dist = (cw[m] - z[k]) if up else (z[k] - cw[m - 1])
        out[k] += I * al / c * np.exp(-al * dist / c)
    return out


def variants(case):
    """(label, changes to the case, scene) along one parameter"""
    base, p, f = SC[case["s"]], case["sweep"], 1 if common.TIER == "quick" else 4
    d = dict(th=0.35, ph=1.1, dz=0.0973, di=0.831)
    if p == "dz":
        for v in np.logspace(-2.3, 0.6, 22 * f) * 0.9917:
            yield v, dict(d, dz=round(float(v), 5)), base
    elif p == "width":
        for v in np.logspace(-1, 3.3, 16 * f) * 1.017:
            yield v, dict(d, dz=round(float(v) * 0.00717, 6)), dict(base, layers=[(2.2, 1.0 / v, float(v))])
    elif p == "alpha":
        for v in np.logspace(-4, 1.3, 16 * f):
            yield v, dict(d, dz=0.0131), dict(base, layers=[(2.2, float(v), 5.03)])
    elif p == "mult":                                 # more grid points than any fixed number
        for n in (3, 9, 31, 99, 255, 256, 257, 512, 999, 1001, 2047, 5001):
            yield n, dict(d, dz=20 / (n - 0.37)), base
    elif p == "layers":
        for n in range(1, 8):
            yield n, dict(d, dz=0.0413), dict(base, surfs=[PL] * (n + 1),
                                              layers=[(1.5 + 0.4 * ((3 * i) % 5), [0.05, 0.2, 0.01][i % 3], 1.53 + 0.71 * ((2 * i) % 5)) for i in range(n)])
    elif p == "th":
        for v in np.linspace(0.005, 1.5, 20 * f):
            yield v, dict(d, th=round(float(v), 4), ph=round(float(4 * v), 3), dz=0.313), base
    else:
        L = base["sheets"][0]["layers"]
        sh = lambda q, pr: dict(base, sheets={0: dict(layers=q, prof=pr)})
        if p == "di":
            for v in np.logspace(-0.8, 0.3, 16 * f) * 1.0131:
                yield v, dict(d, dz=0.97, di=round(float(v), 5)), base
        elif p == "dlayer":
            for v in np.logspace(0.5, 2.4, 14 * f) * 1.0131:
                yield v, dict(d, dz=0.97, di=round(float(v) * 0.0127, 6)), sh([(2.1, 0.1, float(v))], [1])
        elif p == "kappa":
            for v in np.logspace(-2.5, 0.6, 14 * f):
                yield v, dict(d, dz=0.97, di=0.1731), sh([L[2], (2.4, float(v), 35.0)], [2])
        elif p == "nlayers":
            for n in range(1, 8):
                q = [(1.6 + 0.35 * ((3 * i) % 5), [0.1, 0.02, 0.3][i % 3], 20.0 + 13 * ((2 * i) % 5)) for i in range(n)]
                yield n, dict(d, dz=0.97, di=0.2731), sh(q, list(range(1, n + 1)) if n % 2 else list(range(2, n + 1)))


def run_case(case):
    res = common.Result()
    if "sweep" in case:
        for label, c, spec in variants(case):
            one(res, dict(case, **c, label="%s=%.6g " % (case["sweep"], label)), spec)
    else:
        one(res, case, SC[case["s"]])
    return res


def one(res, case, spec):
    sc = Scene(**spec)
    m, dr = case["m"], case["dir"]
    It = 5e-3
    kw = dict(theta_in=case["th"], phi_in=case["ph"], pol=case["pol"], I_thresh=It, lookuptable_angles=150,
              depth_spacing_bulk=case["dz"] * 1e-6, depth_spacing=case["di"] * 1e-9)
    sc.n_tab = 150
    if m:
        kw.update(initial_material=m, initial_direction=dr)
    st = sc.real()
    cw = np.cumsum([0] + sc.widths)
    z = np.arange(0, cw[-1], case["dz"]) if sc.widths else np.zeros(0)
    x, y = 0.37, 0.81
    if case.get("multi"):
        o = opts(nx=2, ny=1, n_rays=4, **{k: v for k, v in kw.items()})
    else:
        o = at(x, y, **kw)
    p, d = sc.launch(x, y, case["th"], case["ph"], m, dr)
    exp = []
    if not case.get("multi"):
        try:
            exp = [(vec(e, sc.sheets), e) for e in sc.ref(case["pol"], It, eps=EPS / 30).run(p, d, m)
                   if e["kind"] != "pruned"]
        except Degenerate:
            res.notes["degenerate_skipped"] = 1
            return
        V = np.array([v for v, _ in exp])
    tag = case.get("label", "") + "%s th=%s dz=%s m=%s dir=%s" % (case["s"], case["th"], case["dz"], m, dr)
    ex = Explorer(eps=3e-3 if "sweep" in case and sc.widths else min(EPS, WEAK.get(case["s"], 1)) if not case.get("multi") else 2e-3)
    for q, lg, r in ex.explore(lambda: st.calculate(o)):
        res.execs += 1
        prof = np.real(np.asarray(r["profile"])[0])
        A = np.real(np.asarray(r["A_per_layer"])[0])
        res.check(len(prof) == len(z) or not sc.widths, "profile has %d points, grid has %d" % (len(prof), len(z)), tag)
        res.check((prof >= 0).all() and np.isfinite(prof).all(), "negative or undefined bulk profile", tag)
        res.seen(tag, np.round(prof[:: max(1, len(prof) // 7)], 7).tolist(), np.round(A, 6).tolist())
        for i in range(len(sc.widths)):
            k = (z >= cw[i]) & (z < cw[i + 1])
            if k.sum() < 2:
                continue
            integ = np.trapezoid(prof[k] * 1e3, z[k])
            res.check(abs(integ - A[i]) < 1e-6, "profile of layer %d integrates to %.8f, absorbed %.8f" % (i + 1, integ, A[i]), tag)
        if case.get("multi"):
            continue
        # the reference path
        v = vec(real_outcome(r))
        mt = np.where((np.abs(V - v) <= 1e-5 * (1 + np.abs(v))).all(1))[0]
        if len(mt) == 0:
            res.notes["unmatched"] = res.notes.get("unmatched", 0) + 1
            continue
        res.traces += 1
        if len(z):
            best = None
            for j in mt:
                w_ = expected(exp[j][1]["passes"], sc, z) / 1e3
                # the tracer rescales each deposit to the exact absorbed power on the grid
                e = 0.0
                for i, (n_, al, wd) in enumerate(sc.layers):
                    k = (z >= cw[i]) & (z < cw[i + 1])
                    if k.any():
                        tol = (0.01 + 4.5 * al * case["dz"] + 1.5 * case["dz"] / wd) * w_[k].max() + 1e-12
                        e = max(e, np.max(np.abs(prof - w_)[k]) / tol)
                best = e if best is None else min(best, e)
            res.check(best <= 1, "bulk profile differs from the exponential deposits of the path (%.2f of the tolerance)"
                      % best, tag)
        interfaces(res, case, sc, r, exp, mt, tag, o)
    res.transitions += ex.branches
    res.states = len(res.outcomes)


def interfaces(res, case, sc, r, exp, mt, tag, o):
    if not sc.sheets:
        return
    ns = [complex(sc.n_in)] + [complex(n, kfor(al, WL)) for n, al, w in sc.layers] + [complex(sc.n_out)]
    for i, sh in sc.sheets.items():
        pl = sh.get("prof")
        got = r["interface_profiles"][i]
        Ai = np.real(np.asarray(r["A_per_interface"][i]))[0]
        if not pl:
            res.check(len(got) == 0, "profile reported for an interface without profiling", tag)
            continue
        di = case["di"]
        grids = [np.arange(0, L[2], di) for L in sh["layers"]]
        npts = sum(len(grids[l - 1]) for l in pl)
        got = np.real(np.asarray(got))
        if got.size == 0 and Ai.sum() == 0:
            continue
        res.check(got.shape == (1, npts), "interface profile has shape %s, expected %s" % (got.shape, (1, npts)), tag)
        got = got[0]
        res.check((got >= -1e-9).all() and np.isfinite(got).all(), "negative or undefined interface profile", tag)
        want = Ai[np.array(pl) - 1].sum()
        o0, parts = 0, []
        for l in pl:
            k = len(grids[l - 1])
            parts.append(got[o0:o0 + k])
            o0 += k
        tot = np.trapezoid(got, dx=di)                  # over the concatenated grid of the profiled layers
        res.check(abs(tot - want) < 1e-6 + 1e-6 * want, "interface profile integrates to %.8f, absorbed in the profiled "
                  "layers %.8f" % (tot, want), tag)
        ev = [exp[j][1] for j in mt if exp[j][1]["kind"] == "A" and exp[j][1]["surf"] == i]
        if not ev:
            continue
        for l, pr in zip(pl, parts):
            a = np.trapezoid(pr, dx=di)
            res.check(abs(a - Ai[l - 1]) < (0.07 if "sweep" not in case else 0.1) * max(Ai[l - 1], 0.02), "profile of interface layer %d integrates to "
                      "%.5f, absorbed %.5f" % (l, a, Ai[l - 1]), tag)
        # shape: the planar-stack profile at the local angle of the event
        e = ev[0]
        above, th, I = e["above"], e["th_loc"], e["I_abs"]
        n0, n1 = ns[i], ns[i + 1]
        L = sh["layers"] if above else sh["layers"][::-1]
        nn = [(n0 if above else n1).real] + [complex(a, b) for a, b, c in L] + [n1 if above else n0]
        dd = [np.inf] + [c for a, b, c in L] + [np.inf]
        shape = {}
        for pol in ("s", "p") if case["pol"] == "u" else (case["pol"],):
            dat = tmmlib.coh_tmm(pol, nn, dd, th, WL * 1e9)
            for l in pl:
                idx = l if above else len(L) + 1 - l
                w_ = sh["layers"][l - 1][2]
                zz = grids[l - 1] if above else w_ - grids[l - 1]
                shape.setdefault(l, []).append([tmmlib.position_resolved(idx, zi, dat)["absor"] for zi in zz])
        allw = np.concatenate([np.mean(shape[l], axis=0) for l in pl])
        if nn[0].real * math.sin(th + 0.05) > nn[-1].real:
            continue              # total reflection: see the known finding of C12; near its onset the table is too coarse
        integ = sum(np.trapezoid(np.mean(shape[l], axis=0), dx=di) for l in pl)
        allw = allw * want / integ
        err = np.max(np.abs(got - allw)) / np.max(allw)
        res.notes["max_interface_shape_error"] = max(res.notes.get("max_interface_shape_error", 0), err)
        res.check(err < (0.05 if "sweep" not in case else 0.08), "interface profile differs from the planar-stack profile at the local angle by %.1f%%"
                  % (100 * err), tag, th_loc=th, above=above)


if __name__ == "__main__":
    common.main(sys.modules[__name__])
