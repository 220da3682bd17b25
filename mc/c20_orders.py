"""C20: directions and grouping of diffraction orders.  All lattices of a family x incidence x media x orders; directions are
compared with the grating equation, groups with exact rational arithmetic on the lattice's metric."""
import sys, itertools, types
from fractions import Fraction as Fr
import numpy as np
import common
import planar as pl

PROPERTY = "C20"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of lattices, incidence directions, media, order sets and their permutations, each executed on the "
             "real code and compared with a reference model (grating equation; grouping in exact rational arithmetic), the model's "
             "in-plane momenta being validated against those of the Fourier modal solver")
RULE = "distinct (lattice, incidence, media, orders) or (lattice, set and order of the diffraction orders) compared order by order"
ASSUMPTIONS = ["S4 is not installed: its reciprocal lattice is replaced by an independent one (without the factor 2 pi, as documented)",
               "azimuth measured from the x axis and folded into the symmetry interval",
               "in-plane momenta differ by more than the documented rounding unless they are equal"]

# lattices with a rational metric: (name, a1.a1, a1.a2, a2.a2) (nm^2) and vectors
H3 = np.sqrt(3) / 2
LATS = {}


def lat(name, a1, a2, g):
    LATS[name] = ((tuple(a1), tuple(a2)), tuple(Fr(x) for x in g))


for p in (400, 1000):
    lat("square%d" % p, (p, 0), (0, p), (p * p, 0, p * p))
lat("squareturn", (300, 400), (-400, 300), (250000, 0, 250000))
lat("squareneg", (0, 500), (500, 0), (250000, 0, 250000))
lat("rect", (400, 0), (0, 600), (160000, 0, 360000))
lat("rect2", (300, 0), (0, 600), (90000, 0, 360000))
lat("rect345", (300, 0), (0, 400), (90000, 0, 160000))
lat("near", (500, 0), (0, 501), (250000, 0, 251001))
lat("hex", (500, 0), (250, 500 * H3), (250000, 125000, 250000))
lat("hex120", (500, 0), (-250, 500 * H3), (250000, -125000, 250000))
lat("hexvert", (500 * H3, 250), (0, 500), (250000, 125000, 250000))
lat("hexscaled", (700, 0), (350, 700 * H3), (490000, 245000, 490000))
lat("oblique", (500, 0), (100, 400), (250000, 50000, 170000))
lat("rhombic", (300, 400), (300, -400), (250000, -70000, 250000))
lat("big", (12000, 0), (0, 9000), (144000000, 0, 81000000))

MED = ["aa", "ah", "qs", "hq", "ax"]
TH = [0.0, 0.2, 0.6, 1.2]
PH = [0.0, 0.3, np.pi / 4, 2.0, 3.5, 5.5]
SYMS = [2 * np.pi, np.pi, np.pi / 2, np.pi / 4]


def cases(tier):
    cs = [dict(kind="dir", lat=k, th=t) for k in LATS for t in TH]
    cs += [dict(kind="group", lat=k) for k in LATS]
    cs += [dict(kind="solver", lat=k) for k in LATS if k != "big"]
    # fine values of one parameter at a time
    cs += [dict(kind="fine", lat=k, par=p) for k in ("square400", "rect", "hex", "oblique", "rhombic") for p in ("th", "ph", "wl", "orders", "scale", "index")]
    return cs


def variants(case, tier):
    """(label, lattice, wavelengths, indices, theta, phi, orders, sym)"""
    size, p, f = np.array(LATS[case["lat"]][0], float), case["par"], 1 if tier == "quick" else 5
    w, m = np.array([633.0]), (1.0, 1.5)
    if p == "th":
        for t in np.linspace(0, 1.57, 80 * f):
            yield t, size, w, m, t, 0.4 + t, 2, SYMS[int(t * 50) % 4]
    elif p == "ph":
        for t in np.linspace(0, 2 * np.pi, 97 * f):
            yield t, size, w, m, 0.5, t, 2, SYMS[int(t * 50) % 4]
    elif p == "wl":
        for n in list(range(1, 26)) + [40, 81]:
            yield n, size, np.linspace(300.0, 1900.0, n) if n > 1 else np.array([300.0]), m, 0.3, 0.9, 1, np.pi / 2
        for x in np.logspace(2, 4.5, 40 * f):
            yield "%.6g nm" % x, size, np.array([x]), m, 0.3, 0.9, 2, np.pi
    elif p == "orders":
        for n in range(0, 16):
            yield n, size, np.array([500.0, 900.0]), m, 0.3, 5.2, n, np.pi / 2
    elif p == "scale":
        for x in np.logspace(-1.5, 2.5, 40 * f):
            yield x, size * x, w, m, 0.25, 2.6, 3, 2 * np.pi
    else:
        for a in (1.0, 1.2, 1.5, 2.4, 3.6, 5.0):
            for b in (1.0, 1.01, 1.33, 1.8, 2.9, 4.4):
                for t in (0.1, 0.7, 1.3):
                    yield "%g %g %g" % (a, b, t), size, w, (a, b), t, 0.9, 2, np.pi / 4


def check_fine(res, case):
    from rayflare.analytic.diffraction import get_order_directions
    import common
    stub()
    for label, size, w, (ni, nt), th, phi, M, sym in variants(case, common.TIER):
        G = recip(size)
        sig = "%s fine %s=%s" % (case["lat"], case["par"], label)
        r = get_order_directions(w, tuple(tuple(float(x) for x in q) for q in size), M, ni, nt, float(th), float(phi), sym)
        res.execs += 1
        res.traces += 1
        res.seen(sig)
        m1, m2 = (np.asarray(x).ravel() for x in r["order_index"])
        n = (2 * M + 1) ** 2
        if not res.check(sorted(zip(m1, m2)) == sorted(itertools.product(range(-M, M + 1), repeat=2)) and
                         all(np.shape(r[k]) == (len(w), n) for k in ("phi", "theta_r", "theta_t", "fr_x", "fr_y")) and np.shape(r["k_xy"]) == (n,), "orders or shapes", sig):
            continue
        g = np.outer(m1, G[0]) + np.outer(m2, G[1])
        res.check(np.allclose(r["k_xy"], 2 * np.pi * np.hypot(g[:, 0], g[:, 1]), rtol=1e-9, atol=1e-13), "in-plane momentum of the orders", sig)
        fx = ni * np.sin(th) * np.cos(phi) / w[:, None] + g[:, 0]
        fy = ni * np.sin(th) * np.sin(phi) / w[:, None] + g[:, 1]
        res.states += fx.size
        res.transitions += fx.size
        res.check(np.allclose(r["fr_x"], fx, rtol=1e-9, atol=1e-13) and np.allclose(r["fr_y"], fy, rtol=1e-9, atol=1e-13), "in-plane momentum is not conserved", sig)
        f = np.hypot(fx, fy)
        d = (np.asarray(r["phi"]) - np.arctan2(fy, fx)) / sym
        res.check(((np.abs(d - np.round(d)) < 1e-6) | (f * w[:, None] < 1e-7)).all() and (r["phi"] >= -1e-12).all() and (r["phi"] <= sym + 1e-9).all(),
                  "azimuth of an order", sig)
        for key, nn in (("theta_r", ni), ("theta_t", nt)):
            s = f * w[:, None] / nn
            want = np.where(s < 1, np.arcsin(np.minimum(s, 1)), np.pi / 2)
            want = want if key == "theta_r" else np.pi - want
            got = np.asarray(r[key])
            res.check((np.abs(got - want) < 1e-6 + np.where(np.abs(s - 1) < 1e-3, 0.05, 0)).all(), "polar angle of an order (%s)" %
                      ("reflection" if key == "theta_r" else "transmission"), sig, worst=np.abs(got - want).max())


def recip(size):
    a = np.array(size, float)
    d = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    return np.array([[a[1, 1], -a[1, 0]], [-a[0, 1], a[0, 0]]]) / d


def stub():
    import rayflare.rigorous_coupled_wave_analysis.rcwa as m

    class Sim:
        def __init__(self, size):
            self.size = size

        def GetReciprocalLattice(self):
            return tuple(tuple(float(x) for x in r) for r in recip(self.size))
    m.S4 = types.SimpleNamespace(New=lambda size, orders, *a, **k: Sim(size), NewSimulation=lambda size, orders, *a, **k: Sim(size))


def media(code, w, form):
    if form == "material":
        return pl.MATS[code]
    v = np.array([pl.nk(code, x * 1e-9) for x in w])
    if form == "array":
        return v
    if form == "list":
        return [complex(x) for x in v]
    if form == "real":
        return float(v[0].real)
    if form == "complex":
        return complex(v[0])
    raise ValueError(form)


def check_dir(res, case):
    from rayflare.analytic.diffraction import get_order_directions
    stub()
    size, _ = LATS[case["lat"]]
    G = recip(size)
    th = case["th"]
    for md in MED:
        for w in (np.array([900.0]), np.array([450.0, 600.0, 1100.0])):
            for fi, ft in (("material", "material"), ("array", "list"), ("real", "complex"), ("list", "real"), ("complex", "array")):
                if "real" in (fi, ft) and pl.nk(md[0 if fi == "real" else 1], 6e-7).imag:
                    continue
                inc, trn = media(md[0], w, fi), media(md[1], w, ft)
                ni = np.array([pl.nk(md[0], (w[0] if fi in ("real", "complex") else x) * 1e-9) for x in w])
                nt = np.array([pl.nk(md[1], (w[0] if ft in ("real", "complex") else x) * 1e-9) for x in w])
                for phi in PH:
                    for sym in SYMS:
                        for M in (0, 1, 3):
                            if M != 1 and (sym != SYMS[2] or fi != "material"):
                                continue
                            sig = "%s %s/%s(%s,%s) th=%g phi=%.4g sym=%.4g orders<=%d wl=%d" % (case["lat"], md[0], md[1], fi, ft, th, phi, sym, M, len(w))
                            r = get_order_directions(w, size, M, inc, trn, th, phi, *(() if sym == SYMS[2] and len(w) == 3 else (sym,)))   # default: pi/2
                            res.execs += 1
                            res.traces += 1
                            res.seen(sig)
                            m1, m2 = (np.asarray(x).ravel() for x in r["order_index"])
                            n = (2 * M + 1) ** 2
                            ok = res.check(sorted(zip(m1, m2)) == sorted(itertools.product(range(-M, M + 1), repeat=2)), "set of orders", sig) and \
                                res.check(all(np.shape(r[k]) == (len(w), n) for k in ("phi", "theta_r", "theta_t", "fr_x", "fr_y")) and
                                          np.shape(r["k_xy"]) == (n,), "shapes", sig)
                            if not ok:
                                continue
                            g = np.outer(m1, G[0]) + np.outer(m2, G[1])
                            res.check(np.allclose(r["k_xy"], 2 * np.pi * np.hypot(g[:, 0], g[:, 1]), rtol=1e-9, atol=1e-12), "in-plane momentum of the orders",
                                      sig, got=r["k_xy"], want=2 * np.pi * np.hypot(g[:, 0], g[:, 1]))
                            for i, x in enumerate(w):
                                fx = ni[i].real * np.sin(th) * np.cos(phi) / x + g[:, 0]
                                fy = ni[i].real * np.sin(th) * np.sin(phi) / x + g[:, 1]
                                sg = sig + " at %g" % x
                                res.transitions += n
                                res.states += n
                                res.check(np.allclose(r["fr_x"][i], fx, rtol=1e-9, atol=1e-13) and np.allclose(r["fr_y"][i], fy, rtol=1e-9, atol=1e-13),
                                          "in-plane momentum is not conserved", sg, got=[r["fr_x"][i], r["fr_y"][i]], want=[fx, fy])
                                f = np.hypot(fx, fy)
                                d = (np.asarray(r["phi"][i]) - np.arctan2(fy, fx)) / sym
                                res.check(((np.abs(d - np.round(d)) < 1e-6) | (f * x < 1e-7)).all() and (r["phi"][i] >= -1e-12).all() and
                                          (r["phi"][i] <= sym + 1e-9).all(), "azimuth of an order", sg, got=r["phi"][i], want=np.arctan2(fy, fx) % sym)
                                for key, nn in (("theta_r", ni[i]), ("theta_t", nt[i])):
                                    s = f * x / nn.real
                                    want = np.where(s < 1, np.arcsin(np.minimum(s, 1)), np.pi / 2)
                                    got = np.asarray(r[key][i])
                                    if key == "theta_t":
                                        want = np.pi - want
                                    # absorbing medium: to first order in k/n; near grazing: square-root sensitivity
                                    l = nn.imag / nn.real
                                    tol = 1e-6 + np.where(np.abs(s - 1) < 1e-3, 0.05, 0) + (0 if l == 0 else 3 * l * (1 + s / np.sqrt(np.maximum(np.abs(s * s - 1), l))))
                                    res.check((np.abs(got - want) < tol).all(), "polar angle of an order (%s)" % ("reflection" if key == "theta_r" else
                                              "transmission"), sg, got=got, want=want)


def norm2(g, m, n):
    """|m b1 + n b2|^2 / (2 pi)^2 from the metric of the lattice"""
    a, b, c = g
    det = a * c - b * b
    return (m * m * c - 2 * m * n * b + n * n * a) / det


def check_group(res, case, tier):
    from rayflare.analytic.diffraction import group_diffraction_orders
    size, g = LATS[case["lat"]]
    sq = [[m, n] for m in range(-2, 3) for n in range(-2, 3)]
    sets = {"one": [[0, 0]], "pair": [[0, 0], [1, 0]], "opp": [[1, 0], [-1, 0]], "cross": [[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]],
            "diag": [[1, 1], [-1, -1], [1, -1], [-1, 1], [0, 0]], "3x3": [[m, n] for m in (-1, 0, 1) for n in (-1, 0, 1)], "5x5": sq,
            "sorted": sorted(sq, key=lambda x: norm2(g, *x)), "half": [x for x in sq if x[0] >= 0], "far": [[5, 0], [3, 4], [4, 3], [0, 5], [-3, 4], [7, 1], [5, 5]],
            "13x13": [[m, n] for m in range(-6, 7) for n in range(-6, 7)],
            "31x31": [[m, n] for m in range(-15, 16) for n in range(-15, 16)], "line": [[m, 0] for m in range(-40, 41)]}
    for name, B in sets.items():
        if len(B) <= 5:
            perms = [list(p) for p in itertools.permutations(B)]
        else:
            perms = [B, B[::-1], B[1::2] + B[::2], B[len(B) // 3:] + B[:len(B) // 3]]
        for ip, b in enumerate(perms):
            keys = [norm2(g, *x) for x in b]
            uniq = sorted(set(keys))
            k = 2 * np.pi * np.sqrt([float(x) for x in uniq])
            for form in ("list", "tuple") if len(b) < 200 else ("list",):
                for nw in (0, 1, 3):
                    for same in ((False, True) if nw else (False,)):
                        bb = b if form == "list" else tuple(tuple(x) for x in b)
                        sig = "%s %s #%d %s powers for %d wavelengths%s" % (case["lat"], name, ip, form, nw, " equal" if same else "")
                        i = np.arange(len(b))
                        # distinct powers: no two subsets of a group can be confused; "equal": symmetric powers in a group at the first wavelength
                        P = np.array([[(0.01 * (1 + w) + 1e-3 * ((7 * j * j + 3 * j + 5 * w) % 101)) for j in i] for w in range(nw)]).reshape(nw, len(b))
                        if same:
                            P[0] = [0.01 + 0.002 * (uniq.index(x) % 7) for x in keys]
                        P0 = P.copy()
                        r = group_diffraction_orders(size, bb, P if nw else None)
                        res.execs += 1
                        res.traces += 1
                        res.seen(sig)
                        res.states += len(b)
                        res.transitions += len(b) * max(nw, 1)
                        res.check(np.array_equal(P, P0), "the powers passed in were changed", sig)
                        if not res.check(np.shape(r["k_xy"]) == (len(uniq),) and np.allclose(r["k_xy"], k, rtol=1e-6, atol=2e-10), "in-plane momenta of the groups", sig,
                                         got=r["k_xy"], want=k):
                            continue
                        res.check(list(r["reps"]) == [keys.count(x) for x in uniq], "number of orders per group", sig, got=r["reps"],
                                  want=[keys.count(x) for x in uniq])
                        if nw:
                            e = np.array([[sum(P[w, j] for j in i if keys[j] == x) for x in uniq] for w in range(nw)])
                            res.check(np.shape(r["per_order"]) == e.shape and np.allclose(r["per_order"], e, atol=1e-12), "power of a group is not the sum of its orders", sig,
                                      got=r["per_order"], want=e)
                            d = [len(set(round(P[0, j], 8) for j in i if keys[j] == x)) for x in uniq]
                            res.check(list(r["degeneracy"]) == d, "number of different powers in a group", sig, got=r["degeneracy"], want=d)
                        else:
                            res.check("per_order" not in r, "powers without powers", sig)


def check_solver(res, case):
    """conformance of the model: in-plane momenta of the orders of the Fourier modal solver"""
    from inkstone import Inkstone
    size, g = LATS[case["lat"]]
    G = recip(size)
    for th, phi in itertools.product((0.0, 0.4), (0.0, 0.7, 4.0)):
        S = Inkstone(size, 9)
        S.AddMaterial("A", 2.25)
        S.AddLayer("t", 0, "A")
        S.AddLayer("m", 30.0, "vacuum")
        S.AddLayer("b", 0, "A")
        S.SetExcitation(th * 180 / np.pi, phi * 180 / np.pi, 1, 0)
        S.SetFrequency(1 / 700.0)
        S.GetPowerFlux("t")
        k = np.real(np.array(S.pr.ks)) / (2 * np.pi)
        base = 1.5 * np.sin(th) / 700 * np.array([np.cos(phi), np.sin(phi)])
        mn = np.linalg.solve(G.T, (k - base).T).T
        res.execs += 1
        res.traces += 1
        res.states += len(k)
        res.transitions += len(k)
        res.seen("solver %s %g %g" % (case["lat"], th, phi))
        res.check(np.allclose(mn, np.round(mn), atol=1e-6) and len(set(map(tuple, np.round(mn).astype(int)))) == len(k),
                  "the solver's orders are not those of the model", "%s %g %g" % (case["lat"], th, phi), got=mn)


def run_case(case):
    res = common.Result()
    if case["kind"] == "dir":
        check_dir(res, case)
    elif case["kind"] == "fine":
        check_fine(res, case)
    elif case["kind"] == "group":
        check_group(res, case, None)
    else:
        check_solver(res, case)
    return res


if __name__ == "__main__":
    common.main(sys.modules[__name__])
