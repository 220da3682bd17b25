"""C07: ray-traced redistribution matrices.  All decision sequences of the rays that fill a matrix are enumerated on the
real code; on every one of them the matrix has to account for every ray, and the exact expectation of the matrix over all
decisions is compared with an independent tracer and an independent binning."""
import sys, math, itertools, os
import numpy as np
import common
from rtlib import *
from bins import Bins, SYM, find_dir

PROPERTY = "C07"
LEVEL = "model_checking"
TECHNIQUE = ("stateless model checking of the real ray tracer: all random decisions enumerated with exact probabilities, every "
             "matrix checked on every path and its exact expectation compared with a reference tracer")
RULE = "distinct (surface, side, layout, incidence, matrix) reached on some decision path of the real code"
ASSUMPTIONS = ["paths below the pruning threshold are only bounded in mass", "directions within 1e-7 of a bin edge may go to "
               "either neighbour", "positions within 1e-6 of a facet edge are skipped"]
EPS = 1e-3 if common.TIER == "quick" else 5e-5
P55, P55i, PL = ["pyr", 55, True], ["pyr", 55, False], ["planar"]
AR = [(1.38, 0.0, 90.0), (2.3, 0.02, 60.0)]
ABS = [(3.0, 0.3, 40.0), (1.6, 0.0, 120.0), (2.0, 0.1, 70.0)]
SC = {
    "pl": dict(surfs=[PL], n_out=2.5),
    "pld": dict(surfs=[PL], n_in=2.4, n_out=1.3),
    "up": dict(surfs=[P55], n_out=2.5),
    "inv": dict(surfs=[P55i], n_out=3.0),
    "off": dict(surfs=[["xyz", "off"]], n_out=1.8),
    "two": dict(surfs=[["xyz", "two"]], n_in=1.4, n_out=1.8),
    "vx": dict(surfs=[["vg", 35, "x"]], n_out=2.0),
    "spl": dict(surfs=[PL], n_out=2.5, sheets={0: dict(layers=ABS)}),
    "sup": dict(surfs=[P55], n_out=2.2, sheets={0: dict(layers=ABS)}),
    "soff": dict(surfs=[["xyz", "off"]], n_in=1.5, n_out=2.2, sheets={0: dict(layers=AR)}),
}
for _f in (0.4, 1.7):                                         # heights drawn anew: lower and higher than before
    SC["dup%s" % _f] = dict(surfs=[["drawn", _f] + P55], n_out=2.5)
    SC["doff%s" % _f] = dict(surfs=[["drawn", _f, "xyz", "off"]], n_out=1.8)
LAY = [(4, "pi/2", 0.25), (10, "2pi", 1.0), (3, "pi/4", 1.0), (6, "pi", 0.5), (20, "2pi", 0.25)]
DIRS = [(0.0, 0.0), (0.35, 0.6), (0.35, 2.3), (0.6, 4.0), (1.0, 5.4), (0.6, -0.5)]
POS = [(0.13, 0.37), (0.62, 0.21)]


def cases(tier):
    cs = []
    for s in SC:
        for side in ("front", "rear"):
            if s[0] == "d":
                for th, ph in [(0.0, 0.0), (0.35, 2.3)] if s.endswith("0.4") else [(0.0, 0.0)]:
                    cs.append(dict(k="second", s=s, side=side, th=th, ph=ph, lay=(4, "2pi", 1.0), pol="u", _w=4))
                continue
            for k, (th, ph) in enumerate(DIRS if tier == "quick" else DIRS + [(0.8, 3.0), (1.2, 0.3), (0.15, 1.0)]):
                for q, lay in enumerate(LAY):
                    if tier == "quick" and (k + q) % 2 and s not in ("pl", "up", "spl"):
                        continue
                    cs.append(dict(k="inc", s=s, side=side, th=th, ph=ph, lay=lay, pol="usp"[(k + q) % 3], sp=["sin", "linear"][k % 2]))
    for s in ("pl", "pld", "spl"):
        for side in ("front", "rear"):
            for lay in [(1, "2pi", 1e-6), (1, "pi/2", 2.0), (2, "pi/2", 1e-6), (2, "2pi", 1.0), (3, "pi/4", 1e-6)]:
                cs.append(dict(k="full", s=s, side=side, lay=lay, nx=1, pol="u"))
    for s in ("up", "off", "sup", "two"):
        for side in ("front", "rear"):
            cs.append(dict(k="full", s=s, side=side, lay=(1, "2pi", 1e-6), nx=1, pol="s", _w=3))
            cs.append(dict(k="full", s=s, side=side, lay=(1, "pi/2", 2.0), nx=1, pol="u", _w=9))
    for s in ("pl", "spl", "up", "sup", "soff"):
        for side in ("front", "rear"):
            cs.append(dict(k="inc", s=s, side=side, th=0.35, ph=0.6, lay=(4, "pi/2", 0.25), pol="u", nx=2, sp="sin", _w=5))
    for s in ("pl", "spl"):
        for side in ("front", "rear"):
            cs.append(dict(k="all", s=s, side=side, th=0.7, ph="all", lay=(3, "2pi", 1.0), pol="u", sp="sin"))
            cs.append(dict(k="all", s=s, side=side, th=0.2, ph="all", lay=(4, "pi", 1.0), pol="p", sp="linear"))
            cs.append(dict(k="rand", s=s, side=side, lay=(2, "pi/2", 1.0), pol="u", _w=4))
            cs.append(dict(k="wl", s=s, side=side, th=0.6, ph=1.0, lay=(4, "pi/2", 0.25), pol="u"))
    # one argument at a time, finely
    q = tier == "quick"
    base = dict(k="inc", th=0.35, ph=0.6, lay=(6, "pi", 0.5), pol="u", sp="sin")
    for s in ("pl", "pld", "up", "two", "spl", "soff"):
        for side in ("front", "rear"):
            fine = lambda l, st=4: cs.append(dict(k="fine", s=s, side=side, list=[{**base, **d, "s": s, "side": side} for d in (l[::max(1, st // 2)] if q else l)], _w=5))
            # steps which avoid the edges of the bins
            fine([dict(th=0.0137 + 0.0217 * i) for i in range(62)], 3)
            fine([dict(ph=-6.1 + 0.171 * i, th=0.6) for i in range(75)], 4)
            fine([dict(lay=(n, "pi", 0.5), sp=sp) for n in range(1, 61, 3) for sp in ("sin", "linear")], 4)
            fine([dict(lay=(7, sy, c / 20)) for sy in SYM for c in range(1, 45, 3)], 7)
            fine([dict(xy=[0.1 + 0.0317 * i, 0.37]) for i in range(24)], 4)
            fine([dict(xy=[0.62, 0.1 + 0.0317 * i]) for i in range(24)], 4)
    for s in ("pl", "up", "off", "sup", "soff"):
        for side in ("front", "rear"):
            for lay, nx, ny in [((3, "pi/2", 0.5), 1, 1), ((2, "2pi", 1.0), 2, 3)] if q else [((5, "pi/2", 0.5), 1, 1), ((2, "2pi", 1.0), 2, 3), ((9, "pi", 0.25), 3, 1), ((3, "2pi", 1.0), 5, 4)]:
                cs.append(dict(k="many", s=s, side=side, lay=lay, nx=nx, ny=ny, pol="u", _w=3))
    return cs


WORDS = [[0], [1], [2], [0, 1], [1, 0, 0], [0, 0, 1], [0, 1, 1], [2, 0], [0, 2, 1], [3, 0, 1, 1]]


class One:
    """one textured interface, its matrices by the real code, and its reference seen from the chosen side"""

    def __init__(self, s, side, n_tab=40):
        self.sc = Scene(SC[s]["surfs"], [], n_in=SC[s].get("n_in", 1.0), n_out=SC[s]["n_out"], sheets=SC[s].get("sheets"), n_tab=n_tab)
        self.side = side
        self.tex = self.sc._tex(0)
        self.tmm = 0 in self.sc.sheets
        self.n_layers = len(self.sc.sheets[0]["layers"]) if self.tmm else 0
        self.dir = common.fresh_dir("rtm")
        from rayflare.structure import RTgroup
        self.group = RTgroup(textures=[self.tex])
        self.drawn = SC[s]["surfs"][0][0] == "drawn"
        if self.tmm:
            from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
            make_TMM_lookuptable(self.tex[0].interface_layers, Mat(self.sc.n_in), Mat(self.sc.n_out), "srf",
                                 opts(lookuptable_angles=n_tab), self.dir)
        g = geo(self.sc.surfs[0])
        ns = [complex(self.sc.n_in), complex(self.sc.n_out)]
        sh = sheet_ref(ns[0], self.sc.sheets[0]["layers"], ns[1], n_tab) if self.tmm else None
        V = g.V.copy()
        if side == "rear":
            V[:, 2] *= -1
            ns = ns[::-1]
            f = sh
            sh = None if f is None else (lambda above, th, pol: f(not above, th, pol))
        self.S = Surf(V, g.T, g.Lx, g.Ly, sheet=sh)
        self.ns = ns

    def run(self, o, only):
        from rayflare.ray_tracing.rt import RT
        if self.drawn:                                       # the height changes from ray to ray
            from rayflare.structure import RTgroup
            self.group = RTgroup(textures=[self.sc._tex(0)])
        r = RT(self.group, Mat(self.sc.n_in), Mat(self.sc.n_out), "srf", o, self.dir, 1 if self.tmm else 0, self.side,
               self.n_layers, None, only, None, save=False, overwrite=False)
        return np.asarray(r[0].todense()), np.asarray(r[1].todense())

    def expect(self, x, y, th, ph, pol, eps):
        """[(p, theta, phi, layers)] of a ray aimed at (x, y, 0)"""
        d = np.array([-math.sin(th) * math.cos(ph), -math.sin(th) * math.sin(ph), -math.cos(th)])
        p = np.array([x, y, 0.0]) - d * (self.S.zmax + 1e-8) / math.cos(th)
        R = Ref([self.S], self.ns, [0, 0], [0, 0], pol, 1e-9, eps=eps)
        out, pruned = [], 0.0
        for e in R.run(p, d):
            if e["kind"] == "pruned":
                pruned += e["p"]
            elif e["kind"] == "A":
                out.append((e["p"], None, None, e["layers"]))
            else:
                t = e["theta"] if self.side == "front" else np.pi - e["theta"]
                out.append((e["p"], t, e["phi"], None))
        return out, pruned


def per_path(res, M, A, b, cols, sig, weights=None):
    """M (out, in), A (layer, in) of one wavelength on one path; cols: list of allowed column sets, one per ray group"""
    ok = res.check(np.isfinite(M).all() and np.isfinite(A).all() and (M >= 0).all() and (A >= -1e-15).all(),
                   "negative or undefined entries", sig)
    s = M.sum(0) + A.sum(0)
    lit = set().union(*cols)
    for j in range(b.na):
        if j in lit:
            continue
        ok &= res.check(s[j] == 0, "column of a bin that received no rays is not 0", sig, col=j, sum=s[j])
    got = {j for j in range(b.na) if s[j] != 0}
    for c in cols:
        hit = c & got
        ok &= res.check(len(hit) >= 1 and all(abs(s[j] - 1) < 1e-9 for j in hit), "column of a bin that received rays does not add up to 1",
                        sig, cols=sorted(c), sums=[s[j] for j in sorted(c)])
    return ok


def expectation(res, EM, EA, want, slack, sig, b, cset):
    """want: list of (p, theta, phi, layers) for one column set"""
    uni, amb = np.zeros(2 * b.na), np.zeros(2 * b.na)
    la = 0.0
    for p, th, ph, L in want:
        if th is None:
            la = la + p * np.asarray(L)
        else:
            f = find_dir(b, th, ph)
            if len(f) == 1:
                uni[list(f)[0]] += p
            else:
                amb[list(f)] += p
    cs = sorted(cset)
    got, gA = EM[:, cs].sum(1), EA[:, cs].sum(1)
    err = np.maximum(uni - got, got - uni - amb)
    k = int(np.argmax(err))
    res.check(err[k] <= slack + 1e-6, "expected fraction of rays per outgoing bin differs from the reference", sig, bin=k, got=got[k],
              want=uni[k], ambiguous=amb[k], slack=slack)
    if EA.shape[0]:
        res.check(np.abs(gA - la).max() <= slack + 1e-6, "expected absorption per interface layer differs from the reference", sig,
                  got=gA, want=la, slack=slack)


def fine(case):
    res = common.Result()
    one = One(case["s"], case["side"])
    for d in case["list"]:
        r = one_case(d, one)
        res.viol += r.viol
        for k in ("execs", "states", "transitions", "traces"):
            setattr(res, k, getattr(res, k) + getattr(r, k))
        for k, v in r.notes.items():
            res.notes[k] = res.notes.get(k, 0) + v
        for k in r.outcomes:
            res.outcomes.add(k)
    common.rmdir(one.dir)
    return res


def run_case(case):
    return fine(case) if case["k"] == "fine" else one_case(case)


def one_case(case, one=None):
    shared = one is not None
    res = common.Result()
    n, sym, c = case["lay"]
    P = SYM[sym]
    sp = case.get("sp", "sin")
    b = Bins(n, P, c, sp)
    one = one or One(case["s"], case["side"])
    rear = case["side"] == "rear"
    base = dict(n_theta_bins=n, phi_symmetry=P, c_azimuth=c, theta_spacing=sp, pol=case["pol"], nx=case.get("nx", 1), ny=1)
    tag = " ".join(str(case.get(q)) for q in ("k", "s", "side", "th", "ph", "lay", "pol", "nx", "sp")) + (" %s" % case["xy"] if "xy" in case else "")

    def column(th, ph):
        """allowed columns for incidence (th, ph)"""
        return {j - (b.na if rear else 0) for j in find_dir(b, np.pi - th if rear else th, ph)}

    def explore(o, only, groups, positions=None, sig=tag, eps=EPS, wls=1):
        """groups: [(column set, [(x, y, th, ph)...])]; rays of a group share a column"""
        exps, slack0 = [], 0.0
        try:
            for cset, rays in groups:
                w, ps = [], 0.0
                for x, y, th, ph in rays:
                    out, pr = one.expect(x, y, th, ph, case["pol"], eps / 3)
                    w += [(p / len(rays), t, f, L) for p, t, f, L in out]
                    ps += pr / len(rays)
                exps.append((cset, w, ps))
        except Degenerate:
            res.notes["degenerate_skipped"] = res.notes.get("degenerate_skipped", 0) + 1
            return
        ex = Explorer(eps=eps, positions=positions)
        EM = EA = 0.0
        for q, lg, (M, A) in ex.explore(lambda: one.run(o, only)):
            res.execs += 1
            if not res.check(M.shape == (wls, 2 * b.na, b.na) and A.shape == (wls, one.n_layers, b.na), "shapes %s %s" % (M.shape, A.shape), sig):
                return
            for i in range(wls):
                if not per_path(res, M[i], A[i], b, [g[0] for g in groups], sig):
                    return
            EM, EA = EM + q * M, EA + q * A
            res.seen(sig, np.flatnonzero(M).tolist(), np.round(A, 6).tolist())
            res.traces += 1
        res.transitions += ex.branches
        res.states += ex.paths
        res.check(abs(ex.mass + ex.pruned - 1) < 1e-9, "decision probabilities do not add up to 1", sig)
        for cset, w, ps in exps:
            for i in range(wls):
                expectation(res, EM[i], EA[i], w, ps + ex.pruned, sig, b, cset)
        return EM, EA

    if case["k"] in ("inc", "all"):
        th = case["th"]
        for x, y in [case["xy"]] if "xy" in case else POS if case.get("nx", 1) == 1 and not shared else [POS[0]]:
            rth = th or 1e-4
            if case["k"] == "all":
                i = int(np.searchsorted(b.te, rth, side="left")) - 1
                groups = []
                for k in range(int(b.start[i]), int(b.start[i + 1])):
                    groups.append((column(rth, b.ph[k]), [(x, y, rth, b.ph[k])]))
                o = at(x, y, theta_in=th, phi_in="all", **base)
            elif case.get("nx", 1) == 2:
                o = opts(x_limits=[x, x + 0.31], y_limits=[y, y], theta_in=th, phi_in=case["ph"], **{**base, "n_rays": 2})
                groups = [(column(rth, case["ph"]), [(x, y, rth, case["ph"]), (x + 0.31, y, rth, case["ph"])])]
            else:
                o = at(x, y, theta_in=th, phi_in=case["ph"], **base)
                groups = [(column(rth, case["ph"] or 1e-4), [(x, y, rth, case["ph"] or 1e-4)])]
            explore(o, True, groups, sig=tag + " %s" % ((x, y),), eps=EPS if case["k"] == "inc" and case.get("nx", 1) == 1 else 10 * EPS if case["k"] == "inc" else EPS / 10)
    elif case["k"] == "full":
        x, y = POS[0]
        o = at(x, y, theta_in=0.0, phi_in=0.0, **base)
        o["n_rays"] = b.na
        # one ray per incidence bin, started at the representative direction of the bins of the upper hemisphere
        groups = []
        for k in range(b.na):
            th, ph = b.th[k], b.ph[k]
            groups.append((column(th, ph), [(x, y, th, ph)]))
        explore(o, False, groups, eps=EPS * 0.1 if case["s"][-2:] == "pl" or case["s"] == "pld" else EPS * 2)
    elif case["k"] == "many":
        # many rays per bin, periodic sequences of decisions: every ray is accounted for
        for w in WORDS:
            o = at(0.11, 0.23, theta_in=0.0, phi_in=0.0, **base)
            o.update(nx=case["nx"], ny=case["ny"], x_limits=[0.11, 0.83], y_limits=[0.23, 0.71], n_rays=b.na * case["nx"] * case["ny"] * 2)
            ex = Explorer(word=w, max_draws=10 ** 6)
            for q, lg, (M, A) in ex.explore(lambda: one.run(o, False)):
                res.execs += 1
                per_path(res, M[0], A[0], b, [{j} for j in range(b.na)], tag + " %s" % w)
                res.seen(tag, w, np.round(M, 9).sum(2).tolist())
                cnt = M[0] * case["nx"] * case["ny"] * 2
                if not one.tmm:
                    res.check(np.abs(cnt - np.round(cnt)).max() < 1e-9, "fractions are not numbers of rays over the number of rays of the bin", tag)
            res.states += 1
            res.transitions += ex.branches
    elif case["k"] == "rand":
        # random incidence directions from a finite alphabet; bins may stay empty or get two rays
        al = [0.11, 0.52, 0.93]
        x, y = POS[0]
        o = at(x, y, theta_in=0.0, phi_in=0.0, random_ray_angles=True, **base)
        o["n_rays"] = 2
        ex = Explorer(eps=1e-7, positions=al)
        from rayflare.ray_tracing import rt as rtm
        seen_empty = 0
        for q, lg, (M, A) in ex.explore(lambda: one.run(o, False)):
            res.execs += 1
            s = M[0].sum(0) + A[0].sum(0)
            res.check(((np.abs(s) < 1e-12) | (np.abs(s - 1) < 1e-9)).all() and 1 <= np.count_nonzero(s) <= 2, "columns of random incidence "
                      "angles are neither 0 nor 1", tag, sums=s)
            res.seen(tag, np.flatnonzero(M).tolist(), np.round(A, 6).tolist())
            seen_empty += int((s == 0).sum())
        res.transitions += ex.branches
        res.states += ex.paths
        res.check(abs(ex.mass + ex.pruned - 1) < 1e-9, "decision probabilities do not add up to 1", tag)
    elif case["k"] == "second":
        # a texture whose height is drawn anew when a ray moves on: what a second ray adds to the matrix is what a ray
        # meeting the newly drawn texture does (the first ray's contribution is known from a run with one ray)
        th, ph = case["th"] or 1e-4, case["ph"] or 1e-4
        cset = column(th, ph)
        for x, y in POS:
            o = at(x, y, theta_in=case["th"], phi_in=case["ph"], **base)
            one.run(o, True)
            tot = []
            for n_rays in (1, 2):
                o["n_rays"] = n_rays * b.na                  # rays per bin
                ex = Explorer(eps=EPS if n_rays == 1 else EPS / 30)
                EM = EA = 0.0
                for q, lg, (M, A) in ex.explore(lambda: one.run(o, True)):
                    res.execs += 1
                    res.traces += 1
                    if not per_path(res, M[0], A[0], b, [cset], tag):
                        return res
                    EM, EA = EM + q * M[0], EA + q * A[0]
                    res.seen(tag, np.flatnonzero(M).tolist(), n_rays)
                res.transitions += ex.branches
                res.states += ex.paths
                tot.append((EM, EA, ex.pruned))
                res.check(abs(ex.mass + ex.pruned - 1) < 1e-9, "decision probabilities do not add up to 1", tag)
            try:
                w, ps = one.expect(x, y, th, ph, case["pol"], EPS / 30)
            except Degenerate:
                res.notes["degenerate_skipped"] = res.notes.get("degenerate_skipped", 0) + 1
                continue
            expectation(res, 2 * tot[1][0] - tot[0][0], 2 * tot[1][1] - tot[0][1], w, ps + 2 * tot[1][2] + tot[0][2], tag, b, cset)
    else:
        # two wavelengths, different indices
        o = at(*POS[0], theta_in=case["th"], phi_in=case["ph"], **base)
        o["wavelength"] = np.array([WL, WL])
        rth = case["th"]
        explore(o, True, [(column(rth, case["ph"]), [(*POS[0], rth, case["ph"])])], wls=2, eps=1e-6)
    if not shared:
        common.rmdir(one.dir)
    return res


if __name__ == "__main__":
    common.main(sys.modules[__name__])
