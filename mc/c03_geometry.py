"""C03: rays hit the facets geometry says they hit.  For every launch position x direction x texture of the grids,
every sequence of reflect/transmit decisions of the real tracer is enumerated with its exact probability and the
resulting distribution of outcomes (exit direction, intensity, absorption per layer, passes, interactions) is
compared with an independent tracer working in unfolded space."""
import sys, math
import numpy as np
import common
from rtlib import *

PROPERTY = "C03"
LEVEL = "model_checking"
RULE = ("distinct (structure, direction, position, outcome) with the full decision tree of one ray enumerated on "
        "the real tracer and compared with the unfolded-space reference; paths below 3e-4 are bounded by the "
        "pruned mass")
ASSUMPTIONS = ["all surfaces of a structure have the same unit cell, as the documentation asks for when positions are not randomised",
               "one ray per execution; several rays are covered by C01",
               "paths of probability below the pruning threshold are only bounded in mass",
               "positions within 1e-6 of a facet edge are skipped (outcome depends on rounding)",
               "an arriving ray is tested against the unit cell below the point where it crosses the surface's base "
               "height; cases in which a neighbouring cell shadows it are compared separately (known finding)"]

P55, P55i = ["pyr", 55, True], ["pyr", 55, False]
SC = {
    "up": dict(surfs=[P55, ["planar"]], layers=[(2.5, .3, 10)], n_out=2.0),
    "inv": dict(surfs=[P55i, ["planar"]], layers=[(2.5, .3, 10)], n_out=2.0),
    "both": dict(surfs=[P55, ["pyr", 40, False]], layers=[(3.5, .1, 12)], n_out=1.0),
    "scaled": dict(surfs=[["pyr", 55, True, 3.7], ["pyr", 30, True, 3.7]], layers=[(2.0, .2, 15)], n_out=1.5),
    "steep": dict(surfs=[["pyr", 70, True], ["planar"]], layers=[(2.5, .5, 8)], n_out=2.0),
    "vy": dict(surfs=[["vg", 50, "y"], ["planar"]], layers=[(2.5, .3, 10)], n_out=2.0),
    "vx": dict(surfs=[["planar"], ["vg", 35, "x"]], layers=[(2.5, .3, 10)], n_out=1.0),
    "off": dict(surfs=[["xyz", "off"], ["xyz", "flat21"]], layers=[(2.2, .3, 10)], n_out=1.8),
    "pit": dict(surfs=[["xyz", "pit"], ["xyz", "low115"]], layers=[(2.2, .3, 10)], n_out=1.8),
    "two": dict(surfs=[["xyz", "two"], ["planar"]], layers=[(2.2, .3, 10)], n_out=1.8),
    "three": dict(surfs=[["planar"], ["pyr", 35, True], ["planar"]], layers=[(1.6, .05, 4), (2.6, .3, 6)], n_out=1.0),
    "lensi": dict(surfs=[P55i], layers=[], n_out=2.5),
    "lensv": dict(surfs=[["vg", 40, "x"]], layers=[], n_out=3.5),
    "lensoff": dict(surfs=[["xyz", "off"]], layers=[], n_out=1.7),
    "lens": dict(surfs=[P55], layers=[], n_out=2.5),
    "hgt": dict(surfs=[["hgt", "bump", 2.0], ["planar", 2.0]], layers=[(2.2, .3, 10)], n_out=1.8),
    "thin": dict(surfs=[P55i, ["planar"]], layers=[(2.2, .2, 0.9)], n_out=1.5),
    "heights": dict(surfs=[["pyrh", 50, True, 0.6], ["pyrh", 40, False, 1.5]], layers=[(2.2, .2, 4.4)], n_out=1.0),
    "four": dict(surfs=[P55, ["planar"], ["pyr", 45, True], ["planar"]],
                 layers=[(1.5, .02, 3.3), (2.6, .2, 5.7), (1.8, 0.0, 2.1)], n_out=1.0),
    "denser": dict(surfs=[P55i, ["planar"]], layers=[(1.5, .1, 10)], n_in=2.5, n_out=1.0),
}
for _f in (0.4, 1.7):                                         # heights drawn anew: lower and higher than before
    for _n, _t in (("up", ["pyr", 58, True]), ("inv", ["pyr", 58, False]), ("off", ["xyz", "off"])):
        SC["drawn-%s-%s" % (_n, _f)] = dict(surfs=[["drawn", _f] + _t], layers=[], n_out=2.5)
EPS = 2e-4 if common.TIER == "quick" else 2e-5
DIRS = [(0.0, 0.0), (0.35, 0.6), (0.35, 2.3), (0.6, 4.0), (0.6, 5.4), (1.0, 1.2), (1.0, 3.6)]
POS = [(0.13, 0.37), (0.62, 0.21), (0.41, 0.83), (0.87, 0.69), (0.93, 0.11), (0.29, 0.57), (0.05, 0.91), (0.52, 0.47)]
OUT = [(1.63, 0.21), (-0.59, 0.83), (3.13, -2.63), (0.41, 7.37)]   # whole cells away (Lx = Ly = 1)


def cases(tier):
    cs = []
    dirs = DIRS if tier == "quick" else DIRS + [(0.15, 0.9), (0.8, 2.9), (1.2, 0.3), (1.2, 4.9), (1.35, 2.0)]
    for s in SC:
        if s.startswith("drawn"):
            for th, ph in DIRS[:6:1 if tier != "quick" else 2]:
                cs.append(dict(k="second", s=s, th=th, ph=ph, pol="u"))
            continue
        for th, ph in dirs if not s.startswith("lens") or s == "lens" else []:
            cs.append(dict(k="ray", s=s, th=th, ph=ph, pol="u"))
    for s in ("up", "both", "off", "three"):
        for pol in "sp":
            cs.append(dict(k="ray", s=s, th=0.6, ph=5.4, pol=pol))
    for s in ("up", "inv", "vy", "two", "three"):
        for th, ph in [(0.35, 2.3), (1.0, 1.2)]:
            cs.append(dict(k="cells", s=s, th=th, ph=ph, pol="u"))
    for s in ("up", "inv", "off", "both"):
        for th, ph in [(0.0, 0.0), (0.35, 2.3), (1.0, 1.2)]:
            cs.append(dict(k="isolated", s=s, th=th, ph=ph, pol="u"))
    for s in ("up", "both", "three", "inv"):
        for m in ([1] if s != "three" else [1, 2]):
            for dr in (1, -1):
                for th, ph in [(0.2, 0.5), (0.8, 2.3)]:
                    cs.append(dict(k="inside", s=s, th=th, ph=ph, pol="u", m=m, dir=dr))
    for s in ("up", "both", "three"):
        cs.append(dict(k="random", s=s, th=0.35, ph=2.3, pol="u"))
    # fine values of one parameter at a time
    for s in ("lens", "lensi", "lensv", "lensoff", "up", "inv", "vy"):
        for p in ("th", "ph", "pos") + (("angle", "size") if s in ("lens", "lensi", "up", "inv") else ()) + (("index",) if s[0] == "l" else ("width",)):
            cs.append(dict(k="fine", s=s, par=p, th=0.35, ph=2.3, pol="usp"[len(cs) % 3], _w=6))
    return cs


def fine(case):
    """(label, scene, theta, phi, positions) along one parameter"""
    full, base, p = common.TIER != "quick", SC[case["s"]], case["par"]
    m = 3 if full else 1
    two = [POS[0], POS[1]]
    top = base["surfs"][0]
    if p == "th":
        for i, t in enumerate([1e-7, 1e-4] + list(np.linspace(0.02, 1.54, 24 * m))):
            yield "%.5g" % t, base, float(t), [0.6, 2.3, 4.0, 5.4][i % 4], two
    elif p == "ph":
        for f in [0.0, 0.5, 1.0, 1.5, 2.0] + list(np.linspace(0.013, 2, 22 * m) % 2):
            yield "%.5g" % f, base, 0.45, float(f) * math.pi, two
    elif p == "pos":
        q = (np.arange(7 * m) + 0.37) / (7 * m)
        yield "lattice", base, 0.3, 1.1, [(a, (b + 0.013) % 1) for a in q for b in q]
    elif p == "angle":
        for a in [3.0, 10.0, 20.0, 30.0, 35.0, 44.0, 45.0, 46.0, 50.0, 54.7, 60.0, 66.0, 75.0][::1 if base["layers"] == [] or full else 2]:
            yield "%g" % a, dict(base, surfs=[["pyr", a, top[2]]] + base["surfs"][1:]), 0.25, 0.8, two
    elif p == "size":
        for z in (0.05, 0.3, 2.0, 13.0, 90.0):
            rest = [["planar", z] if x == ["planar"] else x for x in base["surfs"][1:]]
            yield "%g" % z, dict(base, surfs=[["pyr", 50.0, top[2], z]] + rest, layers=[l[:2] + (40 * z,) for l in base["layers"]]), 0.25, 0.8, two
    elif p == "index":
        for a in (1.0, 1.2, 1.8, 2.6, 4.0):
            for b in (1.0, 1.05, 1.5, 2.2, 3.6, 5.0):
                if a != b:
                    yield "%g/%g" % (a, b), dict(base, n_in=a, n_out=b), 0.4, 4.0, two[:1]
    else:
        for w in (1.1, 2.3, 4.9, 17.0, 77.0, 513.0):
            for a in (1e-5, 1e-3, 0.05, 1.0):
                yield "%g/%g" % (w, a), dict(base, layers=[(base["layers"][0][0], a, w)]), 0.4, 4.0, two[:1]


def run_fine(res, case):
    for label, spec, th, ph, pos in fine(case):
        sc = Scene(**spec)
        st = sc.real()
        first = geo(sc.surfs[0])
        for a, b in pos:
            xy = (a * first.Lx, b * first.Ly)
            o = at(xy[0], xy[1], theta_in=th, phi_in=ph, pol=case["pol"], I_thresh=0.05)
            p, d = sc.launch(xy[0], xy[1], th, ph)
            out = explore(res, dict(case, th=th, ph=ph), st, o, sc, p, d, 0, xy, eps=EPS if not sc.layers else 6e-4)
            if out is None:
                continue
            R, diff, slack = out
            sg = "%s fine %s=%s pos=%s %s" % (case["s"], case["par"], label, (a, b), case["pol"])
            if R.shadowed:                       # see the main cases: compared there
                continue
            res.check(diff is None, "ray outcome distribution differs from geometry: %s" % (diff,), sg, diff=diff, slack=slack)
    res.states = len(res.outcomes)


def explore(res, case, st, o, sc, p, d, m, pos, ref_kw=None, ex_kw=None, tag="", eps=None):
    ref_kw = ref_kw or {}
    eps = eps or EPS
    I_t = o["I_thresh"]
    R = sc.ref(case["pol"], I_t, eps=eps / 3, **ref_kw)
    try:
        exp = R.run(p, d, m)
    except Degenerate as e:
        if str(e) == "miss" and R.shadowed and R.entry == "home":
            return R, None, 0.0            # the home cell alone is missed: only the unfolded geometry is meaningful
        res.notes["degenerate_skipped"] = res.notes.get("degenerate_skipped", 0) + 1
        return None
    pr = sum(e["p"] for e in exp if e["kind"] == "pruned")
    want = [(e["p"], vec(e, sc.sheets)) for e in exp if e["kind"] != "pruned"]
    ex = Explorer(eps=eps, **(ex_kw or {}))
    got = []
    for q, lg, r in ex.explore(lambda: st.calculate(o)):
        oc = real_outcome(r)
        v = vec(oc)
        got.append((q, v))
        res.execs += 1
        res.seen(case["s"], case["k"], case["th"], case["ph"], pos, np.round(v, 5).tolist())
    res.transitions += ex.branches
    res.traces += len(got)
    tot = ex.mass + ex.pruned
    res.check(abs(tot - 1) < 1e-9, "decision probabilities do not add up to 1", total=tot)
    if ex.capped:
        res.capped.append("paths capped in %s" % case)
    slack = ex.pruned + pr
    res.notes["max_pruned"] = max(res.notes.get("max_pruned", 0), slack)
    diff = compare(got, want, slack)
    return R, diff, slack


def second(res, case, st, o, sc, pos):
    """two rays in one calculation with a texture whose height is drawn anew when a ray moves on: the second ray
    meets the newly drawn texture, launched from above it"""
    st()                                                     # everything is imported outside of the exploration
    ends = []
    ex = Explorer(eps=EPS / 10)
    got = []
    for q, lg, r in ex.explore(lambda: st().calculate(o)):
        th, ph = float(r["thetas"][0][1]), float(r["phis"][0][1])
        v = np.array([math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th), r["n_interactions"][0][1]], float)
        got.append((q, v))
        res.execs += 1
        res.seen(case["s"], case["th"], case["ph"], pos, np.round(v, 5).tolist())
    res.transitions += ex.branches
    res.traces += len(got)
    res.check(abs(ex.mass + ex.pruned - 1) < 1e-9, "decision probabilities do not add up to 1")
    g = geo(case_surf(case))
    f = case_surf(case)[1]
    for z in {g.zmax, max(g.zmax, g.zmax * f)}:              # started at the height of the old or of the new texture
        p, d = sc.launch(pos[0], pos[1], case["th"], case["ph"])
        p = np.array([p[0], p[1], z + 1e-8])
        try:
            exp = sc.ref(case["pol"], o["I_thresh"], eps=EPS / 30).run(p, d, 0)
        except Degenerate:
            res.notes["degenerate_skipped"] = res.notes.get("degenerate_skipped", 0) + 1
            return
        pr = sum(e["p"] for e in exp if e["kind"] == "pruned")
        want = [(e["p"], np.append(vec(e, sc.sheets)[1:4], e["n_int"])) for e in exp if e["kind"] != "pruned"]
        ends.append(compare(got, want, ex.pruned + pr))
    res.notes["max_pruned"] = max(res.notes.get("max_pruned", 0), ex.pruned)
    res.check(any(e is None for e in ends), "a ray does not meet the newly drawn texture as geometry dictates: %s" % (ends[0],),
              sig(case, pos), diff=ends)


def case_surf(case):
    return SC[case["s"]]["surfs"][0]


def sig(case, pos):
    return "%s %s th=%s ph=%s pos=%s" % (case["s"], case["k"], case["th"], case["ph"], list(pos))


def run_case(case):
    res = common.Result()
    if case["k"] == "fine":
        run_fine(res, case)
        return res
    sc = Scene(**SC[case["s"]])
    k = case["k"]
    first = geo(sc.surfs[0])
    positions = [(a * first.Lx, b * first.Ly) for a, b in (OUT if k == "cells" else POS)]
    if k in ("random",):
        positions = positions[:3]
    if k == "second":
        for pos in positions:
            second(res, case, sc.real, at(pos[0], pos[1], theta_in=case["th"], phi_in=case["ph"], pol=case["pol"], n_rays=2), sc, pos)
        res.states = len(res.outcomes)
        return res
    st = sc.real()
    kw = dict(theta_in=case["th"], phi_in=case["ph"], pol=case["pol"], I_thresh=0.03 if k != "random" else 0.2)
    m, dr = 0, 1
    ref_kw, ex_kw = {}, {"positions": [0.31, 0.66]}
    if k == "isolated":
        kw["periodic"] = 0
        ref_kw["periodic"] = False
    if k == "inside":
        m, dr = case["m"], case["dir"]
        kw.update(initial_material=m, initial_direction=dr)
    if k == "random":
        kw["randomize_surface"] = True
        ref_kw["randomize"] = [0.27, 0.68]
        ex_kw["positions"] = [0.27, 0.68]
    for pos in positions:
        o = at(pos[0], pos[1], **kw)
        p, d = sc.launch(pos[0], pos[1], case["th"], case["ph"], m, dr)
        out = explore(res, case, st, o, sc, p, d, m, pos, ref_kw, ex_kw)
        if out is None:
            continue
        R, diff, slack = out
        if R.shadowed:
            res.notes["shadowed"] = res.notes.get("shadowed", 0) + 1
        res.check(diff is None, "ray outcome distribution differs from geometry: %s" % (diff,), sig(case, pos),
                  diff=diff, slack=slack)
        if R.shadowed and k != "random" and ref_kw.get("periodic", True):
            out = explore(res, case, st, o, sc, p, d, m, pos, dict(ref_kw, entry="unfolded"), ex_kw)
            if out is not None:
                res.check(out[1] is None, "an arriving ray ignores the neighbouring unit cell it crosses first: %s"
                          % (out[1],), "shadow " + sig(case, pos), diff=out[1])
    res.states = len(res.outcomes)
    return res


if __name__ == "__main__":
    common.main(sys.modules[__name__])
