"""C15: textures.  Every texture builder over a grid of arguments, with every outcome of its random draws from a finite alphabet;
and for the surface objects every history of shift / new height / copy operations up to a depth, with every outcome of the height
draw, compared step by step with a model of the surface (base, shape, height, total shift)."""
import sys, itertools, math
import numpy as np
import common
from explorer import Explorer
from rtlib import *

PROPERTY = "C15"
LEVEL = "model_checking"
TECHNIQUE = ("stateless exploration of the real texture builders and surface objects: all histories of operations up to a depth and all "
             "outcomes of the random draws, every state compared with an independent geometric model")
RULE = "distinct (texture, arguments, history of operations, drawn heights / noise) whose surface was checked completely"
ASSUMPTIONS = ["user-supplied points cover a rectangular unit cell with matching edges", "noise is drawn from a finite alphabet"]
TOL = 1e-9


def tri_set(s):
    return np.stack([s.Points[s.simplices[:, k]] for k in range(3)], 1)


def height_at(T, x, y):
    """heights of all facets over (x, y)"""
    a, b, c = T[:, 0], T[:, 1], T[:, 2]
    det = (b[:, 0] - a[:, 0]) * (c[:, 1] - a[:, 1]) - (c[:, 0] - a[:, 0]) * (b[:, 1] - a[:, 1])
    with np.errstate(all="ignore"):
        u = ((x - a[:, 0]) * (c[:, 1] - a[:, 1]) - (c[:, 0] - a[:, 0]) * (y - a[:, 1])) / det
        v = ((b[:, 0] - a[:, 0]) * (y - a[:, 1]) - (x - a[:, 0]) * (b[:, 1] - a[:, 1])) / det
    ok = (u >= -1e-9) & (v >= -1e-9) & (u + v <= 1 + 1e-9) & (np.abs(det) > 1e-14)
    return (a[:, 2] + u * (b[:, 2] - a[:, 2]) + v * (c[:, 2] - a[:, 2]))[ok], np.flatnonzero(ok)


def consistent(res, s, sig):
    """derived data agrees with the points"""
    T = tri_set(s)
    ok = res.check(np.isfinite(s.Points).all(), "points are not finite", sig)
    for k, q in enumerate((s.P_0s, s.P_1s, s.P_2s)):
        ok &= res.check(q.shape == T[:, k].shape and np.allclose(q, T[:, k], rtol=0, atol=TOL), "facet corners are not the points of the surface", sig)
    if not ok:
        return False
    X = np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0])
    res.check(np.allclose(s.crossP, X, rtol=1e-7, atol=1e-9), "facet cross products are not those of the facets", sig)
    L = np.linalg.norm(X, axis=1)
    big = L > 1e-9 * L.max()
    if big.any():
        n = X[big] / L[big][:, None]
        res.check(np.allclose(s.N[big], n, atol=1e-6), "normals are not the unit normals of the facets", sig)
    res.check(s.size == len(T), "number of facets", sig)
    P = s.Points
    for q, v in (("x_min", P[:, 0].min()), ("x_max", P[:, 0].max()), ("y_min", P[:, 1].min()), ("y_max", P[:, 1].max()),
                 ("z_min", P[:, 2].min()), ("z_max", P[:, 2].max()), ("Lx", np.ptp(P[:, 0])), ("Ly", np.ptp(P[:, 1]))):
        res.check(abs(getattr(s, q) - v) < TOL, "%s of the surface" % q, sig, got=getattr(s, q), want=v)
    return True


def covers(res, s, sig, Lx=None, Ly=None):
    """single-valued surface that covers its unit cell exactly and continues periodically"""
    T = tri_set(s)
    X = np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0])
    pa = X[:, 2] / 2
    keep = np.abs(pa) > 1e-12 * s.Lx * s.Ly
    res.check((pa[keep] > 0).all(), "a facet normal points away from the incidence side", sig)
    if Lx is not None:
        res.check(abs(s.Lx - Lx) < TOL and abs(s.Ly - Ly) < TOL, "size of the unit cell", sig, got=(s.Lx, s.Ly), want=(Lx, Ly))
    ok = res.check(abs(pa[keep].sum() / (s.Lx * s.Ly) - 1) < 1e-7, "the facets do not cover the unit cell exactly once", sig, got=float(pa[keep].sum() / (s.Lx * s.Ly)))
    cnt = {}
    for t in s.simplices[keep]:
        for i, j in ((0, 1), (1, 2), (2, 0)):
            cnt[frozenset((int(t[i]), int(t[j])))] = cnt.get(frozenset((int(t[i]), int(t[j]))), 0) + 1
    res.check(max(cnt.values()) <= 2, "facets overlap", sig)
    # height profile along opposite edges
    for ax, lo, hi in ((0, s.x_min, s.x_max), (1, s.y_min, s.y_max)):
        e = s.Points[np.unique([i for f, c in cnt.items() if c == 1 for i in f])]
        o = 1 - ax
        prof = []
        for v in (lo, hi):
            q = e[np.abs(e[:, ax] - v) < TOL]
            q = q[np.argsort(q[:, o])]
            prof.append(q)
        at = np.unique(np.concatenate([p[:, o] for p in prof]))
        if min(len(p) for p in prof) == 0:
            res.bad("an edge of the unit cell is not covered", sig)
            continue
        z = [np.interp(at, p[:, o], p[:, 2]) for p in prof]
        ok &= res.check(np.allclose(z[0], z[1], atol=1e-7 * max(1, s.Lx)), "heights on opposite edges of the unit cell do not match", sig + " edge%d" % ax)
    return ok


def mirrored(res, f, r, sig, full=True):
    """the rear-incidence surface is the mirror image of the front one"""
    res.check(len(f.Points) == len(r.Points) and np.allclose(np.sort(f.Points[:, 2]), np.sort(-r.Points[:, 2]), atol=TOL), "rear surface is not the mirror image", sig)
    res.check(abs(f.zcov + r.zcov) < TOL, "base of the rear surface is not the mirror image", sig, front=f.zcov, rear=r.zcov)
    if not full:
        return
    for a, b in ((f, r), (r, f)):
        Ta, Tb = tri_set(a), tri_set(b)
        idx = range(len(Ta)) if len(Ta) <= 60 else range(0, len(Ta), len(Ta) // 60)
        for i in idx:
            if a.crossP[i, 2] < 1e-9:
                continue
            c = Ta[i].mean(0)
            z, j = height_at(Tb, c[0], c[1])
            if not res.check(len(z) and np.allclose(z, -c[2], atol=1e-7), "rear surface is not the mirror image", sig, at=c, got=z):
                return
            n = a.N[i] * [-1, -1, 1]
            if not res.check(min(np.abs(b.N[k] - n).max() for k in j) < 1e-6, "normal of the rear surface is not the mirror image", sig):
                return


def same_kw(res, f, r, sig, kw):
    for s in (f, r):
        res.check(s.name == kw.get("name", ""), "name of the surface", sig, got=s.name)
        if "interface_layers" in kw:
            res.check(getattr(s, "interface_layers", None) is not None and len(s.interface_layers) == len(kw["interface_layers"]), "interface layers of the surface are lost", sig)


# ------------------------------------------------------------------------------------------------ builders
def build(spec, kw):
    import rayflare.textures as tx
    k, a = spec[0], spec[1:]
    if k == "pyr":
        return tx.regular_pyramids(elevation_angle=a[0], upright=a[1], size=a[2], **kw), (a[2], a[2])
    if k == "planar":
        return tx.planar_surface(size=a[0], **kw), (a[0], a[0])
    if k == "vg":
        return tx.V_grooves(elevation_angle=a[0], width=a[1], direction=a[2], **kw), (a[1], a[1])
    if k == "xyz":
        P = np.array(a[0], float)
        return tx.xyz_texture(P[:, 0], P[:, 1], P[:, 2], **kw), (np.ptp(P[:, 0]), np.ptp(P[:, 1]))
    if k == "hgt":
        Z = np.array(a[0], float)
        return tx.heights_texture(Z, a[1], a[2], **kw), (a[1], a[2])
    if k == "rp":
        return tx.rough_pyramids(elevation_angle=a[0], upright=a[1], size=a[2], noise_angle=a[3], n_points=a[4], regular_grid=a[5], **kw), (a[2], a[2])
    if k == "rs":
        return tx.rough_planar_surface(size=a[0], noise_angle=a[1], n_points=a[2], regular_grid=a[3], **kw), (a[0], a[0])
    if k == "hemi":
        return tx.hemisphere_surface(size=a[0], n_per_side=a[1], radius=a[2], offset=a[3], noise_angle=a[4], stretch=a[5], upright=a[6], **kw), (a[0], a[0])
    raise ValueError(k)


def ideal(spec):
    """z(x, y) of the ideal texture and the largest height added by roughness"""
    k, a = spec[0], spec[1:]
    if k in ("pyr", "rp"):
        t = math.tan(math.radians(a[0])) * (1 if a[1] else -1)
        s = a[2]
        noise = 0
        if k == "rp":
            m = math.ceil(math.sqrt(a[4]))
            noise = (s / (m - 1) if a[5] else s / math.sqrt(a[4])) * math.tan(a[3]) * (1 if a[1] else -1)
        return lambda x, y: t * np.minimum(np.minimum(x, s - x), np.minimum(y, s - y)), noise
    if k == "planar":
        return lambda x, y: 0 * x, 0
    if k == "rs":
        m = math.ceil(math.sqrt(a[2]))
        return lambda x, y: 0 * x, (a[0] / (m - 1) if a[3] else a[0] / math.sqrt(a[2])) * math.tan(a[1])
    if k == "vg":
        t = math.tan(math.radians(a[0]))
        return (lambda x, y: t * np.minimum(x, a[1] - x)) if a[2] == "y" else (lambda x, y: t * np.minimum(y, a[1] - y)), 0
    if k == "hgt":
        Z = np.array(a[0], float)
        xs, ys = np.linspace(0, a[1], Z.shape[1]), np.linspace(0, a[2], Z.shape[0])
        return lambda x, y: np.array([Z[np.argmin(abs(ys - q)), np.argmin(abs(xs - p))] for p, q in zip(x, y)]), 0
    if k == "hemi":
        s, n, r, off, na, st, up = a

        def z(x, y):
            q = (x - s / 2) ** 2 + (y - s / 2) ** 2
            return np.where(q < r * r - off * off, st * (np.sqrt(np.maximum(r * r - q, 0)) - off), 0.0) * (1 if up else -1)
        return z, s / (n - 1) * math.tan(na) * (1 if up else -1)


def builder(res, case):
    spec, kw = case["s"], dict(case.get("kw", {}))
    if kw.pop("ifl", None):
        from solcore.structure import Layer
        kw["interface_layers"] = [Layer(1e-8, Mat(2.0)), Layer(2e-8, Mat(3.0))]
    if "dist" in kw:
        kw["height_distribution"] = {"h": np.array(kw["dist"][0], float), "p": np.array(kw["dist"][1], float)}
        kw.pop("dist")
    ex = Explorer(positions=case.get("al", [0.0, 0.37, 1 - 1e-9]), max_paths=3000, max_draws=10000)
    sig = "%s %s" % (spec, {k: v for k, v in case.get("kw", {}).items()})
    for p, lg, (pair, (Lx, Ly)) in ex.explore(lambda: build(spec, kw)):
        res.execs += 1
        f, r = pair
        for s, n in ((f, "front"), (r, "rear")):
            if consistent(res, s, sig + " " + n):
                covers(res, s, sig + " " + n, Lx, Ly)
        if "dist" in case.get("kw", {}):
            h = np.abs(f.Points[:, 2]).max()
            res.check(min(abs(h - q) for q in case["kw"]["dist"][0]) < TOL, "height is not one of the distribution", sig, got=h)
        elif spec[0] != "xyz":
            z, noise = ideal(spec)
            x, y, q = f.Points.T
            e = (q - z(x, y))
            lo, hi = min(noise, 0), max(noise, 0)
            edge = (np.abs(x) < TOL) | (np.abs(y) < TOL) | (np.abs(x - Lx) < TOL) | (np.abs(y - Ly) < TOL)
            res.check(((e > lo - 1e-7) & (e < hi + 1e-7)).all(), "heights are not those of the texture asked for", sig, worst=float(np.abs(e).max()))
            if spec[0] in ("rp", "rs", "hemi", "pyr"):
                res.check(np.abs(q[edge]).max() < 1e-7, "the edges of the unit cell are not at height 0", sig)
        mirrored(res, f, r, sig)
        same_kw(res, f, r, sig, kw)
        if "coverage_height" in kw:
            res.check(abs(f.zcov - kw["coverage_height"]) < TOL, "coverage height is not the one given", sig)
        f.find_area()
        T = tri_set(f)
        area = np.linalg.norm(np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]), axis=1).sum() / 2 / (f.Lx * f.Ly)
        res.check(abs(f.area - area) < 1e-6 * area, "surface area per unit cell", sig, got=f.area, want=float(area))
        res.seen(sig, np.round(f.Points[:, 2], 6).tolist())
        res.traces += 1
        res.states += 1
    res.transitions += ex.branches
    if ex.capped:
        res.notes["builder_alphabet_capped"] = 1


def sphere(res, case):
    """(hyper)hemisphere: a sphere surface, open at the bottom, normals outwards; the rear version its mirror image"""
    from rayflare.textures import hyperhemisphere
    n, R, h = case["n"], case["R"], case["h"]
    sig = "hyperhemisphere n=%d radius=%s h=%s" % (n, R, h)
    f, r = hyperhemisphere(n, R, h)
    res.execs += 1
    for s, n_, up in ((f, "front", 1), (r, "rear", -1)):
        g = sig + " " + n_
        if not consistent(res, s, g):
            continue
        P = s.Points * [1, 1, up]
        res.check((P[:, 2] > -TOL).all() and np.allclose(np.linalg.norm(P - [0, 0, h], axis=1), R, atol=1e-6 * R), "points are not on the sphere", g)
        T = tri_set(s)
        c = T.mean(1) - [0, 0, up * h]
        out = np.sum(s.N * c, 1) / np.linalg.norm(c, axis=1) * up
        res.check((out > 0.05).all(), "facet normals do not point out of the sphere (front) / into it (rear)", g, worst=float(out.min()))
        cnt = {}
        key = {}
        ids = [key.setdefault(tuple(np.round(p, 9)), len(key)) for p in s.Points]      # the closing point of the rim is doubled
        bad = 0
        for t in s.simplices:
            v = [ids[i] for i in t]
            if len(set(v)) < 3:
                continue
            for i in range(3):
                e = (v[i], v[(i + 1) % 3])
                cnt[e] = cnt.get(e, 0) + 1
        P9 = {v: k for k, v in key.items()}
        for (i, j), m in cnt.items():
            if m != 1:
                bad += 1
            elif (j, i) not in cnt and max(abs(P9[i][2]), abs(P9[j][2])) > 1.5 * R * math.sqrt(4 * math.pi / n):       # not at the rim
                bad += 1
        res.check(bad == 0, "the sphere surface has holes or overlaps", g, n=bad)
        res.states += 1
    mirrored(res, f, r, sig, full=False)
    A = [sum(np.linalg.norm(np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]), axis=1)) / 2 for T in (tri_set(f), tri_set(r))]
    res.check(abs(A[0] - A[1]) < 1e-6 * A[0], "rear surface is not the mirror image", sig, areas=A)
    want = 2 * math.pi * R * (R + h)
    res.check(0.8 < A[0] / want < 1.0001, "surface is not (close to) the sphere", sig, got=A[0], want=want)
    res.seen(sig)
    res.traces += 1


# ------------------------------------------------------------------------------------------------ histories
OPS = {"tiny": [("shift", 2.5), ("shift", -0.75), ("refresh",), ("copy",), ("other",)]}


def history(res, case):
    from copy import deepcopy
    spec, dist = case["s"], case["dist"]
    H, PR = dist
    kw = dict(case.get("kw", {}))
    ops = OPS["tiny"]

    def fresh():
        k2 = dict(kw)
        if H:
            k2["height_distribution"] = {"h": np.array(H), "p": np.array(PR)}
        return build(spec, k2)[0][case["side"]]

    def model_check(s, m, sig):
        P0, base, shift, height, ref = m
        if not consistent(res, s, sig):
            return
        scale = 1.0 if height is None else height / ref
        want = P0.copy()
        want[:, 2] = base + scale * (P0[:, 2] - base) - shift
        res.check(np.allclose(s.Points, want, atol=1e-9 * max(1, abs(shift))), "surface is not the rigidly moved / scaled original", sig,
                  got=s.Points[:, 2], want=want[:, 2])
        res.check(abs(s.zcov - (base - shift)) < 1e-9 * max(1, abs(shift)), "the base of the surface has moved", sig, got=s.zcov, want=base - shift)

    def run(seq):
        s = fresh()
        P0, base = s.Points.copy(), s.zcov
        dev = np.abs(P0[:, 2] - base)
        ref = dev.max()
        m = [P0, base, 0.0, None, ref]
        frozen = []                                   # (surface, model) that must stay as they are
        sig = "%s side%d %s" % (spec, case["side"], kw or "")
        draws = []
        hist = []
        for q, o in enumerate(seq):
            hist.append(o)
            g = sig + " after %s" % (hist,)
            if o[0] == "shift":
                s.shift(o[1])
                m[2] += o[1]
            elif o[0] == "refresh":
                s.refresh()
                if H:
                    h = np.abs(s.Points[:, 2] - s.zcov).max()
                    j = [i for i, v in enumerate(H) if abs(v - h) < 1e-9]
                    if not res.check(j, "height is not one of the distribution", g, got=h):
                        return None
                    m[3] = H[j[0]]
                    draws.append(j[0])
            elif o[0] == "copy":
                t = deepcopy(s)
                frozen.append((s, [x.copy() if isinstance(x, np.ndarray) else x for x in m], g))
                s = t
            else:                                     # make a copy and keep working on the original
                frozen.append((deepcopy(s), [x.copy() if isinstance(x, np.ndarray) else x for x in m], g))
            model_check(s, m, g)
            res.seen(g, draws)
        for t, mm, g in frozen:
            model_check(t, mm, g + " (copy)")
        covers(res, s, sig + " after %s" % (hist,))
        return tuple(draws)
    n = 0
    for d in range(1, case["depth"] + 1):
        for seq in itertools.product(ops, repeat=d):
            if d < case["depth"]:
                continue                              # every prefix is checked on the way
            if any(a[0] == b[0] and a[0] in ("copy", "other") for a, b in zip(seq, seq[1:])):
                continue
            ex = Explorer(positions=None, max_paths=4000)
            dist_seen = {}
            for p, lg, v in ex.explore(lambda: run(seq)):
                res.execs += 1
                res.traces += 1
                if v is not None:
                    dist_seen[v] = dist_seen.get(v, 0) + p
            res.states += ex.paths
            res.transitions += ex.branches
            if H and ex.inexact == 0 and not res.viol:
                for v, p in dist_seen.items():
                    res.check(abs(p - np.prod([PR[i] for i in v])) < 1e-9, "heights are not drawn with the given probabilities", "%s %s" % (spec, seq))
                k = sum(o[0] == "refresh" for o in seq)
                res.check(len(dist_seen) == len([x for x in PR if x > 0]) ** k, "some heights of the distribution are never drawn", "%s %s" % (spec, seq))
            if len(res.viol) > 10:
                return


def many(res, case):
    for s in case["list"]:
        builder(res, dict(s=s, al=[0.0, 1 - 1e-9] if s[0] == "rp" and s[6] and s[5] < 10 else [0.4]))


SIZES = [0.01, 0.1, 0.37, 0.5, 0.99, 1.01, 1.5, 2.3, 3.7, 5, 6.4, 9, 10, 12.5, 20, 55, 100, 320]
SQ = [[0, 0, 0], [2, 0, 0], [0, 2, 0], [2, 2, 0]]


def cases(tier):
    q = tier == "quick"
    cs = []
    for ang in (0, 10, 54.74, 80):
        for up in (True, False):
            for size in (1, 4.8):
                cs.append(dict(k="b", s=["pyr", ang, up, size]))
    cs.append(dict(k="b", s=["pyr", 50, True, 2], kw=dict(name="n", ifl=1)))
    cs.append(dict(k="b", s=["pyr", 50, False, 2], kw=dict(name="n", dist=[[0.3, 0.9], [0.25, 0.75]])))
    for size in (1, 0.3, 7):
        cs.append(dict(k="b", s=["planar", size]))
    cs.append(dict(k="b", s=["planar", 2], kw=dict(name="n", ifl=1)))
    for ang in (20, 55):
        for d in "xy":
            for w in (1, 1.7, 0.6):
                cs.append(dict(k="b", s=["vg", ang, w, d]))
    cs.append(dict(k="b", s=["vg", 50, 1, "y"], kw=dict(name="n", ifl=1)))
    for up in (0, 1.5, -2):
        P = (np.array(SQ, float) + [0, 0, up]).tolist()
        for c in ([0.7, 1.2, up + 0.8], [1.1, 0.5, up - 0.6]):
            cs.append(dict(k="b", s=["xyz", P + [c]], kw=dict(name="u")))
            cs.append(dict(k="b", s=["xyz", P + [c]], kw=dict(coverage_height=float(up))))
    for sh in ((2, 2), (3, 3), (3, 4), (4, 2), (2, 5)):
        Z = np.zeros(sh)
        if min(sh) > 2:
            Z[1:-1, 1:-1] = 0.2 + 0.1 * np.arange((sh[0] - 2) * (sh[1] - 2)).reshape(sh[0] - 2, sh[1] - 2)
        else:                                          # ridges
            if sh[0] > 2:
                Z[1:-1] = 0.3 * np.arange(1, sh[0] - 1)[:, None]
            elif sh[1] > 2:
                Z[:, 1:-1] = 0.3 * np.arange(1, sh[1] - 1)
        for w in ((1, 1), (2, 0.7)):
            cs.append(dict(k="b", s=["hgt", Z.tolist(), w[0], w[1]]))
    for ang, na in ((30, 0.1), (55, 0.4), (0, 0.2), (55, 0.0)):
        for up in (True, False):
            cs.append(dict(k="b", s=["rp", ang, up, 2, na, 5 if na == 0.1 else 9, True], al=[0.0, 1 - 1e-9], _w=2))
            cs.append(dict(k="b", s=["rp", ang, up, 2, na, 6 if q else 7, False], al=[0.21, 0.58, 0.93], _w=5))
        cs.append(dict(k="b", s=["rs", 2, na, 9, True], al=[0.0, 1 - 1e-9], _w=2))
        cs.append(dict(k="b", s=["rs", 2, na, 6, False], al=[0.21, 0.58, 0.93], _w=3))
    for n in (9, 12):
        for r, off in ((0.5, 0), (0.3, 0), (0.45, 0.2)):
            for st in (1, 2.5):
                for up in (True, False):
                    cs.append(dict(k="b", s=["hemi", 1, n, r, off, 0, st, up]))
    cs.append(dict(k="b", s=["hemi", 3, 9, 1.2, 0.3, 0, 1, True]))
    cs.append(dict(k="b", s=["hemi", 1, 4, 0.2, 0, 0.3, 1, True], al=[0.0, 1 - 1e-9]))
    # one argument at a time, finely
    many = lambda l: cs.append(dict(k="many", list=l, _w=3))
    for up in (True, False):
        many([["pyr", a, up, 2] for a in (0.01, 0.5) + tuple(range(1, 90, 2 if q else 1)) + (44.99, 45.01, 89.5)])
        many([["pyr", 54.74, up, z] for z in SIZES])
        many([["rp", a, up, 2, 0.15, 16, True] for a in range(3, 85, 9)])
        many([["rp", 50, up, 2, 0.15, n, True] for n in range(4, 60, 3 if q else 1)])
        many([["rp", 50, up, z, 0.15, 9, True] for z in SIZES])
        many([["rp", 50, up, 2, 0.15, n, False] for n in range(4, 40, 5 if q else 1)])
        many([["hemi", 1, n, 0.4, 0.1, 0, 1, up] for n in range(5, 40, 3 if q else 1)])
        many([["hemi", z, 11, 0.4 * z, 0.1 * z, 0, 1, up] for z in SIZES])
        many([["hemi", 1, 11, r, 0, 0, 1, up] for r in np.arange(6, 50, 3 if q else 1) / 100])
        many([["hemi", 1, 11, 0.4, o / 40, 0, 1, up] for o in range(0, 12)])
        many([["hemi", 1, 11, 0.4, 0.1, 0, st / 5, up] for st in range(1, 20)])
    for d in "xy":
        many([["vg", a, 1, d] for a in (0.5,) + tuple(range(1, 90, 2 if q else 1)) + (45.01, 89.5)])
    many([["planar", z] for z in SIZES])
    many([["rs", 2, a / 20, 9, True] for a in range(1, 28, 3)] + [["rs", z, 0.2, 9, True] for z in SIZES]
         + [["rs", 2, 0.2, n, True] for n in range(4, 60, 5)] + [["rs", 2, 0.2, n, False] for n in range(4, 30, 4)])
    for nx in range(2, 9):
        l = []
        for ny in range(2, 9):
            Z = np.zeros((nx, ny))
            if min(nx, ny) > 2:
                Z[1:-1, 1:-1] = 0.1 * (1 + np.arange((nx - 2) * (ny - 2)) * 7 % 5).reshape(nx - 2, ny - 2)
            l += [["hgt", Z.tolist(), 2, 0.7], ["hgt", (3 * Z).tolist(), 0.7, 2], ["hgt", (-Z).tolist(), 1, 1]]
        many(l)
    many([["xyz", SQ + [[0.1 * i, 0.1 * j, 0.7]]] for i in range(1, 20, 2) for j in range(1, 20, 3)])
    many([["xyz", SQ + [[0.7, 1.2, 0.15 * i - 1.57]]] for i in range(21)])
    for n in (256, 1024) if q else (256, 1024, 4096):
        for R, h in ((1, 0), (1, 0.8), (1.6, 0.484), (2, 1.0), (1, -0.3)):
            cs.append(dict(k="s", n=n, R=R, h=h, _w=3))
    D = ([0.25, 1.0], [0.25, 0.75])
    P = (np.array(SQ, float) + [0, 0, 3]).tolist()
    for side in (0, 1):
        dep = 4 if q else 6
        cs.append(dict(k="h", s=["pyr", 50, True, 2], dist=D, side=side, depth=dep, _w=9))
        cs.append(dict(k="h", s=["pyr", 40, False, 1], dist=D, side=side, depth=dep, _w=9))
        cs.append(dict(k="h", s=["xyz", P + [[0.7, 1.2, 3.8]]], dist=D, side=side, depth=dep, _w=9))
        cs.append(dict(k="h", s=["xyz", P + [[1.2, 0.7, 2.4]]], dist=D, side=side, depth=dep, _w=9))
        cs.append(dict(k="h", s=["xyz", SQ + [[0.7, 1.2, 0.4], [1.3, 0.6, -0.7]]], dist=D, side=side, depth=dep, _w=9))
        cs.append(dict(k="h", s=["hemi", 1, 7, 0.4, 0.1, 0, 1, True], dist=D, side=side, depth=3 if q else 4, _w=9))
        cs.append(dict(k="h", s=["hgt", [[0, 0, 0], [0, 0.5, 0], [0, 0, 0]], 1, 2], dist=D, side=side, depth=3 if q else 5, _w=9))
        cs.append(dict(k="h", s=["vg", 40, 1, "y"], dist=D, side=side, depth=dep, _w=9))
        cs.append(dict(k="h", s=["pyr", 50, True, 2], dist=([], []), side=side, depth=dep, _w=5))
        cs.append(dict(k="h", s=["pyr", 50, True, 2], dist=([0.1, 0.5, 2.0], [0.5, 0.3, 0.2]), side=side, depth=3 if q else 5, _w=9))
    return cs


def run_case(case):
    import rayflare.textures, rayflare.ray_tracing, scipy.stats, scipy.spatial
    res = common.Result()
    dict(b=builder, many=many, s=sphere, h=history)[case["k"]](res, case)
    return res


if __name__ == "__main__":
    common.main(sys.modules[__name__])
