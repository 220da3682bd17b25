"""C18: rigorous coupled-wave analysis.  All structures of a family (lattices x layer sequences x shapes x media) x angles x
azimuths x polarisations are calculated with the real rcwa_structure and RCWA code and compared with the modal solver driven
independently (own set-up of the structure, own directions of the orders, own bins), and with planar optics."""
import sys, itertools
import numpy as np
import common
import planar as pl
import rcwalib as rl
from bins import Bins, SYM

PROPERTY = "C18"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of a bounded space of gratings, angles, polarisations, bin layouts and sides; every result "
             "and every column of every redistribution matrix made by the real code is compared with a reference model")
RULE = "distinct (structure, incidence) or (structure, bin layout, side) executed on the real code and compared with the reference"
ASSUMPTIONS = ["the Fourier modal solver (inkstone) is correct for the truncation used; it is driven independently in the reference",
               "S4 is not installed: only the inkstone route is executed",
               "light diffracted into an absorbing medium may be put in any bin of that hemisphere",
               "a direction on a bin edge may go to either neighbour", "transparent incidence medium"]
TH = [0.0, 0.35, 0.9]
PH = [0.0, 0.6, np.pi / 2, 2.5]
POL = ["s", "p", "u", (0.6, 0.8j)]
STACKS = {
    "p1": ("small", [("s", 90.0, "-")]), "p2": ("sq", [("g", 60.0, "-"), ("b", 151.0, "-")]),
    "p3": ("rect", [("m", 22.5, "-"), ("s", 130.0, "-"), ("g", 35.0, "-")]),
    "d": ("sq", [("s", 90.0, "disk")]), "do": ("rect", [("g", 60.0, "-"), ("s", 90.0, "off")]),
    "r": ("rect", [("s", 120.0, "rect"), ("b", 60.0, "-")]), "t": ("hex", [("s", 90.0, "turn"), ("b", 40.0, "-")]),
    "e": ("sq", [("b", 75.0, "ell"), ("w", 50.0, "-")]), "p": ("rect", [("s", 80.0, "poly"), ("b", 60.0, "-")]),
    "pc": ("sq", [("b", 50.0, "-"), ("s", 80.0, "polyc")]), "2": ("sq", [("s", 100.0, "two"), ("b", 30.0, "-")]),
    "dd": ("hex", [("s", 60.0, "disk"), ("b", 40.0, "-"), ("s", 70.0, "off")]), "cP": ("rect", [("s", 60.0, "polyc"), ("b", 40.0, "-"), ("s", 70.0, "off")]), "M": ("sq", [("g", 60.0, "-"), ("m", 40.0, "ell")]),
}
LAY = [("pi/2", 3, 0.5, "sin"), ("2pi", 2, 1.0, "linear"), ("pi", 3, 1e-6, "linear"), ("pi/4", 4, 0.25, "sin"), ("2pi/3", 2, 1.5, "sin")]


def cases(tier):
    med = ["aq", "qa", "ah", "qM"]
    cs = []
    for i, k in enumerate(STACKS):
        for j, m in enumerate(med):
            cs.append(dict(kind="direct", stack=k, media=m, orders=[1, 9][(i + j) % 2] if k[0] != "d" and tier == "quick" else 9, _w=2))
            lay = [LAY[(i + j) % len(LAY)], LAY[(i + 2 * j + 2) % len(LAY)]] if tier == "quick" else LAY
            for l in lay:
                cs.append(dict(kind="matrix", stack=k, media=m, lay=list(l), _w=4))
    for k in ("p2", "do", "r", "dd"):
        for m in ("aq", "qa"):
            cs.append(dict(kind="profile", stack=k, media=m))
    for i, k in enumerate(STACKS):
        for j, m in enumerate(med if tier != "quick" else ("aq", "qM")):
            cs.append(dict(kind="maps", stack=k, media=m, _w=2))
    # one argument at a time, finely
    q = tier == "quick"
    def fine(l, **d):
        for i in range(0, len(l), 8):
            cs.append(dict(kind="fine", list=[{**dict(stack="r", media="aq", th=0.35, ph=0.6, pol="s", orders=5), **d, **x} for x in l[i:i + 8]], _w=3))
    for k in ("r", "t", "p3"):
        for m in ("aq", "qa"):
            fine([dict(th=round(0.02 * i, 3), pol="sp"[i % 2]) for i in range(0, 78, 3 if q else 1)], stack=k, media=m)
            fine([dict(ph=round(-3.2 + 0.1 * i, 3), pol="ps"[i % 2]) for i in range(0, 100, 5 if q else 1)], stack=k, media=m)
    fine([dict(orders=n, pol=p) for n in list(range(1, 32, 2)) + ([] if q else [37, 45, 61]) for p in "sp"], stack="do")
    fine([dict(orders=n, pol="u") for n in range(1, 32, 3)], stack="t", media="qa")
    fine([dict(pol=(round(np.cos(a), 6), round(np.sin(a), 6))) for a in np.arange(0, 3.2, 0.2)], stack="r")
    fine([dict(pol=(0.6, [0.8 * np.cos(a), 0.8 * np.sin(a)])) for a in np.arange(0, 6.3, 0.4)], stack="t")
    for j in range(2):
        fine([dict(scale=[j, f]) for f in (0.01, 0.03, 0.1, 0.2, 0.4, 0.6, 0.8, 1.1, 1.3, 1.7, 2.2, 3, 4, 6, 9, 20)], stack="r", pol="p")
    fine([dict(wl=[300.0 + 31 * i, 315.0 + 29 * i], pol="sp"[i % 2]) for i in range(0, 28, 2 if q else 1)], stack="r")
    fine([dict(wl=[500.0 + 7 * i for i in range(n)], orders=1) for n in (1, 2, 4, 5, 8, 9, 13, 24)], stack="p2")
    fine([dict(many=n, pol="sp"[n % 2]) for n in range(1, 9)], orders=3)
    fine([dict(size=[0.5 + 0.1 * i, 1.0], orders=9) for i in range(14)], stack="r")
    fine([dict(size=[1.0, 0.6 + 0.1 * i], orders=9) for i in range(14)], stack="r", media="qa")
    for k, m in (("r", "aq"), ("t", "qa")):
        L = [("2pi", n, c, "sin") for n in (1, 5, 8, 12) for c in (0.5, 1e-6)] + [(y, 3, 0.5, "linear") for y in SYM] + [("pi/2", 2, c / 10, "sin") for c in range(1, 30, 6)]
        for l in L[::2 if q else 1]:
            cs.append(dict(kind="matrix", stack=k, media=m, lay=list(l), orders=5, wl=1, _w=6))
    for m in ("aa", "qq"):
        cs.append(dict(kind="nothing", media=m))
    return cs


def opt(**k):
    from rayflare.options import default_options
    o = default_options()
    o.update(dict(wavelength=pl.WLS, theta_in=0.0, phi_in=0.0, pol="s", RCWA_method="inkstone", parallel=False, orders=9,
                  depth_spacing=10e-9))
    o.update(k)
    return o


_s = {}


def solver(stack, media, size, orders, wl):
    k = (tuple(stack), media, size, orders, wl)
    if k not in _s:
        _s[k] = rl.Solver(stack, media, size, orders, wl)
    return _s[k]


def direct(res, case):
    from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
    lat, stack = STACKS[case["stack"]]
    size, media, orders = rl.LAT[lat], case["media"], case["orders"]
    planar = all(x[2] == "-" for x in stack)
    st = rcwa_structure(rl.layers(stack), size, opt(orders=orders), pl.MATS[media[0]], pl.MATS[media[1]])
    for th, ph, pol in itertools.product(TH, PH, POL):
        if th == 0 and ph > 1:
            continue
        o = st.calculate(opt(theta_in=th, phi_in=ph, pol=pol, orders=orders))
        R, T, A = (np.asarray(o[k]) for k in ("R", "T", "A_per_layer"))
        sig = "%s %s th=%.2f ph=%.2f pol=%s orders=%d" % (case["stack"], media, th, ph, pol if isinstance(pol, str) else "sp", orders)
        res.execs += 1
        res.traces += 1
        res.seen(sig)
        if not res.check(R.shape == (3,) and A.shape == (3, len(stack)), "result shapes %s %s" % (R.shape, A.shape), sig):
            continue
        res.check((R > -1e-9).all() and (T > -1e-9).all() and (A > -1e-9).all(), "negative R, T or A", sig, R=R, T=T, A=A)
        for w, wl in enumerate(pl.NM):
            e = solver(stack, media, size, orders, wl).calc(th, ph, pol)
            res.states += 1
            res.check(abs(R[w] + T[w] + A[w].sum() - 1) < 1e-7 - e[6], "R, T and absorption do not add up to 1", sig + " %g" % wl,
                      R=R[w], T=T[w], A=A[w])
            res.check(abs(R[w] - e[0]) < 1e-7 and abs(T[w] - e[1]) < 1e-7 and np.abs(A[w] - e[2]).max() < 1e-7,
                      "differs from the solver driven directly at %g nm" % wl, sig, R=[R[w], e[0]], T=[T[w], e[1]], A=[A[w], e[2]])
            if planar and not pl.tir(media, th, wl):
                if isinstance(pol, str):
                    r = pl.ref(pol, [x[:2] for x in stack], media, th, wl)
                else:
                    a, b = (pl.ref(q, [x[:2] for x in stack], media, th, wl) for q in "sp")
                    r = [x * abs(pol[0]) ** 2 + y * abs(pol[1]) ** 2 for x, y in zip(a, b)]
                res.check(abs(R[w] - r[0]) < 1e-6 and abs(T[w] - r[1]) < 1e-6 and np.abs(A[w] - r[2]).max() < 1e-6,
                          "differs from planar optics at %g nm" % wl, sig, R=[R[w], r[0]], T=[T[w], r[1]], A=[A[w], r[2]])


def fine(res, case):
    """one structure and direction each: a finer scan of every argument than in `direct`"""
    from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
    for d in case["list"]:
        lat, stack = STACKS[d["stack"]]
        stack = [list(x) for x in stack]
        if "many" in d:
            stack = [[("g", "b", "s", "w")[i % 4], 30.0 + 11 * i, ("rect" if i % 3 == 1 else "-")] for i in range(d["many"])]
        if "scale" in d:
            stack[d["scale"][0]][1] *= d["scale"][1]
        stack = [tuple(x) for x in stack]
        size = rl.LAT[lat]
        if "size" in d:
            size = tuple(tuple(x * f for x in v) for v, f in zip(size, d["size"]))
        media, orders, th, ph = d["media"], d["orders"], d["th"], d["ph"]
        pol = d["pol"] if isinstance(d["pol"], str) else tuple(complex(*x) if isinstance(x, (list, tuple)) else x for x in d["pol"])
        wls = np.array(d.get("wl", [pl.NM[1]])) * 1e-9
        o = opt(theta_in=th, phi_in=ph, pol=pol, orders=orders, wavelength=wls)
        sig = "fine " + " ".join("%s=%s" % x for x in sorted(d.items()))
        st = rcwa_structure(rl.layers(stack), size, o, pl.MATS[media[0]], pl.MATS[media[1]])
        r = st.calculate(o)
        R, T, A = (np.asarray(r[k]) for k in ("R", "T", "A_per_layer"))
        res.execs += 1
        res.traces += 1
        res.seen(sig)
        if not res.check(R.shape == (len(wls),) and A.shape == (len(wls), len(stack)), "result shapes %s %s" % (R.shape, A.shape), sig):
            continue
        for w, wl in enumerate(wls * 1e9):
            e = rl.Solver(stack, media, size, orders, wl).calc(th, ph, pol)
            res.states += 1
            res.check(abs(R[w] + T[w] + A[w].sum() - 1) < 1e-7 - e[6], "R, T and absorption do not add up to 1", sig, R=R[w], T=T[w], A=A[w])
            res.check(abs(R[w] - e[0]) < 1e-7 and abs(T[w] - e[1]) < 1e-7 and np.abs(A[w] - e[2]).max() < 1e-7,
                      "differs from the solver driven directly at %g nm" % wl, sig, R=[R[w], e[0]], T=[T[w], e[1]], A=[A[w], e[2]])


def dense(m):
    return np.asarray(m.todense())


def within(res, col, items, bins, what, sig):
    """power items [(power, set of allowed bins)] against the part `bins` of a column: exact total, per-bin bounds"""
    lo, hi = {}, {}
    for p, s in items:
        for q in s:
            hi[q] = hi.get(q, 0) + p
        if len(s) == 1:
            q = next(iter(s))
            lo[q] = lo.get(q, 0) + p
    tot = sum(p for p, s in items)
    got = {int(q): float(col[q]) for q in bins if col[q] != 0}
    ok = abs(sum(got.values()) - tot) < 1e-7
    res.check(ok, what + ": power", sig, got=sum(got.values()), want=tot)
    for q in set(got) | set(lo):
        res.check(lo.get(q, 0) - 1e-7 <= got.get(q, 0) <= hi.get(q, 0) + 1e-7, what + ": direction", sig, bin=q, got=got,
                  want={str(sorted(s)): p for p, s in items})


def matrix(res, case):
    from rayflare.rigorous_coupled_wave_analysis import RCWA
    lat, stack = STACKS[case["stack"]]
    size, media = rl.LAT[lat], case["media"]
    s, n, c, sp = case["lay"]
    b = Bins(n, SYM[s], c, sp)
    orders = case.get("orders", 9)
    nm = list(pl.NM)[:case.get("wl", 3)]
    up, dn = list(range(b.na)), list(range(b.na, 2 * b.na))
    for side, pol in itertools.product(("front", "rear"), ("s", "u") if case["stack"] in "pcre" else ("p", "u")):
        st, md = (stack, media) if side == "front" else (stack[::-1], media[::-1])
        if pl.nk(md[0], 600e-9).imag > 1e-3:
            continue
        o = opt(pol=pol, wavelength=np.array(nm) * 1e-9, n_theta_bins=n, phi_symmetry=SYM[s], c_azimuth=c, theta_spacing=sp)
        M, A = RCWA(rl.layers(stack), size, orders, o, "nowhere", pl.MATS[media[0]], pl.MATS[media[1]], front_or_rear=side, save=False)
        M, A = dense(M), dense(A)
        sig = "%s %s %s %s %s" % (case["stack"], media, case["lay"], side, pol)
        res.execs += 1
        res.traces += 1
        res.seen(sig)
        if not res.check(M.shape == (len(nm), 2 * b.na, b.na) and A.shape == (len(nm), len(stack), b.na), "shapes %s %s" % (M.shape, A.shape), sig):
            continue
        res.check(np.isfinite(M).all() and (M > -1e-9).all() and (A > -1e-9).all(), "negative power or not a number", sig)
        own, oth = (up, dn) if side == "front" else (dn, up)
        offs = [0.0] if SYM[s] < 3.3 and abs(np.pi / SYM[s] - round(np.pi / SYM[s])) < 1e-9 else [0.0, np.pi]
        best = None
        for off in offs:
            r = common.Result()
            for w, wl in enumerate(nm):
                sol = solver(st, md, size, orders, wl)
                for j in range(b.na):
                    g = j if side == "front" else b.na + j
                    th = b.th[g] if side == "front" else np.pi - b.th[g]
                    R, T, Al, idx, Ro, To, neg = sol.calc(th, b.ph[g], pol)
                    Al = Al if side == "front" else Al[::-1]
                    kx, ky, tr, tt, az = sol.directions(th, b.ph[g], idx)
                    sg = sig + " %g bin=%d" % (wl, j)
                    r.states += 1
                    col = M[w, :, j]
                    r.check(abs(col.sum() + A[w, :, j].sum() - 1) < 1e-7 - neg, "column does not add up to 1", sg,
                            sum=col.sum() + A[w, :, j].sum())
                    r.check(np.abs(A[w, :, j] - Al).max() < 1e-7, "absorption per layer", sg, A=[A[w, :, j], Al])
                    items = [[], []]
                    for q in range(len(idx)):
                        if abs(Ro[q]) > 1e-12 and np.isfinite(tr[q]):
                            t = tr[q] if side == "front" else np.pi - tr[q]
                            items[0].append((Ro[q], find(b, t, az[q] + off)))
                        if abs(To[q]) > 1e-12:
                            if sol.n_out.imag > 1e-6 or not np.isfinite(tt[q]):
                                items[1].append((To[q], set(oth)))
                            else:
                                t = np.pi - tt[q] if side == "front" else tt[q]
                                items[1].append((To[q], find(b, t, az[q] + off)))
                    within(r, col, items[0], own, "reflected orders", sg)
                    within(r, col, items[1], oth, "transmitted orders", sg)
            if best is None or len(r.viol) < len(best.viol):
                best = r
        res.viol += best.viol
        res.transitions += best.transitions
        res.states += best.states


def find(b, th, ph):
    if th < 1e-6 or th > np.pi - 1e-6:
        i = 0 if th < 1 else 2 * b.n - 1
        return set(range(int(b.start[i]), int(b.start[i + 1])))
    return b.find(th, ph, 1e-6)


def profile(res, case):
    """depth profiles in the matrices and of the direct calculation"""
    from rayflare.rigorous_coupled_wave_analysis import RCWA, rcwa_structure
    lat, stack = STACKS[case["stack"]]
    size, media = rl.LAT[lat], case["media"]
    b = Bins(2, SYM["pi/2"], 1e-6, "sin")
    dz = 7.0
    edges = np.cumsum([0.0] + [x[1] for x in stack])
    grid = np.arange(0, edges[-1] - 1e-9, dz)
    wls = pl.WLS[:2]
    for pol in "su":
        for th in (0.35, 0.9):
            o = opt(theta_in=th, phi_in=0.6, pol=pol, depth_spacing=dz * 1e-9, wavelength=wls)
            s = rcwa_structure(rl.layers(stack), size, o, pl.MATS[media[0]], pl.MATS[media[1]])
            r = s.calculate_profile(o)
            sig = "%s %s direct th=%.2f %s" % (case["stack"], media, th, pol)
            res.execs += 1
            res.traces += 1
            res.seen(sig)
            p = np.asarray(r["profile"])
            if res.check(p.shape == (2, len(grid)), "profile shape %s" % (p.shape,), sig):
                for w in range(2):
                    e = solver(stack, media, size, 9, pl.NM[w]).profile(th, 0.6, pol, grid)
                    res.states += len(grid)
                    res.check(np.abs(p[w] - e).max() < 2e-6 + 1e-3 * e.max(), "profile differs from the solver driven directly", sig,
                              got=p[w], want=e)
        subsets = [list(q) for k in range(1, len(stack) + 1) for q in itertools.combinations(range(1, len(stack) + 1), k)]
        for lay, side in itertools.product(subsets, ("front", "rear")):
            o = opt(pol=pol, n_theta_bins=2, phi_symmetry=SYM["pi/2"], c_azimuth=1e-6, theta_spacing="sin", wavelength=wls,
                    depth_spacing=dz * 1e-9)
            M, A, P = RCWA(rl.layers(stack), size, 9, o, "nowhere", pl.MATS[media[0]], pl.MATS[media[1]], front_or_rear=side,
                           prof_layers=list(lay), save=False)
            A = dense(A)
            sig = "%s %s matrix %s %s %s" % (case["stack"], media, side, lay, pol)
            res.execs += 1
            res.traces += 1
            res.seen(sig)
            z = np.concatenate([grid[(grid >= edges[l - 1]) & (grid < edges[l])] for l in lay])
            p = np.asarray(P["profile"].transpose("wl", "z", "global_index"))
            res.check(np.abs(np.asarray(P["intgr"].transpose("wl", "global_index")) - A.sum(1)).max() < 1e-9,
                      "total absorption stored with the profiles", sig)
            if not res.check(p.shape == (2, len(z), b.na), "profile shape %s" % (p.shape,), sig):
                continue
            st, md = (stack, media) if side == "front" else (stack[::-1], media[::-1])
            for w in range(2):
                for j in range(b.na):
                    g = j if side == "front" else b.na + j
                    th = b.th[g] if side == "front" else np.pi - b.th[g]
                    # points on an interface belong to the layer below it (seen from the front)
                    zz = z if side == "front" else edges[-1] - z - 1e-6
                    e = solver(st, md, size, 9, pl.NM[w]).profile(th, b.ph[g], pol, zz)
                    res.states += len(z)
                    res.check(np.abs(p[w, :, j] - e).max() < 2e-6 + 1e-3 * e.max(), "profile differs from the solver driven directly",
                              sig + " %d" % j, got=p[w, :, j], want=e)


def points(X, Y, C):
    """grid -> list of (x, y, value); 1-d coordinates: first index is x"""
    X, Y, C = np.asarray(X), np.asarray(Y), np.asarray(C)
    if X.ndim == 1:
        X, Y = np.meshgrid(X, Y, indexing="ij")
    n = X.size
    return X.ravel(), Y.ravel(), C.reshape(n, -1)


def maps(res, case):
    """dielectric function and fields on a grid: those of the independently driven solver, point by point"""
    from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
    from matplotlib.axes import Axes
    import matplotlib.pyplot as plt
    lat, stack = STACKS[case["stack"]]
    size, media = rl.LAT[lat], case["media"]
    no = 9
    ref = solver(stack, media, size, no, pl.NM[1])
    names = ["top"] + ref.names
    drawn = []
    keep = Axes.pcolormesh, plt.show

    def record(self, *a, **k):
        if len(a) > 2 and np.size(a[2]) <= 25:            # not the colour bars
            drawn.append([np.array(x) for x in a[:3]])
        return keep[0](self, *a, **k)
    for th, ph, pol in [(0.35, 0.6, "s"), (0.9, 2.5, "p"), (0.0, 0.0, (0.6, 0.8j))]:
        o = opt(theta_in=th, phi_in=ph, pol=pol, orders=no, wavelength=pl.WLS)
        s = rcwa_structure(rl.layers(stack), size, o, pl.MATS[media[0]], pl.MATS[media[1]])
        ref.excite(th, ph, (1, 0) if pol == "s" else (0, 1) if pol == "p" else pol)
        for l in range(len(stack) + 2):
            sig = "%s %s maps layer %d th=%.2f" % (case["stack"], media, l, th)
            res.seen(sig)
            res.execs += 2
            res.traces += 2
            Axes.pcolormesh, plt.show = record, lambda *a, **k: None
            try:
                del drawn[:]
                xs, ys, ar, ai = s.get_fourier_epsilon(l, pl.NM[1], o, n_points=5, plot=th == 0.35)
                de = list(drawn)
                del drawn[:]
                X, Y = [[-130.0, 210.0], [-60.0, 170.0]]
                depth = 11.0 if l else 3.0
                fx, fy, E, H, Em, Hm = s.get_fields(l, pl.NM[1], o, extent=[X, Y], depth=depth, n_points=4, plot=th == 0.35)
                df = list(drawn)
            finally:
                Axes.pcolormesh, plt.show = keep
                plt.close("all")
            # dielectric function: the Fourier series is evaluated at the same points
            rx, ry, re, _ = ref.S.ReconstructLayer(names[l], 5, 5)
            want = {(round(float(x), 4), round(float(y), 4)): v for x, y, v in zip(np.ravel(rx), np.ravel(ry), re[:, :, 0, 0].ravel())}
            x, y, c = points(xs, ys, np.asarray(ar) + 1j * np.asarray(ai))
            res.check(all(abs(want.get((round(float(a), 4), round(float(b), 4)), 1e9) - v[0]) < 1e-6 for a, b, v in zip(x, y, c)),
                      "dielectric function is not that at the points reported", sig)
            # fields, one point at a time
            x, y, e = points(fx, fy, np.concatenate([E, H], 2))
            res.check(np.abs(np.unique(x) - np.linspace(*X, 4)).max() < 1e-9 and np.abs(np.unique(y) - np.linspace(*Y, 4)).max() < 1e-9,
                      "fields are not on the grid asked for", sig)
            f = np.array([np.ravel(q) for q in ref.S.GetLayerFieldsListPoints(names[l], list(zip(x, y)), [depth])]).T
            tol = 1e-6 * max(1, np.abs(f).max())
            res.check(np.abs(e - f).max() < tol, "fields are not those at the points reported", sig, got=e[1], want=f[1])
            for mag, q in ((Em, f[:, :3]), (Hm, f[:, 3:])):
                res.check(np.abs(points(fx, fy, mag)[2][:, 0] - np.sqrt((np.abs(q) ** 2).sum(1))).max() < tol,
                          "magnitude of the field", sig)
            res.states += len(x) + len(c)
            # what is drawn
            if th == 0.35:
                for d, part in zip(de, (np.real, np.imag)):
                    px, py = np.meshgrid(d[0], d[1]) if d[0].ndim == 1 else d[:2]
                    res.check(d[2].shape == px.shape and all(
                        abs(part(want.get((round(float(a), 4), round(float(b), 4)), 1e9)) - v) < 1e-6
                        for a, b, v in zip(px.ravel(), py.ravel(), d[2].ravel())), "dielectric function is drawn at other points", sig)
                at = {(round(float(a), 4), round(float(b), 4)): v for a, b, v in zip(x, y, f)}
                for d, sl in zip(df, (slice(0, 3), slice(3, 6))):
                    px, py = np.meshgrid(d[0], d[1]) if d[0].ndim == 1 else d[:2]
                    res.check(d[2].shape == px.shape and all(
                        abs(np.sqrt((np.abs(at[round(float(a), 4), round(float(b), 4)][sl]) ** 2).sum()) - v) < tol
                        for a, b, v in zip(px.ravel(), py.ravel(), d[2].ravel())), "field is drawn at other points", sig)
            # in a layer without pattern the absorbed power density follows from the field
            if 0 < l <= len(stack) and stack[l - 1][2] == "-" and all(q[2] == "-" for q in stack):
                nk = pl.nk(stack[l - 1][0], pl.WLS[1])
                p = 2 * np.pi / pl.NM[1] * (nk ** 2).imag * np.mean(np.asarray(Em) ** 2) / (pl.nk(media[0], pl.WLS[1]).real * np.cos(th))
                pp = pol if pol in ("s", "p") else "u"
                if pp != "u":
                    z = sum(q[1] for q in stack[:l - 1]) + depth
                    w = ref.profile(th, ph, pp, np.array([z]))[0]
                    ref.excite(th, ph, (1, 0) if pol == "s" else (0, 1))
                    res.check(abs(p - w) < 2e-6 + 3e-3 * w, "field does not give the absorption", sig, got=p, want=w)


def nothing(res, case):
    """an index-matched film: no reflection at all"""
    from rayflare.rigorous_coupled_wave_analysis import RCWA
    c = case["media"][0]
    for side in ("front", "rear"):
        o = opt(pol="u", n_theta_bins=3, phi_symmetry=np.pi / 2, c_azimuth=0.5)
        M, A = RCWA(rl.layers([(c, 50.0, "-")]), rl.LAT["small"], 1, o, "nowhere", pl.MATS[c], pl.MATS[c], front_or_rear=side, save=False)
        s = dense(M).sum(1) + dense(A).sum(1)
        res.execs += 1
        res.traces += 1
        res.states += s.size
        res.check(np.isfinite(s).all() and np.abs(s - 1).max() < 1e-9, "matrix of an index-matched film does not add up to 1",
                  "nothing " + case["media"], sums=s)


def run_case(case):
    res = common.Result()
    _s.clear()
    dict(direct=direct, matrix=matrix, fine=fine, profile=profile, nothing=nothing, maps=maps)[case["kind"]](res, case)
    return res


if __name__ == "__main__":
    common.main(sys.modules[__name__])
