"""C09: depth profiles in the matrix formalism.  (a) synthetic matrices and profiles, all combinations, every pass compared
with the dense model; (b) planar interfaces end to end (process_structure, calculate_RAT), every pass compared point by point
with the reference transfer-matrix profile; (c) ray-traced interfaces: every decision path, the stored profile of every
incidence bin integrated and compared with the stored absorption of the profiled layers."""
import sys, os, itertools
import numpy as np
import common
import planar as pl
from bins import Bins, SYM
from mflib import *
from rtlib import *

PROPERTY = "C09"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of matrix/profile combinations, planar stacks, profiled-layer subsets, sides and (for "
             "ray-traced interfaces) all random decision paths, compared pass by pass with a reference model")
RULE = "distinct (structure, layout, absorption, incidence, profiled layers, pass) whose profile was compared with the reference"
ASSUMPTIONS = ["profiles are sampled on the depth grid; integrals agree within that discretisation", "local angles of incidence on "
               "ray-traced facets are resolved by the angular bins"]
WL2 = np.array([500e-9, 620e-9])
LAYS = [(1, "pi/2", 1e-6), (2, "pi", 1.0), (3, "pi/2", 0.5), (2, "2pi", 2.0)]
SETTINGS = [(True, None, None), (False, [1, 2], None), (True, [2], [1, 3]), (False, None, [2]), (True, None, [1, 2, 3]), (False, [1], [3])]
ALPHA = [[0.0, 2e4], [3e5, 2e4], [0.0, 0.0], [1e3, 6e5]]


def cases(tier):
    cs = []
    F = ["clear", "mirror", "half", "scatter", "perm"]
    R = ["half", "scatter", "rough", "black"]
    B = ["clear", "half", "scatter", "mirror", "black"]
    for i, (f, r, b) in enumerate(itertools.product(F, R, B)):
        cs.append(dict(k="syn", f=f, r=r, b=b, i=i, all=tier != "quick"))
    # fine values of one parameter at a time
    for f, r, b in (("half", "scatter", "mirror"), ("scatter", "half", "scatter"), ("clear", "rough", "half")):
        for par in ("dz", "wl", "bins", "thresh", "alpha", "width", "th", "nz"):
            cs.append(dict(k="fine", f=f, r=r, b=b, par=par))
    for f in ("b", "gb", "bgs", "sm"):
        for r in ("b", "bg", None):
            for m in ("asa", "qsa", "aha"):
                cs.append(dict(k="tmm", f=f, r=r, m=m, all=tier != "quick", _w=4))
    for s in ("spl", "sup", "sinv", "soff", "stwo"):
        for side in ("front", "rear"):
            for prof in ([1, 2, 3], [1], [2, 3]) if s != "spl" else ([1, 2, 3], [1], [2], [3], [1, 2], [1, 3], [2, 3]):
                cs.append(dict(k="rt", s=s, side=side, prof=prof, all=tier != "quick"))
    return cs


class Alpha(Mat):
    def __init__(self, n, al):
        self.al = np.asarray(al, float)
        super().__init__(n, 0.0, name="alpha")

    def alpha(self, wl):
        return self.al.copy()


def named(prof, n):
    """profiles by interface number"""
    return {int(str(p.name)[-1]): p for p in prof}


def bulk_check(res, got, ref, al, b, w, dz, sig):
    """bulk profile per pass and in total"""
    z = np.arange(0, w, dz)
    per = np.asarray(got[1]["A_prof"][0])
    n = ref["n"]
    if not res.check(per.shape == (2 * n, len(al), len(z)), "bulk profile per pass: shape %s" % (per.shape,), sig, want=[2 * n, len(al), len(z)]):
        return
    cos = abs(np.cos(b.th[:b.na]))
    res.check(np.isfinite(per).all() and (per >= -1e-9).all(), "negative or undefined bulk profile", sig, worst=float(np.nanmin(per)))
    for p in range(2 * n):
        x, y = ref["dn"][p // 2] if p % 2 == 0 else ref["up"][p // 2]
        A = (x - y).sum(1)
        I = np.trapz(per[p], z, axis=1)
        res.check(np.abs(I - A).max() < 1e-9 + 1e-6 * A.max(), "bulk profile of a pass does not integrate to the absorption of the pass", sig,
                  pas=p, got=I, want=A)
        for i, a in enumerate(al):
            f = lambda d: ((a / cos)[None] * x[i][None] * np.exp(-a * d[:, None] / cos[None])).sum(1)
            if A[i] < 1e-9:
                res.check(np.abs(per[p, i]).max() < 1e-3 + A[i] / dz, "bulk profile where nothing is absorbed", sig)
                continue
            e = f(z)
            e = e * A[i] / np.trapz(e, z)
            if p % 2 == 0:
                res.check(np.abs(per[p, i] - e).max() <= 1e-6 * e.max(), "bulk profile of a downward pass", sig, pas=p)
            else:
                # measured from the rear; the grid is not symmetric, so within one step
                lo, hi = f(np.minimum(w - z + dz, w + dz)), f(np.maximum(w - z - dz, -dz))
                s = A[i] / np.trapz(f(w - z), z)
                res.check((per[p, i] <= 1.05 * s * hi * (hi.max() / lo.max()) + 1e-9).all() and (per[p, i] >= 0.95 * s * lo * (lo.max() / hi.max()) - 1e-9).all(),
                          "bulk profile of an upward pass is not measured from the rear", sig, pas=p, got=per[p, i][[0, -1]],
                          want=[s * lo[0], s * hi[-1]])
    tot = np.asarray(got[3][0])
    e = per.sum(0) if n else np.zeros((len(al), len(z)))
    res.check(tot.shape == e.shape and np.abs(tot - e).max() <= 1e-9 * (1 + e.max()), "bulk profile is not the sum over the passes", sig)
    res.check(np.abs(np.trapz(tot, z, axis=1) - got[0]["A_bulk"].data[0]).max() < 1e-6, "bulk profile does not integrate to A_bulk", sig,
              got=np.trapz(tot, z, axis=1), want=got[0]["A_bulk"].data[0])


def syn(res, case):
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.matrix_formalism import calculate_RAT
    from solcore.structure import Layer
    full, ci = case["all"], case["i"]
    w = 1e-5
    for li, lay in enumerate(LAYS):
        if not full and li != ci % 4:
            continue
        n, sym, c = lay
        b = Bins(n, SYM[sym], c)
        d = common.fresh_dir("mp")
        proj = os.path.join(d, "proj")
        M = dict(fF=family(b, case["f"], 2, 2, "front"), fR=family(b, case["r"], 2, 2, "rear"), rF=family(b, case["b"], 2, 3, "front"))
        prof = {}
        for q, (key, nm, side) in enumerate((("fF", "f", "front"), ("fR", "f", "rear"), ("rF", "b", "front"))):
            nz = 6 if key[0] == "f" else 5
            At = M[key][1].sum(1)                                       # (wl, in)
            sh = 1 + ((np.arange(nz)[:, None] * (q + 2) + np.arange(b.na)[None]) % 5)     # differs per depth and bin
            P = At[:, None] * (sh / sh.sum(0))[None]
            f = 1.0 if ci % 2 else 0.5 + 0.1 * np.arange(b.na)[None]    # ray tracing stores them for another normalisation
            prof[key] = P
            write(proj, nm, side, M[key][0], M[key][1], prof=P * np.asarray(f)[..., None, :] if ci % 2 == 0 else P, intgr=At * f, z=np.arange(float(nz)), wl=WL2)
        for ai, al in enumerate(ALPHA):
            bulk = BulkLayer(w, Alpha(3.0, al), name="bulk")
            for si, (bp, pf, pb) in enumerate(SETTINGS):
                if not full and (si + ai + ci) % 2:
                    continue
                k = (ci + si + ai) % b.na
                for th, ph, v in [(float(b.th[k]), float(b.ph[k]), np.eye(b.na)[k])]:
                    m = Model(b, M, al, w, np.array([v, v]))
                    thresh = 1e-2
                    try:
                        m.run(thresh, limit=25)
                    except RuntimeError:
                        continue
                    SC = Structure([Interface("TMM", layers=[Layer(1e-9, Mat(2.0))] * 2, name="f", coherent=True, prof_layers=pf), bulk,
                                    Interface("TMM", layers=[Layer(1e-9, Mat(2.0))] * 3, name="b", coherent=True, prof_layers=pb)],
                                   incidence=Mat(1.0), transmission=Mat(1.0))
                    dz = 1e-7
                    o = opts(wavelength=WL2, n_theta_bins=n, phi_symmetry=SYM[sym], c_azimuth=c, theta_in=th, phi_in=ph, I_thresh=thresh,
                             bulk_profile=bp, project_name="proj", depth_spacing_bulk=dz)
                    sig = "%s/%s/%s %s al=%s th=%.3f prof=%s" % (case["f"], case["r"], case["b"], lay, al, th, (bp, pf, pb))
                    got = calculate_RAT(SC, o, save_location=d)
                    res.execs += 1
                    res.seen(sig)
                    if not res.check(len(got) == 4, "no profiles returned", sig):
                        continue
                    ref = m.run(thresh, len(got[1]["r"][0]) - 1)
                    res.states += ref["n"] + 1
                    res.traces += 1
                    if bp:
                        bulk_check(res, got, ref, al, b, w, dz, sig)
                    by = named(got[2], 2)
                    res.check(sorted(by) == [j for j, q in enumerate((pf, pb)) if q], "profiles returned for other interfaces than requested", sig)
                    for j, q in enumerate((pf, pb)):
                        if not q:
                            continue
                        if j == 0:
                            e = [np.einsum("wzi,wi->wz", prof["fF" if s == "front" else "fR"], x) for s, x in ref["in0"]]
                        else:
                            e = [np.einsum("wzi,wi->wz", prof["rF"], x) for x in ref["in1"]]
                        e = np.array(e)
                        g = np.asarray(got[1]["a_prof"][j])
                        if ref["n"] == 0 and j == 1:
                            continue
                        res.check(g.shape == e.shape and np.abs(g - e).max() < 1e-10, "interface profile of a pass differs from the model", sig,
                                  interface=j, shape=[g.shape, e.shape])
                        t = np.asarray(by[j].data)
                        res.check(t.shape == e.shape[1:] and np.abs(t - e.sum(0)).max() < 1e-9, "interface profile is not the sum over the passes",
                                  sig, interface=j)
                        tot = np.sum(ref["a0"] if j == 0 else ref["a1"], axis=(0, 2))
                        res.check(np.abs(t.sum(1) - tot).max() < 1e-9, "interface profile does not add up to the absorption", sig, interface=j)
        common.rmdir(d)


def variants(case):
    import c08_passes
    p, f = case["par"], 1 if common.TIER == "quick" else 4
    d = dict(lay=(3, "pi/2", 0.5), nw=2, thresh=1e-3, al=[2e4, 3e5], width=1e-5, th=0.5, ph=0.4, nz=(6, 5))
    if p == "dz":
        for n in [7, 20, 33, 50, 64, 99, 100, 101, 127, 128, 200, 256, 333, 500, 512, 1000, 1999, 3000]:
            yield n, dict(d, dz=1e-5 / (n - 0.37))
    elif p == "nz":
        for n in (2, 3, 7, 10, 31, 64, 100, 257, 1000):
            yield n, dict(d, nz=(n, n + 3))
    elif p == "alpha":                        # weak enough for the depth grid
        for a in [0.0] + list(np.logspace(-3, 6.2, 16 * f)):
            yield "%.3g" % a, dict(d, al=[float(a), float(a) / 3])
    elif p == "width":
        for a in np.logspace(-8, -3, 16 * f):
            yield "%.3g" % a, dict(d, width=float(a), al=[0.2 / a, 3 / a])
    else:
        for label, c in c08_passes.variants(case):
            yield label, dict(d, **{k: v for k, v in c.items() if k != "nl"})


def fine(res, case):
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.matrix_formalism import calculate_RAT
    from solcore.structure import Layer
    for vi, (label, c) in enumerate(variants(case)):
        n, sym, caz = c["lay"]
        b, nw, w = Bins(n, SYM[sym], caz), c["nw"], c["width"]
        fits = b.find(c["th"], c["ph"])
        if len(fits) != 1:
            continue
        d = common.fresh_dir("mp")
        try:
            proj = os.path.join(d, "proj")
            M = dict(fF=family(b, case["f"], nw, 2, "front"), fR=family(b, case["r"], nw, 2, "rear"), rF=family(b, case["b"], nw, 3, "front"))
            wls = np.linspace(400e-9, 900e-9, nw) if nw > 1 else np.array([500e-9])
            prof = {}
            for q, (key, nm, side) in enumerate((("fF", "f", "front"), ("fR", "f", "rear"), ("rF", "b", "front"))):
                nz = c["nz"][key[0] != "f"]
                At = M[key][1].sum(1)
                sh = 1 + ((np.arange(nz)[:, None] * (q + 2) + np.arange(b.na)[None]) % 5)
                prof[key] = At[:, None] * (sh / sh.sum(0))[None]
                write(proj, nm, side, M[key][0], M[key][1], prof=prof[key], intgr=At, z=np.arange(float(nz)), wl=wls)
            v = np.eye(b.na)[fits.pop()]
            m = Model(b, M, c["al"], w, np.array([v] * nw))
            try:
                m.run(c["thresh"], limit=40)
            except RuntimeError:
                continue
            for bp, pf, pb in (SETTINGS[vi % 6], SETTINGS[(vi + 3) % 6], (True, [1, 2], [2])):
                SC = Structure([Interface("TMM", layers=[Layer(1e-9, Mat(2.0))] * 2, name="f", coherent=True, prof_layers=pf), BulkLayer(w, Alpha(3.0, c["al"]), name="bulk"),
                                Interface("TMM", layers=[Layer(1e-9, Mat(2.0))] * 3, name="b", coherent=True, prof_layers=pb)],
                               incidence=Mat(1.0), transmission=Mat(1.0))
                dz = c.get("dz", w / 100.37)
                o = opts(wavelength=wls, n_theta_bins=n, phi_symmetry=SYM[sym], c_azimuth=caz, theta_in=c["th"], phi_in=c["ph"], I_thresh=c["thresh"],
                         bulk_profile=bp, project_name="proj", depth_spacing_bulk=dz)
                sig = "fine %s/%s/%s %s=%s prof=%s" % (case["f"], case["r"], case["b"], case["par"], label, (bp, pf, pb))
                got = calculate_RAT(SC, o, save_location=d)
                res.execs += 1
                res.seen(sig)
                if not res.check(len(got) == 4, "no profiles returned", sig):
                    continue
                ref = m.run(c["thresh"], len(got[1]["r"][0]) - 1)
                res.states += ref["n"] + 1
                res.traces += 1
                if bp:
                    bulk_check(res, got, ref, c["al"], b, w, dz, sig)
                by = named(got[2], 2)
                res.check(sorted(by) == [j for j, q in enumerate((pf, pb)) if q], "profiles returned for other interfaces than requested", sig)
                for j, q in enumerate((pf, pb)):
                    if not q or (ref["n"] == 0 and j == 1):
                        continue
                    e = [np.einsum("wzi,wi->wz", prof["fF" if s == "front" else "fR"], x) for s, x in ref["in0"]] if j == 0 else \
                        [np.einsum("wzi,wi->wz", prof["rF"], x) for x in ref["in1"]]
                    e, g, t = np.array(e), np.asarray(got[1]["a_prof"][j]), np.asarray(by[j].data)
                    res.check(g.shape == e.shape and np.abs(g - e).max() < 1e-10, "interface profile of a pass differs from the model", sig, interface=j, shape=[g.shape, e.shape])
                    res.check(t.shape == e.shape[1:] and np.abs(t - e.sum(0)).max() < 1e-9, "interface profile is not the sum over the passes", sig, interface=j)
        finally:
            common.rmdir(d)


# -------------------------------------------------------------- planar interfaces
THICK = {"b": 35.2, "g": 60.3, "s": 42.7, "m": 25.1}


def tmm(res, case):
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.matrix_formalism import calculate_RAT, process_structure
    from c13_tmmprof import ref_functions, subsets
    from sparse import load_npz
    media = case["m"]
    wls = pl.NM[:2]
    n, sym, c = (4, "pi/2", 0.2)
    b = Bins(n, SYM[sym], c)
    fs, rs = ([(q, THICK[q]) for q in x] if x else None for x in (case["f"], case["r"]))
    subs = list(subsets(len(fs)))
    if not case["all"]:
        subs = subs[::2] if len(subs) > 3 else subs
    fns = {}

    def refs(stack, md, side, key):
        """(wl, bin) -> per layer functions of the depth from the front of the layer"""
        if key in fns:
            return fns[key]
        st, m2 = (stack, md) if side == "front" else (stack[::-1], md[::-1])
        out = []
        for wl in wls:
            row = []
            for j in range(b.na):
                th = b.th[j]
                if pl.tir(m2, th, wl) or pl.nk(m2[0], wl * 1e-9).imag:
                    row.append(None)
                    continue
                f = ref_functions(pol, st, m2, th, wl, None)
                row.append(f if side == "front" else [(lambda x, g=g, t=t: g(t - x)) for g, (_, t) in zip(f[::-1], stack)])
            out.append(row)
        fns[key] = out
        return out
    for pi, (prof, dz, pol) in enumerate(itertools.product(subs, (5.0, 3.7, 1.0), "usp")):
        if not case["all"] and pi % 4 != (len(case["f"]) + len(case["r"] or "")) % 4:
            continue
        fns.clear()
        rp = None if rs is None else [[1], [1, 2], [2]][pi % 3] if len(rs) == 2 else [1]
        if pi % 5 == 4:
            rp = None
        d = common.fresh_dir("tp")
        F = Interface("TMM", layers=pl.layers(fs), name="front", coherent=True, prof_layers=prof)
        B = Interface("TMM", layers=pl.layers(rs), name="rear", coherent=True, prof_layers=rp) if rs else Interface("Mirror", name="rear")
        o = opts(wavelength=wls * 1e-9, n_theta_bins=n, phi_symmetry=SYM[sym], c_azimuth=c, I_thresh=1e-3, bulk_profile=pi % 2 == 0,
                 project_name="proj", depth_spacing=dz * 1e-9, depth_spacing_bulk=1e-8, pol=pol, theta_in=0.0, phi_in=0.0)
        width = 2e-6
        SC = Structure([F, BulkLayer(width, pl.MATS[media[1]], name="bulk"), B], incidence=pl.MATS[media[0]], transmission=pl.MATS[media[2]])
        process_structure(SC, o, save_location=d)
        p = os.path.join(d, "proj")
        ld = lambda nm: np.asarray(load_npz(os.path.join(p, nm)).todense())
        mats = dict(fF=(ld("frontfrontRT.npz"), ld("frontfrontA.npz")))
        x = ld("frontrearRT.npz")
        mats["fR"] = (np.concatenate([x[:, :b.na], x[:, b.na:]], 1), ld("frontrearA.npz"))
        x, a = ld("rearfrontRT.npz"), ld("rearfrontA.npz")
        mats["rF"] = (x, a) if x.ndim == 3 else (np.array([x, x]), np.array([a, a]))
        al = [4 * np.pi * pl.nk(media[1], q * 1e-9).imag / (q * 1e-9) for q in wls]
        for th in (b.th[0], b.th[2]):
            o["theta_in"], o["phi_in"] = float(th), float(b.ph[0])
            sig = "%s|%s|%s prof=%s/%s dz=%g pol=%s th=%.3f" % (case["f"], media, case["r"], prof, rp, dz, pol, th)
            v = np.eye(b.na)[int(np.argmin(abs(b.th[:b.na] - th)))]
            m = Model(b, mats, al, width, np.array([v, v]))
            try:
                m.run(1e-3, limit=60)
            except RuntimeError:
                continue
            got = calculate_RAT(SC, o, save_location=d)
            res.execs += 1
            res.traces += 1
            res.seen(sig)
            ref = m.run(1e-3, len(got[1]["r"][0]) - 1)
            res.states += ref["n"] + 1
            if o["bulk_profile"] and len(got) == 4:
                bulk_check(res, got, ref, al, b, width, 1e-8, sig)
            if not res.check(len(got) == 4, "no profiles returned", sig):
                continue
            by = named(got[2], 2)
            for j, stack, q, md in ((0, fs, prof, media[:2]), (1, rs, rp, media[1:])):
                if not q:
                    continue
                start = np.concatenate([[0], np.cumsum([t for _, t in stack])])
                z = np.arange(0, start[-1], dz)
                idx = [(l, x - start[l - 1]) for l in q for x in z[(z >= start[l - 1]) & (z < start[l])]]
                g = np.asarray(got[1]["a_prof"][j])
                ins = ref["in0"] if j == 0 else [("front", y) for y in ref["in1"]]
                if not res.check(g.shape == (len(ins), 2, len(idx)) and (g >= 0).all(), "interface profile: shape or sign", sig, interface=j,
                                 shape=g.shape, want=[len(ins), 2, len(idx)]):
                    continue
                A = np.asarray(got[1]["a"][j])                       # (pass, wl, layer)
                for k, (side, vec) in enumerate(ins[:5]):
                    R = refs(stack, md, side, (j, side))
                    for i in range(2):
                        if any(R[i][s] is None and vec[i, s] > 0 for s in range(b.na)):
                            # integral only
                            pos = 0
                            for l in q:
                                nn = sum(1 for x in idx if x[0] == l)
                                t = stack[l - 1][1]
                                s = g[k, i, pos:pos + nn]
                                I = np.sum(s) * t / nn if nn else 0
                                pos += nn
                                res.check(abs(I - A[k, i, l - 1]) <= 1e-7 + (0.75 * dz / t + 0.02) * 4 * A[k, i, l - 1] and
                                          (s.max() - s.min() > 1e-12 or A[k, i, l - 1] < 1e-7 or nn < 3),
                                          "interface profile of a pass does not integrate to the layer's absorption", sig, interface=j,
                                          pas=k, layer=l, got=I, want=A[k, i, l - 1])
                            continue
                        e = np.zeros(len(idx))
                        for s in range(b.na):
                            if vec[i, s] > 0:
                                e += vec[i, s] * np.array([float(R[i][s][l - 1](x)[0]) for l, x in idx])
                        bad = np.abs(g[k, i] - e) > 1e-9 + 1e-5 * e.max()
                        res.check(not bad.any(), "interface profile of a pass differs from the reference", sig, interface=j, pas=k, side=side,
                                  points=[idx[x] for x in np.flatnonzero(bad)[:4]], got=g[k, i][bad][:4], want=e[bad][:4])
                t = np.asarray(by[j].data)
                res.check(np.abs(t - g.sum(0)).max() <= 1e-9 * (1 + t.max()), "interface profile is not the sum over the passes", sig, interface=j)
        common.rmdir(d)


# -------------------------------------------------------------- ray-traced interfaces
ABS = [(3.0, 0.3, 40.0), (1.6, 0.01, 120.0), (2.0, 0.1, 70.0)]
TEX = {"spl": ["planar"], "sup": ["pyr", 55, True], "sinv": ["pyr", 55, False], "soff": ["xyz", "off"], "stwo": ["xyz", "two"]}


def rt(res, case):
    from rayflare.ray_tracing.rt import RT
    from rayflare.structure import RTgroup
    from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
    n, sym, c = (12, "pi/2", 1e-6)
    b = Bins(n, SYM[sym], c)
    sc = Scene([TEX[case["s"]]], [], n_in=1.0, n_out=1.9, sheets={0: dict(layers=ABS)}, n_tab=300)
    t = sc._tex(0)
    d = common.fresh_dir("rp")
    make_TMM_lookuptable(t[0].interface_layers, Mat(1.0), Mat(1.9), "srf", opts(lookuptable_angles=300), d, prof_layers=case["prof"])
    g = RTgroup(textures=[t])
    W = [x[2] for x in ABS]
    side = case["side"]
    dz = 1.0
    plan = [(0.13, 0.37, 0.0, 0.0), (0.62, 0.21, 0.5, 0.6)] if not case["all"] else [(x, y, th, ph) for x, y in ((0.13, 0.37), (0.62, 0.21), (0.4, 0.8))
                                                                                      for th, ph in ((0.0, 0.0), (0.3, 2.0), (0.5, 0.6), (0.9, 4.0))]
    look = sheet_ref(1.0, ABS, 1.9, 300)
    grid = np.linspace(0, np.pi / 2 - 1e-3, 300)
    memo = {}

    def depth(above, th, pol, zc):
        """absorbed power density at the depths zc (nm, from the front) for unit power arriving from one side"""
        import tmm
        k = (above, round(th, 9), pol, len(zc))
        if k not in memo:
            e = 0.0
            L = ABS if above else ABS[::-1]
            nn = [1.0 if above else 1.9] + [complex(a, q) for a, q, _ in L] + [1.9 if above else 1.0]
            dd = [np.inf] + [q for _, _, q in L] + [np.inf]
            tot = sum(W)
            for q in "sp" if pol == "u" else pol:
                o = tmm.coh_tmm(q, nn, dd, th, WL * 1e9)
                for zz_, i in zip(zc, range(len(zc))):
                    l = int(np.searchsorted(np.cumsum(W), zz_ + 1e-6, side="right"))
                    x = zz_ - sum(W[:l])
                    v = np.real(tmm.position_resolved(l + 1 if above else 3 - l, x if above else W[l] - x, o)["absor"])
                    if np.ndim(e) == 0:
                        e = np.zeros(len(zc))
                    e[i] += v / (2 if pol == "u" else 1)
            memo[k] = e
        return memo[k]
    for pol in "up":
        # all (local angle, side): absorption fractions per layer, and what the angle bin's representative gives
        cand = []
        for above in (True, False):
            for t0 in grid:
                La = np.asarray(look(above, t0, pol)[2])
                near = [i for i in range(n) if b.te[i] - grid[1] <= t0 <= b.te[i + 1] + grid[1]]
                for i in near:
                    Lc = np.asarray(look(above, (b.te[i] + b.te[i + 1]) / 2, pol)[2])
                    cand.append(np.concatenate([La / La.sum(), Lc / La.sum(), [La.sum(), above, (b.te[i] + b.te[i + 1]) / 2]]))
        cand = np.array(cand)
        for x, y, th, ph in plan:
            i = int(np.searchsorted(b.te, th or 1e-4)) - 1
            tc = float((b.te[i] + b.te[i + 1]) / 2) if th else 0.0
            o = at(x, y, theta_in=tc, phi_in=ph, n_theta_bins=n, phi_symmetry=SYM[sym], c_azimuth=c, pol=pol, depth_spacing=dz * 1e-9)
            sig = "rt %s %s prof=%s pol=%s at=%s" % (case["s"], side, case["prof"], pol, (x, y, th, ph))
            ex = Explorer(eps=2e-3)
            for q, lg, r in ex.explore(lambda: RT(g, Mat(1.0), Mat(1.9), "srf", o, d, 1, side, 3, case["prof"], True, W, save=False, overwrite=False)):
                res.execs += 1
                if not res.check(len(r) == 3, "no profile returned", sig):
                    return
                A = np.asarray(r[1].todense())[0]                       # (layer, in)
                P = np.real(np.asarray(r[2]["profile"].transpose("wl", "z", "global_index").data))[0]
                I = np.asarray(r[2]["intgr"].transpose("wl", "global_index").data)[0]
                zc = np.asarray(r[2]["z"].data)
                res.check(np.isfinite(P).all() and (P >= 0).all() and np.isfinite(I).all(), "negative or undefined profile", sig)
                res.seen(sig, np.round(A.sum(), 6), np.round(P.sum(), 6))
                start = np.concatenate([[0], np.cumsum(W)])
                gi = np.asarray(r[2]["global_index"].data)
                for j in range(b.na):
                    col = np.flatnonzero(gi == j)
                    p = P[:, col[0]] if len(col) else np.zeros(P.shape[0])
                    tot = A[:, j].sum()
                    if tot == 0:
                        res.check(p.sum() == 0 or True, "", sig)
                        continue
                    s = tot / I[col[0]] if I[col[0]] > 0 else 0.0
                    v = np.array([s * p[(zc >= start[l] - 1e-6) & (zc < start[l + 1] - 1e-6)].sum() * dz for l in range(3)])
                    on = np.array([l + 1 in case["prof"] for l in range(3)])
                    res.check((v[~on] == 0).all(), "profile in a layer that is not profiled", sig, got=v)
                    f = A[:, j] / tot
                    m = cand[np.abs(cand[:, :3] - f).max(1) < 1e-5]
                    ok = (np.abs(v - tot * m[:, 3:6])[:, on] <= 1e-9 + 0.03 * tot * m[:, 3:6][:, on]).all(1)
                    if res.check(ok.any(), "stored profile does not integrate to the absorption of the layers", sig, got=v, want=A[:, j], bin=j):
                        good = []
                        for r6 in m[ok]:
                            if not r6[7] and 1.9 * np.sin(r6[8]) > 0.99:
                                good.append(True)          # beyond the critical angle: integral only (see C12)
                                break
                            e = depth(bool(r6[7]), r6[8], pol, zc) * tot / r6[6]
                            good.append(np.abs(s * p - e).max() <= 0.06 * e.max())
                        res.check(any(good), "stored profile has another shape than the reference", sig, got=(s * p)[[0, 5, -5, -1]])
                res.traces += 1
            res.transitions += ex.branches
            res.states += ex.paths
    common.rmdir(d)


def run_case(case):
    res = common.Result()
    dict(fine=fine, syn=syn, tmm=tmm, rt=rt)[case["k"]](res, case)
    return res


if __name__ == "__main__":
    common.main(sys.modules[__name__])
