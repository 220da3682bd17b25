"""C19: make_absorption_function for every kind of structure.  All combinations of methods, profiled layers, layer counts, widths
and depth steps; the real calculation is run, and the exported positions and function are compared with the calculated
profiles at depths worked out independently."""
import sys, itertools
import numpy as np
import common
import planar as pl
import rcwalib as rl

PROPERTY = "C19"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of structure types, interface methods, subsets of profiled layers, widths and depth steps; each is "
             "calculated by the real code and the exported function compared point by point with the calculated profiles placed by "
             "a reference model of the structure")
RULE = "distinct (structure, profiled layers, widths, depth steps) whose exported function was compared at every sample"
ASSUMPTIONS = ["profiles of planar and diffractive structures are requested for all layers", "profiled layers are listed in ascending order",
               "the function is exact at the samples; between them, and for the integrals, within one step of the depth grid",
               "when nothing at all is profiled there is no function to export"]

WID = [[35.0], [100.0], [330.0, 35.0], [33.3, 66.6], [120.0, 81.0, 40.5], [0.1, 0.25, 50.0], [110.1, 60.0], [57.0, 13.0, 29.0, 101.0], [300.0, 600.0]]
DZ = [1.0, 5.0, 0.7, 3.3, 7.0, 10.0, 0.3, 12.9, 6.0]
BW = [[3e-6], [2.1e-6, 0.7e-6], [1.1e-6, 4e-6], [0.3e-6, 0.6e-6, 2e-6], [5e-6, 1e-6]]
BDZ = [1e-7, 0.7e-7, 3e-8, 2.5e-7, 0.6e-7]


def cases(tier):
    cs = []
    for i in range(len(WID)):
        cs.append(dict(kind="tmm", w=i, all=tier != "quick", _w=2))
        cs.append(dict(kind="grid", w=i, all=tier != "quick", _w=4))
    cs += [dict(kind="rcwa", n=n, all=tier != "quick", _w=4) for n in (1, 2, 3)]
    cs += [dict(kind="rt", b=b, all=tier != "quick", _w=6) for b in range(len(BW))]
    for f, r in itertools.product(FRONT, BACK):
        cs.append(dict(kind="mf", f=f, r=r, all=tier != "quick", _w=4))
    for f in ("planar", "pyr"):
        for p in ([None, []] if f == "pyr" else [None, [1], [2], [1, 2]]):
            for r in ("planar", "none", "pyr"):
                cs.append(dict(kind="rttmm", f=f, p=p, r=r, all=tier != "quick", _w=8))
    q = tier == "quick"
    # one argument at a time, finely
    base = dict(w=[63.3, 121.7], dz=3.3, th=0.3, pol="u", wl=[420.0, 600.0])
    l = [dict(w=[0.9 + 7.13 * i, 51.3]) for i in range(0, 60, 2 if q else 1)] + [dict(w=[44.7, 0.9 + 7.13 * i]) for i in range(0, 60, 2 if q else 1)]
    l += [dict(w=[400.3 + 311.7 * i], dz=5.0) for i in range(12)] + [dict(w=[20.3 + 7.7 * i for i in range(n)]) for n in range(1, 9)]
    l += [dict(dz=round(0.11 + 0.37 * i, 3)) for i in range(0, 40, 1)] + [dict(th=0.04 * i, pol="sp"[i % 2]) for i in range(0, 39, 2)]
    l += [dict(wl=[400.0 + 23 * i for i in range(n)]) for n in range(1, 16)] + [dict(wl=[333.0 + 19 * i]) for i in range(0, 40, 2)]
    l += [dict(wl=x) for x in ([700.0, 500.0], [900.0, 400.0, 600.0])]
    for i in range(0, len(l), 15):
        cs.append(dict(kind="tmmfine", list=[{**base, **x} for x in l[i:i + 15]], _w=2))
    base = dict(W=[2.13e-6, 0.77e-6], dz=0.71e-7, wl=[600.0, 910.0])
    l = [dict(W=[0.137e-6 + 0.213e-6 * i, 0.77e-6]) for i in range(0, 20, 2 if q else 1)] + [dict(W=[20.3e-6 + 37e-6 * i], dz=1.3e-6) for i in range(6)]
    l += [dict(W=[(0.4 + 0.27 * i) * 1e-6 for i in range(n)]) for n in range(1, 6)] + [dict(dz=(0.13 + 0.37 * i) * 1e-7) for i in range(0, 16, 2 if q else 1)]
    l += [dict(wl=[400.0 + 43 * i for i in range(n)]) for n in range(1, 10)] + [dict(wl=[700.0, 500.0]), dict(wl=[900.0, 400.0, 600.0])]
    for i in range(0, len(l), 4):
        cs.append(dict(kind="rtfine", list=[{**base, **x} for x in l[i:i + 4]], _w=4))
    return cs


# ---- oracle --------------------------------------------------------------------------------------------------------------
def grid(start, width, dz, first=0.0):
    """samples at first + k dz that are inside [start, start + width); also those that rounding may put on either side"""
    k = np.arange(int((start - first) / dz) - 1, int((start + width - first) / dz) + 2)
    x = first + k * dz
    x = x[(x >= start - 1e-7 * dz) & (x < start + width - 1e-7 * dz)]
    return x


def judge(res, sig, pos, fn, layers, total, nw, A=None):
    """layers: list of (start (m), width (m), sample depths (m, from the front of the structure), values (wl, samples) in 1/m or
    None if not profiled, reported absorption (wl) or None, step)"""
    pos = np.asarray(pos, float)
    if not res.check(pos.ndim == 1 and len(pos) and (np.diff(pos) > 0).all(), "positions are not increasing", sig):
        return
    steps = [l[5] for l in layers]
    tol = 1e-6 * min(steps)
    res.check(pos[0] >= -tol and pos[-1] < total + tol and pos[0] < steps[0] + tol and total - pos[-1] <= steps[-1] * 1.001, "positions do not cover the structure", sig,
              got=[pos[0], pos[-1]], total=total)
    z0 = 0
    for l in layers:
        inside = pos[(pos >= l[0] - tol) & (pos < l[0] + l[1] - tol)]
        n = l[1] / l[5]
        res.check(abs(len(inside) - n) <= 2 + 1e-6, "a layer is not covered by positions", sig, layer=l[:2], points=len(inside))
    v = np.asarray(fn(np.array([0.0, 0.5 * total, total * (1 - 1e-9)])))
    res.check(v.shape == (nw, 3) and np.isfinite(v).all(), "the function is undefined inside the structure", sig, got=v)
    top = max([np.abs(l[3]).max() for l in layers if l[3] is not None and l[3].size] + [0])
    for start, width, z, val, tot, dz in layers:
        res.transitions += 1
        # the function changes over from the neighbouring layers within one step of the borders
        edge = 0
        for l in layers:
            if l[3] is not None and l[3].size and l[3].shape[1] == len(l[2]):
                near = (np.abs(l[2] - start) < 2 * l[5]) | (np.abs(l[2] - start - width) < 2 * l[5])
                edge = np.maximum(edge, np.abs(l[3][:, near]).max(1, initial=0))
        if val is None:
            p = pos[(pos >= start - tol) & (pos < start + width - tol) & (np.diff(pos, prepend=-1) > tol)]
            if len(p):
                g = np.asarray(fn(p))
                res.check(np.abs(g).max() <= 1e-9 * top + 1e-12, "absorption in a layer that was not profiled", sig, layer=[start, width], got=np.abs(g).max())
            continue
        if not len(z):
            continue
        if not res.check(val.shape == (nw, len(z)), "the calculated profile does not have the expected samples", sig, got=val.shape, want=[nw, len(z)], layer=[start, width]):
            continue
        g = np.asarray(fn(z))
        res.states += len(z)
        # positions may differ by rounding: allow for the slope
        slope = np.abs(np.diff(val, axis=1)).max() if len(z) > 1 else 0
        res.check(np.isfinite(g).all() and np.abs(g - val).max() <= 1e-6 * np.abs(val).max() + 1e-5 * max(slope, 0) + 1e-6 * top, "the function differs from the calculated profile", sig,
                  layer=[start, width], got=g[0][:4], want=val[0][:4], z=z[:4], where=int(np.abs(g - val).max(0).argmax()))
        if tot is not None and len(z) >= 4:
            n = 64 if width / dz < 400 else 8
            m = max(int(n * width / dz), 50)
            x = start + (np.arange(m) + 0.5) * width / m
            I = np.asarray(fn(x)).mean(1) * width
            err = 1.6 * dz * np.maximum(np.abs(val).max(1), edge) + 0.02 * np.asarray(tot) + 1e-9
            res.check((np.abs(I - tot) <= err).all(), "the integral over a layer differs from its absorption", sig, layer=[start, width], got=I, want=tot, err=err)


# ---- planar ---------------------------------------------------------------------------------------------------------------
CODES = "sbgb"


def topt(d, **k):
    from c12_tmm import opt
    o = opt(**k)
    return dict(o) if d else o


def absorption(res, sig, result, s, o):
    from rayflare.utilities import make_absorption_function
    try:
        return make_absorption_function(result, s, o)
    except Exception as e:
        import traceback
        t = traceback.extract_tb(e.__traceback__)[-1]
        res.check(False, "make_absorption_function fails: %s %s" % (type(e).__name__, str(e)[:100]), sig, at="%s:%s" % (t.filename, t.lineno))
        return None


def check_tmm(res, case):
    from rayflare.transfer_matrix_method import tmm_structure
    w = WID[case["w"]]
    st = [(CODES[i], x) for i, x in enumerate(w)]
    for dz in DZ:
        for form in ("state", "dict", "alias"):
            for th, pol, coh in ((0.0, "s", None), (0.6, "u", None), (0.3, "p", ["i"] + ["c"] * (len(w) - 1))):
                if (form != "state" or coh) and dz not in DZ[:2] and not case["all"]:
                    continue
                if coh and w[0] < 100:
                    continue
                for sw in (None, [x * 1.5 for x in w], [x + 0.1 for x in w]):
                    if sw and (th or form != "state"):
                        continue
                    sig = "tmm %s dz=%g %s th=%g %s %s set=%s" % (w, dz, form, th, pol, coh, sw)
                    o = topt(form == "dict", theta_in=th, pol=pol, coherent=coh is None, coherency_list=coh, depth_spacing=dz * 1e-9)
                    if form == "alias":
                        o["wavelengths"] = o.pop("wavelength")
                    s = tmm_structure(pl.layers(st), pl.MATS["a"], pl.MATS["q"])
                    if sw:
                        s.set_widths(list(sw))
                    r = s.calculate_profile(o)
                    res.execs += 1
                    res.traces += 1
                    res.seen(sig)
                    f = absorption(res, sig, r, s, o)
                    if f:
                        P = 1e9 * np.asarray(r["profile"])
                        planar_layers(res, sig, f, sw or w, dz, P, np.asarray(r["A_per_layer"]))


def check_tmmfine(res, case):
    from rayflare.transfer_matrix_method import tmm_structure
    for d in case["list"]:
        w, dz = d["w"], d["dz"]
        o = topt(False, theta_in=d["th"], pol=d["pol"], coherent=True, depth_spacing=dz * 1e-9, wavelength=np.array(d["wl"]) * 1e-9)
        s = tmm_structure(pl.layers([("sbgbmsbg"[i], x) for i, x in enumerate(w)]), pl.MATS["a"], pl.MATS["q"])
        r = s.calculate_profile(o)
        sig = "tmm " + str(d)
        res.execs += 1
        res.traces += 1
        res.seen(sig)
        f = absorption(res, sig, r, s, o)
        if f:
            planar_layers(res, sig, f, w, dz, 1e9 * np.asarray(r["profile"]), np.asarray(r["A_per_layer"]))


def check_rtfine(res, case):
    import rtlib
    from rayflare.ray_tracing import rt_structure
    for d in case["list"]:
        W, dz = d["W"], d["dz"]
        np.random.seed(3)
        t = [rtlib.tex(["pyr", 52.0, True])] + [rtlib.tex(["planar"]) for _ in W]
        o = rtopt(wavelength=np.array(d["wl"]) * 1e-9, depth_spacing_bulk=dz, n_rays=8)
        s = rt_structure(t, [pl.MATS["sgbsg"[i]] for i in range(len(W))], list(W), pl.MATS["a"], pl.MATS["q"])
        r = s.calculate(o)
        sig = "rt " + str(d)
        res.execs += 1
        res.traces += 1
        res.seen(sig)
        f = absorption(res, sig, r, s, o)
        if f:
            rt_judge(res, sig, f, r, W, dz, [[]] * (len(W) + 1), None, 5e-9)


def planar_layers(res, sig, f, w, dz, P, A):
    e = np.concatenate([[0], np.cumsum(w)])
    L, k = [], 0
    for i in range(len(w)):
        z = grid(e[i], w[i], dz)
        if i == len(w) - 1 and k + len(z) + 1 == P.shape[1]:
            P = P[:, :-1]                      # another sample at the very end, by rounding
        v = P[:, k:k + len(z)]
        k += len(z)
        L.append((e[i] * 1e-9, w[i] * 1e-9, z * 1e-9, v, A[:, i], dz * 1e-9))
    res.check(k == P.shape[1], "number of samples of the profile", sig, got=P.shape[1], want=k)
    judge(res, sig, f[0], f[1], L, e[-1] * 1e-9, P.shape[0])


def check_rcwa(res, case):
    from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
    from c18_rcwa import opt
    n = case["n"]
    G = ["disk", "-", "off"]
    for w in ([35.0, 120.0, 66.6], [100.0, 30.0, 21.0]):
        for dz in (5.0, 3.3, 0.7, 7.0) if n == 1 or case["all"] else (5.0, 3.3):
            for form in ("state", "dict"):
                for sw in (None, [60.0, 10.1, 45.0]):
                    sig = "rcwa %s dz=%g %s set=%s" % (w[:n], dz, form, sw)
                    o = opt(orders=3, depth_spacing=dz * 1e-9, wavelength=pl.WLS[:2], theta_in=0.3)
                    if form == "dict":
                        o = dict(o)
                    s = rcwa_structure(rl.layers([("s" if i != 1 else "b", w[i], G[i]) for i in range(n)]), rl.LAT["sq"], o, pl.MATS["a"], pl.MATS["q"])
                    if sw:
                        s.set_widths(sw[:n])
                    r = s.calculate_profile(o)
                    res.execs += 1
                    res.traces += 1
                    res.seen(sig)
                    f = absorption(res, sig, r, s, o)
                    if f:
                        planar_layers(res, sig, f, (sw or w)[:n], dz, 1e9 * np.asarray(r["profile"]), np.asarray(r["A_per_layer"]))


# ---- ray tracing ------------------------------------------------------------------------------------------------------------
def rtopt(**k):
    import rtlib
    return rtlib.opts(**{**dict(nx=2, ny=2, n_rays=40, I_thresh=1e-4, lookuptable_angles=20), **k})


def bulk_layers(widths, dz, P, A, gaps):
    """ray-traced bulk layers; gaps[i]: width (m) of the interface layers above bulk i"""
    out, z0, off = [], 0.0, 0.0
    for i, w in enumerate(widths):
        off += gaps[i]
        z = grid(z0, w, dz)
        out.append((z0 + off, w, z + off, z, A[:, i], dz))
        z0 += w
    return out


def check_rt(res, case):
    import rtlib
    from rayflare.ray_tracing import rt_structure
    W = BW[case["b"]]
    mats = ["s", "g", "b"]
    al = [pl.MATS[c] for c in mats[:len(W)]]
    for dz in BDZ:
        for form in ("state", "dict"):
            np.random.seed(3)
            sig = "rt %s dz=%g %s" % (W, dz, form)
            t = [rtlib.tex(["pyr", 52.0, True])] + [rtlib.tex(["planar"]) for _ in W]
            o = rtopt(wavelength=pl.WLS[:2], depth_spacing_bulk=dz, n_rays=8)
            if form == "dict":
                o = dict(o)
            s = rt_structure(t, al, list(W), pl.MATS["a"], pl.MATS["q"])
            r = s.calculate(o)
            res.execs += 1
            res.traces += 1
            res.seen(sig)
            f = absorption(res, sig, r, s, o)
            if f:
                rt_judge(res, sig, f, r, W, dz, [[]] * (len(W) + 1), None, 5e-9)


def rt_judge(res, sig, f, r, W, dz, ifl, prof, ids):
    """ifl: widths (nm) of the layers of every interface; prof: profiled layers of every interface"""
    P = 1e9 * np.asarray(r["profile"])
    A = np.asarray(r["A_per_layer"])
    gaps = [sum(x) * 1e-9 for x in ifl]
    L, z0 = [], 0.0
    zb = 0.0
    k = 0
    for i in range(len(W) + 1):
        if len(ifl[i]):
            ip = r["interface_profiles"][i]
            d = 1e9 * np.asarray(ip) if len(ip) else None
            j = 0
            for q, w in enumerate(ifl[i], 1):
                z = grid(0, w, ids * 1e9) * 1e-9
                v = None
                if prof[i] and q in prof[i]:
                    v = d[:, j:j + len(z)] if d is not None else np.zeros((P.shape[0], len(z)))
                    j += len(z)
                L.append((z0, w * 1e-9, z + z0, v, np.asarray(r["A_per_interface"][i])[:, q - 1] if v is not None else None, ids))
                z0 += w * 1e-9
            if d is not None:
                res.check(j == d.shape[1], "number of samples of an interface profile", sig, got=d.shape, want=j)
        if i < len(W):
            z = grid(zb, W[i], dz)
            if i == len(W) - 1 and k + len(z) + 1 == P.shape[1]:
                P = P[:, :-1]                  # another sample at the very end, by rounding
            v = P[:, k:k + len(z)]
            k += len(z)
            L.append((z0, W[i], z - zb + z0, v, A[:, i], dz))
            zb += W[i]
            z0 += W[i]
    res.check(k == P.shape[1], "number of samples of the bulk profile", sig, got=P.shape[1], want=k)
    judge(res, sig, f[0], f[1], L, z0, P.shape[0])


IFW = {"a": [("b", 60.7), ("s", 101.3)], "b": [("s", 55.9), ("g", 33.7)]}


def check_rttmm(res, case):
    import rtlib
    from rayflare.ray_tracing import rt_structure
    W = [2e-6, 1.1e-6]
    mats = [pl.MATS["w"], pl.MATS["s"]]
    for rp in ([None, [1], [2], [1, 2]] if case["r"] == "planar" else [None]):
        for ids, dz in ((5e-9, 1e-7), (7e-9, 0.7e-7)) + (((3.3e-9, 2.5e-7),) if case["all"] else ()):
            p = case["p"] or None
            kw = {} if p is None else dict(prof_layers=p)
            a = rtlib.tex(["planar"] if case["f"] == "planar" else ["pyr", 52.0, True], interface_layers=pl.layers(IFW["a"]), name="f", **kw)
            m = rtlib.tex(["planar"])
            ifl = [[x[1] for x in IFW["a"]], [], []]
            prof = [p, None, None]
            if case["r"] == "planar":
                b = rtlib.tex(["planar"], interface_layers=pl.layers(IFW["b"]), name="r", **({} if rp is None else dict(prof_layers=rp)))
                ifl[2] = [x[1] for x in IFW["b"]]
                prof[2] = rp
            else:
                b = rtlib.tex(["planar"] if case["r"] == "none" else ["pyr", 52.0, False])
            sig = "rt with interface layers %s %s/%s %s step %g %g" % (case["f"], p, case["r"], rp, ids, dz)
            np.random.seed(3)
            d = common.fresh_dir("g")
            try:
                o = rtopt(wavelength=pl.WLS[:2], depth_spacing_bulk=dz, depth_spacing=ids, n_rays=100, nx=3, ny=3)
                s = rt_structure([a, m, b], mats, list(W), pl.MATS["a"], pl.MATS["q"], options=o, use_TMM=True, save_location=d)
                r = s.calculate(o)
                res.execs += 1
                res.traces += 1
                res.seen(sig)
                f = absorption(res, sig, r, s, o)
                if f:
                    rt_judge(res, sig, f, r, W, dz, ifl, prof, ids)
            finally:
                common.rmdir(d)


# ---- matrix formalism ----------------------------------------------------------------------------------------------------------
FRONT = ["tmm", "tmm1", "tmm2", "tmm12", "fresnel", "rttmm1", "rttmm2", "rttmm12", "rcwa1", "rcwa2"]
BACK = ["tmm", "tmm1", "tmm2", "tmm12", "mirror", "lambertian", "fresnel", "rttmm12", "rcwa1"]
IW = {"f": [("b", 60.7), ("s", 101.3)], "r": [("s", 55.9), ("g", 33.7)]}


def interface(code, side):
    import rtlib
    from rayflare.structure import Interface
    prof = [int(c) for c in code if c.isdigit()] or None
    w = IW[side]
    k = code.rstrip("12")
    if k == "tmm":
        return Interface("TMM", layers=pl.layers(w), name=side, coherent=True, prof_layers=prof), w, prof
    if k == "rttmm":
        return Interface("RT_TMM", texture=rtlib.tex(["planar"]), layers=pl.layers(w), name=side, coherent=True, prof_layers=prof), w, prof
    if k == "rcwa":
        return Interface("RCWA", layers=rl.layers([(w[0][0], w[0][1], "disk"), (w[1][0], w[1][1], "-")]), name=side, d_vectors=rl.LAT["sq"],
                         rcwa_orders=3, prof_layers=prof), w, prof
    if k == "fresnel":
        return Interface("RT_Fresnel", texture=rtlib.tex(["pyr", 52.0, True]), layers=[], name=side), [], None
    return Interface({"mirror": "Mirror", "lambertian": "Lambertian"}[k], layers=[], name=side), [], None


def mf_judge(res, sig, SC, o, out, f, parts, bulk_w, ids, dzb, bulk):
    """parts: (widths nm, prof, per_layer) of the two interfaces"""
    profs = list(out[2])
    nw = len(np.atleast_1d(o["wavelength"]))
    L, z0 = [], 0.0
    for i, (w, prof, per) in enumerate(parts):
        d, j = None, 0
        if prof:
            got = [p for p in profs if str(p.name).endswith(str(i))]
            if not res.check(len(got) == 1, "no profile for an interface", sig):
                return
            d = 1e9 * np.asarray(got[0])
        e = np.concatenate([[0], np.cumsum(w)])
        for q, x in enumerate(w, 1):
            z = e[q - 1] + grid(0, x, ids) if per else grid(e[q - 1], x, ids)
            v = None
            if prof and q in prof:
                v = d[:, j:j + len(z)]
                j += len(z)
            A = np.asarray(out[1]["a"][i]).sum(0)[:, q - 1] if v is not None else None
            L.append((z0 + e[q - 1] * 1e-9, x * 1e-9, z0 + z * 1e-9, v, A, ids * 1e-9))
        if d is not None:
            res.check(j == d.shape[1], "number of samples of an interface profile", sig, got=d.shape, want=j)
        z0 += e[-1] * 1e-9
        if i == 0:
            z = grid(0, bulk_w, dzb)
            v = None
            if bulk:
                v = np.asarray(out[3][0])
                if len(z) + 1 == v.shape[1]:
                    v = v[:, :-1]              # another sample at the very end, by rounding
            L.append((z0, bulk_w, z0 + z, v, np.asarray(out[0]["A_bulk"])[0] if bulk else None, dzb))
            z0 += bulk_w
    judge(res, sig, f[0], f[1], L, z0, nw)


def check_mf(res, case):
    from rayflare.structure import BulkLayer, Structure
    from rayflare.matrix_formalism import process_structure, calculate_RAT
    for ids, dzb, bw in ((5.0, 1e-7, 3e-6), (7.0, 0.7e-7, 2e-6)) + (((3.3, 3e-8, 1.1e-6),) if case["all"] else ()):
        np.random.seed(3)
        f, fw, fp = interface(case["f"], "f")
        r, rw, rp = interface(case["r"], "r")
        SC = Structure([f, BulkLayer(bw, pl.MATS["s"], name="bulk"), r], incidence=pl.MATS["a"], transmission=pl.MATS["a"])
        d = common.fresh_dir("g")
        try:
            done = False
            for bulk in (True, False):
                if not (bulk or fp or rp):
                    continue
                sig = "matrix formalism %s/%s bulk=%s step %g %g" % (case["f"], case["r"], bulk, ids, dzb)
                o = rtopt(wavelength=pl.WLS[1:], n_theta_bins=3, c_azimuth=1e-6, n_rays=200, nx=2, ny=2, theta_in=0.3, phi_in=0.2, pol="u", RCWA_method="inkstone",
                          orders=3, depth_spacing=ids * 1e-9, depth_spacing_bulk=dzb, bulk_profile=bulk, I_thresh=1e-3)
                if not done:
                    process_structure(SC, o, save_location=d)
                    done = True
                out = calculate_RAT(SC, o, save_location=d)
                res.execs += 1
                res.traces += 1
                res.seen(sig)
                g = absorption(res, sig, out, SC, o)
                if g:
                    mf_judge(res, sig, SC, o, out, g, [([x for _, x in fw], fp, "rttmm" in case["f"]), ([x for _, x in rw], rp, "rttmm" in case["r"])],
                             bw, ids, dzb, bulk)
        finally:
            common.rmdir(d)


def check_grid(res, case):
    """matrix formalism: widths and steps that do not divide each other"""
    from rayflare.structure import BulkLayer, Structure, Interface
    from rayflare.matrix_formalism import process_structure, calculate_RAT
    w = WID[case["w"]]
    st = [(CODES[i], x) for i, x in enumerate(w)]
    prof = list(range(1, len(w) + 1))
    for i, dz in enumerate(DZ):
        for side in ("front", "back"):
            for p in (prof, prof[-1:]):
                dzb, bw = BDZ[i % len(BDZ)], [x for y in BW for x in y][i % 8]
                a = Interface("TMM", layers=pl.layers(st), name="f", coherent=True, prof_layers=p)
                b = Interface("Mirror", layers=[], name="r")
                c = Interface("RT_Fresnel", texture=__import__("rtlib").tex(["planar"]), layers=[], name="x")
                SC = Structure([a, BulkLayer(bw, pl.MATS["s"], name="bulk"), b] if side == "front" else [c, BulkLayer(bw, pl.MATS["s"], name="bulk"), a],
                               incidence=pl.MATS["a"], transmission=pl.MATS["a"])
                d = common.fresh_dir("g")
                try:
                    sig = "grid %s %s prof=%s step %g %g" % (w, side, p, dz, dzb)
                    o = rtopt(wavelength=pl.WLS[1:2], n_theta_bins=2, c_azimuth=1e-6, n_rays=4, nx=1, ny=1, theta_in=0.3, phi_in=0.2, pol="s",
                              depth_spacing=dz * 1e-9, depth_spacing_bulk=dzb, bulk_profile=True, I_thresh=1e-2)
                    np.random.seed(3)
                    process_structure(SC, o, save_location=d)
                    out = calculate_RAT(SC, o, save_location=d)
                    res.execs += 1
                    res.traces += 1
                    res.seen(sig)
                    g = absorption(res, sig, out, SC, o)
                    if g:
                        pa = [(w, p, False), ([], None, False)]
                        mf_judge(res, sig, SC, o, out, g, pa if side == "front" else pa[::-1], bw, dz, dzb, True)
                finally:
                    common.rmdir(d)


def run_case(case):
    res = common.Result()
    import rayflare.ray_tracing, rayflare.matrix_formalism, rayflare.transfer_matrix_method, rayflare.rigorous_coupled_wave_analysis
    {"tmm": check_tmm, "grid": check_grid, "tmmfine": check_tmmfine, "rtfine": check_rtfine, "rcwa": check_rcwa, "rt": check_rt, "mf": check_mf, "rttmm": check_rttmm}[case["kind"]](res, case)
    return res


if __name__ == "__main__":
    common.main(sys.modules[__name__])
