"""C08: the matrix formalism.  Synthetic redistribution matrices from a finite family (all combinations for the three
matrices of a structure) are stored where the real code looks for them; the real multiplication is run for all bulk
absorptions, thresholds, incidence bins and profile settings, and every pass is compared with an independent dense model.
A second family runs the whole chain (process_structure, calculate_RAT) on planar and ideal surfaces."""
import sys, os, itertools
import numpy as np
import common
import planar as pl
from bins import Bins, SYM, find_dir
from mflib import *
from rtlib import opts

PROPERTY = "C08"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of combinations of redistribution matrices, bulk absorptions, thresholds, incidence bins "
             "and profile settings, run through the real multiplication and compared pass by pass with a dense model")
RULE = "distinct (matrices, layout, absorption, incidence, threshold, profile setting) compared pass by pass"
ASSUMPTIONS = ["one bulk layer (what the package supports)", "bulk attenuation is taken at the representative angle of each bin"]
KIND = ["clear", "mirror", "black", "half", "scatter", "rough", "perm", "hi"]
ALPHA = [[0.0, 0.0], [2e4, 3e5], [5e6, 0.0]]          # 1/m, per wavelength; bulk 10 um
WL = np.array([500e-9, 620e-9])


LAYS = [(1, "pi/2", 1e-6), (2, "pi", 1.0), (3, "pi/2", 0.5), (2, "2pi", 2.0)]
SETTINGS = [(False, None, None), (True, None, None), (False, [1, 2], None), (True, [2], [1, 3]), (False, None, [2])]
MAXPASS = 40          # combinations which need more passes are outside the explored space


def cases(tier):
    cs = []
    kf = KIND if tier != "quick" else ["clear", "mirror", "half", "scatter", "perm"]
    kr = ["mirror", "black", "half", "scatter", "rough", "hi", "clear"]
    kb = ["clear", "mirror", "half", "scatter", "perm", "black"]
    for i, (f, r, b) in enumerate(itertools.product(kf, kr, kb)):
        cs.append(dict(k="syn", f=f, r=r, b=b, i=i, all=tier != "quick"))
    # fine values of one parameter at a time
    for f, r, b in (("half", "scatter", "mirror"), ("scatter", "half", "scatter"), ("clear", "rough", "half"), ("perm", "perm", "perm")):
        for par in ("wl", "bins", "thresh", "alpha", "width", "th", "ph", "layers"):
            cs.append(dict(k="fine", f=f, r=r, b=b, par=par))
    for f in ("tmm1", "tmm2"):
        for r in ("tmm1", "tmm2", "mirror", "lambert"):
            for m in ("asa", "qsa", "aha", "gsg"):
                cs.append(dict(k="chain", f=f, r=r, m=m))
    return cs


def angle_inputs(b):
    """incidence settings and the v0 they stand for (fractions per bin)"""
    out = []
    for k in sorted({0, b.na // 2, b.na - 1}):
        v = np.zeros(b.na)
        v[k] = 1
        out.append((float(b.th[k]), float(b.ph[k]), v))
    i = b.n - 1
    v = np.zeros(b.na)
    v[b.start[i]:b.start[i + 1]] = 1 / b.nb[i]
    out.append((float(b.th[b.na - 1]), "all", v))
    return out


class Alpha(Mat):
    """material with a prescribed absorption coefficient per wavelength"""

    def __init__(self, n, al):
        self.al = np.asarray(al, float)
        super().__init__(n, 0.0, name="alpha")

    def alpha(self, wl):
        return self.al.copy()

    def k(self, wl):
        return self.al * np.asarray(wl) / (4 * np.pi)


def compare(res, got, ref_of, thresh, sig, nw, wls=None):
    """got: return value of calculate_RAT; ref_of(passes) -> model run"""
    RAT, per = got[0], got[1]
    g = dict(r=np.asarray(per["r"][0]), t=np.asarray(per["t"][0]), A=np.asarray(per["A"][0]))
    a0, a1 = np.asarray(per["a"][0]), np.asarray(per["a"][1])
    n = len(g["r"]) - 1
    ref = ref_of(n)
    ok = res.check((ref["left"][-1] <= thresh * (1 + 1e-9)).all(), "stopped although %.3g of the power is left" % ref["left"][-1].max(), sig,
                   left=ref["left"][-1], passes=n)
    for k in ("r", "t", "A"):
        e = np.array(ref[k]) if len(ref[k]) else None
        if e is None:
            ok &= res.check(np.asarray(g[k]).size == 0 or np.abs(g[k]).max() == 0, "%s without any pass" % k, sig)
            continue
        ok &= res.check(g[k].shape == e.shape and np.abs(g[k] - e).max() < 1e-10, "per-pass %s differs from the model" % k, sig,
                        shape=[g[k].shape, e.shape], worst=float(np.abs(g[k] - e).max()) if g[k].shape == e.shape else None)
    for q, e in ((a0, ref["a0"]), (a1, ref["a1"])):
        if len(e) and not np.abs(np.array(e)).max():
            ok &= res.check(np.abs(q).max(initial=0) == 0, "absorption in a lossless interface", sig)
            continue
        e = np.array(e) if len(e) else np.zeros(0)
        ok &= res.check(e.size == q.size == 0 or (e.size == 0 and np.abs(q).max(initial=0) == 0) or
                        (q.shape == e.shape and np.abs(q - e).max(initial=0) < 1e-10), "per-pass interface absorption differs from the model",
                        sig, shape=[q.shape, e.shape])
    tot = dict(R=np.sum(ref["r"], axis=(0, 2)), T=np.sum(ref["t"], axis=(0, 2)) if n else np.zeros(nw),
               A_bulk=np.sum(ref["A"], axis=0) if n else np.zeros(nw))
    for k, e in tot.items():
        if not res.check(k in RAT, "%s is not reported" % k, sig):
            ok = False
            continue
        v = np.asarray(RAT[k].data)
        ok &= res.check(v.shape == (1, nw) and np.abs(v[0] - e).max() < 1e-9 and (v >= -1e-12).all(), "%s is not the sum over the passes" % k,
                        sig, got=v, want=e)
    Ai = np.array([np.sum(ref["a0"], axis=(0, 2)), np.sum(ref["a1"], axis=(0, 2)) if n else np.zeros(nw)])
    if "A_interface" in RAT:
        ok &= res.check(np.abs(RAT["A_interface"].data - Ai).max() < 1e-9, "A_interface is not the sum over the passes", sig,
                        got=RAT["A_interface"].data, want=Ai)
    if ok:
        s = sum(np.asarray(RAT[k].data)[0] for k in tot) + Ai.sum(0)
        res.check(((s <= 1 + 1e-9) & (s >= 1 - thresh - 1e-9)).all(), "R + T + A is not 1 within the threshold", sig, sum=s)
    res.check(np.array_equal(RAT["wl"].data, WL[:nw] if wls is None else wls), "wavelengths", sig)
    return tot, Ai


def variants(case):
    p, f = case["par"], 1 if common.TIER == "quick" else 4
    d = dict(lay=(3, "pi/2", 0.5), nw=2, thresh=1e-3, al=[2e4, 3e5], width=1e-5, th=0.5, ph=0.4, nl=(2, 3))
    if p == "wl":
        for n in range(1, 13):
            yield n, dict(d, nw=n, al=[1e4 * (1 + (7 * i) % 13) for i in range(n)])
    elif p == "bins":
        for n in list(range(1, 13)) + [16, 20, 25]:
            yield n, dict(d, lay=(n, ["pi/2", "pi/4", "pi", "2pi/3"][n % 4], [1e-6, 0.2, 0.3][n % 3] if n < 10 else 1e-6))
    elif p == "thresh":
        for t in np.logspace(-9, -0.2, 14 * f):
            yield "%.3g" % t, dict(d, thresh=float(t))
    elif p == "alpha":
        for a in [0.0] + list(np.logspace(-3, 8, 16 * f)):
            yield "%.3g" % a, dict(d, al=[float(a), float(a) / 3])
    elif p == "width":
        for a in np.logspace(-9, -2, 16 * f):
            yield "%.3g" % a, dict(d, width=float(a))
    elif p == "th":
        for a in np.linspace(0.01, 1.565, 25 * f):
            yield "%.4g" % a, dict(d, th=float(a), lay=(7, "pi/2", 0.25))
    elif p == "ph":
        for a in np.linspace(0.01, 2 * np.pi - 0.01, 25 * f):
            yield "%.4g" % a, dict(d, ph=float(a), lay=(4, "pi", 1.0), th=1.2)
    elif p == "layers":
        for a in range(1, 7):
            for c in (1, 4):
                yield "%d/%d" % (a, c), dict(d, nl=(a, c))


def fine(res, case):
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.matrix_formalism import calculate_RAT
    from solcore.structure import Layer
    for label, c in variants(case):
        n, sym, caz = c["lay"]
        b, nw, nl = Bins(n, SYM[sym], caz), c["nw"], c["nl"]
        fits = b.find(c["th"], c["ph"])
        if len(fits) != 1:
            continue                                  # on an edge
        d = common.fresh_dir("mf")
        try:
            proj = os.path.join(d, "proj")
            mats = dict(fF=family(b, case["f"], nw, nl[0], "front"), fR=family(b, case["r"], nw, nl[0], "rear"), rF=family(b, case["b"], nw, nl[1], "front"))
            wls = np.linspace(400e-9, 900e-9, nw) if nw > 1 else np.array([500e-9])
            z = np.arange(4.0)
            pr = np.ones((nw, 4, b.na)) * (1 + np.arange(4.0))[None, :, None]
            for nm, side, M in (("f", "front", mats["fF"]), ("f", "rear", mats["fR"]), ("b", "front", mats["rF"])):
                write(proj, nm, side, M[0], M[1], prof=pr * M[1].sum(1)[:, None] / pr.sum(1)[:, None], intgr=M[1].sum(1), z=z, wl=wls)
            v = np.zeros(b.na)
            v[fits.pop()] = 1
            m = Model(b, mats, c["al"], c["width"], np.array([v] * nw))
            try:
                m.run(c["thresh"], limit=60)
            except RuntimeError:
                continue
            L = lambda k: [Layer((i + 1) * 1e-9, Mat(2.0)) for i in range(k)]
            SC = Structure([Interface("TMM", layers=L(nl[0]), name="f", coherent=True), BulkLayer(c["width"], Alpha(3.0, c["al"]), name="bulk"),
                            Interface("TMM", layers=L(nl[1]), name="b", coherent=True)], incidence=Mat(1.0), transmission=Mat(1.0))
            base = None
            for bp in (False, True):
                o = opts(wavelength=wls, n_theta_bins=n, phi_symmetry=SYM[sym], c_azimuth=caz, theta_in=c["th"], phi_in=c["ph"], I_thresh=c["thresh"],
                         bulk_profile=bp, project_name="proj", depth_spacing_bulk=c["width"] / 13.3)
                sig = "fine %s/%s/%s %s=%s prof=%s" % (case["f"], case["r"], case["b"], case["par"], label, bp)
                got = calculate_RAT(SC, o, save_location=d)
                res.execs += 1
                res.traces += 1
                res.seen(sig)
                compare(res, got, lambda p: m.run(c["thresh"], p), c["thresh"], sig, nw, wls)
                res.states += len(got[1]["r"][0])
                now = [np.asarray(got[0][k].data) for k in ("R", "T", "A_bulk") if k in got[0]]
                base = base or now
                res.check(all(np.abs(x - y).max() < 1e-12 for x, y in zip(now, base)), "asking for profiles changes the totals", sig)
        finally:
            common.rmdir(d)


def run_case(case):
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.matrix_formalism import calculate_RAT
    from solcore.structure import Layer
    res = common.Result()
    if case["k"] == "chain":
        chain(res, case)
        return res
    if case["k"] == "fine":
        fine(res, case)
        return res
    full, ci = case["all"], case["i"]
    for li, lay in enumerate(LAYS):
        if not full and li != ci % 4 and li != (ci // 4 + 1) % 4:
            continue
        n, sym, c = lay
        b = Bins(n, SYM[sym], c)
        d = common.fresh_dir("mf")
        nl = (2, 3)
        proj = os.path.join(d, "proj")
        fF, fR, rF = family(b, case["f"], 2, nl[0], "front"), family(b, case["r"], 2, nl[0], "rear"), family(b, case["b"], 2, nl[1], "front")
        z = np.arange(4.0)
        pr = np.ones((2, 4, b.na)) * (1 + np.arange(4.0))[None, :, None]

        def wr(nm, side, M):
            write(proj, nm, side, M[0], M[1], prof=pr * M[1].sum(1)[:, None] / pr.sum(1)[:, None], intgr=M[1].sum(1), z=z, wl=WL)
        wr("f", "front", fF)
        wr("f", "rear", fR)
        wr("b", "front", rF)
        mats = dict(fF=fF, fR=fR, rF=rF)
        # a lossless rear surface stored without wavelength dependence, as ideal reflectors are
        flat = case["b"] in ("clear", "mirror")
        if flat:
            F0 = family(b, case["b"], 2, 0, "front")
            write(proj, "b2", "front", F0[0][:1], np.zeros((1, 1, b.na)), flat=True)
            mats2 = dict(fF=fF, fR=fR, rF=(F0[0], np.zeros((2, 1, b.na))))
        LA = [Layer(1e-9, Mat(2.0)), Layer(3e-9, Mat(2.0))]
        LB = [Layer(2e-9, Mat(2.0))] * 3
        for ai, al in enumerate(ALPHA):
            bulk = BulkLayer(1e-5, Alpha(3.0, al), name="bulk")
            for ti, (th, ph, v) in enumerate(angle_inputs(b)):
                if not full and (ti + ai + ci) % 2:
                    continue
                v0 = np.array([v, v])
                for thresh in (1e-2, 1e-4):
                    if not full and thresh == 1e-4 and (ti + ci) % 3:
                        continue
                    base = {}
                    for si, (bp, pf, pb) in enumerate(SETTINGS):
                        if not full and si and si != 1 + (ci + ti + ai) % 4:
                            continue
                        for rear in ("b", "b2") if flat and pb is None else ("b",):
                            m = Model(b, mats if rear == "b" else mats2, al, 1e-5, v0)
                            try:
                                m.run(thresh, limit=MAXPASS)
                            except RuntimeError:
                                res.notes["beyond %d passes" % MAXPASS] = res.notes.get("beyond %d passes" % MAXPASS, 0) + 1
                                continue
                            SC = Structure([Interface("TMM", layers=LA, name="f", coherent=True, prof_layers=pf), bulk,
                                            Interface("TMM", layers=LB, name=rear, coherent=True, prof_layers=pb)], incidence=Mat(1.0),
                                           transmission=Mat(1.0))
                            o = opts(wavelength=WL, n_theta_bins=n, phi_symmetry=SYM[sym], c_azimuth=c, theta_in=th, phi_in=ph, I_thresh=thresh,
                                     bulk_profile=bp, project_name="proj", depth_spacing_bulk=1e-6)
                            sig = "%s/%s/%s%s %s al=%s th=%.3f ph=%s thr=%g prof=%s" % (
                                case["f"], case["r"], case["b"], rear[1:], lay, al, th, ph if ph == "all" else "%.3f" % ph, thresh, (bp, pf, pb))
                            got = calculate_RAT(SC, o, save_location=d)
                            res.execs += 1
                            res.traces += 1
                            res.seen(sig)
                            compare(res, got, lambda p: m.run(thresh, p), thresh, sig, 2)
                            res.states += len(got[1]["r"][0])
                            want = 4 if (bp or pf or pb) else 2
                            res.check(len(got) == want, "%d results returned instead of %d" % (len(got), want), sig)
                            now = [np.asarray(got[0][k].data) for k in ("R", "T", "A_bulk") if k in got[0]]
                            bs = base.setdefault(rear, now)
                            res.check(len(now) == len(bs) and all(np.abs(x - y).max() < 1e-12 for x, y in zip(now, bs)),
                                      "asking for profiles changes the totals", sig)
        common.rmdir(d)
    return res


# ------------------------------------------------------------------ the whole chain
STK = {"tmm0": [("x", 60.0)], "tmm1": [("g", 60.0), ("b", 35.0)], "tmm2": [("b", 151.0)]}


def planar_matrix(b, stack, media, side, wls, coh=None):
    """dense matrices of a planar stack by the reference"""
    nw, na, nl = len(wls), b.na, len(stack)
    RT, A = np.zeros((nw, 2 * na, na)), np.zeros((nw, nl, na))
    st, md = (stack, media) if side == "front" else (stack[::-1], media[::-1])
    for w, wl in enumerate(wls):
        for j in range(na):
            g = j if side == "front" else na + j
            th = b.th[g] if side == "front" else np.pi - b.th[g]
            ni, nt = pl.nk(md[0], wl * 1e-9), pl.nk(md[1], wl * 1e-9)
            t = pl.tir(md, th, wl)
            R, T, Al = pl.ref("u", st, md, th, wl, coh, growing=t)
            RT[w, min(b.find(b.th[g], b.ph[g] + np.pi)), j] += R
            sn = ni.real * np.sin(th) / nt.real
            if sn < 1:
                f = b.find(np.pi - np.arcsin(sn) if side == "front" else np.arcsin(sn), b.ph[g] + np.pi)
                assert len(f) == 1, "refracted direction on a bin edge"
                RT[w, f.pop(), j] += T
            A[w, :, j] = Al if side == "front" else Al[::-1]
    return RT, A


def chain(res, case):
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.matrix_formalism import calculate_RAT, process_structure
    media = case["m"]
    wls = pl.NM[:2]
    for lay in ((4, "pi/2", 0.2), (7, "pi", 0.13)):
        n, sym, c = lay
        b = Bins(n, SYM[sym], c)
        fs, rs = case["f"], case["r"]
        F = Interface("TMM", layers=pl.layers(STK[fs]), name="front", coherent=True)
        if rs in STK:
            B = Interface("TMM", layers=pl.layers(STK[rs]), name="rear", coherent=True)
        else:
            B = Interface("Mirror" if rs == "mirror" else "Lambertian", name="rear")
        d = common.fresh_dir("chain")
        o = opts(wavelength=pl.WLS[:2], n_theta_bins=n, phi_symmetry=SYM[sym], c_azimuth=c, I_thresh=1e-3, bulk_profile=False,
                 project_name="proj", theta_in=0.0, phi_in=0.0)
        bulkm = pl.MATS[media[1]]
        width = 2e-6
        SC = Structure([F, BulkLayer(width, bulkm, name="bulk"), B], incidence=pl.MATS[media[0]], transmission=pl.MATS[media[2]])
        process_structure(SC, o, save_location=d)
        na = b.na
        mats = dict(fF=planar_matrix(b, STK[fs], media[:2], "front", wls), fR=planar_matrix(b, STK[fs], media[:2], "rear", wls))
        # light arriving from the absorbing bulk: the reference takes the real part of the index, as the real code's planar solver does not;
        # take the rear-incidence columns from a direct calculation where the bulk absorbs
        from c06_planar_matrices import direct
        for key, stack, md, side in (("fR", STK[fs], media[:2], "rear"),) + ((("rF", STK[rs], media[1:], "front"),) if rs in STK else ()):
            RT, A = planar_matrix(b, stack, md, side, wls)
            st, m2 = (stack, md) if side == "front" else (stack[::-1], md[::-1])
            for w, wl in enumerate(wls):
                if pl.nk(m2[0], wl * 1e-9).imag == 0:
                    continue
                for j in range(na):
                    g = j if side == "front" else na + j
                    th = b.th[g] if side == "front" else np.pi - b.th[g]
                    q = direct(st, m2, th, "u", None)
                    own, oth = (slice(0, na), slice(na, None)) if side == "front" else (slice(na, None), slice(0, na))
                    for sl, val in ((own, q[0][w]), (oth, q[1][w])):
                        x = RT[w, sl, j]
                        if x.sum() > 0:
                            RT[w, sl, j] = (x > 0) * val
                    A[w, :, j] = q[3][w] if side == "front" else q[3][w][::-1]
            mats[key] = (RT, A)
        if rs == "mirror":
            RT = np.zeros((2, 2 * na, na))
            for j in range(na):
                RT[:, min(b.find(b.th[j], b.ph[j] + np.pi)), j] = 1
            mats["rF"] = (RT, np.zeros((2, 1, na)))
        elif rs == "lambert":
            RT = np.zeros((2, 2 * na, na))
            for i in range(n):
                RT[:, b.start[i]:b.start[i + 1]] = (np.sin(b.te[i + 1]) ** 2 - np.sin(b.te[i]) ** 2) / b.nb[i]
            mats["rF"] = (RT, np.zeros((2, 1, na)))
        elif "rF" not in mats:
            mats["rF"] = planar_matrix(b, STK[rs], media[1:], "front", wls)
        al = [4 * np.pi * pl.nk(media[1], w * 1e-9).imag / (w * 1e-9) for w in wls]
        for th, ph, v in angle_inputs(b):
            for bp in (False, True):
                o["theta_in"], o["phi_in"], o["bulk_profile"] = th, ph, bp
                got = calculate_RAT(SC, o, save_location=d)
                res.execs += 1
                res.traces += 1
                sig = "chain %s|%s|%s %s th=%.3f ph=%s bp=%s" % (fs, media, rs, lay, th, ph, bp)
                res.seen(sig)
                m = Model(b, mats, al, width, np.array([v, v]))
                p = len(got[1]["r"][0]) - 1
                ref = m.run(1e-3, p)
                R, T, Ab = (np.asarray(got[0][k].data)[0] for k in ("R", "T", "A_bulk"))
                e = [np.sum(ref["r"], axis=(0, 2)), np.sum(ref["t"], axis=(0, 2)), np.sum(ref["A"], axis=0)]
                res.check(max(np.abs(R - e[0]).max(), np.abs(T - e[1]).max(), np.abs(Ab - e[2]).max()) < 1e-4,
                          "result of the whole chain differs from the model", sig, got=[R, T, Ab], want=e)
                a = [np.asarray(q).sum(0) for q in got[1]["a"]]
                ea = [np.sum(ref["a0"], axis=0), np.sum(ref["a1"], axis=0)]
                res.check(all(np.abs(x - y).max() < 1e-4 for x, y in zip(a, ea)), "absorption in the interfaces differs from the model", sig,
                          got=a, want=ea)
                res.check((ref["left"][-1] <= 1e-3 + 1e-5).all(), "stopped too early", sig)
        common.rmdir(d)


if __name__ == "__main__":
    common.main(sys.modules[__name__])
