"""C14: stored planar-stack lookup tables.  For every stack, pair of media, coherency pattern, subset of profiled layers and
list of sides, every entry of the table that the real code makes (and of the file it stores) is compared with a direct
planar calculation and, where that is defined, with the scalar transfer-matrix package."""
import sys, os, itertools
import numpy as np
import common
import planar as pl
from c12_tmm import opt, struct, get, name
from c13_tmmprof import ref_functions, subsets

PROPERTY = "C14"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of stacks, media, coherency patterns, profiled-layer subsets and sides; every entry of "
             "the table made by the real code is compared with a reference model")
RULE = "distinct (stack, media, coherency, profiled layers, sides) whose table was compared entry by entry"
ASSUMPTIONS = ["entries beyond the critical angle of the exit medium and evanescent incoherent layers are compared with a "
               "direct calculation by the real code only (C12 decides those)",
               "light that arrives from an absorbing medium is compared with a direct calculation by the real code only"]
MEDIA = ["aa", "ah", "qa", "aM", "as"]


def stacks(tier):
    al = [("g", 35.0), ("b", 35.0), ("b", 151.0), ("m", 22.5), ("s", 330.0)]
    out = [[x] for x in al] + [list(x) for x in itertools.product(al, repeat=2)]
    if tier == "quick":
        return [[al[0]], [al[4]], [al[0], al[2]], [al[4], al[1]], [al[3], al[0]], [al[1], al[2]], [al[0], al[1], al[4]], [al[4], al[2], al[3]],
                [al[1], al[0], al[2]]]
    return out + [[al[0], al[1], al[4]], [al[4], al[2], al[3]], [al[1], al[0], al[4]], [al[4], al[1], al[4]], [al[3], al[0], al[2]],
                  [al[0], al[4], al[1], al[3]], [al[1], al[2], al[4], al[0]]]


def cases(tier):
    cs = []
    for st in stacks(tier):
        for m in (MEDIA if tier != "quick" else MEDIA):
            cs.append(dict(kind="table", stack=st, media=m))
    # fine values of one parameter at a time
    for par in ("angles", "wl", "layers", "width", "index"):
        cs.append(dict(kind="fine", par=par, _w=4))
    for v in range(4):
        cs.append(dict(kind="rt", v=v))
    return cs


_dir = {}


def direct(stack, media, th, pol, coh, prof, wls=pl.NM):
    """direct planar calculation of the stack as light meets it"""
    k = (tuple(stack), media, tuple(wls))
    if k not in _dir:
        _dir.clear()
        _dir[k] = struct(stack, media)
    s = _dir[k]
    o = opt(theta_in=th, pol=pol, coherent=coh is None, coherency_list=coh, depth_spacing=1e5, wavelength=np.array(wls) * 1e-9)
    out = s.calculate(o, profile=True, layers=prof) if prof else s.calculate(o)
    g = [np.where(x < 0, 0, x) for x in get(out)]        # the table holds no negative values
    return g, (np.real(np.asarray(out["profile_coeff"])) if prof else None)


CO = ["A1", "A2", "A3_r", "A3_i", "a1", "a3"]


def compare(res, ds, stack, media, coh, prof, sides, nang, sig, pols="spu", wls=pl.NM):
    n = len(stack)
    th = np.linspace(0, np.pi / 2 - 1e-3, nang)
    res.check(np.allclose(np.asarray(ds["angle"]), th, rtol=0, atol=1e-12), "angles of the table", sig)
    res.check(np.allclose(np.asarray(ds["wl"]), wls), "wavelengths of the table", sig, got=ds["wl"].values)
    res.check(sorted(ds["side"].values.tolist()) == sorted(sides), "sides of the table", sig, got=ds["side"].values)
    res.check(set(ds["pol"].values.tolist()) == set("spu"), "polarisations of the table", sig)
    res.check(ds["layer"].values.tolist() == sorted(set(range(1, n + 1))) or prof is not None, "layer labels", sig)
    res.check(("Aprof" in ds) == (prof is not None), "profile coefficients stored although not requested or missing", sig)
    worst = 0.0
    for side in sides:
        st, md, ch = (stack, media, coh) if side == 1 else (stack[::-1], media[::-1], None if coh is None else coh[::-1])
        for t, angle in enumerate(ds["angle"].values):
            dirs = {}
            for pol in "sp":
                dirs[pol] = direct(st, md, th[t], pol, ch, prof if prof is None or side == 1 else [n - l + 1 for l in prof][::-1], wls)
            for pol in pols:
                sg = "%s side=%d th=%d pol=%s" % (sig, side, t, pol)
                e = ds.sel(side=side, pol=pol, angle=angle)
                R, T = e["R"].transpose("wl").values, e["T"].transpose("wl").values
                A = np.stack([e["Alayer"].sel(layer=l).values for l in range(1, n + 1)], -1)     # wl, layer
                if pol == "u":
                    d = [np.mean([dirs[q][0][i] for q in "sp"], axis=0) for i in range(4)]
                    dc = None if prof is None else np.mean([dirs[q][1] for q in "sp"], axis=0)
                else:
                    d, dc = dirs[pol]
                if prof is not None:
                    got = np.stack([e["Aprof"].sel(layer=l).transpose("coeff", "wl").values for l in prof], 1)
                    res.check(np.allclose(got, dc if side == 1 else dc[:, ::-1], rtol=1e-9, atol=1e-14, equal_nan=True),
                              "profile coefficients differ from a direct calculation", sg)
                dA = d[3] if side == 1 else d[3][:, ::-1]
                ok = (np.allclose(R, d[0], atol=1e-9, equal_nan=True) and np.allclose(T, d[1], atol=1e-9, equal_nan=True)
                      and np.allclose(A, dA, atol=1e-9, equal_nan=True))
                res.check(ok, "table differs from a direct calculation", sg, R=[R, d[0]], T=[T, d[1]], A=[A, dA])
                res.execs += 1
                for i, w in enumerate(wls):
                    nin = pl.nk(md[0], w * 1e-9)
                    if nin.imag > 0 or pl.tir(md, th[t], w):
                        continue
                    if ch is not None and any(c == "i" and pl.nk(m, w * 1e-9).real < 1.01 * np.sin(th[t]) * nin.real
                                              for (m, _), c in zip(st, ch)):
                        continue
                    r, tt, a = pl.ref(pol, st, md, th[t], w, ch)
                    a = a if side == 1 else a[::-1]
                    res.transitions += 1
                    err = max(abs(R[i] - r), abs(T[i] - tt), np.abs(A[i] - a).max())
                    worst = max(worst, err)
                    if not err < 5e-6:
                        res.bad("table differs from the transfer-matrix method", sg + " wl=%g" % w, got=[R[i], T[i], A[i]],
                                want=[r, tt, a])
                        continue
                    res.check(abs(R[i] + T[i] + A[i].sum() - 1) < 1e-6, "R + T + A is not 1", sg)
                    if prof is None:
                        continue
                    fs = ref_functions(pol, st, md, th[t], w, ch)
                    for l in prof:
                        c = e["Aprof"].sel(layer=l)
                        c = [float(c.sel(coeff=q).values[i]) for q in CO]
                        j = l - 1 if side == 1 else n - l
                        dd = stack[l - 1][1]
                        A1, A2, A3, a1, a3 = c[0], c[1], c[2] + 1j * c[3], c[4], c[5]
                        x = np.array([0.0, 0.13, 0.5, 0.77, 1.0]) * dd
                        if pol != "u":        # the mean of coefficients is a profile only if exponents agree
                            rec = A1 * np.exp(a1 * x) + A2 * np.exp(-a1 * x) + 2 * np.real(A3 * np.exp(1j * a3 * x))
                            want = fs[j](x)
                            tol = 2e-6 * (A[i, l - 1] / dd) + 1e-10
                            inc = ch is not None and ch[j] == "i"
                            res.check(np.abs(rec - want).max() <= tol if not inc else np.isfinite(rec).all(),
                                      "profile coefficients give another profile", sg + " layer=%d" % l, got=rec, want=want)
                        def integ(v, f=np.expm1):
                            return dd if v == 0 else f(v * dd) / v
                        I = A1 * integ(a1) + A2 * integ(-a1) + 2 * np.real(A3 * integ(1j * a3))
                        res.check(abs(I - A[i, l - 1]) < 2e-6 * A[i, l - 1] + 1e-8, "profile coefficients do not integrate to "
                                  "the absorption of the layer", sg + " layer=%d" % l, I=I, A=A[i, l - 1])
                res.traces += 1
    res.notes["max_deviation"] = max(res.notes.get("max_deviation", 0), float(worst))


def fine(case):
    """(label, stack, media, coherency, profiled layers, number of angles, wavelengths)"""
    p, f = case["par"], 1 if common.TIER == "quick" else 4
    two = [("g", 35.0), ("b", 60.0)]
    if p == "angles":
        for n in [2, 4, 6, 9, 10, 16, 25, 33, 64, 100] + ([150, 200, 333, 500] if f > 1 else []):
            yield n, two, "aa", None, [2], n, pl.NM
    elif p == "wl":
        for n in list(range(1, 9)) + [10, 12, 16, 24] + ([37, 50] if f > 1 else []):
            yield n, two, "as", None, [1, 2], 3, np.linspace(415.0, 905.0, n) if n > 1 else np.array([700.0])
    elif p == "layers":
        codes = "gbsbgmb"
        for n in range(1, 8):
            st = [(codes[i], 25.0 + 13 * i) for i in range(n)]
            yield n, st, "aa", None, list(range(1, n + 1)), 3, pl.NM
            yield "%d reversed" % n, st[::-1], "aq", None, [n], 3, pl.NM
    elif p == "width":
        for w in np.logspace(-1.5, 3.5, 14 * f):
            yield "%.4g" % w, [("g", 35.0), ("b" if w < 400 else "w", float(w))], "aa", None, [2], 3, pl.NM
            if w > 100:
                yield "%.4g incoherent" % w, [("w", float(w)), ("b", 35.0)], "aa", ["i", "c"], None, 3, pl.NM
    else:
        for a in "aqghs":
            for b in "aqghsM":
                if pl.nk(a, 5e-7).imag == 0:
                    yield a + b, two, a + b, None, [1], 4, pl.NM


def check_fine(res, case):
    from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
    for label, stack, media, coh, prof, nang, wls in fine(case):
        d = common.fresh_dir("lut")
        o = opt(lookuptable_angles=nang, project_name="p", wavelength=np.array(wls) * 1e-9)
        ds = make_TMM_lookuptable(pl.layers(stack), pl.MATS[media[0]], pl.MATS[media[1]], "surf", o, d, coherent=coh is None, coherency_list=coh, prof_layers=prof)
        sig = "fine %s=%s" % (case["par"], label)
        res.seen(sig)
        res.states += 1
        compare(res, ds, stack, media, coh, prof, [1, -1], nang, sig, wls=wls)
        common.rmdir(d)


def run_case(case):
    from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
    import xarray as xr
    res = common.Result()
    if case["kind"] == "fine":
        check_fine(res, case)
    elif case["kind"] == "table":
        stack, media = [tuple(x) for x in case["stack"]], case["media"]
        n = len(stack)
        for coh in pl.cohlists(stack):
            for prof in [None] + list(subsets(n)):
                if coh is not None and "i" in coh and prof is not None and coh.count("i") < n:
                    # known finding of C13: solcore cannot combine profiles of coherent and incoherent layers exactly
                    mixed = True
                else:
                    mixed = False
                for sides in (None, [1, -1], [-1, 1], [1], [-1]):
                    if sides not in (None,) and not (prof in (None, [1]) and coh in (None, pl.cohlists(stack)[-1])):
                        continue
                    nang = 5 if sides is None else 3
                    d = common.fresh_dir("lut")
                    sig = "%s prof=%s sides=%s" % (name(stack, media, 0, "-", coh), prof, sides)
                    L = pl.layers(stack)
                    o = opt(lookuptable_angles=nang, project_name="p")
                    before = [(l.width, l.material) for l in L]
                    try:
                        ds = make_TMM_lookuptable(L, pl.MATS[media[0]], pl.MATS[media[1]], "surf", o, d, coherent=coh is None,
                                                  coherency_list=coh, prof_layers=prof, sides=sides)
                    except Exception as e:
                        import traceback
                        tb = traceback.extract_tb(e.__traceback__)[-1]
                        if mixed and "solcore" in tb.filename and tb.name == "add":
                            common.rmdir(d)
                            continue          # C13's known finding
                        raise
                    res.seen(sig)
                    res.states += 1
                    res.check(os.listdir(d) == ["surf.nc"], "files stored", sig, got=os.listdir(d))
                    res.check([(l.width, l.material) for l in L] == before and len(L) == n, "layers modified", sig)
                    compare(res, ds, stack, media, coh, prof, sides or [1, -1], nang, sig)
                    with xr.open_dataset(os.path.join(d, "surf.nc")) as f:
                        res.check(f.load().broadcast_equals(ds), "the stored table is not the one returned", sig)
                    common.rmdir(d)
    else:
        rt_tables(res, case["v"])
    return res


def rt_tables(res, v):
    """tables made for the interfaces of a ray-traced structure"""
    import rtlib as rl
    import xarray as xr
    from rayflare.ray_tracing import rt_structure
    # per interface: stack, coherency, profiled layers; materials between them
    IF = [
        [([("g", 35.0), ("b", 35.0)], None, [2]), ([("m", 22.5)], None, None)],
        [([("b", 151.0)], None, [1]), (None, None, None), ([("g", 60.0), ("b", 35.0), ("m", 22.5)], None, [1, 2])],
        [([("s", 330.0), ("b", 35.0)], ["i", "c"], None), ([("b", 35.0), ("g", 35.0)], None, [1, 2])],
        [([("b", 35.0)], None, None)],
    ][v]
    mats = ["s", "x"][: len(IF) - 1]
    media = [["a", *mats, "a"], ["q", *mats, "h"], ["a", *mats, "M"], ["a", "a"]][v]
    tx = []
    for st, coh, prof in IF:
        kw = {}
        if st:
            kw["interface_layers"] = pl.layers(st)
        if coh:
            kw["coherency_list"] = coh
        if prof:
            kw["prof_layers"] = prof
        tx.append(rl.tex(["planar"], name="t", **kw))
    d = common.fresh_dir("rtlut")
    o = rl.opts(wavelength=pl.WLS, lookuptable_angles=5, project_name="proj")
    rt_structure(tx, [pl.MATS[m] for m in mats], [1e-5] * len(mats), pl.MATS[media[0]], pl.MATS[media[-1]], options=o,
                 use_TMM=True, save_location=d, overwrite=False)
    files = sorted(os.listdir(os.path.join(d, "proj")))
    want = sorted("tint_%d.nc" % i for i, q in enumerate(IF) if q[0])
    res.check(files == want, "tables stored for the interfaces", "rt%d" % v, got=files, want=want)
    for i, (st, coh, prof) in enumerate(IF):
        if not st:
            continue
        sig = "rt%d interface %d" % (v, i)
        res.seen(sig)
        res.states += 1
        with xr.open_dataset(os.path.join(d, "proj", "tint_%d.nc" % i)) as f:
            compare(res, f.load(), st, media[i] + media[i + 1], coh, prof, [1, -1], 5, sig)
    common.rmdir(d)


if __name__ == "__main__":
    common.main(sys.modules[__name__])
