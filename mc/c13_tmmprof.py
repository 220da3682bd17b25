"""C13: absorption profiles of planar multilayers.  All stacks up to a depth over a layer alphabet x coherency patterns x
polarisations x angles x all subsets of profiled layers; profiles and analytic coefficients compared point by point with
the scalar transfer-matrix package and integrated exactly."""
import sys, itertools
import numpy as np
import common
import planar as pl
from c12_tmm import opt, struct, get, name

PROPERTY = "C13"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of planar stacks up to a depth, coherency patterns, polarisations, angles and subsets "
             "of profiled layers, each executed on the real code and compared point by point with a reference model")
RULE = "distinct (stack, media, angle, polarisation, coherency, profiled layers, spacing) whose profile was compared with the reference"
ASSUMPTIONS = ["absorption in incoherent layers is distributed exponentially with the layer's absorption coefficient (the "
               "documented approximation), normalised to the layer's absorption",
               "layer thickness at least two depth steps", "no total internal reflection at the exit medium (C12)"]
MEDIA = ["aa", "ah", "qM"]


def stacks(tier):
    al = [("g", 35.0), ("b", 35.0), ("b", 151.0), ("m", 22.5), ("s", 330.0)]
    out = [[x] for x in al] + [list(x) for x in itertools.product(al, repeat=2)]
    if tier == "quick":
        out += [[al[0], al[1], al[4]], [al[4], al[2], al[3]], [al[1], al[0], al[4]], [al[4], al[1], al[4]], [al[3], al[0], al[2]],
                [al[1], al[1], al[1]]]
    else:
        out += [list(x) for x in itertools.product(al, repeat=3)]
    return out


def cases(tier):
    st = stacks(tier)
    cs = [dict(stacks=st[i:i + 3]) for i in range(0, len(st), 3)]
    n = 30 if tier == "quick" else 300
    th = [1e-9, 1e-4, 5e-3] + [float(x) for x in np.linspace(0.02, 1.56, n)]
    dz = [0.31, 0.77, 1.0, 2.9, 4.999, 7.3, 10.0, 11.0] + ([] if tier == "quick" else [0.1, 0.2, 0.5, 1.9, 3.0, 8.0, 9.7])
    sc = [[("g", 35.0), ("b", 151.0)], [("s", 330.0), ("m", 22.5)], [("b", 35.0), ("g", 35.0), ("s", 330.0)]]
    for x in sc:
        cs += [dict(stacks=[x], media=[m], th=th[i::3], dz=[5.0]) for m in MEDIA for i in range(3)]
        cs.append(dict(stacks=[x], media=["qM"], th=[0.7], dz=dz))
    return cs


def subsets(n):
    for r in range(1, n + 1):
        yield from (list(c) for c in itertools.combinations(range(1, n + 1), r))


def ref_functions(pol, stack, media, th, w, coh):
    """per layer: function of depth (nm) giving the absorbed power density (1/nm)"""
    import tmm, warnings
    if pol == "u":
        a, b = (ref_functions(q, stack, media, th, w, coh) for q in "sp")
        return [(lambda z, f=f, g=g: (f(z) + g(z)) / 2) for f, g in zip(a, b)]
    wl = w * 1e-9
    n = [complex(pl.nk(media[0], wl).real)] + [pl.nk(c, wl) for c, _ in stack] + [pl.nk(media[1], wl)]
    d = [np.inf] + [float(t) for _, t in stack] + [np.inf]
    fs = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if coh is None:
            o = tmm.coh_tmm(pol, n, d, th, w)
            for l in range(1, len(stack) + 1):
                def f(z, l=l):
                    return np.array([np.real(tmm.position_resolved(l, x, o)["absor"]) for x in np.atleast_1d(z)])
                fs.append(f)
        else:
            o = tmm.inc_tmm(pol, n, d, ["i"] + list(coh) + ["i"], th, w)
            A = tmm.inc_absorp_in_each_layer(o)
            for l in range(1, len(stack) + 1):
                if coh[l - 1] == "c":
                    j, k = o["stack_from_all"][l]
                    fw, bw = o["coh_tmm_data_list"][j], o["coh_tmm_bdata_list"][j]
                    F, B = o["stackFB_list"][j]
                    kb = len(bw["d_list"]) - 1 - k
                    fs.append(lambda z, fw=fw, bw=bw, F=F, B=B, k=k, kb=kb, l=l: np.array([np.real(
                        F * tmm.position_resolved(k, x, fw)["absor"] + B * tmm.position_resolved(kb, d[l] - x, bw)["absor"])
                        for x in np.atleast_1d(z)]))
                else:
                    al = 4 * np.pi * n[l].imag / w
                    amp = 0.0 if al == 0 else np.real(A[l]) * al / -np.expm1(-al * d[l])
                    fs.append(lambda z, al=al, amp=amp: amp * np.exp(-al * np.atleast_1d(np.asarray(z, float))))
    return fs


def run_case(case):
    res = common.Result()
    for stack in case["stacks"]:
        stack = [tuple(x) for x in stack]
        n = len(stack)
        start = np.concatenate([[0], np.cumsum([t for _, t in stack])])
        for media in case.get("media", MEDIA):
            s = struct(stack, media)
            for th in case.get("th", (0.0, 0.7, 1.3)):
                if any(pl.tir(media, th, w) for w in pl.NM):
                    continue
                for coh in pl.cohlists(stack):
                    if coh is not None and any(c == "i" and pl.nk(m, w * 1e-9).real < 1.01 * np.sin(th) * pl.nk(media[0], w * 1e-9).real
                                               for (m, _), c in zip(stack, coh) for w in pl.NM):
                        continue
                    for pol in "spu":
                        o = opt(theta_in=th, pol=pol, coherent=coh is None, coherency_list=coh)
                        bare = get(s.calculate(o))
                        refs = [ref_functions(pol, stack, media, th, w, coh) for w in pl.NM]
                        full = {}
                        for dz in case.get("dz", (5.0, 3.7)):
                            o["depth_spacing"] = dz * 1e-9
                            z = np.arange(0, start[-1], dz)
                            for layers in [None] + list(subsets(n)):
                                if (dz != 5.0 or "th" in case) and layers is not None and len(layers) > 1:
                                    continue
                                sig = "%s layers=%s dz=%g" % (name(stack, media, th, pol, coh), layers, dz)
                                try:
                                    out = s.calculate(o, profile=True, layers=layers)
                                except Exception as e:
                                    import traceback
                                    site = traceback.extract_tb(e.__traceback__)[-1]
                                    up = "solcore" in site.filename and site.name == "add" and coh is not None
                                    res.bad("the profile cannot be calculated: %s %s" % (type(e).__name__, e),
                                            "raised in solcore inc_find_absorp_analytic_fn/add" if up else "raises " + sig)
                                    continue
                                res.execs += 1
                                res.seen(sig)
                                g = get(out)
                                res.check(all(np.array_equal(a, b) for a, b in zip(g, bare)),
                                          "asking for the profile changes R, A or T", sig)
                                P = np.real(np.asarray(out["profile"]))
                                C = np.real(np.asarray(out["profile_coeff"]))
                                L = list(range(1, n + 1)) if layers is None else layers
                                zz = [z[(z >= start[l - 1] - 1e-9) & (z < start[l] - 1e-9)] - start[l - 1] for l in L]
                                if not res.check(P.shape == (3, sum(len(q) for q in zz)), "profile is not sampled on the grid "
                                                 "of the requested layers", sig, got=P.shape, want=[3, sum(len(q) for q in zz)]):
                                    continue
                                if not res.check(C.shape == (6, len(L), 3), "coefficients: shape %s" % (C.shape,), sig):
                                    continue
                                res.check(np.isfinite(P).all() and (P >= 0).all(), "negative or undefined absorption profile", sig)
                                if layers is None:
                                    full[dz] = P
                                elif dz in full:
                                    k = np.concatenate([np.where((z >= start[l - 1] - 1e-9) & (z < start[l] - 1e-9))[0] for l in L])
                                    res.check(np.allclose(P, full[dz][:, k], rtol=1e-9, atol=1e-15),
                                              "profile of a layer depends on which other layers are requested", sig)
                                pos = 0
                                for j, l in enumerate(L):
                                    c = C[:, j]                       # A1 A2 A3r A3i a1 a3
                                    for i in range(3):
                                        x = zz[j]
                                        p = P[i, pos:pos + len(x)]
                                        A1, A2, A3, a1, a3 = c[0, i], c[1, i], c[2, i] + 1j * c[3, i], c[4, i], c[5, i]
                                        rec = A1 * np.exp(a1 * x) + A2 * np.exp(-a1 * x) + 2 * np.real(A3 * np.exp(1j * a3 * x))
                                        inc = coh is not None and coh[l - 1] == "i"
                                        Al = bare[3][i, l - 1]
                                        d = stack[l - 1][1]
                                        tol = 1e-6 * (Al / d) + 1e-10
                                        e = refs[i][l - 1](x) if layers is None or len(L) == 1 else None
                                        if inc:
                                            tol += (1.2 * dz / d) * (Al / d) * 3
                                            # exact on the sampled interval instead: shape and integral
                                            al = 4 * np.pi * pl.nk(stack[l - 1][0], pl.WLS[i]).imag / pl.NM[i]
                                            m = x[-1]
                                            if al > 0:
                                                ex = Al * al * np.exp(-al * x) / -np.expm1(-al * m)
                                                ex2 = Al * al * np.exp(-al * x) / -np.expm1(-al * d)
                                                res.check(np.allclose(p, ex, rtol=1e-5, atol=1e-12) or
                                                          np.allclose(p, ex2, rtol=1e-5, atol=1e-12),
                                                          "profile of incoherent layer %d does not integrate to its absorption" % l, sig,
                                                          got=p[:3], want=ex2[:3])
                                        elif e is not None:
                                            res.check(np.abs(p - np.maximum(e, 0)).max() < tol, "profile of layer %d differs from the "
                                                      "transfer-matrix method" % l, sig, got=p[:4], want=e[:4])
                                        res.check(np.abs(np.maximum(rec, 0) - p).max() < tol, "the analytic coefficients of layer %d "
                                                  "do not reproduce the profile" % l, sig, got=rec[:4], want=p[:4])
                                        I = (A1 * (np.expm1(a1 * d) / a1 if a1 > 0 else d) +
                                             A2 * (-np.expm1(-a1 * d) / a1 if a1 > 0 else d) +
                                             2 * np.real(A3 * ((np.exp(1j * a3 * d) - 1) / (1j * a3) if a3 > 0 else d)))
                                        res.check(abs(I - Al) < 3e-6, "the profile of layer %d does not integrate to its absorption" % l,
                                                  sig, integral=I, A=Al, wl=pl.NM[i])
                                    pos += len(zz[j])
                                res.traces += 1
                        o["depth_spacing"] = 5e-9
                        if 5.0 not in full:
                            continue
                        r = s.calculate_profile(o, layers=[n])
                        res.check(np.array_equal(np.asarray(r["profile"]),
                                                 np.asarray(s.calculate(o, profile=True, layers=[n])["profile"])),
                                  "calculate_profile differs from calculate", name(stack, media, th, pol, coh))
    return res


if __name__ == "__main__":
    common.main(sys.modules[__name__])
