"""C06: redistribution matrices of planar multilayers, mirrors and Lambertian reflectors.  All bin layouts of a family x
stacks x media x polarisations x sides x coherency patterns; every column of every matrix made by the real code is compared
with an independent planar reference and an independent binning."""
import sys, os, itertools
import numpy as np
import common
import planar as pl
from bins import Bins, SYM
from c12_tmm import opt, struct, get, name

PROPERTY = "C06"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of bin layouts, planar stacks, media, polarisations, coherency patterns and sides; every "
             "column of the matrices made by the real code is compared with a reference model")
RULE = "distinct (layout, surface, side) whose matrix was compared column by column"
ASSUMPTIONS = ["a direction exactly on a bin edge may go to either neighbour",
               "columns beyond the critical angle of the exit medium and light arriving from an absorbing medium are compared "
               "with a direct planar calculation by the real code (C12 decides that)",
               "light refracted beyond 90 degrees into an absorbing medium may be put in any bin of that hemisphere"]
AZ = [1e-6, 0.25, 0.5, 1.0]
STACKS = [[], [("g", 35.0)], [("b", 35.0)], [("g", 60.0), ("b", 151.0)], [("m", 22.5), ("g", 35.0)], [("s", 330.0), ("b", 35.0)],
          [("w", 900.0), ("b", 35.0), ("g", 60.0)]]
MEDIA = ["ah", "aa", "qa", "aM", "as"]


def cases(tier):
    cs = [dict(kind="ideal", n=n, sym=s) for n in ([1, 2, 3, 4, 5, 7, 10] if tier == "quick" else range(1, 21)) for s in SYM]
    lay = [(1, "pi/2", 1e-6), (2, "2pi", 1.0), (3, "pi/4", 0.5), (4, "pi/2", 0.25), (3, "2pi/3", 1.0), (10, "pi/4", 1e-6), (5, "pi", 0.25)]
    if tier != "quick":
        lay += [(n, s, c) for n in (2, 4, 6) for s in SYM for c in AZ]
    for st in range(len(STACKS)):
        for m in MEDIA:
            cs.append(dict(kind="tmm", stack=st, media=m, lay=lay, _w=2))
    # more bins, layers and thicknesses
    many = [(n, ["pi/2", "pi/4", "pi", "2pi/3", "2pi"][n % 5], 1e-6) for n in (6, 7, 8, 9, 11, 12, 15, 20, 30, 50)]
    for m in ("aa", "ah", "qa"):
        cs.append(dict(kind="tmm", stack=2, media=m, lay=[(5, "pi/2", 1e-6)] + many, _w=2))
    for st in [[("b", t)] for t in (0.3, 2.0, 500.0, 3000.0)] + [[("w", t), ("b", 20.0)] for t in (5e3, 2e5)] + \
            [[("gbsbgwb"[i], 20.0 + 17 * i) for i in range(n)] for n in (4, 5, 6, 7)]:
        for m in ("aa", "as"):
            cs.append(dict(kind="tmm", stack=st, media=m, lay=[(3, "pi/2", 0.5)], few=True))
    cs.append(dict(kind="edge"))
    plays = [(3, "pi/2", 1.0)] if tier == "quick" else [(3, "pi/2", 1.0), (2, "pi/4", 0.5), (5, "2pi", 1e-6)]
    for st in PROFSTACKS:
        for m in ("aa", "ah", "qa", "aM"):
            cs.append(dict(kind="prof", stack=st, media=m, lay=plays, _w=3))
    return cs


PROFSTACKS = [[("b", 35.0)], [("s", 330.0), ("b", 35.0)], [("g", 60.0), ("b", 151.0)], [("b", 35.0), ("g", 60.0), ("s", 52.0)],
              [("g", 35.0), ("m", 22.5), ("g", 60.0), ("s", 20.0)]]


def topts(n, P, c, sp, **kw):
    return opt(n_theta_bins=n, phi_symmetry=P, c_azimuth=c, theta_spacing=sp, **kw)


def dense(m):
    return np.asarray(m.todense())


def check_ideal(res, case):
    from rayflare.angles import make_angle_vector
    from rayflare.matrix_formalism.ideal_cases import lambertian_matrix, mirror_matrix
    n, P = case["n"], SYM[case["sym"]]
    for c in AZ:
        for sp in ("sin", "linear"):
            ti, pi_, av = make_angle_vector(n, P, c, sp)
            b = Bins(n, P, c, sp)
            for side in ("front", "rear"):
                up, dn = slice(0, b.na), slice(b.na, None)
                refl = up if side == "front" else dn
                cols = np.arange(b.na) + (0 if side == "front" else b.na)
                sig = "n=%d %s c=%g %s %s" % (n, case["sym"], c, sp, side)
                for kind in ("mirror", "lambert"):
                    if kind == "mirror":
                        M, A = mirror_matrix(av, ti, pi_, "x", {"phi_symmetry": P}, "nowhere", side, save=False)
                    else:
                        M, A = lambertian_matrix(av, ti, "x", "nowhere", side, save=False)
                    M, A = dense(M), dense(A)
                    res.execs += 1
                    res.traces += 1
                    sg = kind + " " + sig
                    res.seen(sg)
                    res.states += b.na
                    if not res.check(M.shape == (2 * b.na, b.na), "shape %s" % (M.shape,), sg):
                        continue
                    res.check(np.all(A == 0) and A.shape[1] == b.na, "an ideal reflector absorbs", sg)
                    res.check((M >= 0).all() and np.allclose(M.sum(0), 1, atol=1e-12), "columns do not add up to 1", sg, sums=M.sum(0))
                    res.check(np.allclose(M[refl].sum(0), 1, atol=1e-12), "reflected light in the wrong hemisphere", sg,
                              reflected=M[refl].sum(0))
                    if kind == "mirror":
                        for j in range(b.na):
                            k = np.flatnonzero(M[:, j])
                            res.check(len(k) == 1 and k[0] in b.find(b.th[cols[j]], b.ph[cols[j]] + np.pi),
                                      "mirror reflection of bin %d is not specular" % j, sg, got=k)
                    else:
                        e = np.zeros(2 * b.na)
                        for i in range(2 * n):
                            if (i < n) == (side == "front"):
                                w = abs(np.sin(b.te[i + 1]) ** 2 - np.sin(b.te[i]) ** 2)
                                e[b.start[i]:b.start[i + 1]] = w / b.nb[i]
                        res.check(np.abs(M - e[:, None]).max() < 1e-9, "Lambertian reflection does not follow the cosine law", sg,
                                  got=M[:, 0], want=e)


_d = {}


def direct(stack, media, th, pol, coh):
    k = (tuple(stack), media, round(th, 9), pol, tuple(coh or ()))
    if k not in _d:
        if pol == "u":
            a, b = direct(stack, media, th, "s", coh), direct(stack, media, th, "p", coh)
            _d[k] = [(x + y) / 2 for x, y in zip(a, b)]
        else:
            g = get(struct(stack, media).calculate(opt(theta_in=th, pol=pol, coherent=coh is None, coherency_list=coh)))
            _d[k] = [np.where(x < 0, 0, x) for x in g]
    return _d[k]


def check_tmm(res, case):
    from rayflare.transfer_matrix_method import TMM
    from solcore.structure import Layer
    stack, media = STACKS[case["stack"]] if np.ndim(case["stack"]) == 0 else [tuple(x) for x in case["stack"]], case["media"]
    n_l = len(stack)
    _d.clear()
    for n, s, c in case["lay"]:
        P = SYM[s]
        first = (n, s, c) == tuple(case["lay"][0])
        for sp in ("sin", "linear"):
            b = Bins(n, P, c, sp)
            for side in ("front", "rear"):
                st, md = (stack, media) if side == "front" else (stack[::-1], media[::-1])
                for coh in pl.cohlists(stack)[:2 if case.get("few") else None]:
                    ch = coh if coh is None or side == "front" else coh[::-1]
                    for pol in "spu":
                        if n > 4 and (pol != "u" or sp == "linear"):
                            continue
                        o = topts(n, P, c, sp, pol=pol)
                        sig = "%s %s n=%d %s c=%g %s" % (name(stack, media, 0, pol, coh), side, n, s, c, sp)
                        L = pl.layers(stack)
                        M, A = TMM(L, pl.MATS[media[0]], pl.MATS[media[1]], "x", o, "nowhere", coherent=coh is None,
                                   coherency_list=coh, front_or_rear=side, save=False)
                        M, A = dense(M), dense(A)
                        res.execs += 1
                        res.traces += 1
                        res.seen(sig)
                        if not res.check(M.shape == (3, 2 * b.na, b.na) and A.shape == (3, n_l, b.na), "shapes %s %s" % (M.shape, A.shape), sig):
                            continue
                        res.check((M >= 0).all() and (A >= 0).all(), "negative power", sig)
                        for w in range(3):
                            wl = pl.NM[w]
                            ni, nt = pl.nk(md[0], wl * 1e-9), pl.nk(md[1], wl * 1e-9)
                            for j in range(b.na):
                                g = j if side == "front" else b.na + j
                                th = b.th[g] if side == "front" else np.pi - b.th[g]
                                sg = "%s wl=%g bin=%d" % (sig, wl, j)
                                tirc = pl.tir(md, th, wl) and ni.imag == 0
                                evan = ch is not None and any(q == "i" and pl.nk(m, wl * 1e-9).real < 1.01 * np.sin(th) * ni.real
                                                              for (m, _), q in zip(st, ch))
                                plain = ni.imag == 0 and not tirc and not evan
                                if plain:
                                    k = ("ref", tuple(st), md, round(th, 9), pol, tuple(ch or ()), wl)
                                    if k not in _d:
                                        _d[k] = pl.ref(pol, st, md, th, wl, ch) if st else fres(pol, md, th, wl)
                                    R, T, Al = _d[k]
                                elif st:
                                    d = direct(st, md, th, pol, ch)
                                    R, T, Al = d[0][w], d[1][w], d[3][w]
                                else:
                                    R, T, Al = (1.0, 0.0, np.zeros(0)) if tirc else (None, None, np.zeros(0))
                                Al = Al if side == "front" else Al[::-1]
                                col = M[w, :, j]
                                res.transitions += 1
                                res.states += 1
                                if evan or (tirc and ch is not None):
                                    pass
                                elif R is not None:
                                    k = np.flatnonzero(col)
                                    rb = b.find(b.th[g], b.ph[g] + np.pi)
                                    up = set(range(b.na))
                                    dn = set(range(b.na, 2 * b.na))
                                    own, oth = (up, dn) if side == "front" else (dn, up)
                                    rr = [q for q in k if q in own]
                                    tt = [q for q in k if q in oth]
                                    ok = abs(col[list(own)].sum() - R) < 1e-5 and set(rr) <= rb and len(rr) <= 1
                                    res.check(ok, "reflected power or direction", sg, bins=rr, want=sorted(rb), R=[col[list(own)].sum(), R])
                                    sn = ni.real * np.sin(th) / nt.real
                                    if sn < 1:
                                        t = np.arcsin(sn)
                                        tb = b.find(np.pi - t if side == "front" else t, b.ph[g] + np.pi)
                                    else:
                                        tb = oth
                                    ok = abs(col[list(oth)].sum() - T) < 1e-5 and set(tt) <= tb and len(tt) <= 1
                                    res.check(ok, "transmitted power or direction", sg, bins=tt, want=sorted(tb), T=[col[list(oth)].sum(), T])
                                    res.check(n_l == 0 or np.abs(A[w, :, j] - Al).max() < 1e-5, "absorption per layer", sg, A=[A[w, :, j], Al])
                                if plain or not (stack and (ni.imag or tirc or evan)):
                                    res.check(abs(col.sum() + A[w, :, j].sum() - 1) < 1e-6 or ni.imag > 0, "column does not add up to 1",
                                              sg, sum=col.sum() + A[w, :, j].sum())


def check_prof(res, case):
    """depth profiles stored with the matrices: all subsets of layers x sides"""
    from rayflare.transfer_matrix_method import TMM
    from c13_tmmprof import ref_functions, subsets
    stack, media = [tuple(x) for x in case["stack"]], case["media"]
    n_l = len(stack)
    start = np.concatenate([[0], np.cumsum([t for _, t in stack])])
    memo = {}
    for n, s, c in case["lay"]:
        P = SYM[s]
        b = Bins(n, P, c, "sin")
        for dz in (7.0, 3.7):
            z = np.arange(0, start[-1], dz)
            for side in ("front", "rear"):
                st, md = (stack, media) if side == "front" else (stack[::-1], media[::-1])
                if any(pl.nk(md[0], w * 1e-9).imag > 0 for w in pl.NM):
                    continue
                for coh in [None] + ([["i"] + ["c"] * (n_l - 1)] if stack[0][0] == "s" and media != "qa" else []):
                    ch = coh if coh is None or side == "front" else coh[::-1]
                    for pol in "spu":
                        o = topts(n, P, c, "sin", pol=pol, depth_spacing=dz * 1e-9)
                        for layers in subsets(n_l):
                            if dz != 7.0 and (len(layers) > 1 or pol != "u"):
                                continue
                            sig = "profiles %s of %s %s n=%d %s c=%g dz=%g" % (layers, name(stack, media, 0, pol, coh), side, n, s, c, dz)
                            try:
                                M, A, prof = TMM(pl.layers(stack), pl.MATS[media[0]], pl.MATS[media[1]], "x", o, "nowhere", coherent=coh is None,
                                                 coherency_list=coh, prof_layers=list(layers), front_or_rear=side, save=False)
                            except ValueError as e:
                                if "Incompatible absorption analytical functions" in str(e) and coh is not None:
                                    continue  # known finding of C13 (in solcore): there is no profile
                                raise
                            res.execs += 1
                            res.traces += 1
                            res.seen(sig)
                            pts = [(l, x) for l in layers for x in z[(z >= start[l - 1] - 1e-9) & (z < start[l] - 1e-9)] - start[l - 1]]
                            p = np.asarray(prof["profile"].transpose("wl", "z", "global_index"))
                            if not res.check(p.shape == (3, len(pts), b.na), "shape of the profiles %s" % (p.shape,), sig, points=len(pts)):
                                continue
                            res.check(np.allclose(np.asarray(prof["intgr"]), dense(A).sum(1), atol=1e-12), "stored total absorption", sig)
                            for w in range(3):
                                for j in range(b.na):
                                    g = j if side == "front" else b.na + j
                                    th = b.th[g] if side == "front" else np.pi - b.th[g]
                                    wl = pl.NM[w]
                                    if pl.tir(md, th, wl) or (ch is not None and any(
                                            q == "i" and pl.nk(m, wl * 1e-9).real < 1.01 * np.sin(th) * pl.nk(md[0], wl * 1e-9).real
                                            for (m, _), q in zip(st, ch))):
                                        continue
                                    k = (side, coh is None, pol, round(th, 9), wl, dz)
                                    if k not in memo:
                                        fs = ref_functions(pol, st, md, th, wl, ch)
                                        memo[k] = {}
                                        for l in range(1, n_l + 1):
                                            x = z[(z >= start[l - 1] - 1e-9) & (z < start[l] - 1e-9)] - start[l - 1]
                                            memo[k][l] = fs[l - 1](x) if side == "front" else fs[n_l - l](stack[l - 1][1] - x)
                                    e = np.concatenate([memo[k][l] for l in layers])
                                    sc = max(np.abs(v).max() for v in memo[k].values())
                                    # incoherent layers: profile normalised on the sampled depth
                                    lay_ = np.array([l for l, _ in pts])
                                    tol = np.where(np.isin(lay_, [l for l in layers if coh and coh[l - 1] == "i"]), 6 * dz / stack[0][1], 1e-5) * sc
                                    d = np.abs(p[w, :, j] - np.maximum(e, 0))
                                    res.states += 1
                                    res.transitions += 1
                                    res.check((d < tol + 1e-12).all(), "depth profile differs from the direct calculation", "%s wl=%g bin=%d"
                                              % (sig, wl, j), got=p[w, :, j][:5], want=e[:5], where=int(d.argmax()))


def fres(pol, md, th, wl):
    """bare interface"""
    return pl.ref(pol, [(md[1], 0.0)], md, th, wl)[:2] + (np.zeros(0),)


def run_case(case):
    res = common.Result()
    if case["kind"] == "ideal":
        check_ideal(res, case)
    elif case["kind"] == "prof":
        check_prof(res, case)
    elif case["kind"] == "tmm":
        check_tmm(res, case)
    else:
        # absorbing stack beyond the critical angle of the exit medium: power must still be conserved
        from rayflare.transfer_matrix_method import TMM
        for stack in ([("b", 35.0)], [("g", 60.0), ("b", 151.0)], [("s", 330.0), ("b", 35.0), ("g", 35.0)]):
            o = topts(20, np.pi / 2, 1e-6, "linear", pol="u")
            M, A = TMM(pl.layers(stack), pl.MATS["h"], pl.MATS["a"], "x", o, "nowhere", save=False)
            s = dense(M).sum(1) + dense(A).sum(1)
            res.execs += 1
            res.check(np.abs(s - 1).max() < 1e-6, "columns of an absorbing coherent stack beyond the critical angle do not add up to 1",
                      "TIR columns " + name(stack, "ha", 0, "u", None), sums=s)
    return res


if __name__ == "__main__":
    common.main(sys.modules[__name__])
