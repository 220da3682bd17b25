"""C12: planar multilayers.  All stacks up to a depth over an alphabet of layers x surrounding media x angles x
polarisations x coherency patterns x wavelengths, each compared with the scalar transfer-matrix package; layer splitting,
zero-thickness insertion and reversal are checked on every stack."""
import sys, itertools
import numpy as np
import common
import planar as pl

PROPERTY = "C12"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of all planar stacks up to a depth over a finite layer alphabet, with all coherency "
             "patterns, polarisations, angles and media, each executed on the real code and compared with a reference model")
RULE = "distinct (stack, media, angle, polarisation, coherency) executed on the real code and compared with the reference model"
ASSUMPTIONS = ["Byrnes' scalar tmm package is the reference for the transfer-matrix method",
               "transparent incidence medium", "layer alphabet of 4 dispersive materials x 2 thicknesses"]
T1, T2 = 35.0, 150.0
MEDIA = ["aa", "ah", "qa", "aM"]
TH = [0.0, 0.4, 0.95, 1.45]

# fine scans of angle (up to grazing), wavelength and thickness for a few stacks
SCAN = [[("g", T2)], [("b", T1)], [("m", T1), ("g", T2)], [("s", T2), ("x", T1)], [("g", T1), ("b", T2), ("w", 700.0)]]


def scan_angles(tier):
    n = 45 if tier == "quick" else 450
    return [1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 5e-3] + list(np.linspace(0.01, np.pi / 2 - 1e-3, n)) + [np.pi / 2 - 1e-4]


def scan_wls(tier):
    return np.linspace(300.0, 1150.0, 57 if tier == "quick" else 561)


def scan_thick(tier):
    return np.logspace(-2, 5, 36 if tier == "quick" else 351)


def stacks(tier):
    al = [(c, t) for c in "gbms" for t in (T1, T2)]
    out = [[x] for x in al] + [list(x) for x in itertools.product(al, repeat=2)]
    if tier == "quick":
        for k, x in enumerate(itertools.product("gbms", repeat=3)):
            out.append([(c, (T1, T2)[(k + i) % 2]) for i, c in enumerate(x)])
    else:
        out += [list(x) for x in itertools.product(al, repeat=3)]
        for k, x in enumerate(itertools.product("gbms", repeat=4)):
            out.append([(c, (T1, T2)[(k + i) % 2]) for i, c in enumerate(x)])
    return out


def cases(tier):
    st = stacks(tier)
    n = 8 if tier == "quick" else 8
    cs = [dict(kind="sweep", stacks=st[i:i + n]) for i in range(0, len(st), n)]
    cs += [dict(kind="scan", stack=x, media=m) for x in SCAN for m in MEDIA]
    cs += [dict(kind="thick", code=c, media=m) for c in "gbmswx" for m in MEDIA]
    cs.append(dict(kind="tir"))
    cs.append(dict(kind="nobackreflection"))
    cs.append(dict(kind="formats"))
    return cs


def opt(**k):
    from solcore.state import State
    o = State()
    o.update(dict(wavelength=pl.WLS, theta_in=0.0, pol="s", coherent=True, coherency_list=None, depth_spacing=1e-9))
    o.update(k)
    return o


def struct(stack, media, **kw):
    from rayflare.transfer_matrix_method import tmm_structure
    return tmm_structure(pl.layers(stack), pl.MATS[media[0]], pl.MATS[media[1]], **kw)


def get(o):
    return (np.real(np.asarray(o["R"])), np.real(np.asarray(o["T"])), np.real(np.asarray(o["A"])),
            np.real(np.asarray(o["A_per_layer"])))


def name(stack, media, th, pol, coh):
    return "%s|%s th=%g pol=%s coh=%s" % (media, " ".join("%s%g" % tuple(x) for x in stack), th, pol,
                                         "".join(coh) if coh else "-")


def one(res, s, stack, media, th, pol, coh, memo, wls=pl.NM):
    """run and compare; returns the outcome"""
    got = get(s.calculate(opt(theta_in=th, pol=pol, coherent=coh is None, coherency_list=coh)))
    res.execs += 1
    R, T, A, Al = got
    sig = name(stack, media, th, pol, coh)
    res.seen(sig)
    if not res.check(Al.shape == (3, len(stack)) and R.shape == (3,), "result shapes %s %s" % (R.shape, Al.shape), sig):
        return got
    res.check(np.isfinite(R).all() and np.isfinite(T).all() and np.isfinite(Al).all(), "result is not finite", sig)
    res.check((R > -1e-9).all() and (T > -1e-9).all() and (Al > -1e-9).all() and (A > -1e-9).all(), "negative R, T or A", sig,
              R=R, T=T, A=Al)
    res.check(np.allclose(R + T + A, 1, atol=1e-9), "R + A + T is not 1", sig, R=R, T=T, A=A)
    res.check(np.allclose(R + T + Al.sum(1), 1, atol=2e-6), "R, T and absorption per layer do not add up to 1", sig,
              R=R, T=T, A=Al)
    for i, w in enumerate(wls):
        key = (th, w, "".join(coh) if coh else "")
        if key not in memo:
            memo[key] = {q: pl.ref(q, stack, media, th, w, coh) for q in "sp"}
        r = memo[key]
        e = r[pol] if pol != "u" else [(a + b) / 2 for a, b in zip(r["s"], r["p"])]
        # negative absorption in the partly coherent model: not defined there, the layers' shares are not compared
        bad = coh is not None and min(r["s"][2].min(), r["p"][2].min()) < -1e-12
        if bad:
            memo["invalid", th, str(coh)] = True
        res.check(abs(R[i] - e[0]) < 1e-6 and abs(T[i] - e[1]) < 1e-6 and (bad or np.abs(Al[i] - e[2]).max() < 5e-6),
                  "differs from the transfer-matrix method at %g nm" % w, sig, R=[R[i], e[0]], T=[T[i], e[1]],
                  A=[Al[i], e[2]])
    res.traces += 1
    return got


def many(res, s, stack, media, th, pol, coh, wls):
    """one call with many wavelengths"""
    R, T, A, Al = get(s.calculate(opt(theta_in=th, pol=pol, coherent=coh is None, coherency_list=coh, wavelength=wls * 1e-9)))
    res.execs += 1
    sig = "%d wavelengths %s" % (len(wls), name(stack, media, th, pol, coh))
    res.seen(sig)
    if not res.check(R.shape == (len(wls),) and Al.shape == (len(wls), len(stack)), "result shapes", sig):
        return
    for i, w in enumerate(wls):
        e = {q: pl.ref(q, stack, media, th, w, coh) for q in "sp"}
        bad = coh is not None and min(e["s"][2].min(), e["p"][2].min()) < -1e-12
        e = e[pol] if pol != "u" else [(a + b) / 2 for a, b in zip(e["s"], e["p"])]
        res.check(abs(R[i] - e[0]) < 1e-6 and abs(T[i] - e[1]) < 1e-6 and abs(R[i] + T[i] + A[i] - 1) < 1e-9 and
                  (bad or np.abs(Al[i] - e[2]).max() < 5e-6), "differs from the transfer-matrix method", sig, w=w,
                  R=[R[i], e[0]], T=[T[i], e[1]], A=[Al[i], e[2]])
    res.traces += 1


def eq(a, b, tol=1e-7):
    return np.abs(np.asarray(a) - np.asarray(b)).max() < tol


def sweep(case, res):
    for stack in case["stacks"]:
        stack = [tuple(x) for x in stack]
        n = len(stack)
        for media in MEDIA:
            s = struct(stack, media)
            srev = struct(stack[::-1], media[::-1])
            memo = {}
            for th in TH:
                if any(pl.tir(media, th, w) for w in pl.NM):
                    continue
                for coh in pl.cohlists(stack):
                    r = {p: one(res, s, stack, media, th, p, coh, memo) for p in "spu"}
                    k = 3 if memo.get(("invalid", th, str(coh))) else 4
                    res.check(all(eq(u, (a + b) / 2, 1e-6) for u, a, b in zip(r["u"][:k], r["s"], r["p"])),
                              "unpolarised is not the mean of s and p", name(stack, media, th, "u", coh))
                    # reversal: T(front) = T(rear) at the refracted angle, one wavelength at a time
                    if media != "aM":
                        for i in (0, 2):
                            w = pl.WLS[i]
                            tt = float(np.arcsin(pl.nk(media[0], w).real / pl.nk(media[1], w).real * np.sin(th)))
                            for p in "sp":
                                b = get(srev.calculate(opt(theta_in=tt, pol=p, coherent=coh is None,
                                                           coherency_list=None if coh is None else coh[::-1],
                                                           wavelength=pl.WLS[i:i + 1])))
                                res.execs += 1
                                res.check(abs(b[1][0] - r[p][1][i]) < 1e-6, "transmission changes when the stack is reversed",
                                          name(stack, media, th, p, coh), T=[b[1][0], r[p][1][i]])
            # splitting and zero-thickness layers (coherent; splitting also within mixed stacks)
            for th in (0.4,):
                if any(pl.tir(media, th, w) for w in pl.NM):
                    continue
                for pol in "sp":
                    base = get(s.calculate(opt(theta_in=th, pol=pol)))
                    for j in range(n):
                        c, d = stack[j]
                        sp = stack[:j] + [(c, 0.3 * d), (c, 0.7 * d)] + stack[j + 1:]
                        g = get(struct(sp, media).calculate(opt(theta_in=th, pol=pol)))
                        Am = np.concatenate([g[3][:, :j], g[3][:, j:j + 1] + g[3][:, j + 1:j + 2], g[3][:, j + 2:]], 1)
                        res.check(eq(g[0], base[0]) and eq(g[1], base[1]) and eq(Am, base[3], 1e-6),
                                  "splitting a layer changes the result", name(sp, media, th, pol, None))
                        res.execs += 1
                    for j in range(n + 1):
                        for c in "gm":
                            z = stack[:j] + [(c, 0.0)] + stack[j:]
                            g = get(struct(z, media).calculate(opt(theta_in=th, pol=pol)))
                            res.execs += 1
                            res.check(eq(g[0], base[0]) and eq(g[1], base[1]) and eq(np.delete(g[3], j, 1), base[3], 1e-6)
                                      and np.abs(g[3][:, j]).max() < 1e-6,
                                      "a layer of zero thickness changes the result", name(z, media, th, pol, None))


def run_case(case):
    res = common.Result()
    if case["kind"] == "sweep":
        sweep(case, res)
    elif case["kind"] == "scan":
        stack, media = [tuple(x) for x in case["stack"]], case["media"]
        s = struct(stack, media)
        for th in scan_angles(common.TIER):
            if any(pl.tir(media, th, w) for w in pl.NM):
                continue
            for coh in pl.cohlists(stack):
                r = {p: one(res, s, stack, media, th, p, coh, {}) for p in "spu"}
                if th < 1e-5:
                    res.check(all(eq(a, b, 1e-6) for a, b in zip(r["s"], r["p"])), "s and p differ at normal incidence",
                              name(stack, media, th, "sp", coh))
        wls = scan_wls(common.TIER)
        for th in (0.0, 0.7):
            for coh in pl.cohlists(stack):
                for p in "spu":
                    if any(pl.tir(media, th, w) for w in wls):
                        continue
                    many(res, s, stack, media, th, p, coh, wls)
    elif case["kind"] == "thick":
        for d in scan_thick(common.TIER):
            stack = [(case["code"], float(d))]
            s = struct(stack, case["media"])
            for th in (0.0, 0.55):
                if any(pl.tir(case["media"], th, w) for w in pl.NM):
                    continue
                for coh in pl.cohlists(stack):
                    if coh is not None and d < 1000:      # the incoherent model is for layers thicker than the wavelength
                        continue
                    for p in "spu":
                        one(res, s, stack, case["media"], th, p, coh, {})
    elif case["kind"] == "tir":
        # beyond the critical angle of the exit medium
        for stack in [[("g", 60.0)], [("x", 80.0)], [("g", 60.0), ("x", 45.0)], [("b", T1)], [("b", T2)], [("m", T1)],
                      [("s", T1), ("g", T2)], [("g", T1), ("b", T1), ("g", T2)]]:
            for media in ("qa", "ha", "hg"):
                s = struct(stack, media)
                memo = {}
                for th in (0.8, 1.2):
                    if not all(pl.tir(media, th, w) for w in pl.NM):
                        continue
                    for coh in pl.cohlists(stack):
                        for pol in "spu":
                            r2 = common.Result()
                            if coh is not None:
                                if any(c == "i" and pl.nk(m, w * 1e-9).real < 1.01 * np.sin(th) * pl.nk(media[0], w * 1e-9).real
                                       for (m, _), c in zip(stack, coh) for w in pl.NM):
                                    continue          # evanescent wave inside an incoherent layer: not defined
                            g = one(r2, s, stack, media, th, pol, coh, memo)
                            if r2.viol and coh is None:
                                # what the engine of solcore does (known finding): anything else is a different violation
                                e = [pl.ref(pol, stack, media, th, w, None, growing=True) for w in pl.NM]
                                same = all(abs(g[0][i] - e[i][0]) < 1e-6 for i in range(3))
                                for v in r2.viol:
                                    v["sig"] = "TIR " + ("" if same else "other ") + v["sig"]
                            elif r2.viol:
                                for v in r2.viol:
                                    v["sig"] = "TIR inc " + v["sig"]
                            merge(res, r2)
    elif case["kind"] == "nobackreflection":
        for stack in ([("g", 60.0)], [("b", T2)], [("g", 60.0), ("s", T2)], [("m", T1), ("g", T2)]):
            st = struct(stack, "ah", no_back_reflection=True)
            for th in TH[:3]:
                for pol in "spu":
                    g = get(st.calculate(opt(theta_in=th, pol=pol)))
                    res.execs += 1
                    sig = "nbr " + name(stack, "ah", th, pol, None)
                    res.seen(sig)
                    for i, w in enumerate(pl.NM):
                        e = pl.ref(pol, stack[:-1] + [(stack[-1][0], 1e-3)], "a" + stack[-1][0], th, w)
                        exp = pl.ref(pol, stack, "a" + stack[-1][0], th, w)
                        res.check(abs(g[0][i] - exp[0]) < 3e-3, "suppressed back reflection changes R", sig, R=[g[0][i], exp[0]])
                        res.check(g[1][i] < 1e-4, "light is transmitted although back reflection is suppressed", sig)
                        res.check(abs(g[0][i] + g[1][i] + g[2][i] - 1) < 1e-9, "R + A + T is not 1", sig)
                        res.check(np.abs(g[3][i][:len(stack)] - exp[2]).max() < 3e-3, "absorption per layer", sig,
                                  A=[g[3][i], exp[2]])
    else:
        # the same stack described in every accepted way
        from rayflare.transfer_matrix_method import tmm_structure
        from solcore.absorption_calculator import OptiStack
        from solcore.solar_cell import SolarCell
        from rayflare.options import default_options
        stack = [("g", 60.0), ("b", 35.0), ("s", T2)]
        L = pl.layers(stack)
        inc, tr = pl.MATS["q"], pl.MATS["h"]
        raw = [[d, pl.NM, pl.MATS[c].n(pl.WLS), pl.MATS[c].k(pl.WLS)] for c, d in stack]
        alts = dict(layers=tmm_structure(L, inc, tr), opti=tmm_structure(OptiStack(L, substrate=tr, incidence=inc)),
                    opti2=tmm_structure(OptiStack(L, substrate=tr, incidence=inc), inc, tr),
                    cell=tmm_structure(SolarCell(L), inc, tr), raw=tmm_structure(raw, inc, tr),
                    mixed=tmm_structure([L[0], raw[1], L[2]], inc, tr))
        for k, s in alts.items():
            res.check(abs(s.width - (60 + 35 + T2) * 1e-9) < 1e-15, "total width", k)
            for th in TH[:3]:
                for pol in "spu":
                    for coh in pl.cohlists(stack):
                        for form in ("state", "dict", "default"):
                            o = opt(theta_in=th, pol=pol, coherent=coh is None, coherency_list=coh)
                            if form == "dict":
                                o = dict(o)
                                if coh is None:
                                    del o["coherent"], o["coherency_list"]
                            elif form == "default":
                                d = default_options()
                                d.wavelength, d.theta_in, d.pol, d.coherent, d.coherency_list = pl.WLS, th, pol, coh is None, coh
                                o = d
                            g = get(s.calculate(o))
                            res.execs += 1
                            sig = "%s %s %s" % (k, form, name(stack, "qh", th, pol, coh))
                            res.seen(sig)
                            for i, w in enumerate(pl.NM):
                                e = pl.ref(pol, stack, "qh", th, w, coh)
                                res.check(abs(g[0][i] - e[0]) < 2e-6 and abs(g[1][i] - e[1]) < 2e-6 and
                                          np.abs(g[3][i] - e[2]).max() < 5e-6, "differs from the transfer-matrix method", sig)
                            res.traces += 1
        # wrong coherency list must be refused
        s = alts["layers"]
        for bad in (None, ["c"], ["c"] * 4):
            try:
                s.calculate(opt(coherent=False, coherency_list=bad))
                res.bad("an unusable coherency list is accepted", "badcoh %s" % bad)
            except Exception:
                res.transitions += 1
    return res


def merge(a, b):
    a.execs += b.execs
    a.traces += b.traces
    a.transitions += b.transitions
    a.outcomes |= b.outcomes
    a.viol += b.viol


if __name__ == "__main__":
    common.main(sys.modules[__name__])
