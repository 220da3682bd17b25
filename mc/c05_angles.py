"""C05: angular binning.  For every bin layout of a finite family (bins per quadrant x azimuthal symmetry x azimuthal
resolution x spacing) the full set of bins is enumerated and a lattice of directions that contains every bin edge, every
bin centre and points just beside the edges is classified; every outgoing bin is converted to an incoming one; every
direction of the lattice is put in as the input vector."""
import sys, math
import numpy as np
import common

PROPERTY = "C05"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of bin layouts and of direction lattices (all edges, centres, neighbours), each "
             "classified by the real code and by an independent classifier")
RULE = "distinct (layout, direction or bin) classified by the real code and by the independent partition"
ASSUMPTIONS = ["azimuthal symmetry angles are 2 pi divided by an integer", "directions exactly on a bin edge may go to "
               "either neighbouring bin, but to the same one everywhere in the code"]
SYM = {"2pi": 2 * np.pi, "pi": np.pi, "2pi/3": 2 * np.pi / 3, "pi/2": np.pi / 2, "2pi/5": 2 * np.pi / 5, "pi/3": np.pi / 3,
       "pi/4": np.pi / 4}
TOL = 1e-9


def cases(tier):
    ns = [1, 2, 3, 4, 5, 10, 20] if tier == "quick" else list(range(1, 13)) + [16, 20, 30, 45, 50]
    cs = []
    for n in ns:
        for s in SYM:
            cs.append(dict(n=n, sym=s))
    # all other numbers of bins, and large ones, with thinned lattices of directions
    for n in (6, 7, 8, 9, 11, 12, 13, 15, 16, 25, 30, 36, 45, 50, 64, 90, 100):
        if n not in ns:
            cs.append(dict(n=n, sym=list(SYM)[n % 3], thin=max(4, n * n // 20), _w=1))
    if tier == "quick":
        cs.append(dict(n=4, sym="pi/2", cs=[0.01, 0.05, 0.3, 0.33, 0.4, 0.6, 0.7, 0.9, 1.3, 2.0, 3.7, 8.0], thin=2))
    return cs


def az(n, tier, case={}):
    if "cs" in case:
        return case["cs"]
    if "thin" in case:
        return [1e-6, 0.25]
    return [1e-6, 0.1, 0.25, 0.5, 1.0] if n < 20 else [1e-6, 0.1, 0.25]


def contains(lo, hi, x, per=None):
    if lo - TOL <= x <= hi + TOL:
        return True
    return per is not None and (lo - TOL <= x + per <= hi + TOL or lo - TOL <= x - per <= hi + TOL)


def run_case(case):
    from rayflare.angles import make_angle_vector, fold_phi, overall_bin, theta_summary, theta_summary_A
    from rayflare.matrix_formalism.multiply_matrices import make_v0, out_to_in_matrix
    import xarray as xr
    res = common.Result()
    n, P = case["n"], SYM[case["sym"]]
    thin, kth = case.get("thin", 1), 0
    for c in az(n, common.TIER, case):
        for sp in ("sin", "linear"):
            tag = "n=%d sym=%s c=%g %s" % (n, case["sym"], c, sp)
            ti, pi_, av = make_angle_vector(n, P, c, sp)
            res.execs += 1
            ti = np.asarray(ti)
            ok = res.check(len(ti) == 2 * n + 1 and len(pi_) == 2 * n, "wrong number of polar bins", tag)
            if not ok:
                continue
            res.check((np.diff(ti) > 0).all() and ti[0] == 0 and abs(ti[-1] - np.pi) < TOL and abs(ti[n] - np.pi / 2) < TOL,
                      "polar edges do not run from 0 over pi/2 to pi", tag)
            res.check(np.allclose(ti, np.pi - ti[::-1], atol=1e-9), "hemispheres have different polar bins", tag)
            want = np.linspace(0, 1, n + 1) if sp == "sin" else np.linspace(0, np.pi / 2, n + 1)
            res.check(np.allclose(np.sin(ti[:n + 1]) if sp == "sin" else ti[:n + 1], want, atol=1e-9),
                      "polar edges are not evenly spaced in %s" % sp, tag)
            k = 0
            starts = []
            for i in range(2 * n):
                e = np.asarray(pi_[i])
                nb = len(e) - 1
                r = i + 1 if i < n else 2 * n - i
                res.check(nb == max(1, int(np.ceil(c * r))), "azimuth bins of polar bin %d: %d" % (i, nb), tag)
                res.check((np.diff(e) > 0).all() and e[0] == 0 and abs(e[-1] - P) < TOL, "azimuth edges do not cover the symmetry element", tag)
                starts.append(k)
                for j in range(nb):
                    row = av[k]
                    res.check(int(row[0]) == i and ti[i] < row[1] < ti[i + 1] and e[j] < row[2] < e[j + 1] and
                              abs(row[1] - (ti[i] + ti[i + 1]) / 2) < TOL and abs(row[2] - (e[j] + e[j + 1]) / 2) < TOL,
                              "representative of bin %d is not in the bin" % k, tag)
                    res.seen(tag, k)
                    k += 1
            if not res.check(k == len(av), "bins listed: %d, counted: %d" % (len(av), k), tag):
                continue
            na = k // 2
            res.check(k % 2 == 0 and starts[n] == na, "hemispheres have different numbers of bins", tag)
            # folding
            xs = np.concatenate([np.linspace(-6 * np.pi, 6 * np.pi, 145), P * np.array([-2, -1, 0, .5, 1, 1.5, 2, 7]), [1e-12, -1e-12]])
            f = np.asarray(fold_phi(xs, P))
            circ = lambda d: np.abs((d + P / 2) % P - P / 2)
            res.check(((f >= 0) & (f < P + TOL)).all(), "folded azimuth outside the symmetry element", tag)
            res.check((circ(f - xs) < 1e-8).all(), "folding changes the azimuth modulo the symmetry", tag)
            res.check((circ(np.asarray(fold_phi(f, P)) - f) < 1e-8).all(), "folding is not idempotent", tag)
            for m in (-3, -1, 1, 4):
                res.check((circ(np.asarray(fold_phi(xs + m * 2 * np.pi, P)) - f) < 1e-8).all(), "folding is not periodic", tag)
            # outgoing -> incoming
            u2d, d2u = (np.asarray(m.todense()) for m in out_to_in_matrix(P, av, ti, pi_))
            res.execs += 1
            for nm, M, src, dst in (("up to down", u2d, 0, na), ("down to up", d2u, na, 0)):
                res.check(M.shape == (na, na) and (np.isin(M, (0, 1))).all(), nm + " map is not 0/1", tag)
                res.check((M.sum(0) == 1).all(), nm + ": an outgoing bin is lost or doubled", tag)
                res.check((M.sum(1) == 1).all(), nm + " map is not one-to-one", tag, M=M)
                for j in range(na):
                    i = int(np.argmax(M[:, j]))
                    a, b = av[src + j], av[dst + i]
                    e = pi_[int(b[0])]
                    jj = dst + i - starts[int(b[0])]
                    res.check(abs(a[1] + b[1] - np.pi) < 1e-9, nm + ": polar angle not preserved", tag)
                    res.check(contains(e[jj], e[jj + 1], (a[2] + np.pi) % P, P), nm + ": azimuth not turned by pi", tag,
                              frm=a, to=b)
                    res.seen(tag, nm, j, i)
            # summary over the azimuth: power per polar bin, averaged over the azimuths of incidence
            if n <= 10:
                idx = np.arange(len(av) * na).reshape(len(av), na)
                M = ((idx * 7919) % 1009 + 1) / 1e5
                M = np.concatenate([M[:, :1] * 0, M[:, 1:]], axis=1)
                for side, cols in (("front", av[:na]), ("rear", av[na:])):
                    got = theta_summary(M.copy(), av, n, side)
                    res.execs += 1
                    tin = [i for i in range(2 * n) if (cols[:, 0] == i).any()]
                    want = np.array([[M[np.ix_(av[:, 0] == o, cols[:, 0] == i)].sum() / (cols[:, 0] == i).sum() for i in tin] for o in range(2 * n)])
                    mid = (ti[:-1] + ti[1:]) / 2
                    co = [np.asarray(got.coords[d]) for d in got.dims]
                    res.check(got.shape == want.shape and np.allclose(got.data, want, rtol=1e-9, atol=1e-12), "summary over the azimuth (%s)" % side, tag + " summary")
                    res.check(len(co) == 2 and np.allclose(co[0], mid) and np.allclose(co[1], mid[tin]), "polar angles of the summary (%s)" % side, tag + " summary")
                A = M[:3]
                got = np.asarray(theta_summary_A(A.copy(), av))
                nb = np.array([(av[:na, 0] == i).sum() for i in range(n)])
                want = np.array([A[:, av[:na, 0] == i].sum(1) for i in range(n)]).T
                # documented as a sum over the azimuth; an average (as for the other summary) is accepted, too
                res.check(got.shape == want.shape and (np.allclose(got, want) or np.allclose(got * nb, want)), "summary of the absorption", tag + " summary")
            # classification of directions: input vector, and binning of ray directions
            ths = set()
            for i in range(n):
                ths |= {ti[i], ti[i] + 1e-7, (ti[i] + ti[i + 1]) / 2, ti[i + 1] - 1e-7}
            for th in sorted(ths):
                it = int(np.clip(np.searchsorted(ti, th, "right") - 1, 0, n - 1))
                e = pi_[it]
                phs = sorted(set(np.concatenate([e, (e[:-1] + e[1:]) / 2, e[:-1] + 1e-7, e[1:] - 1e-7]).tolist()) |
                             {0.0, np.pi / 4, np.pi / 3, np.pi / 2, P})
                if n >= 10 and sp == "linear" and common.TIER == "quick":
                    phs = phs[::3] + [P]
                for ph in phs:
                    kth += 1
                    if kth % thin:
                        continue
                    try:
                        v = np.asarray(make_v0(th, ph, 2, n, c, P, sp))
                    except IndexError:
                        res.bad("an input direction has no bin", tag + " input", th=th, ph=ph)
                        continue
                    res.execs += 1
                    if not res.check(v.shape == (2, na) and np.allclose(v.sum(1), 1), "input power is not 1", tag + " input", th=th, ph=ph):
                        continue
                    b = int(np.argmax(v[0]))
                    rb = int(av[b, 0])
                    jj = b - starts[rb]
                    good = ti[rb] - TOL <= th <= ti[rb + 1] + TOL and contains(pi_[rb][jj], pi_[rb][jj + 1], ph % P, P) \
                        and v[0, b] == 1
                    res.check(good, "light from theta=%.6f phi=%.6f is put in a bin that does not contain it" % (th, ph),
                              tag + " input", bin=av[b])
                    res.seen(tag, "v0", round(th, 7), round(ph, 7), b)
                    # the bin used for ray directions
                    x = float(fold_phi(np.array([ph]), P)[0])
                    da = xr.DataArray(np.array([x]), coords={"theta_bin": (["a"], np.array([rb]))}, dims=["a"])
                    ob = int(np.asarray(overall_bin(da, pi_, av[:, 0]).data).ravel()[0])
                    ro = int(av[ob, 0])
                    jo = ob - starts[ro]
                    res.check(0 <= ob and ro == rb and contains(pi_[ro][jo], pi_[ro][jo + 1], ph % P, P),
                              "a ray with azimuth %.6f is counted in a bin that does not contain it" % ph, tag + " ray",
                              bin=av[ob], theta_bin=rb)
                    # same edge convention: rays launched at the input direction are counted where the input power is
                    if sp == "sin" or True:
                        bt = max(int(np.digitize(th, ti, right=True)) - 1, 0)
                        if bt == rb:
                            res.check(ob == b, "input power is put in bin %d, rays of that direction in bin %d" % (b, ob),
                                      tag + " edge", th=th, ph=ph)
                v = np.asarray(make_v0(th, "all", 1, n, c, P, sp))[0]
                nz = np.where(v)[0]
                rb = int(av[nz[0], 0])
                res.check(abs(v.sum() - 1) < 1e-9 and len(nz) == len(pi_[rb]) - 1 and (av[nz, 0] == rb).all() and
                          np.allclose(v[nz], 1 / len(nz)) and ti[rb] - TOL <= th <= ti[rb + 1] + TOL,
                          "unpolarised azimuth ('all') is not spread evenly over the polar bin", tag + " all")
    res.states = len(res.outcomes)
    res.traces = res.execs
    return res


if __name__ == "__main__":
    common.main(sys.modules[__name__])
