"""Planar stacks: alphabets and independent references (Byrnes' scalar `tmm` package and own 2x2 matrices)."""
import itertools, warnings
import numpy as np
from optics import Mat, tmm_ref

NM = np.array([420.0, 600.0, 910.0])          # wavelengths, nm
WLS = NM * 1e-9


def disp(n0, dn, k0=0.0, dk=0.0):
    return Mat(lambda wl: n0 + dn * (np.asarray(wl) * 1e6 - 0.6), lambda wl: k0 + dk * (np.asarray(wl) * 1e6 - 0.6),
               name="m%g_%g_%g_%g" % (n0, dn, k0, dk))


MATS = {"g": disp(1.46, -0.05), "b": disp(2.0, -0.2, 0.06, -0.08), "m": disp(0.4, 0.3, 3.5, 2.0),
        "s": disp(3.6, -0.6, 0.03, -0.05), "w": disp(1.3, 0.0, 1e-4, 0.0), "a": disp(1.0, 0.0), "q": disp(1.52, -0.03),
        "h": disp(3.4, -0.3), "M": disp(0.6, 0.2, 2.5, 1.0), "x": disp(2.2, -0.1)}


def nk(code, wl):
    m = MATS[code]
    return complex(np.real(m.n(wl)), np.real(m.k(wl)))


def layers(stack):
    """stack: [(code, nm)] -> solcore layers"""
    from solcore.structure import Layer
    return [Layer(d * 1e-9, MATS[c]) for c, d in stack]


def ref(pol, stack, media, th, wl_nm, coh=None, growing=False):
    """R, T, A per layer, by the scalar package; coh: list of c/i or None (all coherent)"""
    wl = wl_nm * 1e-9
    if pol == "u":
        a, b = ref("s", stack, media, th, wl_nm, coh, growing), ref("p", stack, media, th, wl_nm, coh, growing)
        return (a[0] + b[0]) / 2, (a[1] + b[1]) / 2, (a[2] + b[2]) / 2
    n = [complex(nk(media[0], wl).real)] + [nk(c, wl) for c, _ in stack] + [nk(media[1], wl)]
    d = [np.inf] + [float(t) for _, t in stack] + [np.inf]
    if growing and coh is None:
        R, T, A = tmm_ref(pol, n, d, th, wl_nm, growing=True)
        return R, T, np.array(A)
    import tmm
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if coh is None or "i" not in coh:
            o = tmm.coh_tmm(pol, n, d, th, wl_nm)
            A = tmm.absorp_in_each_layer(o)
        else:
            o = tmm.inc_tmm(pol, n, d, ["i"] + list(coh) + ["i"], th, wl_nm)
            A = tmm.inc_absorp_in_each_layer(o)
    return float(np.real(o["R"])), float(np.real(o["T"])), np.real(np.array(A[1:-1], dtype=complex))


def tir(media, th, wl_nm):
    wl = wl_nm * 1e-9
    a, b = nk(media[0], wl), nk(media[1], wl)
    return b.imag == 0 and a.real * np.sin(th) > b.real * (1 - 1e-9)


def cohlists(stack):
    """coherent, and every pattern in which the incoherent layers are transparent or weakly absorbing (the incoherent
    model is not defined for layers with n*k of order 1)"""
    return [None] + [list(c) for c in itertools.product(*["ci" if x[0] in "gsw" else "c" for x in stack]) if "i" in c]
