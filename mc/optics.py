"""Synthetic materials and boring reference optics (independent of rayflare and solcore)."""
import numpy as np


class Mat:
    """Minimal material: n, k as constants or functions of wavelength in m."""

    def __init__(self, n, k=0.0, name=None):
        self._n, self._k = n, k
        self.name = name or "m%s_%s" % (n if not callable(n) else "f", k if not callable(k) else "f")

    def n(self, wl):
        wl = np.asarray(wl, float)
        return np.array(self._n(wl) * np.ones_like(wl)) if callable(self._n) else self._n * np.ones_like(wl)

    def k(self, wl):
        wl = np.asarray(wl, float)
        return np.array(self._k(wl) * np.ones_like(wl)) if callable(self._k) else self._k * np.ones_like(wl)

    def alpha(self, wl):
        return 4 * np.pi * self.k(wl) / np.asarray(wl, float)

    def __str__(self):
        return self.name
    __repr__ = __str__


def kfor(alpha_per_um, wl_m):
    """k giving the requested absorption coefficient (1/um)."""
    return alpha_per_um * 1e6 * wl_m / (4 * np.pi)


def disp(n0, slope):
    """linear dispersion: n at 600 nm and slope per um"""
    return lambda wl: n0 + slope * (np.asarray(wl) * 1e6 - 0.6)


def fresnel_R(n0, n1, th, pol):
    """|r|^2 for complex indices; th real angle in medium 0 (admittance form)."""
    n0, n1 = complex(n0), complex(n1)
    s = n0 * np.sin(th)
    q0 = n0 * np.cos(th)
    q1 = np.sqrt(n1 * n1 - s * s + 0j)
    if q1.real < 0 or (q1.real == 0 and q1.imag < 0):
        q1 = -q1                      # transmitted wave runs forward (absorption is weak in ray optics)
    rs = (q0 - q1) / (q0 + q1)
    rp = (n1 * n1 * q0 - n0 * n0 * q1) / (n1 * n1 * q0 + n0 * n0 * q1)
    Rs, Rp = abs(rs) ** 2, abs(rp) ** 2
    return {"s": Rs, "p": Rp}.get(pol, 0.5 * (Rs + Rp))


def tmm_ref(pol, n, d, th, lam, growing=False):
    """Coherent stack by 2x2 interface/propagation matrices (Byrnes' convention re-derived with admittances).
    n: complex indices incl. both media; d: thicknesses (nm) incl. two infs; th real angle in medium 0.
    Returns R, T, A per layer (finite layers) by power flux differences."""
    n = np.asarray(n, complex)
    s = n[0] * np.sin(th)
    q = np.sqrt(n * n - s * s + 0j)
    q = np.where((q.imag < 0) | ((abs(q.imag) < 1e-14) & (q.real < 0)), -q, q)
    if growing and abs(n[-1].imag) < 1e-14 and n[-1].real < s.real:
        # total internal reflection as computed by solcore's vectorised engine: it takes the growing branch of the
        # evanescent wave in the exit medium (known finding of C12); same result where nothing absorbs
        q[-1] = -q[-1]
    eta = q if pol == "s" else n * n / q          # tangential H / tangential E
    N = len(n)
    k0 = 2 * np.pi / lam
    # field at the last interface: E=1, H=eta_last ; go backwards
    E, H = 1.0 + 0j, eta[-1]
    flux = [np.real(E * np.conj(H))]
    for j in range(N - 2, 0, -1):
        ph = k0 * q[j] * d[j]
        c, sn = np.cos(ph), np.sin(ph)
        E, H = c * E - 1j * sn * H / eta[j], c * H - 1j * sn * eta[j] * E
        flux.append(np.real(E * np.conj(H)))
    flux = flux[::-1]                               # flux at top of layer 1 ... at substrate
    Ei = 0.5 * (E + H / eta[0])
    Er = 0.5 * (E - H / eta[0])
    inc = np.real(eta[0]) * abs(Ei) ** 2
    R = abs(Er / Ei) ** 2
    f = np.array(flux) / inc
    return R, f[-1], f[:-1] - f[1:]
