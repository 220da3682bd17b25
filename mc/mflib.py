"""Matrix formalism: synthetic redistribution matrices on disk, and an independent dense model of the passes."""
import os
import numpy as np
import common
from bins import Bins
from optics import Mat, kfor


class Model:
    """dense model.  Mats are dicts: fF (front surface, light from outside), fR (front surface, light from inside),
    rF (rear surface, light from inside); each (RT (wl, 2na, na), A (wl, nl, na))."""

    def __init__(self, bins, mats, alpha, width, v0):
        self.b, self.na = bins, bins.na
        self.m, self.al, self.w = mats, np.asarray(alpha, float), width
        self.v0 = v0
        b = bins
        # outgoing bin -> incoming bin at the other surface: the polar angle is kept, the azimuth turned by pi
        self.d2u = np.zeros((b.na, b.na))     # leaving downwards (lower bins) -> arriving from above (upper bins)
        self.u2d = np.zeros((b.na, b.na))
        for j in range(b.na):
            k = b.find(np.pi - b.th[b.na + j], b.ph[b.na + j] + np.pi)
            assert len(k) == 1
            self.d2u[k.pop(), j] = 1
            k = b.find(np.pi - b.th[j], b.ph[j] + np.pi)
            assert len(k) == 1
            self.u2d[k.pop() - b.na, j] = 1

    def run(self, thresh, passes=None, limit=100000):
        """all per-pass quantities; stops when the power left is below thresh at every wavelength, or after `passes`"""
        na, nw = self.na, len(self.al)
        F, Fr, B = self.m["fF"], self.m["fR"], self.m["rF"]
        D = np.exp(-self.al[:, None] * self.w / abs(np.cos(self.b.th[:na]))[None])       # (wl, bin)
        mul = lambda M, v: np.einsum("woi,wi->wo", M, v)
        out = dict(r=[], t=[], a0=[], a1=[], A=[])
        out["r"].append(mul(F[0][:, :na], self.v0))
        out["a0"].append(mul(F[1], self.v0))
        out["in0"] = [("front", self.v0)]
        v = mul(F[0][:, na:], self.v0)
        out["left"] = [v.sum(1)]
        out["dn"], out["up"] = [], []
        out["in1"] = []
        n = 0
        while (passes is None and (v.sum(1) > thresh).any()) or (passes is not None and n < passes):
            n += 1
            x = v @ self.d2u.T
            y = x * D
            out["A"].append(x.sum(1) - y.sum(1))
            out["dn"].append((x, y))
            out["t"].append(mul(B[0][:, na:], y))
            out["a1"].append(mul(B[1], y))
            out["in1"].append(y)
            x = mul(B[0][:, :na], y)
            y = x * D
            out["A"].append(x.sum(1) - y.sum(1))
            out["up"].append((x, y))
            z = y @ self.u2d.T
            out["r"].append(mul(Fr[0][:, :na], z))
            out["a0"].append(mul(Fr[1], z))
            out["in0"].append(("rear", z))
            v = mul(Fr[0][:, na:], z)
            out["left"].append(v.sum(1))
            if n > limit:
                raise RuntimeError("reference does not converge")
        out["n"] = n
        return out


def write(folder, name, side, RT, A, prof=None, intgr=None, z=None, wl=None, flat=False):
    """store matrices as the real code does (3-D, or 2-D for surfaces that do not depend on wavelength)"""
    from sparse import COO, save_npz
    import xarray as xr
    os.makedirs(folder, exist_ok=True)
    save_npz(os.path.join(folder, name + side + "RT.npz"), COO.from_numpy(RT[0] if flat else RT))
    save_npz(os.path.join(folder, name + side + "A.npz"), COO.from_numpy(A[0] if flat else A))
    if prof is not None:
        gi = np.arange(RT.shape[2])
        ds = xr.merge([xr.DataArray(intgr, dims=["wl", "global_index"], coords=dict(wl=wl, global_index=gi), name="intgr"),
                       xr.DataArray(prof, dims=["wl", "z", "global_index"], coords=dict(wl=wl, z=z, global_index=gi), name="profile")])
        ds.to_netcdf(os.path.join(folder, name + side + "profmat.nc"))


def family(b, kind, nw, nl, side):
    """deterministic matrices: columns are (reflected, transmitted, absorbed) patterns"""
    na = b.na
    RT, A = np.zeros((nw, 2 * na, na)), np.zeros((nw, nl, na))
    own, oth = (slice(0, na), slice(na, None)) if side == "front" else (slice(na, None), slice(0, na))
    I = np.eye(na)
    lam = np.ones((na, na)) / na
    tri = np.tril(np.ones((na, na)))
    tri = tri / tri.sum(0)
    for w in range(nw):
        q = 0.1 * (w % 3) + 0.007 * (w // 3)
        r, t, ra, ta = {
            "clear": (0.0, 1.0, I, I), "mirror": (1.0, 0.0, I, I), "black": (0.0, 0.0, I, I),
            "half": (0.5 - q, 0.4 + q / 2, lam, I), "scatter": (0.2 + q, 0.7 - q, tri, lam),
            "rough": (0.85 - q, 0.1, lam, tri), "weak": (0.04, 0.95, I, I), "perm": (0.3, 0.6 - q, I[::-1], I[::-1]),
            "hi": (0.97 - q, 0.0, lam, I),
        }[kind]
        c = 1 + 0.03 * np.arange(na) / na                     # columns differ
        RT[w, own] = r * ra / c
        RT[w, oth] = t * ta / c
        left = 1 - RT[w].sum(0)
        f = np.array([(k + 1.0) * (1 + 0.2 * w) for k in range(nl)])
        A[w] = left[None] * (f / f.sum())[:, None] if nl else 0
    if nl == 0:
        RT /= RT.sum(1, keepdims=True)
    return RT, A
