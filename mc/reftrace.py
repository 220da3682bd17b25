"""Reference ray tracer in unfolded (infinitely periodic) space, enumerating its own decision tree.

Nothing here is shared with the code under test: facets come from a list of vertices/triangles given by the
driver, intersections are solved with a generic 3x3 solve over all lattice copies the ray can reach."""
import numpy as np
from optics import fresnel_R


class Surf:
    def __init__(self, verts, tris, Lx, Ly, z0=0.0, zcov=None, sheet=None):
        v = np.asarray(verts, float).copy()
        v[:, 2] += z0
        self.V, self.T = v, np.asarray(tris, int)
        self.A, self.B, self.C = v[self.T[:, 0]], v[self.T[:, 1]], v[self.T[:, 2]]
        n = np.cross(self.B - self.A, self.C - self.A)
        n *= np.sign(n[:, 2])[:, None]                       # pointing up
        self.N = n / np.linalg.norm(n, axis=1)[:, None]
        self.Lx, self.Ly = Lx, Ly
        self.flat = bool((np.abs(self.N - self.N[0]) < 1e-12).all())
        self.zmin, self.zmax = v[:, 2].min(), v[:, 2].max()
        self.zcov = (0.0 if zcov is None else zcov) + z0
        self.sheet = sheet                                   # planar stack on the facets (callable) or None

    def hit(self, p, d, cells, tmin=1e-7):
        """nearest intersection with the copies of the texture in `cells` [(i,j),...]: (t, normal, point)."""
        best = None
        for (i, j) in cells:
            off = np.array([i * self.Lx, j * self.Ly, 0.0])
            A = self.A + off
            e1, e2 = self.B - self.A, self.C - self.A
            h = np.cross(d, e2)
            a = np.einsum("ij,ij->i", e1, h)
            with np.errstate(all="ignore"):
                f = 1.0 / a
                s = p - A
                u = f * np.einsum("ij,ij->i", s, h)
                q = np.cross(s, e1)
                v = f * (q @ d)
                t = f * np.einsum("ij,ij->i", e2, q)
            ok = (abs(a) > 1e-14) & (u >= -1e-9) & (v >= -1e-9) & (u + v <= 1 + 1e-9) & (t > tmin)
            if ok.any():
                k = np.where(ok)[0][np.argmin(t[ok])]
                if best is None or t[k] < best[0]:
                    best = (t[k], self.N[k], p + t[k] * d, min(u[k], v[k], 1 - u[k] - v[k]))
        return best

    def cells_on_path(self, p, d):
        """all cells the ray can be above/below while inside the slab zmin..zmax, in order (superset)."""
        if abs(d[2]) < 1e-9:
            tmax = 40.0 * max(self.Lx, self.Ly)
            t0, t1 = 0.0, tmax
        else:
            ta, tb = (self.zmin - 1e-9 - p[2]) / d[2], (self.zmax + 1e-9 - p[2]) / d[2]
            t0, t1 = max(0.0, min(ta, tb)), max(0.0, max(ta, tb))
        a, b = p + t0 * d, p + t1 * d
        i0, i1 = sorted((int(np.floor(a[0] / self.Lx)), int(np.floor(b[0] / self.Lx))))
        j0, j1 = sorted((int(np.floor(a[1] / self.Ly)), int(np.floor(b[1] / self.Ly))))
        if (i1 - i0 + 3) * (j1 - j0 + 3) > 20000:
            raise Degenerate("grazing")
        return [(i, j) for i in range(i0 - 1, i1 + 2) for j in range(j0 - 1, j1 + 2)]


class Degenerate(Exception):
    """the ray passes too close to an edge, or grazes: outcome depends on rounding"""


class Ref:
    """surfaces: list of Surf (z0 = -cumulative width), ns: complex index per medium, alphas, widths (um)."""

    def __init__(self, surfaces, ns, alphas, widths, pol, I_thresh, entry="home", edge_tol=1e-6, eps=0.0, periodic=True, randomize=None):
        self.S, self.ns, self.al, self.w = surfaces, ns, alphas, widths
        self.pol, self.I_thresh, self.entry, self.edge_tol, self.eps = pol, I_thresh, entry, edge_tol, eps
        self.periodic = periodic
        self.randomize = randomize            # alphabet of positions (fractions of the cell) before each later surface

    def run(self, p, d, m=0):
        """returns list of (prob, outcome dict)"""
        out = []
        self.shadowed = False
        self._encounter(np.array(p, float), np.array(d, float) / np.linalg.norm(d), m, 1.0, 1.0, 0, 0,
                        (np.zeros(len(self.ns)), ()), out)
        return out

    def _finish(self, out, kind, prob, d, I, npass, nint, A, **k):
        th = np.arccos(np.clip(d[2] / np.linalg.norm(d), -1, 1)) if kind in "RT" else np.nan
        ph = np.arctan2(d[1], d[0]) if kind in "RT" else np.nan
        out.append(dict(p=prob, kind=kind, theta=th, phi=ph, I=I, n_pass=npass, n_int=nint, A=A[0].copy(), passes=A[1], d=d, **k))

    def _encounter(self, p, d, m, I, prob, npass, nint, A, out):
        """the ray is in medium m, clear of surfaces, heading to the next one."""
        if prob < self.eps:
            out.append(dict(p=prob, kind="pruned", I=I)); return
        down = d[2] < 0
        si = m if down else m - 1
        s = self.S[si]
        if self.randomize and npass > 0:
            # the ray meets the next surface at an independent random point of its unit cell
            h = s.zmax - s.zmin + 0.1
            q = prob / len(self.randomize) ** 2
            for a in self.randomize:
                for b in self.randomize:
                    c = np.array([a * s.Lx, b * s.Ly, s.zcov])
                    self._enter(c - np.ceil(abs(h / d[2])) * d, d, m, si, down, I, q, npass, nint, A, out)
            return
        self._enter(p, d, m, si, down, I, prob, npass, nint, A, out)

    def _enter(self, p, d, m, si, down, I, prob, npass, nint, A, out):
        s = self.S[si]
        if prob < self.eps:
            out.append(dict(p=prob, kind="pruned", I=I)); return
        if self.periodic:
            path = s.cells_on_path(p, d)
            full = s.hit(p, d, path, 1e-10)
            t = (s.zcov - p[2]) / d[2]
            c = p + t * d
            home = (int(np.floor(c[0] / s.Lx)), int(np.floor(c[1] / s.Ly)))
            h0 = s.hit(p, d, [home], 1e-10)
            if (full is None) != (h0 is None) or (full is not None and abs(full[0] - h0[0]) > 1e-7):
                self.shadowed = True
            h = h0 if self.entry == "home" else full
        else:
            h = s.hit(p, d, [(0, 0)], 1e-10)
        if h is None:
            if not self.periodic:
                # isolated cell: the ray goes past
                self._leave(p, d, m, m + (1 if down else -1), si, down, I, prob, npass, nint, A, out, None)
                return
            raise Degenerate("miss")
        self._interact(p, d, m, si, h, down, I, prob, npass, nint, A, out)

    def _interact(self, p, d, m, si, h, down0, I, prob, npass, nint, A, out):
        s = self.S[si]
        t, N, q, margin = h
        if margin < self.edge_tol and not s.flat:
            raise Degenerate("edge")
        if prob < self.eps:
            out.append(dict(p=prob, kind="pruned", I=I)); return
        above = m == si                       # ray is in the upper medium of this surface
        m2 = si + 1 if above else si
        n = N if above else -N                # pointing to the side the ray is on
        ci = -np.dot(n, d)
        if ci <= 0:
            raise Degenerate("wrong side")
        th = np.arccos(np.clip(ci, -1, 1))
        if min(th, np.pi / 2 - th) < 0:
            raise Degenerate("grazing facet")
        n0, n1 = self.ns[m], self.ns[m2]
        r = n0.real / n1.real
        sin2 = (r ** 2) * (1 - ci ** 2)
        R = 1.0 if sin2 > 1 else fresnel_R(n0, n1, th, self.pol)
        T, Al = 1 - R, None
        if s.sheet is not None:
            R, T, Al = s.sheet(above, th, self.pol)
        nint += 1
        if R > 0:
            dr = d + 2 * ci * n
            self._continue(q, dr / np.linalg.norm(dr), m, si, down0, I, prob * min(R, 1.0), npass, nint, A, out)
        if T > 1e-15 and sin2 <= 1:
            dt = r * d + (r * ci - np.sqrt(max(0.0, 1 - sin2))) * n
            self._continue(q, dt / np.linalg.norm(dt), m2, si, down0, I, prob * T, npass, nint, A, out)
        if Al is not None and 1 - R - T > 1e-15:
            self._finish(out, "A", prob * (1 - R - T), d, 0.0, npass, nint, A,
                         surf=si, above=above, th_loc=th, I_abs=I, layers=I * np.array(Al) / np.sum(Al))

    def _continue(self, q, d, m, si, down0, I, prob, npass, nint, A, out):
        s = self.S[si]
        if prob < self.eps:
            out.append(dict(p=prob, kind="pruned", I=I)); return
        cells = s.cells_on_path(q, d) if self.periodic else [(0, 0)]
        h = s.hit(q, d, cells)
        if h is not None:
            self._interact(q, d, m, si, h, down0, I, prob, npass, nint, A, out)
            return
        self._leave(q, d, m, m, si, None, I, prob, npass, nint, A, out, None)

    def _leave(self, q, d, m, mnew, si, down, I, prob, npass, nint, A, out, _):
        """leaves surface si in direction d; medium from side of departure"""
        up = d[2] > 0
        m = si if up else si + 1
        if m == 0:
            self._finish(out, "R", prob, d, I, npass, nint, A); return
        if m == len(self.ns) - 1:
            self._finish(out, "T", prob, d, I, npass, nint, A); return
        # bulk passage: flat thickness, Beer-Lambert
        f = np.exp(-self.al[m] * self.w[m] / abs(d[2]))
        B = A[0].copy()
        B[m] += I * (1 - f)
        A = (B, A[1] + ((m, I, abs(d[2]), bool(up)),))
        I2 = I * f
        npass += 1
        if I2 < self.I_thresh:
            self._finish(out, "X", prob, d, I2, npass, nint, A); return
        self._encounter(q, d, m, I2, prob, npass, nint, A, out)
