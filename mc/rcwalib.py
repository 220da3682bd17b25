"""Independent driving of the Fourier modal solver (inkstone): stacks, powers per order, directions of the orders."""
import itertools, warnings
import numpy as np
import planar as pl

# lattices (nm)
SQ = ((620.0, 0.0), (0.0, 620.0))
RECT = ((700.0, 0.0), (0.0, 450.0))
HEX = ((640.0, 0.0), (320.0, 640.0 * np.sqrt(3) / 2))
SMALL = ((120.0, 0.0), (0.0, 120.0))
LAT = {"sq": SQ, "rect": RECT, "hex": HEX, "small": SMALL}

# shapes: material code, then geometry
GEOM = {
    "-": [],
    "disk": [dict(type="circle", mat="a", center=(0.0, 0.0), radius=140.0)],
    "off": [dict(type="circle", mat="b", center=(70.0, 30.0), radius=110.0)],
    "rect": [dict(type="rectangle", mat="a", center=(20.0, -40.0), halfwidths=(150.0, 80.0), angle=0)],
    "turn": [dict(type="rectangle", mat="g", center=(0.0, 0.0), halfwidths=(160.0, 60.0), angle=25)],
    "ell": [dict(type="ellipse", mat="g", center=(10.0, 0.0), halfwidths=(170.0, 90.0), angle=30)],
    "poly": [dict(type="polygon", mat="a", center=(0.0, 0.0), angle=0, vertices=[(-120.0, -90.0), (130.0, -60.0), (-40.0, 140.0)])],
    "polyc": [dict(type="polygon", mat="b", center=(35.0, -20.0), angle=0, vertices=[(-120.0, -90.0), (130.0, -60.0), (-40.0, 140.0)])],
    "two": [dict(type="circle", mat="g", center=(-150.0, 0.0), radius=80.0),
            dict(type="rectangle", mat="b", center=(120.0, 60.0), halfwidths=(70.0, 110.0), angle=0)],
}


def geom(code):
    """fresh rayflare geometry list"""
    out = []
    for g in GEOM[code]:
        h = dict(g)
        h["mat"] = pl.MATS[g["mat"]]
        if "vertices" in h:
            h["vertices"] = [tuple(v) for v in h["vertices"]]
        out.append(h)
    return out


def layers(stack):
    """stack: [(material, nm, geometry code)] -> solcore layers"""
    from solcore.structure import Layer
    return [Layer(d * 1e-9, pl.MATS[c], geometry=geom(g)) for c, d, g in stack]


def recip(size):
    a = np.array(size, float)
    b = np.linalg.inv(a).T          # rows: reciprocal vectors without the factor 2 pi
    return b


class Solver:
    """one stack at one wavelength"""

    def __init__(self, stack, media, size, orders, wl):
        from inkstone import Inkstone
        self.wl, self.stack, self.media, self.size = wl, stack, media, size
        m = wl * 1e-9
        S = Inkstone(size, orders)
        self.n_in = pl.nk(media[0], m).real
        self.n_out = pl.nk(media[1], m)
        S.AddMaterial("in", complex(self.n_in) ** 2)
        S.AddMaterial("out", self.n_out ** 2)
        for c in set([x[0] for x in stack] + [g["mat"] for x in stack for g in GEOM[x[2]]]):
            S.AddMaterial("M" + c, pl.nk(c, m) ** 2)
        S.AddLayer("top", 0, "in")
        for i, (c, d, g) in enumerate(stack):
            n = "L%d" % i
            S.AddLayer(n, d, "M" + c)
            for s in GEOM[g]:
                mt = "M" + s["mat"]
                c0 = s["center"]
                if s["type"] == "circle":
                    S.AddPatternDisk(n, mt, s["radius"], c0)
                elif s["type"] == "rectangle":
                    S.AddPatternRectangle(n, mt, [2 * x for x in s["halfwidths"]], c0, s["angle"])
                elif s["type"] == "ellipse":
                    S.AddPatternEllipse(n, mt, s["halfwidths"], c0, s["angle"])
                else:
                    S.AddPatternPolygon(n, mt, [[v[0] + c0[0], v[1] + c0[1]] for v in s["vertices"]])
        S.AddLayer("bot", 0, "out")
        self.S = S
        self.names = ["L%d" % i for i in range(len(stack))] + ["bot"]
        S.SetFrequency(1 / wl)
        self.memo = {}

    def excite(self, th, ph, pol):
        self.S.SetExcitation(float(np.degrees(th)), float(np.degrees(ph)), pol[0], pol[1])
        self.S.SetFrequency(1 / self.wl)

    def raw(self, th, ph, pol):
        """R, T, absorption per layer (unclipped), per order: m, R, T"""
        k = (round(th, 9), round(ph, 9), pol)
        if k in self.memo:
            return self.memo[k]
        S = self.S
        self.excite(th, ph, pol)
        inc, back = S.GetPowerFlux("top")
        f = [float(np.real(sum(S.GetPowerFlux(n)))) for n in self.names]
        inc = float(np.real(inc))
        A = np.array([f[i] - f[i + 1] for i in range(len(f) - 1)]) / inc
        idx = list(S.pr.idx_g)
        Ro = np.array([-np.real(np.ravel(S.GetPowerFluxByOrder("top", o)[1])[0]) for o in idx]) / inc
        To = np.array([np.real(np.ravel(S.GetPowerFluxByOrder("bot", o)[0])[0]) for o in idx]) / inc
        r = (-float(np.real(back)) / inc, f[-1] / inc, A, np.array(idx), Ro, To)
        self.memo[k] = r
        return r

    def calc(self, th, ph, pol):
        """like raw, absorption not below zero; pol may be u"""
        if pol == "u":
            a, b = self.calc(th, ph, "s"), self.calc(th, ph, "p")
            return tuple((x + y) / 2 if i != 3 else x for i, (x, y) in enumerate(zip(a, b)))
        p = {"s": (1, 0), "p": (0, 1)}.get(pol, pol)
        R, T, A, i, Ro, To = self.raw(th, ph, p)
        return R, T, np.maximum(A, 0), i, Ro, To, float(np.minimum(A, 0).sum())

    def directions(self, th, ph, idx):
        """in-plane wave vector (1/nm, no 2 pi), polar angle from the normal in both media (nan: evanescent), azimuth"""
        b = recip(self.size)
        k0 = self.n_in * np.sin(th) / self.wl
        kx = k0 * np.cos(ph) + idx[:, 0] * b[0, 0] + idx[:, 1] * b[1, 0]
        ky = k0 * np.sin(ph) + idx[:, 0] * b[0, 1] + idx[:, 1] * b[1, 1]
        k = np.hypot(kx, ky) * self.wl
        with np.errstate(invalid="ignore"):
            tr = np.arcsin(k / self.n_in)
            tt = np.arcsin(k / self.n_out.real)
        return kx, ky, tr, tt, np.arctan2(ky, kx)

    def profile(self, th, ph, pol, z):
        """absorbed power density (1/nm) at depths z inside the stack (points on an interface belong to the layer below)"""
        if pol == "u":
            return (self.profile(th, ph, "s", z) + self.profile(th, ph, "p", z)) / 2
        self.excite(th, ph, {"s": (1, 0), "p": (0, 1)}.get(pol, pol))
        inc = float(np.real(self.S.GetPowerFlux("top")[0]))
        e = np.cumsum([0.0] + [x[1] for x in self.stack])
        out = np.zeros(len(z))
        h = 1e-3
        for i, zz in enumerate(z):
            l = min(np.searchsorted(e, zz + 1e-9, side="right") - 1, len(self.stack) - 1)
            d = zz - e[l]
            a = float(np.real(sum(self.S.GetPowerFlux(self.names[l], d - h))))
            b = float(np.real(sum(self.S.GetPowerFlux(self.names[l], d + h))))
            out[i] = (a - b) / (2 * h * inc)
        return np.maximum(out, 0)
