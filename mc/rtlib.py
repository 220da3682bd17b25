"""Ray-tracing scenarios shared by the checks: real structures and their independent references."""
import numpy as np, math
import common
from optics import Mat, kfor, tmm_ref
from reftrace import Surf, Ref, Degenerate
from explorer import Explorer

WL = 600e-9


def opts(**kw):
    from solcore.state import State
    o = State()
    base = dict(wavelength=np.array([WL]), theta_in=0.0, phi_in=0.0, I_thresh=1e-2, pol="u", parallel=False,
                n_jobs=1, depth_spacing_bulk=1e-6, depth_spacing=1e-9, nx=1, ny=1, n_rays=1,
                random_ray_position=False, randomize_surface=False, avoid_edges=False, random_ray_angles=False,
                project_name="rfmc", lookuptable_angles=40, phi_symmetry=np.pi / 2, n_theta_bins=4, c_azimuth=0.25,
                bulk_profile=True, only_incidence_angle=False)
    base.update(kw)
    for k, v in base.items():
        o[k] = v
    return o


def at(x, y, **kw):
    return opts(x_limits=[x, x], y_limits=[y, y], **kw)


# ---- textures: (real texture factory, independent geometry) -------------------------------------------
def _square(s, zc, apex=None):
    v = [[0, 0, 0], [s, 0, 0], [0, s, 0], [s, s, 0]]
    if apex is None:
        return np.array(v, float), [[0, 1, 3], [0, 3, 2]], s, s
    v.append([s / 2, s / 2, apex])
    return np.array(v, float), [[0, 1, 4], [1, 3, 4], [3, 2, 4], [2, 0, 4]], s, s


def tex(spec, **kw):
    """spec: [kind, args...] -> [front, rear] RTSurface pair from rayflare"""
    import rayflare.textures as tx
    from rayflare.ray_tracing.rt import RTSurface
    from rayflare.textures.define_textures import xyz_texture, heights_texture
    k, a = spec[0], spec[1:]
    if k == "planar":
        return tx.planar_surface(size=(a[0] if a else 1), **kw)
    if k == "pyrh":                                           # height drawn from a one-point distribution
        u = tx.regular_pyramids(elevation_angle=a[0], upright=a[1], size=1, **kw)
        h = np.tan(np.radians(a[0])) / 2 * a[2]
        for s_, q in zip(u, (1, 1)):
            s_.distribution = {"h": np.array([h]), "p": np.array([1.0])}
        u[0].refresh()
        return u
    if k == "pyr":                                            # angle, upright, size
        return tx.regular_pyramids(elevation_angle=a[0], upright=a[1], size=a[2] if len(a) > 2 else 1, **kw)
    if k == "drawn":                                          # the texture a[1:], now scaled by a[0] in height; the
        g = geo(list(a[1:]))                                  # next height to be drawn is always that of the texture
        out = []
        for sg in (1, -1):
            P = g.V * np.array([1, 1, sg * a[0]])
            out.append(RTSurface(P, height_distribution={"h": np.array([np.abs(g.V[:, 2]).max()]), "p": np.array([1.0])}, **kw))
        return out
    if k == "vg":                                             # angle, direction
        return tx.V_grooves(elevation_angle=a[0], width=1, direction=a[1], **kw)
    if k == "xyz":                                            # named user surfaces
        P = np.array(USER[a[0]][0], float)
        return xyz_texture(P[:, 0], P[:, 1], P[:, 2], **kw)
    if k == "hgt":
        return heights_texture(np.array(HGT[a[0]], float), a[1], a[1], **kw)
    raise ValueError(k)


# user-defined unit cells: points and the facets they stand for (all Delaunay triangulations are unique)
USER = {
    # asymmetric pyramid: apex off-centre, rectangular cell
    "off": ([[0, 0, 0], [2, 0, 0], [0, 1, 0], [2, 1, 0], [0.6, 0.4, 0.5]],
            [[0, 1, 4], [1, 3, 4], [3, 2, 4], [2, 0, 4]], 2.0, 1.0),
    # pit, rectangular the other way
    "pit": ([[0, 0, 0], [1, 0, 0], [0, 1.5, 0], [1, 1.5, 0], [0.35, 0.9, -0.7]],
            [[0, 1, 4], [1, 3, 4], [3, 2, 4], [2, 0, 4]], 1.0, 1.5),
    "flat21": ([[0, 0, 0], [2, 0, 0], [0, 1, 0], [2, 1, 0]], [[0, 1, 3], [0, 3, 2]], 2.0, 1.0),
    "flat115": ([[0, 0, 0], [1, 0, 0], [0, 1.5, 0], [1, 1.5, 0]], [[0, 1, 3], [0, 3, 2]], 1.0, 1.5),
    "low115": ([[0, 0, 0], [1, 0, 0], [0, 1.5, 0], [1, 1.5, 0], [0.7, 0.5, 0.3]],
               [[0, 1, 4], [1, 3, 4], [3, 2, 4], [2, 0, 4]], 1.0, 1.5),
    # a hill and a hollow in one cell
    "two": ([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0], [0.3, 0.45, 0.35], [0.7, 0.55, -0.3]],
            [[0, 1, 4], [1, 5, 4], [1, 3, 5], [3, 2, 5], [2, 4, 5], [2, 0, 4]], 1.0, 1.0),
}
HGT = {"bump": [[0, 0, 0], [0, 0.4, 0], [0, 0, 0]],
       "ridge": [[0, 0.3, 0], [0, 0.3, 0], [0, 0.3, 0]]}


def geo(spec, z0=0.0, sheet=None):
    """independent geometry of the same texture"""
    k, a = spec[0], spec[1:]
    zcov = 0.0
    if k == "drawn":
        return geo(list(a[1:]), z0, sheet)
    if k == "planar":
        v, t, lx, ly = _square(float(a[0] if a else 1), 0)
    elif k == "pyr":
        s = float(a[2] if len(a) > 2 else 1)
        h = s * math.tan(math.radians(a[0])) / 2
        v, t, lx, ly = _square(s, 0, h if a[1] else -h)
    elif k == "pyrh":
        h = math.tan(math.radians(a[0])) / 2 * a[2]
        v, t, lx, ly = _square(1.0, 0, h if a[1] else -h)
    elif k == "vg":
        h = math.tan(math.radians(a[0])) / 2
        v = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0], [.5, 0, h], [.5, 1, h]])
        t = [[0, 4, 5], [0, 5, 2], [4, 1, 3], [4, 3, 5]]
        if a[1] == "x":
            v = v[:, [1, 0, 2]]
        lx = ly = 1.0
    elif k == "xyz":
        P, t, lx, ly = USER[a[0]]
        v = np.array(P, float)
    elif k == "hgt":
        # square array [x][y]; the texture is symmetric so that the triangulation of each square is irrelevant only
        # where the square is planar: take the facets from the real triangulation of the fresh surface
        s = tex(spec)[0]
        v, t, lx, ly = np.array(s.Points, float), np.array(s.simplices), float(a[1]), float(a[1])
    else:
        raise ValueError(k)
    return Surf(v, t, lx, ly, z0=z0, zcov=zcov, sheet=sheet)


def sheet_ref(n_top, layers, n_bot, n_angles, lam=WL * 1e9):
    """planar stack [(n, k, d_nm)] between media, looked up at the nearest tabulated angle (as the tracer's tables
    are defined: n_angles values from 0 to pi/2 - 1e-3)"""
    grid = np.linspace(0, np.pi / 2 - 1e-3, n_angles)
    memo = {}

    def f(above, th, pol):
        i = int(np.argmin(abs(grid - th)))
        x = th / (grid[1] - grid[0])
        if abs(x - np.floor(x) - 0.5) < 1e-6:
            raise Degenerate("between two table angles")
        key = (above, i, pol)
        if key not in memo:
            L = layers if above else layers[::-1]
            n0, n1 = (n_top, n_bot) if above else (n_bot, n_top)
            n = [complex(n0).real] + [complex(a, b) for a, b, c in L] + [complex(n1)]
            d = [np.inf] + [c for a, b, c in L] + [np.inf]
            out = []
            for q in ("s", "p") if pol == "u" else (pol,):
                R, T, A = tmm_ref(q, n, d, grid[i], lam, growing=True)
                out.append(np.concatenate([[max(R, 0), max(T, 0)], np.maximum(A if above else A[::-1], 0)]))
            o = np.mean(out, axis=0)
            memo[key] = (o[0], o[1], o[2:])
        return memo[key]
    return f


class Scene:
    """surfs: texture specs (n+1); layers: [(n, alpha 1/um, width um)] (n); n_in, n_out;
    sheets: {surface index: dict(layers=[(n, k, d_nm)], prof=[...] or None)} planar stacks on the facets."""

    def __init__(self, surfs, layers, n_in=1.0, n_out=1.0, k_out=0.0, sheets=None, n_tab=40):
        self.surfs, self.layers, self.n_in, self.n_out = surfs, [tuple(l) for l in layers], n_in, n_out
        self.k_out = k_out
        self.widths = [l[2] for l in self.layers]
        self.sheets = {int(k): v for k, v in (sheets or {}).items()}
        self.n_tab = n_tab

    def mats(self):
        return [Mat(n, kfor(al, WL)) for n, al, w in self.layers]

    def _tex(self, i):
        if i not in self.sheets:
            return tex(self.surfs[i])
        from solcore.structure import Layer
        sh = self.sheets[i]
        kw = dict(interface_layers=[Layer(d * 1e-9, Mat(n, k)) for n, k, d in sh["layers"]], name="s%d" % i)
        if sh.get("prof"):
            kw["prof_layers"] = list(sh["prof"])
        if sh.get("coh"):
            kw["coherency_list"] = list(sh["coh"])
        return tex(self.surfs[i], **kw)

    def real(self, options=None, save=None, **kw):
        from rayflare.ray_tracing.rt import rt_structure
        if self.sheets:
            o = options if options is not None else opts(lookuptable_angles=self.n_tab)
            kw.update(use_TMM=True, options=o, save_location=save or common.fresh_dir("lut"), overwrite=True)
        return rt_structure([self._tex(i) for i in range(len(self.surfs))], self.mats(),
                            [w * 1e-6 for w in self.widths], Mat(self.n_in), Mat(self.n_out, self.k_out), **kw)

    def ref(self, pol="u", I_thresh=1e-2, **kw):
        cw = np.cumsum([0] + self.widths)
        ns = [complex(self.n_in)] + [complex(n, kfor(al, WL)) for n, al, w in self.layers] + \
             [complex(self.n_out, self.k_out)]
        S = []
        for i, s in enumerate(self.surfs):
            sh = None
            if i in self.sheets:
                sh = sheet_ref(ns[i], self.sheets[i]["layers"], ns[i + 1], self.n_tab)
            S.append(geo(s, -cw[i], sheet=sh))
        return Ref(S, ns, [0] + [l[1] for l in self.layers] + [0], [0] + self.widths + [0], pol, I_thresh, **kw)

    def launch(self, x, y, th, ph, mat=0, direction=1):
        """launch point and direction as documented: incident polar angle th and azimuth ph, arriving at (x, y) at
        the highest point of the first surface; inside layer `mat` the ray starts at the layer's top (down) or
        bottom (up) face."""
        cw = np.cumsum([0] + self.widths)
        d = np.array([-math.sin(th) * math.cos(ph), -math.sin(th) * math.sin(ph), -math.cos(th)])
        if mat == 0:
            return np.array([x, y, geo(self.surfs[0]).zmax + 1e-8]), d
        if direction == 1:
            return np.array([x, y, -cw[mat - 1] - 1e-8]), d
        return np.array([x, y, -cw[mat] + 1e-8]), d * np.array([1, 1, -1])


def real_outcome(r):
    """one-ray result -> (kind, theta, phi, R, T, A..., n_pass, n_int)"""
    th = float(np.real(r["thetas"].ravel()[0]))
    A = np.real(np.asarray(r["A_per_layer"])[0])
    R, T = float(np.real(r["R"][0])), float(np.real(r["T"][0]))
    if np.isnan(th):
        kind, ph = "X", np.nan
        if isinstance(r["A_per_interface"], list) and sum(float(np.sum(a)) for a in r["A_per_interface"]) > 0:
            kind = "A"
    else:
        kind = "R" if th <= np.pi / 2 else "T"
        ph = float(np.real(r["phis"].ravel()[0]))
    Ai = []
    if isinstance(r["A_per_interface"], list):
        for a in r["A_per_interface"]:
            Ai += list(np.real(np.asarray(a)).ravel())
    return dict(kind=kind, theta=th, phi=ph, R=R, T=T, A=A, Ai=Ai, n_pass=int(r["n_passes"].ravel()[0]),
                n_int=int(r["n_interactions"].ravel()[0]))


def vec(o, sheets=None):
    """comparable numeric vector of an outcome (ref or real)"""
    I_R = o["R"] if "R" in o else (o["I"] if o["kind"] == "R" else 0.0)
    I_T = o["T"] if "T" in o else (o["I"] if o["kind"] == "T" else 0.0)
    A = o["A"] if "R" in o else o["A"][1:-1]
    if o["kind"] in "RT":
        th, ph = o["theta"], o["phi"]
        dirv = [math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)]
    else:
        dirv = [9, 9, 9]
    if "Ai" in o:
        Ai = o["Ai"]
    else:
        Ai = []
        for i in sorted(sheets or {}):
            n = len(sheets[i]["layers"])
            Ai += list(o["layers"]) if o["kind"] == "A" and o["surf"] == i else [0.0] * n
    return np.array(["RTXA".index(o["kind"])] + dirv + [I_R, I_T] + list(A) + list(Ai) + [o["n_pass"], o["n_int"]], float)


def group(items, tol=2e-6):
    """items: [(p, vec)] -> list of [vec, total p] with outcomes equal within tol merged"""
    cells = []
    if not items:
        return cells
    V = np.array([v for _, v in items])
    P = np.array([p for p, _ in items])
    used = np.zeros(len(P), bool)
    for i in np.argsort(-P):
        if used[i]:
            continue
        m = (~used) & (np.abs(V - V[i]) <= tol * (1 + np.abs(V[i]))).all(1)
        used |= m
        cells.append([V[i], P[m].sum()])
    return cells


def compare(real, ref, slack, tol=2e-6):
    """total variation style comparison of two outcome distributions; slack: pruned mass on either side.
    Returns None or a description of the difference."""
    a, b = group(real, tol), group(ref, tol)
    A = np.array([v for v, _ in a]) if a else np.zeros((0, 1))
    used = np.zeros(len(a), bool)
    worst = None
    excess_ref = 0.0
    for v, p in b:
        q = 0.0
        if len(a):
            m = (np.abs(A - v) <= 5 * tol * (1 + np.abs(v))).all(1) & ~used
            q = sum(a[i][1] for i in np.where(m)[0])
            used |= m
        if abs(p - q) > slack + 1e-6 and (worst is None or abs(p - q) > worst[0]):
            worst = (abs(p - q), "expected", p, "got", q, v)
    for i in np.where(~used)[0]:
        if a[i][1] > slack + 1e-6 and (worst is None or a[i][1] > worst[0]):
            worst = (a[i][1], "unexpected outcome, probability", a[i][1], "", "", a[i][0])
    return worst
