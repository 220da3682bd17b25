"""C16: every sequence of operations (up to a depth) on real planar, diffractive, ray-traced and matrix-formalism structures.
After each operation the result is compared with that of a fresh object in the same configuration; inputs (options, layers,
geometries, textures) and results returned earlier must be unchanged."""
import os, sys, itertools, pickle, random, signal, types
import numpy as np
import common
import planar as pl
import rcwalib as rl

PROPERTY = "C16"
LEVEL = "model_checking"
FRESH = True            # every case in a new process
TECHNIQUE = ("stateless exploration of all operation sequences up to a depth on the real objects, differential oracle: a fresh "
             "object in the same configuration (abstract state: layer widths, unit cell, geometry)")
RULE = "distinct (system, sequence of operations) executed on the real objects; every step compared with a fresh object"
ASSUMPTIONS = ["random numbers are the same sequence in every calculation (seeded before each operation)",
               "writing the singular wavelength next to the older plural alias in the options is not counted as changing them",
               "sharing an OptiStack object between structures is sharing a structure, not sharing layers: not covered"]


# ---- snapshots and comparison ------------------------------------------------------------------------------------------
def snap(o, depth=0, seen=None):
    """a value that changes if the content of o changes"""
    if depth > 12:
        return "..."
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes)):
        return o
    if isinstance(o, np.ndarray):
        return (o.shape, o.dtype.str, o.tobytes()) if o.dtype != object else [snap(x, depth + 1) for x in o.ravel()]
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, dict):
        return {str(k): snap(v, depth + 1) for k, v in o.items() if not (k == "wavelength" and "wavelengths" in o)}
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [snap(x, depth + 1) for x in o] + ([snap(vars(o), depth + 1)] if hasattr(o, "__dict__") else [])
    if isinstance(o, (types.FunctionType, types.MethodType, type)) or "Mat" == type(o).__name__:
        return id(o)
    if hasattr(o, "values") and hasattr(o, "dims"):
        return snap(np.asarray(o), depth + 1)
    if hasattr(o, "__dict__"):
        return {k: snap(v, depth + 1) for k, v in vars(o).items()}
    return id(o)


def same(a, b, tol=1e-7):
    # RCWA profiles are differences of power fluxes over 2e-9 nm: relative noise of 1e-3
    if isinstance(a, dict) or hasattr(a, "data_vars"):
        return hasattr(b, "keys") and set(a.keys()) == set(b.keys()) and all(
            same(a[k], b[k], max(tol, 3e-3) if tol and k == "profile" else tol) for k in a.keys())
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if hasattr(a, "todense"):
        a, b = a.todense(), b.todense()
    if isinstance(a, (np.ndarray, np.generic, int, float, complex)) or hasattr(a, "dims"):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "US":
            return bool((a == b).all())
        return bool(np.allclose(a, b, rtol=tol, atol=tol * max(abs(a[np.isfinite(a)]).max(initial=0), 1e-9), equal_nan=True))
    return type(a) is type(b) and (a == b or not isinstance(a, (str, bool)))


def deep(o):
    if isinstance(o, dict):
        return {k: deep(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [deep(x) for x in o]
    if hasattr(o, "copy") and not isinstance(o, type):
        try:
            return o.copy(deep=True)
        except TypeError:
            return o.copy()
    return o


def seed():
    np.random.seed(7)
    random.seed(7)


# ---- systems: build() -> env; ops name -> (kind, ...) --------------------------------------------------------------------
class System:
    """inputs: snapshotted things. ops: name -> function(env) -> result; sets: name -> (setting, value, function(env))"""
    depth = 3

    def build(self):
        raise NotImplementedError

    def reset(self):
        pass


def topt(**k):
    from c12_tmm import opt
    return opt(**k)


class Tmm(System):
    depth = 4

    def build(self):
        from rayflare.transfer_matrix_method import tmm_structure
        L = pl.layers([("s", 330.0), ("b", 35.0), ("g", 60.0)])
        s = tmm_structure(L, pl.MATS["a"], pl.MATS["q"])
        o = dict(A=topt(pol="s", depth_spacing=20e-9), B=topt(pol="u", theta_in=0.7, wavelength=pl.WLS[:2] + 7e-9, depth_spacing=20e-9),
                 I=topt(pol="p", theta_in=0.4, coherent=False, coherency_list=["i", "c", "c"], depth_spacing=30e-9))
        return dict(s=s, inputs=[L, o], o=o)

    def ops(self):
        r = {}
        for k in "ABI":
            r["calc" + k] = lambda e, k=k: e["s"].calculate(e["o"][k])
            r["prof" + k] = lambda e, k=k: e["s"].calculate_profile(e["o"][k])
        r["profL"] = lambda e: e["s"].calculate(e["o"]["B"], profile=True, layers=[2, 3])
        return r

    def sets(self):
        return {"w1": ("w", 1, lambda e: e["s"].set_widths([150.0, 80.0, 33.3])),
                "w0": ("w", 0, lambda e: e["s"].set_widths([330.0, 35.0, 60.0]))}


class Tmm2(System):
    """two structures made of the same layers"""

    def build(self):
        from rayflare.transfer_matrix_method import tmm_structure
        L = pl.layers([("s", 330.0), ("b", 35.0)])
        o = dict(A=topt(pol="s", depth_spacing=20e-9), B=topt(pol="u", theta_in=0.7, depth_spacing=20e-9))
        return dict(x=tmm_structure(L, pl.MATS["a"], pl.MATS["q"]), y=tmm_structure(L, pl.MATS["q"], pl.MATS["M"], True), inputs=[L, o], o=o)

    def ops(self):
        return {q + m + k: (lambda e, q=q, m=m, k=k: getattr(e[q], m)(e["o"][k]))
                for q in "xy" for m in ("calculate", "calculate_profile") for k in ("A", "B") if q == "x" or m == "calculate"}

    def sets(self):
        r = {}
        for q in "xy":
            r[q + "w1"] = (q + "w", 1, lambda e, q=q: e[q].set_widths([150.0, 80.0]))
            r[q + "w0"] = (q + "w", 0, lambda e, q=q: e[q].set_widths([330.0, 35.0]))
        return r


def ropt(**k):
    from c18_rcwa import opt
    return opt(**{**dict(orders=5, depth_spacing=37e-9), **k})


class Rcwa(System):
    def __init__(self, shape="polyc"):
        self.shape = shape

    def build(self):
        from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
        L = rl.layers([("s", 80.0, self.shape), ("b", 60.0, "-"), ("s", 50.0, "off")])
        for l in L:
            for g in l.geometry or []:
                if "vertices" in g:
                    g["vertices"] = [list(v) for v in g["vertices"]]
        o = dict(A=ropt(wavelength=pl.WLS[:2]), B=ropt(wavelength=pl.WLS[1:2], theta_in=0.5, phi_in=0.4, pol="p"),
                 C=ropt(wavelength=pl.WLS[:2], theta_in=0.8, pol="s"))
        s = rcwa_structure(L, rl.LAT["rect"], o["A"], pl.MATS["a"], pl.MATS["q"])
        return dict(s=s, inputs=[L, o], o=o)

    def ops(self):
        r = {}
        for k in "ABC":
            r["calc" + k] = lambda e, k=k: e["s"].calculate(e["o"][k])
            if k != "C":
                r["prof" + k] = lambda e, k=k: e["s"].calculate_profile(e["o"][k])
        if self.shape == "polyc":
            r["eps"] = lambda e: e["s"].get_fourier_epsilon(1, 600, e["o"]["A"], n_points=6, plot=False)
            r["fields"] = lambda e: e["s"].get_fields(1, 600, e["o"]["A"], n_points=4, plot=False)
        return r

    def sets(self):
        r = {"w1": ("w", 1, lambda e: e["s"].set_widths([50.0, 33.3, 90.0])),
             "w0": ("w", 0, lambda e: e["s"].set_widths([80.0, 60.0, 50.0]))}
        if self.shape != "polyc":
            r["s1"] = ("s", 1, lambda e: e["s"].set_size(rl.LAT["hex"]))
            r["s0"] = ("s", 0, lambda e: e["s"].set_size(rl.LAT["rect"]))
            r["g1"] = ("g", 1, lambda e: e["s"].edit_geom_list(3, 0, {"radius": 60.0}))
            r["g0"] = ("g", 0, lambda e: e["s"].edit_geom_list(3, 0, {"radius": 110.0}))
        return r


class Rcwa2(System):
    """two structures and a redistribution matrix made of the same layers"""

    def build(self):
        from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
        L = rl.layers([("s", 80.0, "polyc"), ("s", 50.0, "off")])
        for l in L:
            for g in l.geometry:
                if "vertices" in g:
                    g["vertices"] = [list(v) for v in g["vertices"]]
        o = dict(A=ropt(wavelength=pl.WLS[:2]), M=ropt(wavelength=pl.WLS[:1], n_theta_bins=2, c_azimuth=1e-6))
        return dict(x=rcwa_structure(L, rl.LAT["rect"], o["A"], pl.MATS["a"], pl.MATS["q"]),
                    y=rcwa_structure(L, rl.LAT["sq"], o["A"], pl.MATS["q"], pl.MATS["a"]), L=L, inputs=[L, o], o=o)

    def ops(self):
        def mat(e, side):
            from rayflare.rigorous_coupled_wave_analysis import RCWA
            return RCWA(e["L"], rl.LAT["rect"], 5, e["o"]["M"], "nowhere", pl.MATS["a"], pl.MATS["q"], front_or_rear=side, save=False,
                        prof_layers=[1])
        return {"x": lambda e: e["x"].calculate(e["o"]["A"]), "y": lambda e: e["y"].calculate(e["o"]["A"]),
                "px": lambda e: e["x"].calculate_profile(e["o"]["A"]), "front": lambda e: mat(e, "front"), "rear": lambda e: mat(e, "rear")}

    def sets(self):
        return {"xw1": ("xw", 1, lambda e: e["x"].set_widths([50.0, 90.0])), "xw0": ("xw", 0, lambda e: e["x"].set_widths([80.0, 50.0])),
                "xg1": ("xg", 1, lambda e: e["x"].edit_geom_list(2, 0, {"radius": 60.0})),
                "xg0": ("xg", 0, lambda e: e["x"].edit_geom_list(2, 0, {"radius": 110.0}))}


def rtopt(**k):
    import rtlib
    return rtlib.opts(**{**dict(nx=2, ny=2, n_rays=8, depth_spacing_bulk=1e-6, depth_spacing=10e-9, lookuptable_angles=12, I_thresh=1e-3), **k})


class Rt(System):
    tmm = False

    def textures(self):
        import rtlib
        kw = dict(interface_layers=pl.layers([("b", 35.0), ("g", 60.0)]), name="f", prof_layers=[1]) if self.tmm else {}
        a = rtlib.tex(["pyr", 52.0, True], **kw)
        b = rtlib.tex(["xyz", "two"]) if not self.tmm else rtlib.tex(["planar"])
        return a, b

    def build(self):
        from rayflare.ray_tracing import rt_structure
        a, b = self.textures()
        mats, widths = [pl.MATS["s"], pl.MATS["g"]], [3e-6, 2e-6]
        t = [a, b, rl_planar()]
        o = dict(A=rtopt(wavelength=pl.WLS[:2]), B=rtopt(wavelength=pl.WLS[:2][::-1].copy() if not self.tmm else pl.WLS[1:2], theta_in=0.6,
                                                       phi_in=0.4, pol="s", randomize_surface=True),
                 C=rtopt(wavelength=pl.WLS[1:2], nx=1, ny=3, random_ray_position=True, pol="p", theta_in=0.2, depth_spacing_bulk=0.5e-6))
        self.folder = common.fresh_dir("rt") if self.tmm else None
        kw = dict(options=o["A"], use_TMM=True, save_location=self.folder) if self.tmm else {}
        s = rt_structure(t, mats, widths, pl.MATS["a"], pl.MATS["q"], **kw)
        return dict(s=s, inputs=[t, mats, widths, o], o=o, dirs=[self.folder])

    def ops(self):
        r = {"calc" + k: (lambda e, k=k: e["s"].calculate(e["o"][k])) for k in "ABC"}
        r["profA"] = lambda e: e["s"].calculate_profile(e["o"]["A"])
        return r

    def sets(self):
        return {}


class RtTmm(Rt):
    tmm = True
    depth = 2


class Rt2(System):
    """two structures made of the same textures"""

    def build(self):
        import rtlib
        from rayflare.ray_tracing import rt_structure
        a, b = rtlib.tex(["pyr", 52.0, True]), rtlib.tex(["xyz", "two"])
        o = dict(A=rtopt(wavelength=pl.WLS[:1]), B=rtopt(wavelength=pl.WLS[1:2], theta_in=0.6, phi_in=0.4, pol="s"))
        return dict(inputs=[a, b, o], a=a, b=b, o=o,
                    x=rt_structure([a, b], [pl.MATS["s"]], [3e-6], pl.MATS["a"], pl.MATS["q"]),
                    y=rt_structure([b, a, b], [pl.MATS["g"], pl.MATS["s"]], [1e-6, 4e-6], pl.MATS["a"], pl.MATS["a"]))

    def ops(self):
        def new(e):
            from rayflare.ray_tracing import rt_structure
            s = rt_structure([e["a"], e["a"]], [pl.MATS["s"]], [2e-6], pl.MATS["a"], pl.MATS["q"])
            return s.calculate(e["o"]["A"])

        def group(e):
            from rayflare.ray_tracing.rt import RT
            from rayflare.structure import RTgroup
            return RT(RTgroup(textures=[e["a"]]), pl.MATS["a"], pl.MATS["s"], "x", rtopt(wavelength=pl.WLS[:1], n_theta_bins=2, c_azimuth=1e-6,
                      n_rays=8), "nowhere", 0, "rear", 0, None, save=False)
        r = {q + k: (lambda e, q=q, k=k: e[q].calculate(e["o"][k])) for q in "xy" for k in "AB"}
        r["new"] = new
        r["matrix"] = group
        return r

    def sets(self):
        return {}


def rl_planar():
    import rtlib
    return rtlib.tex(["planar"])


class Mf(System):
    """matrix formalism: two structures sharing interfaces and a texture, processed and multiplied with changing options"""
    depth = 3

    def build(self):
        import rtlib
        from rayflare.structure import Interface, BulkLayer, Structure
        t = rtlib.tex(["pyr", 52.0, True])
        L = pl.layers([("b", 35.0), ("g", 60.0)])
        f = Interface("TMM", layers=L, name="f", coherent=True, prof_layers=[1, 2])
        r = Interface("RT_Fresnel", texture=t, layers=[], name="r")
        d = Interface("RCWA", layers=rl.layers([("g", 40.0, "disk")]), name="d", d_vectors=rl.LAT["sq"], rcwa_orders=5, prof_layers=[1])
        blk = BulkLayer(20e-6, pl.MATS["s"], name="bulk")
        x = Structure([f, blk, r], incidence=pl.MATS["a"], transmission=pl.MATS["a"])
        y = Structure([r, blk, d], incidence=pl.MATS["a"], transmission=pl.MATS["q"])
        base = dict(wavelength=pl.WLS[1:], n_theta_bins=3, c_azimuth=0.5, n_rays=60, nx=2, ny=2, theta_in=0.3, phi_in=0.2, pol="u",
                    RCWA_method="inkstone", orders=5, depth_spacing=10e-9, depth_spacing_bulk=5e-6)
        o = dict(A=rtopt(**base), B=rtopt(**{**base, "wavelength": pl.WLS[2:], "pol": "s", "theta_in": 0.8, "n_theta_bins": 2}),
                 C=rtopt(**{**base, "bulk_profile": False, "phi_symmetry": np.pi / 4, "wavelength": pl.WLS[[2, 1]]}))
        d_ = common.fresh_dir("mf")
        return dict(x=x, y=y, inputs=[x, y, o], o=o, dirs=[d_], d=d_)

    def ops(self):
        def run(e, q, k):
            from rayflare.matrix_formalism import process_structure, calculate_RAT
            process_structure(e[q], e["o"][k], save_location=e["d"], overwrite=True)
            r = calculate_RAT(e[q], e["o"][k], save_location=e["d"])
            return [r[0]] + [list(z) if isinstance(z, (list, tuple)) else z for z in r[2:]]
        return {q + k: (lambda e, q=q, k=k: run(e, q, k)) for q in "xy" for k in ("ABC" if q == "x" else "AB")}

    def sets(self):
        return {}


class Vary(System):
    """all ordered pairs of calculations whose options differ in exactly one entry (or two), with separate options objects
    or by changing the one options object in place between the calculations"""
    depth = 2
    star = False
    base, var, calcs = {}, {}, ("c",)
    folder = False

    def __init__(self, inplace):
        self.inplace = inplace

    def build(self):
        d = common.fresh_dir("vary") if self.folder else None
        s, inputs, calc = self.make(d)
        if self.inplace:
            return dict(inputs=inputs, o=self.opt(**{k: v.copy() if isinstance(v, np.ndarray) else v for k, v in self.base.items()}), s=s, calc=calc, dirs=[d])
        o = {k: self.opt(**{**self.base, **v}) for k, v in {"base": {}, **self.var}.items()}
        return dict(inputs=[inputs, o], o=o, s=s, calc=calc, dirs=[d])

    def run(self, e, k, q):
        if not self.inplace:
            return e["calc"][q](e["s"], e["o"][k])
        for a in [a for v in self.var.values() for a in v if a not in self.base and a in e["o"]]:
            del e["o"][a]
        for a, v in {**self.base, **self.var.get(k, {})}.items():
            if isinstance(v, np.ndarray) and isinstance(e["o"].get(a), np.ndarray) and e["o"][a].shape == v.shape:
                e["o"][a][...] = v          # the very same array, with new content
            else:
                e["o"][a] = v.copy() if isinstance(v, np.ndarray) else v
        return e["calc"][q](e["s"], e["o"])

    def ops(self):
        return {k + ("" if len(self.calcs) == 1 else "." + q): (lambda e, k=k, q=q: self.run(e, k, q))
                for k in ["base"] + list(self.var) for q in self.calcs}

    def sets(self):
        return {}


class VaryTmm(Vary):
    opt = staticmethod(topt)
    base = dict(wavelength=pl.WLS[:2].copy(), theta_in=0.4, pol="s", depth_spacing=20e-9, coherent=True, coherency_list=None)
    var = dict(wl=dict(wavelength=pl.WLS[1:].copy()), wlend=dict(wavelength=pl.WLS[:2] + np.array([0, 31e-9])),
               rev=dict(wavelength=pl.WLS[:2][::-1].copy()), one=dict(wavelength=pl.WLS[:1].copy()),
               th=dict(theta_in=0.41), th0=dict(theta_in=0.0), p=dict(pol="p"), u=dict(pol="u"), dz=dict(depth_spacing=15e-9),
               inc=dict(coherent=False, coherency_list=["i", "c", "c"]), inc2=dict(coherent=False, coherency_list=["c", "c", "i"]),
               coh=dict(coherent=False, coherency_list=["c", "c", "c"]))
    calcs = "cpl"

    def make(self, d):
        from rayflare.transfer_matrix_method import tmm_structure
        L = pl.layers([("s", 330.0), ("b", 35.0), ("g", 60.0)])
        return (tmm_structure(L, pl.MATS["a"], pl.MATS["q"]), [L],
                dict(c=lambda s, o: s.calculate(o), p=lambda s, o: s.calculate_profile(o), l=lambda s, o: s.calculate(o, profile=True, layers=[2])))


class VaryRcwa(Vary):
    star = True
    opt = staticmethod(ropt)
    base = dict(wavelength=pl.WLS[:1].copy(), theta_in=0.4, phi_in=0.2, pol="s", orders=5, depth_spacing=37e-9, A_per_order=False)
    var = dict(wl=dict(wavelength=pl.WLS[1:2].copy()), wl2=dict(wavelength=pl.WLS[:2].copy()), th=dict(theta_in=0.41), ph=dict(phi_in=0.9),
               p=dict(pol="p"), u=dict(pol="u"), dz=dict(depth_spacing=23e-9), n=dict(orders=9))
    calcs = "cp"

    def make(self, d):
        from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
        L = rl.layers([("s", 80.0, "off"), ("b", 60.0, "-")])
        return (rcwa_structure(L, rl.LAT["rect"], self.opt(**self.base), pl.MATS["a"], pl.MATS["q"]), [L],
                dict(c=lambda s, o: s.calculate(o), p=lambda s, o: s.calculate_profile(o)))


class VaryRt(Vary):
    opt = staticmethod(lambda **k: rtopt(**k))
    tmm = False
    base = dict(wavelength=pl.WLS[:2].copy(), theta_in=0.3, phi_in=0.2, pol="u", nx=2, ny=2, n_rays=8, I_thresh=1e-3, depth_spacing_bulk=1e-6,
                random_ray_position=False, randomize_surface=False, initial_material=0, initial_direction=1, periodic=1)
    var = dict(wl=dict(wavelength=pl.WLS[1:].copy()), rev=dict(wavelength=pl.WLS[:2][::-1].copy()), one=dict(wavelength=pl.WLS[:1].copy()),
               th=dict(theta_in=0.31), th0=dict(theta_in=0.0), ph=dict(phi_in=1.1), s=dict(pol="s"), p=dict(pol="p"), nx=dict(nx=3),
               ny=dict(nx=1, ny=4), n=dict(n_rays=16), I=dict(I_thresh=0.2), dz=dict(depth_spacing_bulk=0.5e-6), rp=dict(random_ray_position=True),
               rs=dict(randomize_surface=True), xl=dict(x_limits=[0.1, 0.9]), im=dict(initial_material=1),
               dr=dict(initial_material=1, initial_direction=-1))

    def make(self, d):
        from rayflare.ray_tracing import rt_structure
        import rtlib
        kw = dict(interface_layers=pl.layers([("b", 35.0), ("g", 60.0)]), name="f", prof_layers=[1]) if self.tmm else {}
        t = [rtlib.tex(["pyr", 52.0, True], **kw), rtlib.tex(["xyz", "two"]) if not self.tmm else rtlib.tex(["planar"])]
        kw = dict(options=self.opt(**self.base), use_TMM=True, save_location=d) if self.tmm else {}
        s = rt_structure(t, [pl.MATS["s"]], [3e-6], pl.MATS["a"], pl.MATS["q"], **kw)
        return s, [t], dict(c=lambda s, o: s.calculate(o))


class VaryRtTmm(VaryRt):
    star = True
    tmm = folder = True
    var = {k: v for k, v in VaryRt.var.items() if k not in ("wl", "rev", "one")}      # the table is made for the wavelengths at construction


def mfrun(x, o, d):
    from rayflare.matrix_formalism import process_structure, calculate_RAT
    process_structure(x, o, save_location=d, overwrite=True)
    r = calculate_RAT(x, o, save_location=d)
    return [r[0]] + [list(z) if isinstance(z, (list, tuple)) else z for z in r[2:]]


class VaryMf(Vary):
    star = True
    opt = staticmethod(lambda **k: rtopt(**k))
    folder = True
    base = dict(wavelength=pl.WLS[1:].copy(), n_theta_bins=3, c_azimuth=0.5, n_rays=24, nx=2, ny=2, theta_in=0.3, phi_in=0.2, pol="u",
                depth_spacing=10e-9, depth_spacing_bulk=5e-6, phi_symmetry=np.pi / 2, bulk_profile=True, I_thresh=1e-2,
                only_incidence_angle=False, theta_spacing="sin")
    var = dict(wl=dict(wavelength=pl.WLS[:2].copy()), th=dict(theta_in=0.8), ph=dict(phi_in=1.3), phall=dict(phi_in="all"), s=dict(pol="s"),
               nb=dict(n_theta_bins=2), lin=dict(theta_spacing="linear"), c=dict(c_azimuth=1e-6), sym=dict(phi_symmetry=np.pi / 4),
               dz=dict(depth_spacing=7e-9), dzb=dict(depth_spacing_bulk=3e-6), nob=dict(bulk_profile=False), I=dict(I_thresh=1e-4),
               only=dict(only_incidence_angle=True))

    def make(self, d):
        import rtlib
        from rayflare.structure import Interface, BulkLayer, Structure
        L = pl.layers([("b", 35.0), ("g", 60.0)])
        f = Interface("TMM", layers=L, name="f", coherent=True, prof_layers=[1])
        r = Interface("RT_Fresnel", texture=rtlib.tex(["pyr", 52.0, True]), layers=[], name="r")
        x = Structure([f, BulkLayer(20e-6, pl.MATS["s"], name="bulk"), r], incidence=pl.MATS["a"], transmission=pl.MATS["a"])
        return x, [x], dict(c=lambda s, o: mfrun(s, o, d))


class New(System):
    """all ordered pairs of calculations on newly built structures that differ in exactly one parameter"""
    depth = 2
    star = False
    var = {}

    def build(self):
        return dict(inputs=[], dirs=[])

    def ops(self):
        return {k: (lambda e, k=k: self.run(**{**self.base, **self.var.get(k, {})})) for k in ["base"] + list(self.var)}

    def sets(self):
        return {}


class NewTmm(New):
    base = dict(L=[("s", 330.0), ("b", 35.0), ("g", 60.0)], inc="a", tr="q", nbr=False)
    var = dict(w=dict(L=[("s", 330.0), ("b", 36.0), ("g", 60.0)]), m=dict(L=[("s", 330.0), ("m", 35.0), ("g", 60.0)]),
               perm=dict(L=[("b", 35.0), ("s", 330.0), ("g", 60.0)]), inc=dict(inc="q"), tr=dict(tr="h"), nbr=dict(nbr=True),
               n=dict(L=[("s", 330.0), ("b", 35.0)]))

    def run(self, L, inc, tr, nbr):
        from rayflare.transfer_matrix_method import tmm_structure
        s = tmm_structure(pl.layers(L), pl.MATS[inc], pl.MATS[tr], no_back_reflection=nbr)
        return s.calculate(topt(pol="u", theta_in=0.3, depth_spacing=20e-9), profile=True)


class NewRcwa(New):
    star = True
    base = dict(L=[("s", 80.0, "off"), ("b", 60.0, "-")], lat="rect", inc="a", tr="q")
    var = dict(w=dict(L=[("s", 70.0, "off"), ("b", 60.0, "-")]), m=dict(L=[("m", 80.0, "off"), ("b", 60.0, "-")]), g=dict(L=[("s", 80.0, "disk"), ("b", 60.0, "-")]),
               u=dict(L=[("s", 80.0, "-"), ("b", 60.0, "-")]), lat=dict(lat="sq"), inc=dict(inc="q"), tr=dict(tr="h"))

    def run(self, L, lat, inc, tr):
        from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
        o = ropt(wavelength=pl.WLS[:1], theta_in=0.3, phi_in=0.4, pol="u")
        s = rcwa_structure(rl.layers(L), rl.LAT[lat], o, pl.MATS[inc], pl.MATS[tr])
        return [s.calculate(o), s.calculate_profile(o)]


class NewRt(New):
    tmm = False
    base = dict(t=["pyr", 52.0, True], t2=["xyz", "two"], m="s", w=3e-6, inc="a", tr="q", L=[("b", 35.0), ("g", 60.0)], prof=[1])
    var = dict(t=dict(t=["pyr", 40.0, True]), up=dict(t=["pyr", 52.0, False]), t2=dict(t2=["planar"]), m=dict(m="b"), w=dict(w=2e-6), inc=dict(inc="q"), tr=dict(tr="a"))

    def run(self, t, t2, m, w, inc, tr, L, prof):
        from rayflare.ray_tracing import rt_structure
        import rtlib
        o = rtopt(wavelength=pl.WLS[:2], theta_in=0.3, phi_in=0.2, pol="u")
        d = common.fresh_dir("new") if self.tmm else None
        kw = dict(interface_layers=pl.layers(L), name="f", prof_layers=prof) if self.tmm else {}
        x = [rtlib.tex(t, **kw), rtlib.tex(t2)]
        kw = dict(options=o, use_TMM=True, save_location=d) if self.tmm else {}
        r = rt_structure(x, [pl.MATS[m]], [w], pl.MATS[inc], pl.MATS[tr], **kw).calculate(o)
        if d:
            common.rmdir(d)
        return r


class NewRtTmm(NewRt):
    star = True
    tmm = True
    base = {**NewRt.base, "t2": ["planar"]}
    var = {**{k: v for k, v in NewRt.var.items() if k != "t2"}, "lw": dict(L=[("b", 35.0), ("g", 50.0)]), "lm": dict(L=[("b", 35.0), ("b", 60.0)]),
           "ln": dict(L=[("b", 35.0)]), "pr": dict(prof=[2])}


class NewMf(New):
    star = True
    base = dict(L=[("b", 35.0), ("g", 60.0)], t=["pyr", 52.0, True], m="s", w=20e-6, inc="a", tr="a", prof=[1], coh=True, cl=None)
    var = dict(lw=dict(L=[("b", 35.0), ("g", 50.0)]), lm=dict(L=[("b", 35.0), ("b", 60.0)]), ln=dict(L=[("b", 35.0)]), t=dict(t=["pyr", 40.0, True]),
               m=dict(m="b"), w=dict(w=5e-6), inc=dict(inc="q"), tr=dict(tr="q"), pr=dict(prof=[1, 2]), nop=dict(prof=None),
               coh=dict(coh=False, cl=["c", "i"], prof=None))

    def run(self, L, t, m, w, inc, tr, prof, coh, cl):
        import rtlib
        from rayflare.structure import Interface, BulkLayer, Structure
        f = Interface("TMM", layers=pl.layers(L), name="f", coherent=coh, **({} if coh else dict(coherency_list=cl)), **(dict(prof_layers=prof) if prof else {}))
        r = Interface("RT_Fresnel", texture=rtlib.tex(t), layers=[], name="r")
        x = Structure([f, BulkLayer(w, pl.MATS[m], name="bulk"), r], incidence=pl.MATS[inc], transmission=pl.MATS[tr])
        d = common.fresh_dir("new")
        r = mfrun(x, rtopt(**VaryMf.base), d)
        common.rmdir(d)
        return r


SYSTEMS = {"tmm": Tmm(), "tmm2": Tmm2(), "rcwa": Rcwa(), "rcwag": Rcwa("disk"), "rcwa2": Rcwa2(), "rt": Rt(), "rttmm": RtTmm(), "rt2": Rt2(), "mf": Mf()}
for _k, _c in (("tmm", VaryTmm), ("rcwa", VaryRcwa), ("rt", VaryRt), ("rttmm", VaryRtTmm), ("mf", VaryMf)):
    SYSTEMS["vary_" + _k], SYSTEMS["inplace_" + _k] = _c(False), _c(True)
for _k, _c in (("tmm", NewTmm), ("rcwa", NewRcwa), ("rt", NewRt), ("rttmm", NewRtTmm), ("mf", NewMf)):
    SYSTEMS["new_" + _k] = _c()
WEIGHT = {"inplace_mf": 4, "vary_mf": 4, "new_mf": 4, "new_rttmm": 4, "tmm": 3, "rcwa": 9, "rcwag": 9, "rcwa2": 5, "mf": 30, "rttmm": 4}


def cases(tier):
    cs = []
    for k, s in SYSTEMS.items():
        d = s.depth + (0 if tier == "quick" or isinstance(s, Vary) else 1)
        names = list(s.ops()) + list(s.sets())
        n = 5 if isinstance(s, (Vary, New)) else 1          # sequences with the same first operations share their references
        for i in range(0, len(names), n):
            cs.append(dict(system=k, first=names[i:i + n], depth=d, _w=WEIGHT.get(k, 1) * n))
    return cs


def close(env):
    for d in env.get("dirs") or []:
        if d:
            common.rmdir(d)


def warm():
    """third-party just-in-time compilation, in the parent process (nothing of rayflare is called)"""
    import sparse
    x = sparse.COO.from_numpy(np.eye(3)[None] + np.zeros((2, 1, 1)))
    for y in (x[0], x[0:1], x[[1, 0]], x[:, 1], x[:, [1]], x[:, 1:2], x[:, :, 1]):
        y.todense()
    sparse.concatenate([x, x]), sparse.stack([x, x]), sparse.dot(x[0], np.ones(3)), sparse.dot(x[0], x[1]), x.sum(1), x * 2


class Zygote:
    """every reference result is calculated in a process of its own in which nothing was calculated before"""

    def __init__(self, f):
        self.a, b = os.pipe()
        c, self.d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            signal.alarm(0)
            os.close(self.a), os.close(self.d)
            inp, out = os.fdopen(c, "rb"), b
            while True:
                try:
                    k = pickle.load(inp)
                except EOFError:
                    os._exit(0)
                p = os.fork()
                if p == 0:
                    signal.alarm(120)
                    try:
                        v = (True, f(k))
                    except BaseException as e:
                        v = (False, "%s: %s" % (type(e).__name__, e))
                    try:
                        v = pickle.dumps(v)
                    except Exception as e:
                        v = pickle.dumps((False, "cannot be pickled: %s" % e))
                    with os.fdopen(out, "wb") as o:
                        o.write(len(v).to_bytes(8, "little") + v)
                    os._exit(0)
                os.waitpid(p, 0)
        os.close(b), os.close(c)
        self.a, self.d = os.fdopen(self.a, "rb"), os.fdopen(self.d, "wb")

    def get(self, k):
        pickle.dump(k, self.d)
        self.d.flush()
        n = self.a.read(8)
        ok, v = pickle.loads(self.a.read(int.from_bytes(n, "little")))
        if not ok:
            raise RuntimeError("the calculation %s with a new object failed: %s" % (k, v))
        return v

    def close(self):
        self.d.close()
        self.a.close()
        os.waitpid(self.pid, 0)


def run_case(case):
    res = common.Result()
    import rayflare.ray_tracing, rayflare.matrix_formalism, rayflare.transfer_matrix_method, rayflare.rigorous_coupled_wave_analysis
    S = SYSTEMS[case["system"]]
    ops, sets = S.ops(), S.sets()
    names = list(ops) + list(sets)
    memo = {}

    def expected(cfg, op):
        k = (cfg, op)
        if k not in memo:
            memo[k] = ref.get(k)
        return memo[k]

    def pristine(k):
        cfg, op = k
        e = S.build()
        for s, v in cfg:
            if v:
                f = [x[2] for x in sets.values() if x[:2] == (s, v)][0]
                f(e)
        seed()
        r = ops[op](e)
        close(e)
        return r
    ref = Zygote(pristine)

    for seq in itertools.product(case["first"], *[names] * (case["depth"] - 1)):
        # sequences that end in a setting, or in two settings of the same thing, add nothing
        if seq[-1] in sets:
            continue
        if getattr(S, "star", False) and case["depth"] == 2 and not any(x.split(".")[0] == "base" for x in seq):
            continue
        env = S.build()
        base = snap(env["inputs"])
        cfg = {}
        old = []
        sig = case["system"] + ": " + " ".join(seq)
        res.execs += 1
        res.traces += 1
        res.seen(sig)
        for i, n in enumerate(seq):
            here = case["system"] + ": " + " ".join(seq[:i + 1])
            res.states += 1
            if n in sets:
                s, v, f = sets[n]
                f(env)
                cfg[s] = v
            else:
                seed()
                r = ops[n](env)
                want = expected(tuple(sorted((k, v) for k, v in cfg.items() if v)), n)
                res.check(same(r, want), "result depends on what was calculated before", here, differ=where(r, want))
                for m, q, c in old:
                    res.check(same(q, c, 0), "a result returned earlier was changed (%s)" % m, here)
                old.append((n, r, deep(r)))
            res.check(snap(env["inputs"]) == base, "options, layers, materials or textures were changed", here, changed=diff(base, snap(env["inputs"])))
        close(env)
        if len(res.viol) >= 6:
            break
    ref.close()
    return res


def where(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return [k for k in set(a) | set(b) if k not in a or k not in b or not same(a[k], b[k])]
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return [(i, where(x, y)) for i, (x, y) in enumerate(zip(a, b)) if not same(x, y)]
    return ""


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        return [d for k in sorted(set(a) | set(b)) for d in diff(a.get(k), b.get(k), path + "." + k)][:5]
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [d for i, (x, y) in enumerate(zip(a, b)) for d in diff(x, y, path + "[%d]" % i)][:5]
    return [] if a == b else [path]


if __name__ == "__main__":
    common.main(sys.modules[__name__])
