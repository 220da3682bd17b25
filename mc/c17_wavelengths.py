"""C17: wavelengths are independent.  Every ordered selection (sets, orders) of a small alphabet of wavelengths, every completion
order of parallel tasks (each task on its own copy of the inputs, as in worker processes), and every form of the options are
executed on the real code; the result at each wavelength is compared with that of the same wavelength alone."""
import sys, itertools, os
import numpy as np
import common
import planar as pl
import rcwalib as rl
import mcjobs
from explorer import Explorer

PROPERTY = "C17"
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of ordered selections of wavelengths, completion orders of the parallel tasks (joblib backend that "
             "executes tasks in a given order on isolated copies) and forms of the options, on the real code with random numbers "
             "controlled; differential oracle: the same wavelength calculated alone")
RULE = "distinct (method, ordered selection of wavelengths, schedule, form of the options) executed; every wavelength compared"
ASSUMPTIONS = ["wavelengths within one calculation are distinct", "random numbers do not depend on what was drawn before (constants from an alphabet)",
               "matrix multiplication stops when the power of all wavelengths is below the threshold: compared with a threshold of 1e-11"]

WL = np.array([420.0, 600.0, 910.0, 750.0] + [340.0 + 31.7 * ((9 * i) % 28) for i in range(28)]      # 28: long selections
              + [600.1, 600.4, 600.42, 599.9, 600.401, 600.0]) * 1e-9                                           # the last 6: close together
NEAR = len(WL) - 6


def wiggly(m):
    """the same material with optical constants which change a lot within fractions of a nm"""
    def f(w, q):
        return np.cos(2 * np.pi * (np.asarray(w) * 1e9 - 600.1) / q)
    return pl.Mat(lambda w: m.n(w) * (1.15 - 0.15 * f(w, 0.017)) * (1.2 - 0.2 * f(w, 0.77)), lambda w: m.k(w) * (1.5 - 0.4 * f(w, 0.77)), name="wiggly" + getattr(m, "name", ""))


class Const(Explorer):
    """random numbers that do not depend on the history"""

    def __init__(self, c):
        super().__init__()
        self.c = c

    def uniform01(self):
        return self.c

    def np_uniform(self, shape=None):
        if shape is None:
            return self.c
        n = int(np.prod(shape))
        return ((self.c + 0.6180339887 * np.arange(n)) % 1.0).reshape(shape)

    def np_choice(self, a, size=None, replace=True, p=None):
        v = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        c = np.cumsum(np.ones(len(v)) / len(v) if p is None else p)
        j = min(int(np.searchsorted(c, self.c * c[-1])), len(v) - 1)
        return v[j] if size is None else np.full(size, v[j])


# ---- results as dictionaries of arrays; the axis of the wavelengths is found by comparison with a single wavelength -------------
def flat(o, name="", out=None):
    out = {} if out is None else out
    if isinstance(o, dict) or hasattr(o, "data_vars"):
        for k in o.keys():
            flat(o[k], name + "." + str(k), out)
        if hasattr(o, "coords"):
            for k in o.coords:
                if k in ("wl", "wavelength"):
                    out[name + "@" + k] = np.asarray(o.coords[k])
    elif isinstance(o, (list, tuple)):
        for i, x in enumerate(o):
            flat(x, name + "[%d]" % i, out)
    elif hasattr(o, "todense"):
        out[name] = np.asarray(o.todense())
    elif o is not None and not isinstance(o, str):
        out[name] = np.asarray(o)
        if hasattr(o, "coords"):
            for k in o.coords:
                if k in ("wl", "wavelength"):
                    out[name + "@" + k] = np.asarray(o.coords[k])
    return out


def close(a, b, tol):
    s = max(np.abs(b[np.isfinite(b)]).max(initial=0), 1e-9)
    return np.allclose(a, b, rtol=0, atol=tol * s, equal_nan=True)


def compare(res, sig, full, singles, n, tol=1e-9):
    """full: result for n wavelengths; singles: the n results alone"""
    F, S = flat(full), [flat(s) for s in singles]
    if not res.check(all(set(F) == set(s) for s in S), "results have other content than those of single wavelengths", sig,
                     differs=sorted(set(F) ^ set(S[0]))[:6]):
        return
    for k, a in F.items():
        t = 3e-3 if "profile" in k and sig.startswith("rcwa") else tol
        for i in range(n):
            b = S[i][k]
            res.transitions += 1
            if n == 1:
                ok = a.shape == b.shape and close(a, b, t)
            else:
                ax = [x for x in range(b.ndim) if b.shape[x] == 1 and a.ndim == b.ndim and a.shape[x] == n and
                      a.shape[:x] + (1,) + a.shape[x + 1:] == b.shape]
                if ax:
                    ok = any(close(np.take(a, [i], axis=x), b, t) for x in ax)
                else:
                    ok = a.shape == b.shape and close(a, b, t)
            res.states += 1
            if not ok:
                res.check(False, "result at a wavelength depends on the others", sig, quantity=k, wavelength=i, shapes=[a.shape, b.shape],
                          alone=b.ravel()[:6], together=a.ravel()[:6])
                break


# ---- systems: run(wavelengths, changes to the options) ----------------------------------------------------------------------------
def topt(**k):
    from c12_tmm import opt
    return opt(**k)


def ropt(**k):
    from c18_rcwa import opt
    return opt(**{**dict(orders=5, depth_spacing=37e-9), **k})


def rtopt(**k):
    import rtlib
    return rtlib.opts(**{**dict(nx=2, ny=2, n_rays=8, depth_spacing_bulk=0.5e-6, depth_spacing=10e-9, lookuptable_angles=12, I_thresh=1e-3,
                                parallel=False), **k})


def form(o, f):
    """the same options in another form"""
    if f == "dict":
        return dict(o)
    if f == "alias":
        o["wavelengths"] = o.pop("wavelength")
    if f == "both":                              # the plural name overrides
        o["wavelengths"] = o["wavelength"]
        o["wavelength"] = np.array([5e-7])
    if f == "dictalias":
        d = dict(o)
        d["wavelengths"] = d.pop("wavelength")
        return d
    if f == "nojobs":
        o.pop("n_jobs", None)
    if f == "default":
        from rayflare.options import default_options
        d = default_options()
        d.update(dict(o))
        return d
    if f == "list":
        o["wavelength"] = np.array(list(o["wavelength"]))
    return o


FORMS = ["state", "dict", "alias", "both", "dictalias", "nojobs", "default"]


class Sys:
    n = 3              # alphabet of wavelengths
    tol = 1e-9
    par = True         # uses parallel tasks
    consts = [None]    # random numbers

    def run(self, wl, f="state", **k):
        raise NotImplementedError


class Tmm(Sys):
    n, par = 4, False

    def __init__(self, prof, coh, media="aq"):
        self.prof, self.coh, self.media = prof, coh, media

    def run(self, wl, f="state", **k):
        from rayflare.transfer_matrix_method import tmm_structure
        out = []
        for pol in "spu":
            for th in (0.0, 0.7):
                # as many layers as wavelengths, in some selections
                s = tmm_structure(pl.layers([("s", 330.0), ("b", 35.0), ("g", 60.0)]), pl.MATS[self.media[0]], pl.MATS[self.media[1]])
                o = form(topt(wavelength=np.array(wl), pol=pol, theta_in=th, depth_spacing=25e-9, coherent=self.coh is None, coherency_list=self.coh), f)
                out.append(s.calculate(o, profile=True, layers=[1, 3]) if self.prof == "part" else s.calculate_profile(o) if self.prof else s.calculate(o))
        return out


class TmmMat(Sys):
    par = False

    def __init__(self, side, coh):
        self.side, self.coh = side, coh

    def run(self, wl, f="state", **k):
        from rayflare.transfer_matrix_method import TMM
        o = form(rtopt(wavelength=np.array(wl), n_theta_bins=3, c_azimuth=0.5, pol="u"), f)
        return TMM(pl.layers([("s", 330.0), ("b", 35.0)]), pl.MATS["a"], pl.MATS["s"], "x", o, "nowhere", self.coh is None, self.coh,
                   None if self.coh else [1, 2], self.side, save=False)


class Rcwa(Sys):
    def __init__(self, prof, shape="disk", **kw):
        self.prof, self.shape, self.kw = prof, shape, kw

    def run(self, wl, f="state", **k):
        from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
        o = form(ropt(wavelength=np.array(wl), theta_in=0.3, phi_in=0.4, pol="u", **self.kw, **k), f)
        s = rcwa_structure(rl.layers([("s", 80.0, self.shape), ("b", 60.0, "-"), ("g", 50.0, "off")]), rl.LAT["rect"], o, pl.MATS["a"], pl.MATS["q"])
        return s.calculate_profile(o) if self.prof else s.calculate(o)


class RcwaLate(Rcwa):
    """the structure is set up with other wavelengths than those of the calculation"""

    def run(self, wl, f="state", **k):
        from rayflare.rigorous_coupled_wave_analysis import rcwa_structure
        o = form(ropt(wavelength=np.array(wl), theta_in=0.3, pol="p", **k), f)
        s = rcwa_structure(rl.layers([("s", 80.0, "disk"), ("b", 60.0, "-")]), rl.LAT["sq"], ropt(wavelength=WL[[1, 3, 0]]), pl.MATS["a"], pl.MATS["q"])
        return s.calculate(o)


class RcwaMat(Sys):
    def __init__(self, side):
        self.side = side

    def run(self, wl, f="state", **k):
        from rayflare.rigorous_coupled_wave_analysis import RCWA
        o = form(ropt(wavelength=np.array(wl), n_theta_bins=2, c_azimuth=1e-6, phi_symmetry=np.pi / 2, **k), f)
        return RCWA(rl.layers([("s", 80.0, "disk"), ("b", 50.0, "-")]), rl.LAT["sq"], 3, o, "nowhere", pl.MATS["a"], pl.MATS["q"],
                    prof_layers=[1], front_or_rear=self.side, save=False)


class Rt(Sys):
    consts = [0.02, 0.3, 0.62, 0.97]

    def __init__(self, tex, **kw):
        self.tex, self.kw = tex, kw

    def run(self, wl, f="state", **k):
        import rtlib
        from rayflare.ray_tracing import rt_structure
        o = form(rtopt(wavelength=np.array(wl), **{**self.kw, **k}), f)
        t = [rtlib.tex(x) for x in self.tex]
        s = rt_structure(t, [pl.MATS["s"], pl.MATS["b"]][:len(t) - 1], [3e-6, 2e-6][:len(t) - 1], pl.MATS["a"], pl.MATS["q"])
        r = s.calculate(o)
        r.pop("A_interfaces")
        return r


class RtTmm(Sys):
    consts = [0.02, 0.3, 0.62]

    def __init__(self, prof, clear=False):
        self.prof, self.clear = prof, clear

    def run(self, wl, f="state", **k):
        import rtlib
        from rayflare.ray_tracing import rt_structure
        from solcore.structure import Layer
        d = common.fresh_dir("w")
        try:
            o = form(rtopt(wavelength=np.array(wl), theta_in=0.2, **k), f)
            kw = dict(prof_layers=self.prof) if self.prof else {}
            a = rtlib.tex(["pyr", 52.0, True], interface_layers=pl.layers([("b", 60.0), ("s", 100.0)]), name="f", **kw)
            if self.clear:        # absorbs at some of the wavelengths only
                m = pl.Mat(lambda w: 2.0 + 0 * np.asarray(w), lambda w: np.where(np.asarray(w) < 7e-7, 0.4, 0.0), name="edge")
                a = rtlib.tex(["pyr", 52.0, True], interface_layers=[Layer(60e-9, m)], name="f", prof_layers=[1])
            b = rtlib.tex(["planar"], interface_layers=pl.layers([("s", 55.0)]), name="r")
            s = rt_structure([a, b], [pl.MATS["w"]], [3e-6], pl.MATS["a"], pl.MATS["q"], options=o, use_TMM=True, save_location=d)
            r = s.calculate(o)
            A = r.pop("A_interfaces")
            return r
        finally:
            common.rmdir(d)


class RtMat(Sys):
    consts = [0.3, 0.62]

    def __init__(self, side, tmm):
        self.side, self.tmm = side, tmm

    def run(self, wl, f="state", **k):
        import rtlib
        from rayflare.ray_tracing.rt import RT
        from rayflare.structure import RTgroup
        from rayflare.transfer_matrix_method import lookup_table as lt
        d = common.fresh_dir("w")
        try:
            o = form(rtopt(wavelength=np.array(wl), n_theta_bins=2, c_azimuth=1e-6, **k), f)
            g = RTgroup(textures=[rtlib.tex(["pyr", 52.0, True])])
            if not self.tmm:
                return RT(g, pl.MATS["a"], pl.MATS["s"], "x", o, d, 0, self.side, 0, None, save=False)
            L = pl.layers([("b", 60.0), ("s", 100.0)])
            lt.make_TMM_lookuptable(L, pl.MATS["a"], pl.MATS["s"], "x", o, d, prof_layers=[1, 2])
            return RT(g, pl.MATS["a"], pl.MATS["s"], "x", o, d, 1, self.side, 2, [1, 2], widths=[60.0, 100.0], save=False)
        finally:
            common.rmdir(d)


class Table(Sys):
    par = False

    def run(self, wl, f="state", **k):
        from rayflare.transfer_matrix_method import lookup_table as lt
        d = common.fresh_dir("w")
        try:
            o = form(rtopt(wavelength=np.array(wl), **k), f)
            r = lt.make_TMM_lookuptable(pl.layers([("b", 60.0), ("s", 100.0)]), pl.MATS["a"], pl.MATS["q"], "x", o, d, prof_layers=[1])
            out = r.load().copy(deep=True)
            r.close()
            return out
        finally:
            common.rmdir(d)


class Mf(Sys):
    consts = [0.3]
    tol = 1e-6

    def __init__(self, a, b, bulk=True):
        self.a, self.b, self.bulk = a, b, bulk

    def run(self, wl, f="state", **k):
        from c19_generation import interface
        from rayflare.structure import BulkLayer, Structure
        from rayflare.matrix_formalism import process_structure, calculate_RAT
        d = common.fresh_dir("w")
        try:
            a, b = interface(self.a, "f")[0], interface(self.b, "r")[0]
            SC = Structure([a, BulkLayer(2e-6, pl.MATS["s"], name="bulk"), b], incidence=pl.MATS["a"], transmission=pl.MATS["a"])
            o = form(rtopt(wavelength=np.array(wl), n_theta_bins=3, c_azimuth=1e-6, n_rays=40, theta_in=0.3, phi_in=0.2, RCWA_method="inkstone",
                           orders=3, depth_spacing=20e-9, depth_spacing_bulk=1e-6, bulk_profile=self.bulk, I_thresh=1e-11, **k), f)
            process_structure(SC, o, save_location=d)
            r = calculate_RAT(SC, o, save_location=d)
            return [r[0]] + list(r[2:])
        finally:
            common.rmdir(d)


SYS = {
    "tmm": Tmm(False, None), "tmm profile": Tmm(True, None), "tmm layers": Tmm("part", None), "tmm incoherent": Tmm(False, ["i", "c", "c"]),
    "tmm total reflection": Tmm(True, None, "sq"),
    "TMM front": TmmMat("front", None), "TMM rear": TmmMat("rear", None), "TMM incoherent": TmmMat("front", ["i", "c"]),
    "rcwa": Rcwa(False), "rcwa profile": Rcwa(True), "rcwa polygon": Rcwa(False, "polyc"), "rcwa per order": Rcwa(False, A_per_order=False), "rcwa set up before": RcwaLate(False),
    "RCWA front": RcwaMat("front"), "RCWA rear": RcwaMat("rear"),
    "rt": Rt([["pyr", 52.0, True], ["xyz", "flat115"]]), "rt random": Rt([["pyrh", 52.0, True, 0.7], ["planar"]], random_ray_position=True, theta_in=0.4),
    "rt shifted": Rt([["planar"], ["xyz", "two"], ["pyr", 40.0, False]], randomize_surface=True, theta_in=0.6, phi_in=0.4, pol="s"),
    "rt interface layers": RtTmm(None), "rt interface profiles": RtTmm([1, 2]),
    "rt transparent layers": RtTmm([1], True),
    "RT front": RtMat("front", False), "RT rear": RtMat("rear", False), "RT layers front": RtMat("front", True), "RT layers rear": RtMat("rear", True),
    "table": Table(),
    "mf tmm/rt": Mf("tmm12", "fresnel"), "mf rt layers/lambertian": Mf("rttmm12", "lambertian"), "mf rcwa/mirror": Mf("rcwa1", "mirror"),
    "mf tmm/tmm": Mf("tmm1", "tmm", False), "mf without profiles": Mf("tmm", "fresnel", False),
}


def selections(n, kmax):
    return [s for k in range(1, kmax + 1) for s in itertools.permutations(range(n), k)]


def cases(tier):
    cs = []
    for k, s in SYS.items():
        for c in s.consts if tier != "quick" else s.consts[:2]:
            n = 4 if tier != "quick" else s.n
            sel = selections(n, n)
            step = 16 if k.startswith("tmm") else 8 if tier == "quick" else 6
            for i in range(0, len(sel), step):
                cs.append(dict(kind="sel", sys=k, c=c, sel=sel[i:i + step], _w=len(sel[i])))
            cs.append(dict(kind="form", sys=k, c=c, _w=3))
            slow = not k.startswith("tmm")
            lens = (11,) if slow else range(5, 29)
            if tier != "quick":
                lens = (5, 8, 11, 17, 28) if slow else range(5, 29)
            if c == s.consts[0]:
                cs.append(dict(kind="sel", sys=k, c=c, sel=[list(range(4, 4 + n)) for n in lens], _w=12))
                near = selections(6, 2) + [(0, 1, 2, 3, 4, 5), (5, 3, 1, 0, 4, 2)]
                if tier == "quick" and slow:
                    near = [(0, 1), (1, 0), (2, 4), (3, 0), (1, 4, 2), (5, 3, 1, 0, 4, 2)]
                cs.append(dict(kind="near", sys=k, c=c, sel=[[NEAR + j for j in q] for q in near], _w=9))
                if "layers" in k or "interface" in k:                   # decisions depend on the response of the layers
                    for d in (0.07, 0.12, 0.17, 0.22, 0.27, 0.32, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9):
                        cs.append(dict(kind="near", sys=k, c=d, sel=[[NEAR + j for j in q] for q in ((0, 1, 4), (3, 0))], _w=4))
            if s.par:
                for m in (2, 3) if tier == "quick" else (2, 3, 4):
                    cs.append(dict(kind="order", sys=k, c=c, m=m, _w=2 * m))
    return cs


def alone(s, ex, i):
    key = (id(s), ex.c, i, id(pl.MATS["s"]))
    if key not in alone.memo:
        alone.memo[key] = call(s, ex, [i])
    return alone.memo[key]


alone.memo = {}


def call(s, ex, sel, f="state", **k):
    if ex.c is None:
        return s.run(WL[list(sel)], f, **k)
    with ex:
        return s.run(WL[list(sel)], f, **k)


def attempt(res, sig, fn):
    try:
        return fn()
    except Exception as e:
        import traceback
        t = traceback.extract_tb(e.__traceback__)[-1]
        res.check(False, "calculation fails: %s %s" % (type(e).__name__, str(e)[:200]), sig, at="%s:%s" % (t.filename, t.lineno))
        return None


def run_case(case):
    if case["kind"] != "near":
        return one_case(case)
    old = dict(pl.MATS)
    pl.MATS.update({k: m if k == "a" else WIG.setdefault(k, wiggly(m)) for k, m in old.items()})
    try:
        return one_case({**case, "kind": "sel"})
    finally:
        pl.MATS.update(old)


WIG = {}


def one_case(case):
    res = common.Result()
    import rayflare.ray_tracing, rayflare.matrix_formalism, rayflare.transfer_matrix_method, rayflare.rigorous_coupled_wave_analysis, rayflare.textures
    s = SYS[case["sys"]]
    ex = Const(case["c"])
    name = "%s c=%s" % (case["sys"], case["c"])
    one = {}
    for i in range(len(WL)):
        if case["kind"] == "order" and i >= case["m"] or case["kind"] == "form" and i > 2 or case["kind"] == "sel" and not any(i in q for q in case["sel"]):
            continue
        one[i] = attempt(res, name + " alone %d" % i, lambda: alone(s, ex, i))
        if one[i] is None:
            return res

    def judge(sig, sel, **k):
        r = attempt(res, sig, lambda: call(s, ex, sel, **k))
        res.execs += 1
        res.traces += 1
        res.seen(sig)
        if r is not None:
            compare(res, sig, r, [one[i] for i in sel], len(sel), s.tol)
    if case["kind"] == "sel":
        for q in case["sel"]:
            judge("%s wavelengths %s" % (name, q), list(q))
    elif case["kind"] == "form":
        for f in FORMS:
            judge("%s options %s" % (name, f), [2, 0], f=f)
        if s.par:
            for f in ("dict", "nojobs", "dictalias"):
                with mcjobs.schedule(None):
                    judge("%s options %s parallel" % (name, f), [2, 0], f=f, parallel=True)
    else:
        for p in mcjobs.orders(case["m"]):
            before = mcjobs.State.tasks
            with mcjobs.schedule(p):
                judge("%s completion order %s" % (name, p), list(range(case["m"])), parallel=True, n_jobs=2)
            res.notes["parallel tasks"] = res.notes.get("parallel tasks", 0) + mcjobs.State.tasks - before
    return res


if __name__ == "__main__":
    common.main(sys.modules[__name__])
