"""C10: stored results.  For every routine that stores results, the reachable states of the store (two slots: two surface
names, two sides or two projects) are explored to a fixpoint: from every reachable state every operation is run on the real
code, and the returned values, the files and all the other stored results are compared with a model of the store."""
import sys, os, itertools, shutil, random
import numpy as np
import common
import planar as pl
from bins import SYM
from rtlib import *

PROPERTY = "C10"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the reachable states of the result store to a fixpoint, every transition executed on the "
             "real code and compared with a model")
RULE = "distinct (routine, slots, stored state, operation) executed and compared with the model of the store"
ASSUMPTIONS = ["random numbers are seeded per input variant, so that a fresh calculation is reproducible", "two slots and two input "
               "variants at a time"]


def cases(tier):
    cs = []
    for kind in ("tmm", "rt", "rttmm", "mirror", "lambert", "rcwa"):
        for pair in ("name", "side", "project"):
            if kind in ("rttmm", "rcwa") and tier == "quick" and pair == "side":
                continue
            cs.append(dict(k=kind, pair=pair, _w=5))
    cs.append(dict(k="table", pair="one", profs=[None, [1], [2], [1, 2]]))
    for pair in ("name", "project"):
        cs.append(dict(k="table", pair=pair, profs=[None, [1]] if tier == "quick" else [None, [1], [2], [1, 2]], _w=3))
    cs += [dict(k="proc", front="tmm"), dict(k="proc", front="rttmm"), dict(k="where"), dict(k="rtstruct")]
    return cs


class Kind:
    """one storing routine: call(slot dir, name, side, variant, prof, ow, save) -> (RT, A, prof or None)"""
    profs = (None,)
    saves = (True, False)
    fixed_side = None

    def __init__(self):
        from rayflare.angles import make_angle_vector
        self.mav = make_angle_vector

    def norm(self, r):
        out = []
        for x in r:
            if hasattr(x, "todense"):
                out.append(np.asarray(x.todense()))
            else:
                out.append({k: np.real(np.asarray(x[k].transpose(*sorted(x[k].dims)).data)) for k in ("profile", "intgr")})
        return out

    def load(self, d, name, side):
        """what is stored, by the documented file layout"""
        from sparse import load_npz
        import xarray as xr
        out = []
        for q in ("RT.npz", "A.npz"):
            p = os.path.join(d, name + side + q)
            out.append(np.asarray(load_npz(p).todense()) if os.path.isfile(p) else None)
        p = os.path.join(d, name + side + "profmat.nc")
        if os.path.isfile(p):
            with xr.open_dataset(p) as x:
                out.append({k: np.real(np.asarray(x[k].transpose(*sorted(x[k].dims)).data)) for k in ("profile", "intgr")})
        else:
            out.append(None)
        return out


class Tmm(Kind):
    profs = (None, [1])

    def call(self, d, name, side, v, prof, ow, save):
        from rayflare.transfer_matrix_method.tmm import TMM
        o = opts(wavelength=np.array([600e-9]), n_theta_bins=2, phi_symmetry=np.pi / 2, c_azimuth=1e-6, depth_spacing=5e-9)
        return TMM(pl.layers([("b", 20.0 + 15 * v), ("g", 30.0)]), pl.MATS["a"], pl.MATS["q"], name, o, d, prof_layers=prof,
                   front_or_rear=side, save=save, overwrite=ow)


class Rt(Kind):
    tmm = False

    def call(self, d, name, side, v, prof, ow, save):
        from rayflare.ray_tracing.rt import RT
        from rayflare.structure import RTgroup
        random.seed(v)
        np.random.seed(v)
        o = opts(n_theta_bins=2, phi_symmetry=np.pi / 2, c_azimuth=1e-6, nx=2, ny=1, n_rays=8, depth_spacing=1e-8, lookuptable_angles=5)
        t = tex(["pyr", 40 + 10 * v, True])
        if self.tmm:
            from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
            L = pl.layers([("s", 30.0), ("b", 20.0)])
            make_TMM_lookuptable(L, Mat(1.0), Mat(1.0 + v), name, o, d, prof_layers=[1], overwrite=True)
            return RT(RTgroup(textures=[t]), Mat(1.0), Mat(1.0 + v), name, o, d, 1, side, 2, prof, False, [30.0, 20.0], save=save, overwrite=ow)
        return RT(RTgroup(textures=[t]), Mat(1.0), Mat(1.0 + v), name, o, d, 0, side, 0, None, save=save, overwrite=ow)


class RtTmm(Rt):
    profs = (None, [1])
    saves = (True,)
    tmm = True


class Mirror(Kind):
    def call(self, d, name, side, v, prof, ow, save):
        from rayflare.matrix_formalism.ideal_cases import mirror_matrix
        th, ph, av = self.mav(1 + v, np.pi / 2, 1.0)
        return mirror_matrix(av, th, ph, name, dict(phi_symmetry=np.pi / 2), d, side, save=save, overwrite=ow)


class Lambert(Kind):
    def call(self, d, name, side, v, prof, ow, save):
        from rayflare.matrix_formalism.ideal_cases import lambertian_matrix
        th, ph, av = self.mav(1 + v, np.pi / 2, 1.0)
        return lambertian_matrix(av, th, name, d, side, save=save, overwrite=ow)


class Rcwa(Kind):
    profs = (None, [1])
    saves = (True, False)

    def call(self, d, name, side, v, prof, ow, save):
        from rayflare.rigorous_coupled_wave_analysis.rcwa import RCWA
        o = opts(wavelength=np.array([600e-9]), n_theta_bins=1, phi_symmetry=np.pi / 2, c_azimuth=1e-6, depth_spacing=1e-8,
                 RCWA_method="inkstone", S4_options={}, A_per_order=False, pol="s")
        return RCWA(pl.layers([("b", 20.0 + 15 * v)]), ((400, 0), (0, 400)), 1, o, d, Mat(1.0), Mat(1.5), False, prof, side, name, save=save, overwrite=ow)


KINDS = dict(tmm=Tmm, rt=Rt, rttmm=RtTmm, mirror=Mirror, lambert=Lambert, rcwa=Rcwa)


def same(x, y, tol=0.0):
    if x is None or y is None:
        return x is y
    if isinstance(x, dict):
        return x.keys() == y.keys() and all(same(x[k], y[k], tol) for k in x)
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and (np.array_equal(x, y) if tol == 0 else np.allclose(x, y, rtol=tol, atol=tol))


def snapshot(root):
    out = {}
    for p, _, fs in os.walk(root):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, "rb") as h:
                out[os.path.relpath(q, root)] = h.read()
    return out


def restore(root, snap):
    shutil.rmtree(root)
    os.makedirs(root)
    for f, c in snap.items():
        q = os.path.join(root, f)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as h:
            h.write(c)


SLOTS = {"name": [("p1", "a", "front"), ("p1", "ab", "front")], "side": [("p1", "a", "front"), ("p1", "a", "rear")],
         "project": [("p1", "a", "front"), ("p2", "a", "front")]}


def store(res, case):
    K = KINDS[case["k"]]()
    slots = SLOTS[case["pair"]]
    top = common.fresh_dir("store")
    root, ref = os.path.join(top, "s"), os.path.join(top, "ref")
    os.makedirs(root)
    os.makedirs(ref)
    for p, _, _ in slots:
        os.makedirs(os.path.join(root, p), exist_ok=True)
    fresh = {}
    for i, (p, nm, side) in enumerate(slots):
        for v in (1, 2):
            for prof in K.profs:
                r = K.norm(K.call(ref, nm, side, v, prof, True, False))
                fresh[i, v, prof is not None] = r + [None] * (3 - len(r))
    # results of a calculation do not depend on whether profiles are asked for
    start = (None,) * len(slots)
    snaps = {start: snapshot(root)}
    todo, seen = [start], {start}
    while todo:
        st = todo.pop(0)
        for i, v, prof, ow, save in itertools.product(range(len(slots)), (1, 2), K.profs, (False, True), K.saves):
            restore(root, snaps[st])
            for p, _, _ in slots:
                os.makedirs(os.path.join(root, p), exist_ok=True)
            p, nm, side = slots[i]
            sig = "%s/%s state=%s op=%s" % (case["k"], case["pair"], st, (i, v, prof, ow, save))
            d = os.path.join(root, p)
            have = st[i]
            reuse = have is not None and not ow and (prof is None or have[1])
            before = snapshot(root)
            mt = {f: os.stat(os.path.join(root, f)).st_mtime_ns for f in before}
            try:
                r = K.norm(K.call(d, nm, side, v, prof, ow, save))
            except Exception as e:
                res.bad("operation fails: %s %s" % (type(e).__name__, str(e)[:200]), sig)
                continue
            res.execs += 1
            res.traces += 1
            res.states += 1
            res.seen(sig)
            after = snapshot(root)
            src = (have[0], have[1]) if reuse else (v, prof is not None)
            e = fresh[i, src[0], src[1]][:3 if prof is not None else 2]
            if not src[1] or prof is None:
                e = fresh[i, src[0], src[1]][:2]
            res.check(len(r) == len(e) and all(same(x, y) for x, y in zip(r, e)),
                      "stored result not returned as stored" if reuse else "result is not that of the current inputs", sig)
            mine = lambda f: f.startswith(os.path.join(p, nm + side)) or (case["k"] == "rttmm" and f.startswith(os.path.join(p, nm + ".nc")))
            oth = {f: c for f, c in before.items() if not mine(f)}
            res.check({f: c for f, c in after.items() if not mine(f)} == oth, "an operation on one surface changes files of another", sig)
            if reuse or not save:
                tab = lambda s: {f: c for f, c in s.items() if not (case["k"] == "rttmm" and f == os.path.join(p, nm + ".nc"))}
                res.check(tab(after) == tab(before) and all(os.stat(os.path.join(root, f)).st_mtime_ns == m for f, m in mt.items() if f in tab(before)),
                          "files written although the stored result is used" if reuse else "files written although saving is off", sig,
                          before=sorted(before), after=sorted(after))
                new = st
            else:
                new = tuple((v, prof is not None) if j == i else q for j, q in enumerate(st))
                ld = K.load(d, nm, side)
                x = fresh[i, v, prof is not None]
                ok = res.check(same(ld[0], x[0]) and same(ld[1], x[1]), "stored matrices are not those of the current inputs", sig)
                if prof is not None:
                    ok &= res.check(same(ld[2], x[2], 1e-12), "stored profile is not that of the current inputs", sig)
                if not ok:
                    continue
            if new not in seen:
                seen.add(new)
                snaps[new] = after
                todo.append(new)
    res.notes["reachable_store_states"] = len(seen)
    common.rmdir(top)


def table(res, case):
    from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
    slots = {"name": [("p1", "a"), ("p1", "ab")], "project": [("p1", "a"), ("p2", "a")], "one": [("p1", "a")]}[case["pair"]]
    top = common.fresh_dir("tab")
    root, ref = os.path.join(top, "s"), os.path.join(top, "ref")
    os.makedirs(root)
    os.makedirs(ref)

    def call(d, nm, v, prof, ow):
        o = opts(wavelength=np.array([500e-9, 600e-9]), lookuptable_angles=3)
        x = make_TMM_lookuptable(pl.layers([("b", 20.0 + 15 * v), ("s", 30.0)]), pl.MATS["a"], pl.MATS["q"], nm, o, d, prof_layers=prof, overwrite=ow)
        out = {k: np.real(np.asarray(x[k].transpose(*sorted(x[k].dims)).data)) for k in ("R", "T", "Alayer")}
        if prof is not None:
            out["Aprof"] = np.real(np.asarray(x["Aprof"].sel(layer=prof).transpose(*sorted(x["Aprof"].dims)).data))
        x.close()
        return out
    profs = [p and tuple(p) for p in case["profs"]]
    L = lambda p: None if p is None else list(p)
    fresh = {}
    for v in (1, 2):
        for p in profs:
            fresh[v, p] = call(common.fresh_dir("f"), "x", v, L(p), True)
    start = (None,) * len(slots)
    snaps, todo, seen = {start: {}}, [start], {start}
    while todo:
        st = todo.pop(0)
        for i, v, prof, ow in itertools.product(range(len(slots)), (1, 2), profs, (False, True)):
            restore(root, snaps[st])
            for p, _ in slots:
                os.makedirs(os.path.join(root, p), exist_ok=True)
            p, nm = slots[i]
            sig = "table/%s state=%s op=%s" % (case["pair"], st, (i, v, prof, ow))
            have = st[i]
            reuse = have is not None and not ow and (prof is None or (have[1] is not None and set(prof) <= set(have[1])))
            before = snapshot(root)
            try:
                r = call(os.path.join(root, p), nm, v, L(prof), ow)
            except Exception as e:
                res.bad("operation fails: %s %s" % (type(e).__name__, str(e)[:200]), sig)
                continue
            res.execs += 1
            res.traces += 1
            res.states += 1
            res.seen(sig)
            after = snapshot(root)
            sv = have[0] if reuse else v
            res.check(same(r, fresh[sv, prof], 1e-14), "stored table not returned as stored" if reuse else "table is not that of the current inputs", sig)
            mine = os.path.join(p, nm + ".nc")
            res.check({f: c for f, c in after.items() if f != mine} == {f: c for f, c in before.items() if f != mine},
                      "an operation on one table changes other files", sig, files=sorted(after))
            if reuse:
                res.check(before == after, "files written although the stored table is used", sig)
                new = st
            else:
                new = tuple((v, prof) if j == i else q for j, q in enumerate(st))
                again = call(os.path.join(root, p), nm, 3 - v, L(prof), False)
                res.check(same(again, fresh[v, prof], 1e-14), "the stored table is not the one that was calculated", sig)
            if new not in seen:
                seen.add(new)
                snaps[new] = after
                todo.append(new)
    res.notes["reachable_store_states"] = len(seen)
    common.rmdir(top)


def proc(res, case):
    """process_structure + calculate_RAT: all sequences of (variant, profiles, overwrite, project) up to length 3"""
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.matrix_formalism import process_structure, calculate_RAT
    rt = case["front"] == "rttmm"

    def run(d, project, v, prof, ow):
        random.seed(v)
        np.random.seed(v)
        L = pl.layers([("b", 20.0 + 15 * v), ("g", 30.0)])
        pr = [1, 2] if prof else None
        F = Interface("RT_TMM", layers=L, texture=tex(["pyr", 50, True]), name="f", coherent=True, prof_layers=pr) if rt else \
            Interface("TMM", layers=L, name="f", coherent=True, prof_layers=pr)
        B = Interface("TMM", layers=pl.layers([("b", 10.0 * v)]), name="r", coherent=True, prof_layers=[1] if prof else None)
        SC = Structure([F, BulkLayer(5e-6, pl.MATS["s"], name="bulk"), B], incidence=Mat(1.0), transmission=Mat(1.0))
        o = opts(project_name=project, n_theta_bins=2, c_azimuth=1e-6, nx=2, ny=1, n_rays=4, lookuptable_angles=4, depth_spacing=5e-9, bulk_profile=bool(prof),
                 wavelength=np.array([600e-9]))
        process_structure(SC, o, save_location=d, overwrite=ow)
        r = calculate_RAT(SC, o, save_location=d)
        out = [np.asarray(r[0][k].data) for k in ("R", "T", "A_bulk")]
        if prof:
            out += [np.asarray(p.data) for p in r[2]] + [np.asarray(r[3][0])]
        return out
    top = common.fresh_dir("proc")
    ref = {(v, p): run(common.fresh_dir("pf"), "x", v, p, True) for v in (1, 2) for p in (False, True)}
    root = os.path.join(top, "s")
    os.makedirs(root)
    start = (None, None)
    snaps, todo, seen = {start: {}}, [start], {start}
    while todo:
        st = todo.pop(0)
        for i, v, prof, ow in itertools.product((0, 1), (1, 2), (False, True), (False, True)):
            if i == 1 and st[0] is None:
                continue                                   # symmetric
            restore(root, snaps[st])
            have = st[i]
            reuse = have is not None and not ow and (not prof or have[1])
            sig = "process_structure %s state=%s op=%s" % (case["front"], st, ("p%d" % i, v, prof, ow))
            before = snapshot(root)
            try:
                r = run(root, "p%d" % i, v, prof, ow)
            except Exception as e:
                res.bad("operation fails: %s %s" % (type(e).__name__, str(e)[:200]), sig)
                continue
            res.execs += 1
            res.traces += 1
            res.states += 1
            res.seen(sig)
            after = snapshot(root)
            src = have if reuse else (v, prof)
            stale = not reuse and have is not None and not ow          # profiles asked for later: table of the earlier inputs may be kept
            e = ref[src[0], prof] if (src[0], prof) in ref else None
            if reuse and prof and not src[1]:
                e = None
            if not (stale and rt):
                res.check(e is None or (len(r) == len(e) and all(same(x, y, 1e-9) for x, y in zip(r, e))),
                          "stored results not used as stored" if reuse else "result is not that of the current inputs", sig)
            res.check({f: c for f, c in after.items() if not f.startswith("p%d" % i)} == {f: c for f, c in before.items() if not f.startswith("p%d" % i)},
                      "another project is modified", sig)
            if reuse:
                res.check(before == after, "files modified although stored results are used", sig)
                new = st
            else:
                new = tuple((v, prof) if j == i else q for j, q in enumerate(st))
                if stale and rt:
                    continue
            if new not in seen:
                seen.add(new)
                snaps[new] = after
                todo.append(new)
    res.notes["reachable_store_states"] = len(seen)
    common.rmdir(top)


def where(res, case):
    """save_location: default, current and an explicit folder each write only there"""
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.matrix_formalism import process_structure, calculate_RAT
    top = common.fresh_dir("where")
    home, cwd, exp = (os.path.join(top, q) for q in ("home", "cwd", "exp"))
    for q in (home, cwd):
        os.makedirs(q)
    oh, oc = os.environ["HOME"], os.getcwd()
    try:
        os.environ["HOME"] = home
        os.chdir(cwd)
        vals = {}
        for n, (loc, tgt) in enumerate([("default", "home/RayFlare_results"), ("current", "cwd"), (exp, "exp"), ("default", "home/RayFlare_results")]):
            for proj in ("one", "two"):
                before = snapshot(top)
                v = {"home/RayFlare_results": 1, "cwd": 2, "exp": 3}[tgt] + (0.5 if proj == "two" else 0)
                L = pl.layers([("b", 10.0 * v)])
                SC = Structure([Interface("TMM", layers=L, name="f", coherent=True), BulkLayer(5e-6, pl.MATS["s"], name="b"),
                                Interface("Mirror", name="m")], incidence=Mat(1.0), transmission=Mat(1.0))
                o = opts(project_name=proj, n_theta_bins=2, c_azimuth=1e-6, bulk_profile=False)
                process_structure(SC, o, save_location=loc)
                r = np.asarray(calculate_RAT(SC, o, save_location=loc)[0]["R"].data)
                after = snapshot(top)
                sig = "save_location %s %s" % (tgt, proj)
                d = set(after) - set(before)
                res.execs += 1
                res.seen(sig, n)
                res.check(all(f.startswith(tgt + "/" + proj + "/") for f in d) and (d or n == 3) and all(after[f] == before[f] for f in before),
                          "results are not stored where asked for", sig, new=sorted(d))
                vals.setdefault((tgt, proj), r)
                res.check(np.array_equal(vals[tgt, proj], r), "results of another location are used", sig)
        x = [float(v[0, 0]) for v in vals.values()]
        res.check(len({round(q, 12) for q in x}) == len(x), "results of different locations are mixed up", "save_location", got=x)
    finally:
        os.environ["HOME"] = oh
        os.chdir(oc)
    common.rmdir(top)


def rtstruct(res, case):
    """rt_structure: all sequences of length <= 3 of construction with (variant, profile, overwrite); the tables in use are those
    the model of the store says"""
    from rayflare.ray_tracing.rt import rt_structure
    from solcore.structure import Layer

    def make(d, v, prof, ow):
        t = tex(["planar"], interface_layers=[Layer((10 + 10 * v) * 1e-9, Mat(3.0, 0.3)), Layer(5e-9, Mat(2.0, 0.1))], name="t",
                **(dict(prof_layers=[1, 2]) if prof else {}))
        o = opts(lookuptable_angles=5)
        s = rt_structure([t, tex(["planar"])], [Mat(3.0, 0.1)], [3e-6], Mat(1.0), Mat(1.0), use_TMM=True, options=o, save_location=d, overwrite=ow)
        random.seed(1)
        np.random.seed(1)
        o = opts(n_rays=6, nx=2, ny=2, lookuptable_angles=5)
        r = s.calculate(o)
        return [np.real(np.asarray(r[k])) for k in ("R", "T", "A_per_layer")] + [np.real(np.asarray(x)) for x in r["A_per_interface"]]
    ref = {(v, p): make(common.fresh_dir("rs"), v, p, True) for v in (1, 2) for p in (False, True)}
    ops = list(itertools.product((1, 2), (False, True), (False, True)))
    for n in (1, 2, 3):
        for seq in itertools.product(ops, repeat=n):
            if n == 3 and (seq[0][2] or seq[0][1]):
                continue
            d = common.fresh_dir("rq")
            st = None
            for k, (v, prof, ow) in enumerate(seq):
                reuse = st is not None and not ow and (not prof or st[1])
                sig = "rt_structure %s" % (seq[:k + 1],)
                try:
                    r = make(d, v, prof, ow)
                except Exception as e:
                    res.bad("operation fails: %s %s" % (type(e).__name__, str(e)[:200]), sig)
                    break
                res.execs += 1
                if not reuse:
                    st = (v, prof)
                e = ref[st[0], prof]
                res.seen(sig)
                res.traces += 1
                if not res.check(len(r) == len(e) and all(same(x, y, 1e-9) for x, y in zip(r, e)), "ray tracing does not use the lookup table it should", sig):
                    break
            common.rmdir(d)


def run_case(case):
    res = common.Result()
    dict(table=table, proc=proc, where=where, rtstruct=rtstruct).get(case["k"], store)(res, case)
    return res


if __name__ == "__main__":
    common.main(sys.modules[__name__])
