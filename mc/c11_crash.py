"""C11: interrupted calculations.  Every call that changes a file while results are stored (creation, write, rename, removal; at
the level of the C library) is a point of interruption: the process ends before it, or in the middle of it (torn write), the
call fails (disk full) or the user interrupts.  From every distinct folder content that can result, the calculation is run
again, in a new process and in the interrupted one, and the results and the store are compared with an uninterrupted run."""
import sys, os, itertools, pickle, random, signal, subprocess, tempfile, shutil, ctypes, select, time
import common
if __name__ == "__main__" and "RFMC_SHIM" not in os.environ:
    d = tempfile.mkdtemp(prefix="rfshim_")
    so = os.path.join(d, "shim.so")
    if subprocess.call(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(os.path.dirname(os.path.abspath(__file__)), "crashshim.c"), "-ldl"]):
        sys.exit("cannot build the fault injector")
    os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, dict(os.environ, RFMC_SHIM=so, LD_PRELOAD=so))
SHIM = None
if "RFMC_SHIM" in os.environ:
    SHIM = ctypes.CDLL(os.environ["RFMC_SHIM"])
    SHIM.crash_disarm.restype = ctypes.c_long
    os.environ.pop("LD_PRELOAD", None)
    shutil.rmtree(os.path.dirname(os.environ["RFMC_SHIM"]), ignore_errors=True)
import numpy as np
import planar as pl
import c10_store as st
from c10_store import snapshot, restore, same, KINDS
from rtlib import *

PROPERTY = "C11"
LEVEL = "fault_enumeration"
TECHNIQUE = ("exhaustive crash-point exploration of the real code: every file-changing library call of every storing operation is "
             "an interruption point (process end, torn write, disk full, user interrupt), every distinct resulting folder is "
             "recovered from and compared with an uninterrupted run")
RULE = "distinct (operation, stored state, folder content after the interruption, recovery) executed and compared with the uninterrupted run"
ASSUMPTIONS = ["completed file operations survive the interruption (end of the process, not loss of power)",
               "file changes go through the C library calls that are intercepted (checked: every operation has interruption points)"]
NAMES = {0: "ended before", 1: "ended in write (1 byte)", 2: "ended in write (half)", 3: "ended in write (all but 1 byte)", 4: "disk full once",
         5: "disk full", 6: "user interrupt"}


def cases(tier):
    cs = []
    for k in ("tmm", "rt", "mirror", "lambert", "rcwa", "table", "proc-tmm", "proc-rttmm", "rtstruct"):
        for init in (None, (1, False), (1, True)):
            if init and init[1] and k in ("rt", "mirror", "lambert"):
                continue
            for prof in (False, True):
                if prof and k in ("rt", "mirror", "lambert"):
                    continue
                for ow in (False, True):
                    if tier == "quick" and (init is None and ow or k.startswith("proc") and (init, prof) not in ((None, False), ((1, True), k == "proc-tmm"))):
                        continue
                    if init is not None and not ow and (not prof or init[1]):
                        continue                                  # nothing is stored
                    cs.append(dict(k=k, init=init, prof=prof, ow=ow, depth=2 if tier == "thorough" else 1, _limit=400 if tier == "quick" else 20000, _w=5 if k.startswith("proc") else 1))
    return cs


def operation(k):
    """-> op(root, v, prof, ow) returning a list of arrays"""
    if k in KINDS:
        K = KINDS[k]()

        def op(root, v, prof, ow):
            return K.norm(K.call(root, "a", "front", v, [1] if prof else None, ow, True))
        return op
    if k == "table":
        from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable

        def op(root, v, prof, ow):
            o = opts(wavelength=np.array([500e-9, 600e-9]), lookuptable_angles=3)
            x = make_TMM_lookuptable(pl.layers([("b", 20.0 + 15 * v), ("s", 30.0)]), pl.MATS["a"], pl.MATS["q"], "t", o, root,
                                     prof_layers=[1] if prof else None, overwrite=ow)
            if prof:
                x = x.sel(layer=[1])
            r = [np.real(np.asarray(x[q].transpose(*sorted(x[q].dims)).data)) for q in ("R", "T", "Alayer") + (("Aprof",) if prof else ())]
            x.close()
            return r
        return op
    if k == "rtstruct":
        from rayflare.ray_tracing.rt import rt_structure
        from solcore.structure import Layer

        def op(root, v, prof, ow):
            t = tex(["planar"], interface_layers=[Layer((10 + 10 * v) * 1e-9, Mat(3.0, 0.3)), Layer(5e-9, Mat(2.0, 0.1))], name="t",
                    **(dict(prof_layers=[1, 2]) if prof else {}))
            t2 = tex(["planar"], interface_layers=[Layer(10e-9, Mat(3.0, 0.3))], name="u")
            s = rt_structure([t, t2], [Mat(3.0, 0.1)], [3e-6], Mat(1.0), Mat(1.0), use_TMM=True, options=opts(lookuptable_angles=5),
                             save_location=root, overwrite=ow)
            random.seed(1)
            np.random.seed(1)
            r = s.calculate(opts(n_rays=6, nx=2, ny=2, lookuptable_angles=5))
            return [np.real(np.asarray(r[q])) for q in ("R", "T", "A_per_layer")] + [np.real(np.asarray(x)) for x in r["A_per_interface"]]
        return op
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.matrix_formalism import process_structure, calculate_RAT
    rt = k == "proc-rttmm"

    def op(root, v, prof, ow):
        random.seed(v)
        np.random.seed(v)
        L = pl.layers([("b", 20.0 + 15 * v), ("g", 30.0)])
        pr = [1, 2] if prof else None
        F = Interface("RT_TMM", layers=L, texture=tex(["pyr", 50, True]), name="f", coherent=True, prof_layers=pr) if rt else \
            Interface("TMM", layers=L, name="f", coherent=True, prof_layers=pr)
        B = Interface("TMM", layers=pl.layers([("b", 10.0 * v)]), name="r", coherent=True, prof_layers=[1] if prof else None)
        SC = Structure([F, BulkLayer(5e-6, pl.MATS["s"], name="bulk"), B], incidence=Mat(1.0), transmission=Mat(1.0))
        o = opts(project_name="p", n_theta_bins=2, c_azimuth=1e-6, nx=2, ny=1, n_rays=4, lookuptable_angles=4, depth_spacing=5e-9,
                 bulk_profile=bool(prof), wavelength=np.array([600e-9]))
        process_structure(SC, o, save_location=root, overwrite=ow)
        SHIM.crash_disarm()
        r = calculate_RAT(SC, o, save_location=root)
        out = [np.asarray(r[0][q].data) for q in ("R", "T", "A_bulk")]
        if prof:
            out += [np.asarray(p.data) for p in r[2]] + [np.asarray(r[3][0])]
        return out
    return op


class _Frozen:
    """zip members carry the time they were written: keep it fixed, so that equal contents are equal files"""
    def __init__(self, t):
        self.t = t

    def localtime(self, *a):
        return time.struct_time((2001, 1, 1, 0, 0, 0, 0, 1, 0))

    def __getattr__(self, n):
        return getattr(self.t, n)


def in_child(fn, timeout=60):
    """runs fn() in a forked process; -> (exit code, value or exception text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            sys.stderr = open(os.devnull, "w")
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            out = pickle.dumps(("ok", fn()))
        except BaseException as e:
            SHIM.crash_disarm()
            out = pickle.dumps(("exc", "%s: %s" % (type(e).__name__, str(e)[:200])))
        try:
            SHIM.crash_disarm()
            with os.fdopen(w, "wb") as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(status)
    return rc, (pickle.loads(data) if data else None)


def run_case(case):
    import zipfile
    zipfile.time = _Frozen(time)
    res = common.Result()
    k, init, prof, ow = case["k"], case["init"] and tuple(case["init"]), case["prof"], case["ow"]
    op = operation(k)
    proc = k.startswith("proc")
    multi = proc or k == "rtstruct"                               # several independently stored sets
    top = os.path.realpath(common.fresh_dir("crash"))
    root = os.path.join(top, "s")
    os.makedirs(root)
    fresh = {}
    import gc
    for p in ((False, True) if k not in ("rt", "mirror", "lambert") else (False,)):       # load everything that is loaded on first use
        d = common.fresh_dir("w")
        op(d, 2, p, True)
        op(d, 2, p, False)
        common.rmdir(d)
    gc.collect()
    gc.freeze()
    for v in (1, 2):
        for p in ((False, True) if (prof or (init and init[1]) or k not in ("rt", "mirror", "lambert")) else (False,)):
            d = common.fresh_dir("f")
            rc, val = in_child(lambda: op(d, v, p, True))
            if val is None or val[0] != "ok":
                res.bad("uninterrupted calculation fails: %s" % (val,), "fresh %s" % k)
                return res
            fresh[v, p] = val[1]
            common.rmdir(d)
    if init:
        rc, val = in_child(lambda: op(root, init[0], init[1], False))
    start = snapshot(root)
    eq = lambda a, b: len(a) == len(b) and all(same(x, y, 1e-12) for x, y in zip(a, b))

    def allowed(p, o):
        """results a calculation of variant 2 may give after the interruption"""
        out = [fresh[2, p]]
        if not o and init and (not p or init[1]):
            out.append(fresh[1, p])
        return out
    recov = [(prof, ow)]
    for r in itertools.product((prof,) if multi and common.TIER == "quick" else (False, True), (False, True)):
        if r in recov or (r[0] and k in ("rt", "mirror", "lambert")):
            continue
        if multi and init and not r[1]:
            continue          # without overwrite, each surface is looked up on its own: a mixture is what was asked for
        recov.append(r)

    def recover(snap, mode, label, inproc=None):
        todo = recov[:1] if inproc else recov

        def go():
            out = []
            for p, o in todo:
                try:
                    restore(root, snap)
                    a = op(root, 2, p, o)
                    out.append((a, op(root, 2, p, False)))
                except Exception as e:
                    out.append("%s: %s" % (type(e).__name__, str(e)[:200]))
            return out
        rc, vals = in_child(go)
        for j, (p, o) in enumerate(todo):
            sig = "%s init=%s prof=%s ow=%s %s -> rerun prof=%s ow=%s%s" % (k, init, prof, ow, label, p, o, " in the same process" if inproc else "")
            res.execs += 1
            res.traces += 1
            val = "ended with %s %s" % (rc, vals) if vals is None or vals[0] != "ok" else vals[1][j]
            if isinstance(val, str):
                res.bad("the calculation cannot be repeated after an interruption: %s" % val, sig)
                continue
            a, b = val
            res.check(any(eq(a, x) for x in allowed(p, o)), "results after an interruption are not those of an uninterrupted calculation", sig)
            res.check(eq(a, b), "the results stored after an interruption are not those returned", sig)
            res.seen(k, init, prof, ow, p, o, hash_of(snap), bool(inproc))

    def hash_of(snap):
        import hashlib
        h = hashlib.md5()
        for f in sorted(snap):
            h.update(f.encode() + b"\0" + snap[f] + b"\1")
        return h.hexdigest()
    done = set()
    frontier = [(start, "")]
    for depth in range(case["depth"]):
        nxt = []
        for snap, lab in frontier:
            o2 = ow
            for mode in (0, 1, 2, 3, 4, 5, 6) if common.TIER != "quick" else (0, 2) if proc else (0, 5) if multi else (0, 2, 5, 6):
                n = 0
                while True:
                    restore(root, snap)

                    def go():
                        SHIM.crash_arm(root.encode(), n, mode)
                        try:
                            op(root, 2, prof, o2)
                            exc = None
                        except BaseException as e:
                            exc = "%s: %s" % (type(e).__name__, str(e)[:100])
                        cnt = SHIM.crash_disarm()
                        if SHIM.crash_fired() == 1 and mode >= 4 and depth == 0:
                            s = snapshot(root)
                            sub = common.Result()
                            nonlocal res
                            keep, res = res, sub
                            recover(s, mode, "%s call %d" % (NAMES[mode], n), inproc=True)
                            res = keep
                            return cnt, exc, s, sub
                        return cnt, exc, None, None
                    rc, val = in_child(go, 200)
                    if rc == 78:                                  # not a write: no torn variant
                        n += 1
                        continue
                    if rc == 77:
                        s = snapshot(root)
                    elif val and val[0] == "ok":
                        cnt, exc, s, sub = val[1]
                        if n >= cnt:                              # went through without reaching the point
                            if exc:
                                res.bad("the calculation fails: %s" % exc, "%s %s" % (k, lab))
                            break
                        if sub is not None:
                            for a in ("states", "transitions", "execs", "traces"):
                                setattr(res, a, getattr(res, a) + getattr(sub, a))
                            res.outcomes |= sub.outcomes
                            res.viol += sub.viol
                        if s is None:
                            s = snapshot(root)
                    else:
                        res.bad("interrupted calculation hangs or is killed (%s %s)" % (rc, val), "%s %s call %d" % (k, NAMES[mode], n))
                        break
                    res.states += 1
                    res.notes["interruption_points"] = res.notes.get("interruption_points", 0) + 1
                    h = hash_of(s)
                    if h not in done:
                        done.add(h)
                        label = lab + "%s call %d" % (NAMES[mode], n)
                        recover(s, mode, label)
                        nxt.append((s, label + ", "))
                    n += 1
                    if len(res.viol) > 15:
                        return res
        frontier = nxt
    if not res.notes.get("interruption_points"):
        res.notes["no_points"] = 1
    res.notes["distinct_folders"] = len(done)
    common.rmdir(top)
    return res


if __name__ == "__main__":
    common.main(sys.modules[__name__])
