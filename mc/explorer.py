"""Stateless exploration of the real code over all of its random decisions.

Every uniform draw becomes a Draw: an exact, lazily refined interval of [0,1).  Code that compares a Draw with a
threshold either gets the only possible answer or makes the explorer branch, each branch carrying the exact
conditional probability.  Depth-first replay enumerates every decision path of the closed program; the sum of
the path probabilities is 1 (checked).  Positions (np.random.rand/uniform/random...) are taken from finite
alphabets given by the driver or branch lazily as well; np.random.choice branches over all its outcomes.
"""
import sys, random as _random
import numpy as np

MINP = 1e-300


class Pruned(BaseException):
    """The current path is abandoned (its probability mass is reported)."""


class Divergence(RuntimeError):
    pass


class Draw:
    """Uniform value a + b*u with u in [lo, hi)."""
    __slots__ = ("ex", "cell", "a", "b")

    def __init__(self, ex, cell, a=0.0, b=1.0):
        self.ex, self.cell, self.a, self.b = ex, cell, a, b

    # -- comparisons -----------------------------------------------------------------
    def _below(self, x):
        """value < x  (ties have probability 0)."""
        if isinstance(x, Draw):
            x = float(x)
        if isinstance(x, complex) or np.iscomplexobj(x):
            x = complex(x).real
        x = float(x)
        if x != x:
            return None
        if self.b == 0:
            return self.a < x
        t = (x - self.a) / self.b
        r = self.ex._refine(self.cell, t)
        return r if self.b > 0 else not r

    def __lt__(self, x):
        if isinstance(x, np.ndarray) and x.ndim:
            return np.array([self < v for v in x.ravel()]).reshape(x.shape)
        return bool(self._below(x))
    __le__ = __lt__

    def __gt__(self, x):
        if isinstance(x, np.ndarray) and x.ndim:
            return np.array([self > v for v in x.ravel()]).reshape(x.shape)
        r = self._below(x)
        return False if r is None else not r
    __ge__ = __gt__

    def __eq__(self, x):
        return self is x

    def __ne__(self, x):
        return self is not x
    __hash__ = object.__hash__

    # -- affine arithmetic stays exact; everything else concretises --------------------
    def __add__(self, x):
        if isinstance(x, np.ndarray) and x.ndim:
            return float(self) + x
        if isinstance(x, Draw) or isinstance(x, complex):
            return float(self) + (float(x) if isinstance(x, Draw) else x)
        return Draw(self.ex, self.cell, self.a + float(x), self.b)
    __radd__ = __add__

    def __neg__(self):
        return Draw(self.ex, self.cell, -self.a, -self.b)

    def __sub__(self, x):
        if isinstance(x, (Draw, complex)) or (isinstance(x, np.ndarray) and x.ndim):
            return float(self) - (float(x) if isinstance(x, Draw) else x)
        return Draw(self.ex, self.cell, self.a - float(x), self.b)

    def __rsub__(self, x):
        return (-self) + x

    def __mul__(self, x):
        if isinstance(x, (Draw, complex)) or (isinstance(x, np.ndarray) and x.ndim):
            return float(self) * (float(x) if isinstance(x, Draw) else x)
        return Draw(self.ex, self.cell, self.a * float(x), self.b * float(x))
    __rmul__ = __mul__

    def __truediv__(self, x):
        if isinstance(x, (Draw, complex)) or (isinstance(x, np.ndarray) and x.ndim):
            return float(self) / (float(x) if isinstance(x, Draw) else x)
        return Draw(self.ex, self.cell, self.a / float(x), self.b / float(x))

    def __float__(self):
        return self.a + self.b * self.ex._concrete(self.cell)

    def __array__(self, dtype=None, copy=None):
        return np.array(float(self), dtype=dtype or float)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == "__call__" and len(inputs) == 2:
            a, b = inputs
            sw = not isinstance(a, Draw)
            d, o = (b, a) if sw else (a, b)
            if not isinstance(o, Draw):
                o = o.item() if isinstance(o, (np.generic,)) or (isinstance(o, np.ndarray) and o.ndim == 0) else o
                n = ufunc.__name__
                if n in ("less", "less_equal"):
                    return d > o if sw else d < o
                if n in ("greater", "greater_equal"):
                    return d < o if sw else d > o
                if n == "add":
                    return d + o
                if n == "subtract":
                    return o - d if sw else d - o
                if n == "multiply":
                    return d * o
        inputs = [float(x) if isinstance(x, Draw) else x for x in inputs]
        return getattr(ufunc, method)(*inputs, **kw)


class _Cell:
    __slots__ = ("lo", "hi", "values", "value")

    def __init__(self, values=None):
        self.lo, self.hi, self.values, self.value = 0.0, 1.0, values, None


class Explorer:
    """explore(fn) calls fn() once per decision path.  `positions`: finite alphabet (list of floats in (0,1)) for
    draws made through numpy (ray positions); python's random.random() draws are exact lazily refined intervals."""

    def __init__(self, eps=0.0, max_draws=400, positions=None, strata=8, lazy_np=False, max_paths=200000, word=None):
        self.eps, self.max_draws, self.positions, self.strata = eps, max_draws, positions, strata
        self.lazy_np, self.max_paths = lazy_np, max_paths
        self.inexact = 0
        self.word = word          # periodic schedule: the i-th decision is word[i mod len] (0: the most probable); one path only

    # -- choice points -------------------------------------------------------------------
    def _choose(self, probs):
        """Pick a branch; probs are the exact conditional probabilities."""
        i = self.pos
        self.pos += 1
        live = [j for j, p in enumerate(probs) if p > MINP]
        if i < len(self.prefix):
            c, n = self.prefix[i]
            if n != len(live):
                raise Divergence("replayed prefix diverged: %d alternatives, had %d" % (len(live), n))
        else:
            # most probable branch first, so that pruned mass is small early on
            # (a periodic schedule does not take branches which are not larger than the resolution of random numbers)
            c = 0 if self.word is None else min(self.word[i % len(self.word)], sum(probs[j] > 1e-9 for j in live) - 1)
        self.trail.append((c, len(live)))
        j = sorted(live, key=lambda q: -probs[q])[c]
        self.p *= probs[j]
        self.nbranch += 1
        if self.p < self.eps:
            raise Pruned()
        return j

    def _tick(self):
        self.ndraws += 1
        if self.ndraws > self.max_draws:
            raise Pruned()

    def _refine(self, cell, t):
        if cell.value is not None:
            return cell.value < t
        if t <= cell.lo:
            return False
        if t >= cell.hi:
            return True
        w = cell.hi - cell.lo
        j = self._choose([(t - cell.lo) / w, (cell.hi - t) / w])
        if j == 0:
            cell.hi = t
            self.log.append(1)
            return True
        cell.lo = t
        self.log.append(0)
        return False

    def _concrete(self, cell):
        if cell.value is None:
            if cell.values is not None:
                j = self._choose([1.0 / len(cell.values)] * len(cell.values)) if len(cell.values) > 1 else 0
                cell.value = cell.values[j]
            else:
                n = self.strata
                self.inexact += 1
                j = self._choose([1.0 / n] * n)
                cell.value = cell.lo + (cell.hi - cell.lo) * (j + 0.5) / n
        return cell.value

    def uniform01(self):
        self._tick()
        return Draw(self, _Cell())

    def np_uniform(self, shape=None):
        def one():
            self._tick()
            if self.positions is None:
                c = _Cell()
                return Draw(self, c) if (self.lazy_np and shape is None) else self._concrete(c)
            return self._concrete(_Cell(list(self.positions)))
        if shape is None:
            return one()
        n = int(np.prod(shape))
        return np.array([float(one()) for _ in range(n)]).reshape(shape)

    def np_choice(self, a, size=None, replace=True, p=None):
        self._tick()
        vals = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        pr = np.ones(len(vals)) / len(vals) if p is None else np.asarray(p, float)
        if abs(pr.sum() - 1) > 1e-6 or (pr < 0).any() or len(pr) != len(vals):
            raise ValueError("probabilities do not sum to 1")
        if size is None:
            j = self._choose(list(pr)) if len(pr) > 1 else 0
            return vals[j]
        return np.array([vals[self._choose(list(pr))] for _ in range(int(np.prod(size)))]).reshape(size)

    # -- driving ---------------------------------------------------------------------------
    def explore(self, fn):
        """Yields (probability, decisions, value) for each complete path. After exhaustion: self.mass (sum of
        complete paths), self.pruned (mass abandoned), self.paths."""
        self.paths, self.mass, self.pruned, self.npruned, self.branches = 0, 0.0, 0.0, 0, 0
        stack = [[]]
        while stack:
            self.prefix = stack.pop()
            self.pos, self.trail, self.p, self.nbranch, self.ndraws, self.log = 0, [], 1.0, 0, 0, []
            ok = True
            with self:
                try:
                    val = fn()
                except Pruned:
                    ok = False
            if self.pos < len(self.prefix):
                raise Divergence("path ended before its replayed prefix")
            self.branches += self.nbranch
            for i in range(len(self.prefix), len(self.trail) if self.word is None else 0):
                c, n = self.trail[i]
                for alt in range(c + 1, n):
                    stack.append(self.trail[:i] + [(alt, n)])
            if ok:
                self.paths += 1
                self.mass += self.p
                yield self.p, tuple(self.log), val
            else:
                self.npruned += 1
                self.pruned += self.p
            if self.paths + self.npruned >= self.max_paths:
                # the probability of what is left on the stack is 1 - mass - pruned
                self.capped = True
                self.pruned += max(0.0, 1.0 - self.mass - self.pruned)
                return
        self.capped = False

    # -- patching -------------------------------------------------------------------------
    _plan = None

    def __enter__(self):
        if self._plan is not None:
            for obj, name, old, new in self._plan:
                setattr(obj, name, new)
            return self
        ex = self
        plan = []

        def put(obj, name, val):
            plan.append((obj, name, getattr(obj, name), val))
            setattr(obj, name, val)
        orig = _random.random
        rep = lambda: ex.uniform01()
        uni = lambda lo=0.0, hi=1.0: lo + (hi - lo) * ex.uniform01()
        npmap = {}

        def npdef(name, f):
            o = getattr(np.random, name)
            npmap[id(o)] = (o, f)
            put(np.random, name, f)
        sh = lambda s: None if s is None else (tuple(np.atleast_1d(s)))
        npdef("rand", lambda *s: ex.np_uniform(s if s else None))
        for nm in ("random", "random_sample", "ranf", "sample"):
            npdef(nm, lambda size=None: ex.np_uniform(sh(size)))
        npdef("uniform", lambda low=0.0, high=1.0, size=None: low + (high - low) * ex.np_uniform(sh(size)))
        npdef("choice", lambda a, size=None, replace=True, p=None: ex.np_choice(a, size, replace, p))
        npdef("default_rng", lambda *a, **k: _Gen(ex))
        old_uniform, old_choice, old_choices = _random.uniform, _random.choice, _random.choices
        put(_random, "random", rep)
        put(_random, "uniform", uni)
        put(_random, "choice", lambda seq: seq[int(ex.np_choice(len(seq)))])
        put(_random, "choices", lambda pop, weights=None, k=1, **kw: [
            pop[int(ex.np_choice(len(pop), p=None if weights is None else np.array(weights) / np.sum(weights)))]
            for _ in range(k)])
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("rayflare"):
                for k, v in list(vars(m).items()):
                    if v is orig:
                        put(m, k, rep)
                    elif v is old_uniform:
                        put(m, k, uni)
                    elif id(v) in npmap and npmap[id(v)][0] is v:
                        put(m, k, npmap[id(v)][1])
                    elif isinstance(v, np.random.Generator):
                        put(m, k, _Gen(ex))
        self._plan = plan
        return self

    def __exit__(self, *a):
        for obj, name, old, new in reversed(self._plan):
            setattr(obj, name, old)
        return False


class _Gen:
    """Stand-in for numpy Generators."""

    def __init__(self, ex):
        self.ex = ex

    def random(self, size=None, **k):
        return self.ex.uniform01() if size is None else self.ex.np_uniform(tuple(np.atleast_1d(size)))

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.ex.np_uniform(None if size is None else tuple(np.atleast_1d(size)))

    def choice(self, a, size=None, replace=True, p=None, **k):
        return self.ex.np_choice(a, size, replace, p)
