"""Schedules of joblib.Parallel: a backend that runs the submitted tasks in a chosen order, each on its own unpickled copy of its
inputs (as in worker processes), so that every completion order can be enumerated."""
import itertools
from joblib._parallel_backends import ParallelBackendBase
from joblib import register_parallel_backend, parallel_config
import pickle
from joblib.externals.loky.backend.reduction import dumps as _dumps


def dumps(x):
    return bytes(_dumps(x))


loads = pickle.loads


class State:
    order = None       # permutation (applied to as many tasks as there are); None: in the order of submission
    width = 8          # workers: tasks which may be outstanding together
    calls = 0          # Parallel(...) calls that used the backend
    tasks = 0


class Task:
    def __init__(self, be, func, callback):
        self.be, self.blob, self.cb, self.done = be, dumps(func), callback, False

    def run(self):
        self.done = True
        try:
            self.out = loads(dumps(loads(self.blob)()))
            self.err = None
        except Exception as e:
            self.err = e

    def get(self, timeout=None):
        if not self.done:
            todo = [t for t in self.be.tasks if not t.done]
            p = State.order
            idx = list(range(len(todo))) if p is None else sorted(range(len(todo)), key=lambda i: (p[i % len(p)], i))
            for i in idx:
                todo[i].run()
        if self.err is not None:
            raise self.err
        return self.out


class Backend(ParallelBackendBase):
    supports_retrieve_callback = False
    supports_timeout = False

    def __init__(self, **k):
        super().__init__(**k)
        self.tasks = []

    def effective_n_jobs(self, n_jobs):
        return 1 if n_jobs == 1 else State.width

    def start_call(self):
        State.calls += 1
        self.tasks = []

    def apply_async(self, func, callback=None):
        t = Task(self, func, callback)
        State.tasks += 1
        self.tasks.append(t)
        if callback is not None and len(self.tasks) < 10 ** 6:
            callback(None)      # the next task is submitted
        return t

    submit = apply_async


register_parallel_backend("rfmc", Backend)


def schedule(order):
    State.order = order
    return parallel_config(backend="rfmc")


def orders(n):
    return list(itertools.permutations(range(n)))
