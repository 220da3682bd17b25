"""Independent angular bins: which bins (one, or the neighbours of an edge) contain a direction."""
import math
import numpy as np

SYM = {"2pi": 2 * np.pi, "pi": np.pi, "2pi/3": 2 * np.pi / 3, "pi/2": np.pi / 2, "pi/4": np.pi / 4}
TOL = 1e-7


class Bins:
    def __init__(self, n, sym, c, spacing="sin"):
        self.n, self.P, self.c = n, sym, c
        e = np.arcsin(np.linspace(0, 1, n + 1)) if spacing == "sin" else np.linspace(0, np.pi / 2, n + 1)
        self.te = np.concatenate([e, np.pi - e[:-1][::-1]])
        self.nb = [max(1, int(math.ceil(c * (i + 1 if i < n else 2 * n - i)))) for i in range(2 * n)]
        self.start = np.concatenate([[0], np.cumsum(self.nb)])
        self.na = int(self.start[n])
        self.th = np.concatenate([[(self.te[i] + self.te[i + 1]) / 2] * k for i, k in enumerate(self.nb)])
        self.ph = np.concatenate([(np.arange(k) + 0.5) * sym / k for k in self.nb])
        self.ti = np.concatenate([[i] * k for i, k in enumerate(self.nb)])

    def find(self, th, ph, tol=TOL):
        """set of bins that contain the direction (several only on edges)"""
        out = set()
        for i in range(2 * self.n):
            if self.te[i] - tol <= th <= self.te[i + 1] + tol:
                f = (ph % self.P) / self.P * self.nb[i]
                for q in (f - tol, f + tol):
                    out.add(int(self.start[i] + int(math.floor(q)) % self.nb[i]))
        return out


def find_dir(b, th, ph):
    """bins of a direction; a vertical direction has no azimuth"""
    if th < 1e-6 or th > np.pi - 1e-6:
        i = 0 if th < 1 else 2 * b.n - 1
        return set(range(int(b.start[i]), int(b.start[i + 1])))
    return b.find(th, ph)
