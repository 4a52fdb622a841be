"""Random observation histories together with a reference record of what must have been recorded."""
import numpy as np

from . import bo, gen
from .core import Skip
from bayes_optim.solution import Solution
from bayes_optim.utils.exception import FlatFitnessError


class SpyStub(gen.Stub):
    """surrogate that records what it is fitted to"""

    def __init__(self, spec):
        super().__init__(spec)
        self.log = []

    def fit(self, X, y):
        self.log.append(([list(r) for r in X.tolist()], np.array(y, dtype=float).ravel().copy()))
        return super().fit(X, y)


def rand_values(rng, k, f, pts):
    """objective values of the points in one of several value classes"""
    m = rng.randint(5)
    if m == 0:
        return [float(v) for v in rng.randn(k)]
    if m == 1:  # many ties
        return [float(v) for v in rng.randint(-2, 3, k)]
    if m == 2:
        return [float(v) for v in 1e6 + 1e3 * rng.randn(k)]
    if m == 3:
        return [int(v) for v in rng.randint(-50, 50, k)]
    return [f(p) for p in pts]


def fail_some(rng, y, all_=False):
    y = list(y)
    for i in range(len(y)):
        if all_ or rng.rand() < 0.3:
            y[i] = [np.nan, np.inf, -np.inf, float("nan")][rng.randint(4)]
    return y


def y_form(rng, y):
    k = rng.randint(5)
    if k == 0:
        return list(y)
    if k == 1:
        return tuple(y)
    if k == 2:
        return np.array(y, dtype=float)
    if k == 3:
        return [np.float64(v) for v in y]
    return [float(v) for v in y]


def x_form(rng, spec, pts, form, allow_solution=True):
    """-> (name, object to tell)"""
    names = [v["name"] for v in spec]
    if form == "dict":
        k = rng.randint(3 if allow_solution else 2)
        if k < 2:
            out = []
            for p in pts:
                d = dict(zip(names, p))
                order = rng.permutation(len(names)) if k else range(len(names))
                out.append({names[i]: d[names[i]] for i in order})
            return ("dict", "dict-permuted")[k], out
        return "solution", Solution([list(p) for p in pts], var_name=names)
    k = rng.randint(4 if allow_solution else 3)
    if k == 0:
        return "list", [list(p) for p in pts]
    if k == 1:
        A = np.empty((len(pts), len(names)), dtype=object)
        for i, p in enumerate(pts):
            for j, v in enumerate(p):
                A[i, j] = v
        return "array", A
    if k == 2:  # NOTE: tuples as rows are not accepted, a tuple is a subset value
        return "list", [list(p) for p in pts]
    return "solution", Solution([list(p) for p in pts], var_name=names)
