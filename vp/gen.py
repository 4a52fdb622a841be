"""Workload generators.  A search space is described by a *spec* (a list of plain dicts) that the oracles
read; the library objects are built from it through different public routes."""
import itertools
import math

import numpy as np

from bayes_optim.search_space import (
    Bool, BoolSpace, Discrete, DiscreteSpace, Integer, IntegerSpace, Ordinal, OrdinalSpace, Real, RealSpace,
    SearchSpace, Subset, SubsetSpace,
)

# ------------------------------------------------------------------------------------------------
# specs
NAMES = ["a", "bb", "x1", "x10", "lr", "Kp", "n est", "zeta", "u_v", "q", "w0", "depth", "eta", "m", "k9"]
LEVELS = [
    ["A", "B", "C"], ["OK", "A", "B", "C", "D", "E", "F", "G"], ["relu", "tanh"], [10, 20, 30, 40],
    ["x", "yy", "zzz", "wwww"], [1, 2, 3], [0.5, 1.5, 2.5], [0, 1, 5],
]
ORD = [[0, 2, 4, 6, 8], [1, 2, 3], [-3, 0, 3, 9], ["low", "mid", "high"], [0.1, 0.2, 0.4]]


def rand_var(rng, t, name, rich=True):
    if t == "r":
        k = rng.randint(8)
        if k == 0:
            lo, hi = -5.0, 5.0
        elif k == 1:
            lo, hi = 0, 1
        elif k == 2:
            lo = float(rng.uniform(-1e3, 1e3))
            hi = lo + float(10 ** rng.uniform(-3, 3))
        elif k == 3:
            lo, hi = 1e-4, 1.0
        elif k == 4:
            lo, hi = 99.5, 101.25
        elif k == 5:
            lo, hi = -2.25, -1.125
        elif k == 6:
            lo, hi = float(-10 ** rng.uniform(-2, 3)), float(10 ** rng.uniform(-2, 3))
        else:
            lo, hi = 0.0, float(10 ** rng.uniform(0, 4))
        v = dict(t="r", name=name, lo=lo, hi=hi, prec=None, scale="linear")
        if rich:
            if rng.rand() < 0.35:
                p = int(rng.randint(0, 5))
                # the bounds have to be representable at that precision to be reachable
                if (hi - lo) * 10 ** p > 3:
                    v["prec"] = p
            if rng.rand() < 0.25:
                s = ["log", "log10", "bilog", "logit"][rng.randint(4)]
                if s in ("log", "log10") and lo <= 0:
                    v["lo"], v["hi"] = 1e-3, max(2.0, abs(hi))
                if s == "logit":
                    v["lo"], v["hi"] = (0.01, 0.97) if rng.rand() < 0.5 else (0.0005, 0.9998)
                v["scale"] = s
                if v["prec"] is not None and (v["hi"] - v["lo"]) * 10 ** v["prec"] <= 3:
                    v["prec"] = None
        return v
    if t == "i":
        k = rng.randint(5)
        lo, hi = [(0, 10), (1, 3), (-7, 4), (5, 15), (100, 1000)][k]
        v = dict(t="i", name=name, lo=lo, hi=hi, step=1)
        if rich and rng.rand() < 0.3:
            v["step"] = int([2, 3, 5][rng.randint(3)])
            if v["step"] > hi - lo:
                v["step"] = 2
        return v
    if t == "c":
        return dict(t="c", name=name, levels=list(LEVELS[rng.randint(len(LEVELS))]))
    if t == "o":
        return dict(t="o", name=name, levels=list(ORD[rng.randint(len(ORD))]))
    if t == "b":
        return dict(t="b", name=name, levels=[False, True])
    if t == "s":
        base = [["p", "q"], ["a", "b", "c"], [1, 2, 3]][rng.randint(3)]
        return dict(t="s", name=name, base=base, levels=subsets(base))
    raise ValueError(t)


def subsets(base):
    return list(itertools.chain.from_iterable(itertools.combinations(base, r) for r in range(1, len(base) + 1)))


def rand_spec(rng, types=None, dim=None, rich=True):
    """types: string of allowed type letters"""
    types = types or "ricob"
    dim = dim or int(rng.randint(1, 5))
    names = list(rng.choice(NAMES, dim, replace=False))
    return [rand_var(rng, types[rng.randint(len(types))], str(n), rich) for n in names]


def var_of(v):
    t = v["t"]
    if t == "r":
        return Real([v["lo"], v["hi"]], v["name"], precision=v.get("prec"), scale=v.get("scale", "linear"))
    if t == "i":
        return Integer([v["lo"], v["hi"]], v["name"], step=v.get("step", 1))
    if t == "c":
        return Discrete(v["levels"], v["name"])
    if t == "o":
        return Ordinal(v["levels"], v["name"])
    if t == "b":
        return Bool(v["name"])
    if t == "s":
        return Subset(v["base"], v["name"])
    raise ValueError


def space1_of(v):
    """one-variable space through the space classes"""
    t = v["t"]
    if t == "r":
        return RealSpace([v["lo"], v["hi"]], var_name=v["name"], precision=v.get("prec"), scale=v.get("scale"))
    if t == "i":
        return IntegerSpace([v["lo"], v["hi"]], var_name=v["name"], step=v.get("step", 1))
    if t == "c":
        return DiscreteSpace(v["levels"], var_name=v["name"])
    if t == "o":
        return OrdinalSpace(v["levels"], var_name=v["name"])
    if t == "b":
        return BoolSpace(var_name=v["name"])
    if t == "s":
        return SubsetSpace(v["base"], var_name=v["name"])
    raise ValueError


def build_space(spec, route=0):
    if route % 2 == 0 or len(spec) == 1:
        return SearchSpace([var_of(v) for v in spec])
    sp = space1_of(spec[0])
    for v in spec[1:]:
        sp = sp + space1_of(v)
    return sp


def n_points(v):
    """number of values of a variable; inf for a real without precision"""
    if v["t"] == "r":
        if v.get("prec") is None:
            return math.inf
        return int((v["hi"] - v["lo"]) * 10 ** v["prec"]) + 1
    if v["t"] == "i":
        return (v["hi"] - v["lo"]) // v.get("step", 1) + 1
    return len(v["levels"])


def space_size(spec):
    out = 1
    for v in spec:
        out *= n_points(v)
    return out


# ------------------------------------------------------------------------------------------------
# the membership oracle
def _is_real(x):
    return isinstance(x, (float, np.floating)) or (isinstance(x, (int, np.integer)) and not isinstance(x, bool))


def bad_value(v, x, grid=True):
    """None when x is an admissible value of variable v, else the reason"""
    t = v["t"]
    if t == "r":
        if not isinstance(x, (float, np.floating)):
            return f"{x!r} ({type(x).__name__}) is not a real number"
        if not (math.isfinite(x)):
            return f"{x!r} not finite"
        # back-transforming from the sampling scale rounds in the last digits
        slack = 0.0 if v.get("scale", "linear") == "linear" else 1e-9 * max(abs(v["lo"]), abs(v["hi"]))
        slack = max(slack, 1e-12 * max(abs(v["lo"]), abs(v["hi"])))
        if x < v["lo"] - slack or x > v["hi"] + slack:
            return f"{x!r} outside [{v['lo']}, {v['hi']}]"
        if grid and v.get("prec") is not None:
            on_grid = abs(round(x, v["prec"]) - x) <= 1e-9 * max(1.0, abs(x))
            at_bound = min(abs(x - v["lo"]), abs(x - v["hi"])) <= 1e-12 * max(1.0, abs(x))
            if not (on_grid or at_bound):
                return f"{x!r} has more than {v['prec']} decimals"
        return None
    if t == "i":
        if isinstance(x, (bool, np.bool_)) or not isinstance(x, (int, np.integer)):
            return f"{x!r} ({type(x).__name__}) is not an integer"
        if x < v["lo"] or x > v["hi"]:
            return f"{x!r} outside [{v['lo']}, {v['hi']}]"
        if grid and (x - v["lo"]) % v.get("step", 1) != 0:
            return f"{x!r} not on the grid {v['lo']}+k*{v['step']}"
        return None
    if t == "b":
        return None if isinstance(x, (bool, np.bool_)) else f"{x!r} ({type(x).__name__}) is not a truth value"
    if t == "s":
        return None if isinstance(x, tuple) and x in v["levels"] else f"{x!r} ({type(x).__name__}) is not a subset level"
    for l in v["levels"]:
        if isinstance(l, str):
            if isinstance(x, str) and x == l:
                return None
        elif not isinstance(x, (str, bool, np.bool_)) and _is_real(x) and x == l:
            if isinstance(l, int) and isinstance(x, (float, np.floating)):
                continue
            return None
    return f"{x!r} ({type(x).__name__}) is not one of {v['levels']}"


def bad_point(spec, x, grid=True):
    """x: list in variable order, or dict"""
    if isinstance(x, dict):
        if set(x) != set(v["name"] for v in spec) or len(x) != len(spec):
            return f"keys {sorted(map(str, x))} differ from the variables"
        x = [x[v["name"]] for v in spec]
    if not isinstance(x, (list, tuple, np.ndarray)) or len(x) != len(spec):
        return f"{x!r} does not assign {len(spec)} variables"
    for v, xi in zip(spec, x):
        b = bad_value(v, xi, grid)
        if b:
            return f"variable {v['name']}: {b}"
    return None


def rand_value(rng, v):
    """a random admissible value, independent of the library's samplers"""
    t = v["t"]
    if t == "r":
        if v.get("prec") is not None:
            p = 10 ** v["prec"]
            a, b = math.ceil(v["lo"] * p - 1e-9), math.floor(v["hi"] * p + 1e-9)
            k = int(rng.randint(a, b + 1))
            return min(max(round(k / p, v["prec"]), float(v["lo"])), float(v["hi"]))
        return float(rng.uniform(v["lo"], v["hi"]))
    if t == "i":
        return int(v["lo"] + v.get("step", 1) * rng.randint(0, n_points(v)))
    return v["levels"][rng.randint(len(v["levels"]))]


def rand_point(rng, spec):
    return [rand_value(rng, v) for v in spec]


def key_of(x):
    return tuple(repr(_) for _ in x)


def same_point(a, b, spec):
    """equality as documented: reals up to floating closeness, the rest exact"""
    for v, p, q in zip(spec, a, b):
        if v["t"] == "r":
            if not np.isclose(float(p), float(q)):
                return False
        elif p != q:
            return False
    return True


# ------------------------------------------------------------------------------------------------
# objectives (deterministic functions of a point given as list in variable order)
def encode(v, x):
    """number in [0, 1]"""
    if v["t"] in "ri":
        return (float(x) - v["lo"]) / (v["hi"] - v["lo"])
    return v["levels"].index(x if not isinstance(x, (np.bool_,)) else bool(x)) / max(1, len(v["levels"]) - 1)


def make_objective(rng, spec, kind=None):
    d = len(spec)
    c, w = rng.rand(d), 0.2 + rng.rand(d)
    kind = int(rng.randint(5)) if kind is None else kind
    off = float([0.0, 100.0, -3.5][rng.randint(3)])

    def f(x):
        u = np.array([encode(v, xi) for v, xi in zip(spec, x)])
        if kind == 0:
            y = np.sum(w * (u - c) ** 2)
        elif kind == 1:  # optimum in a corner
            y = np.sum(w * u)
        elif kind == 2:  # optimum in the opposite corner
            y = -np.sum(w * u)
        elif kind == 3:
            y = np.sum(np.abs(u - c)) + 0.3 * np.sin(12 * np.sum(w * u))
        else:
            y = 1e3 * np.sum(w * (u - c) ** 2)
        return float(y + off)

    return f


class Stub:
    """a minimal surrogate obeying the documented model protocol (fit / predict / is_fitted): inverse
    distance weighting on a numeric encoding.  Fast, deterministic, works on every variable type."""

    def __init__(self, spec, flat=False, grad=False):
        self.spec, self.flat = spec, flat
        self.is_fitted = False
        self.levels = {}

    def _enc(self, X):
        rows = X.tolist() if isinstance(X, np.ndarray) else X
        if not isinstance(rows[0], list):
            rows = [rows]
        return np.array([[encode(v, xi) for v, xi in zip(self.spec, x)] for x in rows])

    def fit(self, X, y):
        self.U = self._enc(X)
        self.y = np.asarray(y, dtype=float).ravel()
        self.is_fitted = True
        return self

    def predict(self, X, eval_MSE=False):
        U = self._enc(X)
        D = ((U[:, None, :] - self.U[None, :, :]) ** 2).sum(-1) + 1e-9
        W = 1 / D
        m = (W * self.y).sum(1) / W.sum(1)
        s2 = np.minimum(1.0, D.min(1)) + 1e-6
        return (m, s2) if eval_MSE else m


def make_gp(spec, rng=None, **kw):
    from bayes_optim.surrogate import GaussianProcess, trend

    dim = len(spec)
    rangev = np.array([float(v["hi"]) - v["lo"] for v in spec])
    args = dict(
        mean=trend.constant_trend(dim), corr="matern", thetaL=1e-3 * rangev, thetaU=1e3 * rangev, nugget=1e-6,
        noise_estim=False, optimizer="BFGS", wait_iter=2, random_start=2, likelihood="concentrated",
        eval_budget=20 * dim,
    )
    args.update(kw)
    return GaussianProcess(**args)


def make_rf(space, n=8, **kw):
    from bayes_optim.surrogate import RandomForest

    return RandomForest(levels=space.levels, n_estimators=n, **kw)


FAST = {"max_FEs": 60, "n_restart": 2, "wait_iter": 2}


def make_model(rng, spec, space, which=None):
    """-> (name, model)"""
    all_real = all(v["t"] == "r" for v in spec)
    opts = ["stub", "rf"] + (["gp"] * 2 if all_real else [])
    which = which or opts[rng.randint(len(opts))]
    if which == "gp":
        return which, make_gp(spec)
    if which == "rf":
        return which, make_rf(space)
    return which, Stub(spec)
