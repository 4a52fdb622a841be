"""C25  model-based suggestions maximize the acquisition of a surrogate fitted to exactly the recorded observations.
Oracle: a recording surrogate sees every fit and every prediction; the acquisition is recomputed from its own closed form."""
import math

import numpy as np

from .. import bo, gen
from ..core import Skip
from .c19 import ref, usable

ID = "C25"
LEVEL = "exploration"
RULE = ("seeded ask/tell histories of every single-objective optimizer and of MOBO with a recording surrogate whose fits and "
        "predictions are logged; every request is judged against the acquisition recomputed from the surrogate's own "
        "predictions; distinct situation = (types, optimizer, acquisition, direction, inner optimizer, landscape, fixed)")
TIMEOUT = 120
EPS = 1e-9


def kinds(tier):
    k = dict(fit=80, choose=130, batch=60, mobo=30, front=16, noisy=30)
    return k if tier == "quick" else {a: 14 * b for a, b in k.items()}


class Landscape:
    """recording surrogate; the predictions are an analytic landscape on the unit-cube encoding"""

    def __init__(self, rng, spec, form):
        d = len(spec)
        self.spec, self.form, self.is_fitted = spec, form, False
        self.c, self.w = rng.rand(d), 0.5 + rng.rand(d)
        self.b = rng.randn(d) * 0.7
        self.shift = float(rng.uniform(-1.5, 0.5))
        self.scale = float(rng.choice([0.5, 1.5]))
        self.fits, self.log = [], []

    def rows(self, X):
        X = X.tolist() if isinstance(X, np.ndarray) else X
        X = [list(X)] if not isinstance(X[0], (list, tuple, np.ndarray)) or (
            isinstance(X[0], tuple) and self.spec[0]["t"] == "s") else [list(r) for r in X]
        return X

    def dist(self, r):
        u = np.array([gen.encode(v, a) for v, a in zip(self.spec, r)])
        q = float(np.sum(self.w * (u - self.c) ** 2))
        if self.form == "mean":  # constant deviation
            return self.scale * q + self.shift, 0.4
        if self.form == "sd":  # constant mean
            return self.shift, 0.2 + 0.8 * math.exp(-2 * q)
        return self.scale * q + self.shift, 0.15 + 0.5 * math.exp(float(self.b @ u) - 1)

    def fit(self, X, y):
        self.fits.append((self.rows(X), np.array(y, dtype=float).reshape(len(X), -1)))
        self.is_fitted = True
        return self

    def predict(self, X, eval_MSE=False):
        R = self.rows(X)
        self.log += R
        D = [self.dist(r) for r in R]
        m, v = np.array([a for a, _ in D]), np.array([s * s for _, s in D])
        return (m, v) if eval_MSE else m


class Smooth(Landscape):
    """the same with gradients, for real-valued variables"""

    def gradient(self, x):
        x = np.asarray(x, float).ravel()
        rg = np.array([v["hi"] - v["lo"] for v in self.spec], float)
        u = np.array([gen.encode(v, a) for v, a in zip(self.spec, x)])
        dq = 2 * self.w * (u - self.c) / rg
        q = float(np.sum(self.w * (u - self.c) ** 2))
        if self.form == "mean":
            dm, dv = self.scale * dq, 0 * dq
        elif self.form == "sd":
            s = 0.2 + 0.8 * math.exp(-2 * q)
            dm, dv = 0 * dq, 2 * s * 0.8 * math.exp(-2 * q) * (-2) * dq
        else:
            e = 0.5 * math.exp(float(self.b @ u) - 1)
            dm, dv = self.scale * dq, 2 * (0.15 + e) * e * self.b / rg
        return dm.reshape(-1, 1), dv.reshape(-1, 1)


class Multi(Landscape):
    def __init__(self, rng, spec, n):
        super().__init__(rng, spec, "both")
        self.n = n
        self.cs = rng.rand(n, len(spec))

    def predict(self, X, eval_MSE=False):
        R = self.rows(X)
        self.log += R
        U = np.array([[gen.encode(v, a) for v, a in zip(self.spec, r)] for r in R])
        m = np.stack([-((U - c) ** 2).sum(1) for c in self.cs], axis=1)
        return (m, np.full(m.shape, 0.04)) if eval_MSE else m


def pairs(X, y):
    return sorted((gen.key_of(x), tuple(np.atleast_1d(v))) for x, v in zip(X, y))


def norm(spec, x):
    return gen.key_of([float(a) if v["t"] == "r" else (int(a) if v["t"] == "i" else a) for v, a in zip(spec, x)])


def judge_fit(mon, spec, model, told, sign=None):
    """the surrogate at hand has seen exactly the recorded points, with an increasing affine image of the values"""
    X, Y = told
    if not mon.check(len(model.fits) > 0, "surrogate-not-fitted", lambda: f"no fit after {len(X)} recorded observations"):
        return
    Xf, Yf = model.fits[-1]
    mon.event("fits")
    Y = np.array(Y, float).reshape(len(X), -1)
    a, b = sorted(norm(spec, x) for x in X), sorted(norm(spec, x) for x in Xf)
    mon.check(a == b, "fit-on-other-points", lambda: f"recorded {len(a)} points, fitted on {len(b)}; recorded {a[-3:]}, fitted {b[-3:]}")
    # rows of the two tables are matched by (point, rank of the value): equal points may carry several values
    s = np.ones(Y.shape[1]) if sign is None else np.array(sign, float)
    ia = sorted(range(len(X)), key=lambda i: (norm(spec, X[i]), tuple(Y[i] * s)))
    ib = sorted(range(len(Xf)), key=lambda i: (norm(spec, Xf[i]), tuple(Yf[i])))
    for k in range(Y.shape[1]):
        p, q = Y[ia, k] * s[k], Yf[ib, k]
        if np.ptp(p) < 1e-6 * (1 + np.max(np.abs(p))):
            continue
        lo, hi = int(np.argmin(p)), int(np.argmax(p))
        slope = (q[hi] - q[lo]) / (p[hi] - p[lo])
        dev = np.max(np.abs(q - (q[lo] + slope * (p - p[lo]))))
        mon.check(slope > 0 and dev <= 1e-7 * (np.ptp(q) + 1e-12) + 1e-9 * np.max(np.abs(q)), "fit-on-other-values",
                  lambda: f"objective {k}: values given to the surrogate are not an increasing affine image of the recorded "
                          f"ones: {list(zip(p, q))[:6]} (slope {slope}, deviation {dev})")


def score(model, fun, par, minimize, plugin, x):
    m, s = model.dist(x)
    if not minimize:
        m, plugin = -m, -plugin
    if not usable(fun, par, m, s, plugin):
        raise Skip("prediction outside the range of the closed form")
    return ref(fun, par, m, s, plugin)


PAR = dict(UCB=("alpha", 0.5), MGFI=("t", 1.0), EpsilonPI=("epsilon", 1e-10))


def best_index(minimize, y):
    return int(np.argmin(y) if minimize else np.argmax(y))


def run(kind, rng, mon):
    np.random.seed(int(rng.randint(1, 10 ** 6)))
    if kind == "mobo":
        return run_mobo(rng, mon)
    if kind == "front":
        return run_front(rng, mon)
    real = kind in ("choose", "batch") and rng.rand() < 0.45
    spec = bo.big_enough(rng, "r" if real else None, least=3000, rich=True)
    space = gen.build_space(spec, int(rng.randint(2)))
    all_real = all(v["t"] == "r" for v in spec)
    form = ["mean", "sd", "both"][rng.randint(3)]
    cls = {"fit": list(bo.CLS)[rng.randint(len(bo.CLS))], "choose": "BO", "batch": bo.BATCH[rng.randint(len(bo.BATCH))],
           "noisy": "NoisyBO"}[kind]
    if kind in ("batch", "noisy") and form == "both":
        form = "mean"
    kw = bo.opt_kwargs(rng, spec, cls)
    minimize = bool(rng.randint(2))
    kw["minimize"] = minimize
    fun = kw.get("acquisition_fun", "MGFI")
    if form == "sd" and fun in ("PI", "EpsilonPI"):
        form = "mean"
    smooth = all_real and rng.rand() < 0.5
    model = (Smooth if smooth else Landscape)(rng, spec, form)
    if not minimize:
        model.scale, model.shift = -model.scale, -model.shift
    ao = dict(max_FEs=int(rng.choice([80, 200])), n_restart=int(rng.randint(2, 5)), wait_iter=3)
    if all_real:
        inner = ["BFGS", "OnePlusOne_Cholesky_CMA", "MIES"][rng.randint(3)]
        if inner == "BFGS" and not smooth:
            inner = "MIES"
        ao["optimizer"] = inner
    else:
        inner = "MIES"
    kw["acquisition_optimization"] = ao
    f = gen.make_objective(rng, spec)
    sgn = 1.0 if rng.rand() < 0.5 else -1.0
    form_ = kw["eval_type"]
    told_X, told_Y = [], []
    if kind == "fit" and form_ == "list" and rng.rand() < 0.3:
        W = [gen.rand_point(rng, spec) for _ in range(int(rng.randint(2, 6)))]
        wy = [sgn * f(x) for x in W]
        kw["warm_data"] = (W, wy)
        told_X, told_Y = [list(x) for x in W], list(wy)
    opt = bo.CLS[cls](search_space=space, obj_fun=None, model=model, **kw)
    mon.note(space=spec, cls=cls, acq=fun, inner=inner, minimize=minimize, landscape=form, form=form_)
    n0 = int(rng.randint(3, 8))
    if not told_X:
        P = [gen.rand_point(rng, spec) for _ in range(n0)]
        Y = [sgn * f(x) for x in P]
        opt.tell([bo.to_form(spec, x, form_) for x in P], list(Y))
        told_X, told_Y = told_X + P, told_Y + Y
    judge_fit(mon, spec, model, (told_X, told_Y))
    ranks = []
    for step in range(int(rng.randint(2, 5))):
        if kind == "fit":
            n = int(rng.randint(1, 4)) if rng.rand() < 0.95 else int(rng.randint(60, 150))
            fixed = None
            P = ([bo.to_list(spec, x) for x in opt.ask(n if cls != "BO" else 1)] if rng.rand() < 0.4 and n < 9
                 else [gen.rand_point(rng, spec) for _ in range(n)])
            Y = [sgn * f(x) for x in P]
            failed = rng.rand(len(P)) < 0.25
            Yf = [float([np.nan, np.inf, -np.inf][rng.randint(3)]) if b else y for b, y in zip(failed, Y)]
            opt.tell([bo.to_form(spec, x, form_) for x in P], Yf)
            told_X += [x for x, b in zip(P, failed) if not b]
            told_Y += [y for y, b in zip(Y, failed) if not b]
            judge_fit(mon, spec, model, (told_X, told_Y))
            mon.state("fit", bo.desc(spec), cls, form_, len(told_X), int(sum(failed)))
            continue
        fixed = None
        if len(spec) > 1 and rng.rand() < 0.3:
            v = spec[rng.randint(len(spec))]
            fixed = {v["name"]: gen.rand_value(rng, v)}
        model.log = []
        yfit = model.fits[-1][1].ravel()
        plugin = yfit[best_index(minimize, yfit)]
        n = int(rng.randint(2, 5)) if kind in ("batch", "noisy") else 1
        use_value = kind == "choose" and rng.rand() < 0.5
        if use_value:
            cand, val = opt.arg_max_acquisition(n_point=1, return_value=True, fixed=fixed)
            X = [list(c) for c in cand]
        else:
            X = [bo.to_list(spec, x) for x in opt.ask(n, fixed=fixed)]
        seen = list(model.log)
        mon.check(len(seen) > 0, "suggestion-without-model", lambda: f"{cls}.ask made no prediction although {len(told_X)} points are recorded")
        mon.event("suggestions", len(X))
        mon.event("predictions", len(seen))
        keys = {norm(spec, t) for t in told_X}
        for r in seen[:: max(1, len(seen) // 50)]:
            if norm(spec, r) in keys:
                continue  # predictions at recorded points serve to determine the incumbent
            for v, a in zip(spec, r):
                if fixed and v["name"] in fixed:
                    ok = a == fixed[v["name"]] or (v["t"] == "r" and math.isclose(a, fixed[v["name"]], rel_tol=1e-9))
                    mon.check(ok, "search-ignores-fixed", lambda: f"the surrogate was consulted at {r} although {fixed} is fixed")
        dup = lambda x: any(gen.same_point(x, t, spec) for t in told_X)
        pool = [gen.rand_point(rng, spec) for _ in range(150)]
        for p in pool:
            for i, v in enumerate(spec):
                if fixed and v["name"] in fixed:
                    p[i] = fixed[v["name"]]
        if kind == "choose":
            x = X[0]
            par = PAR.get(fun, (None, None))[1]
            A = lambda z: score(model, fun, par, minimize, plugin, z)
            a = A(x)
            best = max(seen, key=A)
            ab = A(best)
            if use_value:
                v0 = float(np.ravel(val)[0])
                mon.check(abs(v0 - a) <= 1e-6 * abs(a) + 1e-9, "reported-value-is-not-the-acquisition",
                          lambda: f"{fun}({x}) = {a} with incumbent {plugin}, but {v0} is reported; {spec}")
            replaced = not use_value and (dup(best) or dup(x))
            rounded = any(v.get("prec") is not None for v in spec) and inner == "BFGS"
            if not replaced and not rounded:
                slack = (0.02 if inner == "BFGS" else 1e-6) * abs(ab) + 1e-9
                mon.check(a >= ab - slack, "better-candidate-discarded",
                          lambda: f"{fun} of the suggestion {x} is {a}, but the search visited {best} with {ab}; inner={inner}")
            q = np.mean([A(p) < a + 1e-12 for p in pool])
            mon.state(kind, bo.desc(spec), fun, minimize, inner, form, bool(fixed), use_value)
        else:
            par = 1.0
            good = []
            for x in X:
                m, s = model.dist(x)
                key = (lambda z: (-model.dist(z)[0] if minimize else model.dist(z)[0])) if form == "mean" else (lambda z: model.dist(z)[1])
                good.append(np.mean([key(p) < key(x) + 1e-12 for p in pool]))
            q = float(np.max(good))
            replaced = dup(max(seen, key=key))
            mon.state(kind, bo.desc(spec), cls, fun, minimize, inner, form, bool(fixed), n)
        # L-BFGS-B stops at once where the range of a variable is so large that the gradient is numerically zero
        if not replaced and (inner != "BFGS" or max(v["hi"] - v["lo"] for v in spec) <= 20):
            ranks.append(float(q))
            QS.append((kind, q, inner, fun, form, bo.desc(spec), bool(fixed)))
        P = [gen.rand_point(rng, spec) for _ in range(int(rng.randint(1, 3)))]
        Y = [sgn * f(x) for x in P]
        opt.tell([bo.to_form(spec, x, form_) for x in P], list(Y))
        told_X, told_Y = told_X + P, told_Y + Y
        judge_fit(mon, spec, model, (told_X, told_Y))
    if len(ranks) > 1:
        mon.event("ranked_searches", len(ranks))
        mon.check(np.mean(ranks) >= (0.15 if inner == "BFGS" else 0.3), "suggestions-no-better-than-random",
                  lambda: f"fractions of random points with a worse acquisition value than the suggestion: {ranks}; "
                          f"{cls} {fun} inner={inner} minimize={minimize} landscape={form} {spec}")


QS = []


def run_mobo(rng, mon):
    spec = bo.big_enough(rng, ["r", "ri", "rc", "i"][rng.randint(4)], least=3000)
    space = gen.build_space(spec)
    n = int(rng.randint(2, 4))
    flags = [bool(rng.randint(2)) for _ in range(n)]
    model = Multi(rng, spec, n)
    opt = bo.MOBO(search_space=space, n_obj=n, obj_fun=None, model=model, DoE_size=4, minimize=flags,
                  acquisition_optimization=dict(max_FEs=40, n_restart=1))
    fs = [gen.make_objective(rng, spec) for _ in range(n)]
    X, Y = [], []
    for step in range(int(rng.randint(2, 5))):
        P = [gen.rand_point(rng, spec) for _ in range(int(rng.randint(2, 5)))]
        V = [[g(p) for g in fs] for p in P]
        bad = [rng.rand() < 0.15 and step > 0 for _ in P]
        Vt = [[float("nan") if b and k == 0 else a for k, a in enumerate(v)] for v, b in zip(V, bad)]
        opt.tell([list(p) for p in P], Vt)
        X += [p for p, b in zip(P, bad) if not b]
        Y += [v for v, b in zip(V, bad) if not b]
        judge_fit(mon, spec, model, (X, Y), sign=[-1.0 if b else 1.0 for b in flags])
        mon.state("mobo", bo.desc(spec), tuple(flags), len(X))
    mon.note(space=spec, directions=flags)


class Peaks(Landscape):
    """independent normal predictions on the scale of the values fitted: one peak per objective"""

    def __init__(self, rng, spec, n):
        super().__init__(rng, spec, "both")
        self.n, self.cs, self.sd = n, rng.rand(n, len(spec)), float(rng.choice([0.02, 0.1]))

    def predict(self, X, eval_MSE=False):
        U = np.array([[gen.encode(v, a) for v, a in zip(self.spec, r)] for r in self.rows(X)])
        Y = np.asarray(self.fits[-1][1], float).reshape(-1, self.n)
        lo, hi = Y.min(0), Y.max(0)
        m = np.stack([lo[k] + (hi[k] - lo[k] + 0.2) * np.exp(-2 * ((U - c) ** 2).sum(1)) for k, c in enumerate(self.cs)], axis=1)
        return (m, np.full(m.shape, self.sd ** 2)) if eval_MSE else m


def gain2(Y, ref, Z):
    """hypervolume gained by each of the points Z over the set Y (two objectives, maximized)"""
    Y = sorted({tuple(y) for y in Y if y[0] > ref[0] and y[1] > ref[1]}, key=lambda y: (-y[0], -y[1]))
    F = []
    for y in Y:
        if not F or y[1] > F[-1][1]:
            F.append(y)
    F = F[::-1]  # ascending in the first objective, descending in the second
    a = [ref[0]] + [y[0] for y in F] + [np.inf]
    b = [y[1] for y in F] + [ref[1]]
    return sum(np.maximum(0, np.minimum(Z[:, 0], a[i + 1]) - a[i]) * np.maximum(0, Z[:, 1] - b[i]) for i in range(len(b)))


def run_front(rng, mon):
    """suggestions of the multi-objective optimizer have a larger expected hypervolume improvement than random points"""
    spec = bo.big_enough(rng, ["r", "r", "ri", "rc"][rng.randint(4)], least=3000)
    space = gen.build_space(spec)
    flags = [bool(rng.randint(2)) for _ in range(2)]
    model = Peaks(rng, spec, 2)
    opt = bo.MOBO(search_space=space, n_obj=2, obj_fun=None, model=model, DoE_size=4, minimize=flags,
                  acquisition_optimization=dict(max_FEs=120, n_restart=2))
    fs = [gen.make_objective(rng, spec) for _ in range(2)]
    E = rng.randn(300, 2)
    ranks = []
    for step in range(6):
        P = [gen.rand_point(rng, spec) for _ in range(4)]
        opt.tell([list(p) for p in P], [[g(p) * (10.0 ** (3 * k)) for k, g in enumerate(fs)] for p in P])
        Y = np.asarray(model.fits[-1][1], float).reshape(-1, 2)
        ref = Y.min(0) - 0.2 * np.ptp(Y, axis=0)
        r = np.asarray(opt.ref_point, float).ravel()
        mon.check(np.all(r <= Y.min(0)), "reference-point-not-dominated", lambda: f"{r} with values down to {Y.min(0)} (maximized); {flags}")
        x = bo.to_list(spec, opt.ask()[0])
        C = [x] + [gen.rand_point(rng, spec) for _ in range(60)]
        M, V = model.predict(C, eval_MSE=True)
        v = np.array([np.mean(gain2(Y, ref, m + E * np.sqrt(s))) for m, s in zip(M, V)])
        ranks.append(float(np.mean(v[1:] > v[0] + 0.02 * v.max())))
        mon.event("multi_objective_suggestions")
        mon.state("front", bo.desc(spec), tuple(flags), step)
    mon.note(space=spec, directions=flags, ranks=ranks)
    mon.check(np.median(ranks) <= 0.6, "front-suggestions-no-better-than-random", lambda: f"share of random points with a larger expected improvement: {ranks}")
