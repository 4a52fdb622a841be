"""C19: acquisition functions against their definitions (integrals over the predictive distribution) and gradients."""
import math
import warnings

import numpy as np
from scipy import integrate

from vp import bo, core, gen

ID = "C19"
LEVEL = "exploration"
RULE = ("a case evaluates one acquisition function for many injected surrogate predictions (mean, deviation, incumbent, "
        "direction, parameter) or on a fitted model; two cases differ in function, direction, surrogate shape or parameter")
TIMEOUT = 120
FUNS = ("EI", "PI", "EpsilonPI", "UCB", "MGFI")


def kinds(tier):
    m = 1 if tier == "quick" else 20
    return dict(value=250 * m, monotone=150 * m, gradient=250 * m, gp=80 * m, forest=40 * m, incumbent=80 * m)


# ---- definitions -------------------------------------------------------------------------------------------------
def Phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def phi(z):
    return math.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)


def ref(fun, par, m, s, p):
    """acquisition value for minimization with prediction N(m, s^2) and incumbent p, in closed form"""
    if fun == "UCB":
        return -m + par * s
    if fun in ("PI", "EpsilonPI"):
        eps = 0 if fun == "PI" else par
        return Phi((p - m * (1 - eps if m > 0 else 1 + eps)) / s)
    if fun == "EI":
        z = (p - m) / s
        return (p - m) * Phi(z) + s * phi(z)
    t = min(par, 22.36)
    return Phi((p - m) / s + s * t) * math.exp(t * (p - m - 1) + 0.5 * (s * t) ** 2)


def by_integral(fun, par, m, s, p):
    """the same from the definition: expectation over Y ~ N(m, s^2) of a function of the improvement I = p - Y"""
    zc = (p - m) / s
    if fun == "EI":
        g = lambda z: (p - m - s * z) * phi(z)
    elif fun == "MGFI":
        t = min(par, 22.36)
        g = lambda z: math.exp(t * (p - m - s * z - 1) - 0.5 * z * z) / math.sqrt(2 * math.pi)
    else:
        g = phi
    c = -s * min(par, 22.36) if fun == "MGFI" else 0.0  # where the integrand peaks
    lo, hi = min(c, zc) - 12, min(zc, max(c, -1) + 12)
    pts = sorted(x for x in (c, c - 2, c + 2) if lo < x < hi)
    return integrate.quad(g, lo, hi, points=pts or None, limit=200, epsabs=0, epsrel=1e-9)[0]


class Fixed:
    """protocol-conforming surrogate whose prediction is what the test says: linear mean, quadratic log-variance"""

    def __init__(self, rng, d, col, sig=False):
        self.a, self.c = rng.randn(d), 0.3 * rng.randn(d)
        self.m0, self.s0, self.col = 0.0, 1.0, col
        self.is_fitted = True
        if sig:
            self.sigma2 = np.array([1.0])

    def dist(self, x):
        x = np.asarray(x, float).ravel()
        return self.m0 + float(self.a @ x), self.s0 * math.exp(float(self.c @ x))

    def predict(self, X, eval_MSE=False):
        X = np.atleast_2d(np.asarray(X, float))
        m = np.array([self.dist(x)[0] for x in X])
        v = np.array([self.dist(x)[1] ** 2 for x in X])
        if self.col:
            m, v = m.reshape(-1, 1), v.reshape(-1, 1)
        return (m, v) if eval_MSE else m

    def gradient(self, x):
        x = np.asarray(x, float).ravel()
        s = self.dist(x)[1]
        return self.a.reshape(-1, 1), (2 * s**2 * self.c).reshape(-1, 1)


def make(fun, par, model, minimize, plugin):
    from bayes_optim.acquisition import acquisition_fun as A

    kw = dict(model=model, minimize=minimize)
    if fun == "UCB":
        kw["alpha"] = par
    elif fun == "MGFI":
        kw["t"] = par
    elif fun == "EpsilonPI":
        kw["epsilon"] = par
    if fun != "UCB" and plugin is not None:
        kw["plugin"] = plugin
    return getattr(A, fun)(**kw)


def param(rng, fun):
    if fun == "UCB":
        return float(10 ** rng.uniform(-2, 1))
    if fun == "MGFI":
        return float(rng.choice([0.1, 0.5, 1, 2, 5, 10, 22.36, 40]))
    if fun == "EpsilonPI":
        return float(rng.choice([0.0, 1e-10, 0.01, 0.1, 0.5]))
    return None


def call(acq, x, dx=False):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = acq(x, return_dx=True) if dx else acq(x)
    if dx:
        return float(np.ravel(out[0])[0]), np.ravel(np.asarray(out[1], float)), np.size(out[0])
    return float(np.ravel(out)[0]), None, np.size(out)


def forms(rng, x):
    f = rng.randint(4)
    return [x, np.array(x), np.array([x]), [x]][f]


def agree(a, b, rel=1e-7, ab=1e-12):
    return math.isfinite(a) and abs(a - b) <= rel * abs(b) + ab


def usable(fun, par, m, s, p):
    if s < 1e-5:
        return False  # the library documents a cut-off for (almost) certain predictions
    if fun == "MGFI":
        t = min(par, 22.36)
        e = t * (p - m - 1) + 0.5 * (s * t) ** 2
        return abs(e) < 300 and abs((p - m) / s + s * t) < 30
    return abs((p - m) / s) < 30


def draw(rng, model):
    model.m0 = float(rng.randn() * 10 ** rng.uniform(-2, 1.5))
    model.s0 = float(10 ** rng.uniform(-3, 1))
    p = model.m0 + model.s0 * rng.randn() * 2 if rng.rand() < 0.7 else float(rng.randn())
    return float(p)


def run(kind, rng, mon):
    return globals()["k_" + kind](rng, mon)


def k_value(rng, mon):
    fun = FUNS[rng.randint(len(FUNS))]
    mini, col, d = bool(rng.randint(2)), bool(rng.randint(2)), int(rng.randint(1, 4))
    par = param(rng, fun)
    model = Fixed(rng, d, col, sig=col)
    mon.note(function=fun, minimize=mini, parameter=par, d=d, column=col)
    mon.state("value", fun, mini, col, d, par)
    mon.check(True, "reached")
    for _ in range(12):
        p = draw(rng, model)
        x = [float(v) for v in rng.uniform(-1, 1, d)]
        m, s = model.dist(x)
        mm, pp = (m, p) if mini else (-m, -p)
        if not usable(fun, par, mm, s, pp):
            continue
        acq = make(fun, par, model, mini, p)
        if fun != "UCB" and rng.rand() < 0.2:  # the incumbent may be set later as well
            acq = make(fun, par, model, mini, p + 1.0)
            acq.plugin = p
        want = ref(fun, par, mm, s, pp)
        got, _, size = call(acq, forms(rng, x))
        mon.event("values compared")
        mon.check(size == 1 and agree(got, want, 1e-7, 1e-12 * max(1, s)), f"value-{fun}",
                  lambda: f"minimize={mini} mean={m} sd={s} incumbent={p} par={par}: {got} != {want}")
        mon.check(fun == "UCB" or got >= -1e-300, f"negative-{fun}", lambda: f"{got}")
        g, dx, _ = call(acq, forms(rng, x), dx=True)
        mon.check(agree(g, got, 1e-12), f"value-with-gradient-{fun}", lambda: f"{g} != {got}")
        if fun != "UCB" and want > 1e-200:
            eps = 0 if fun != "EpsilonPI" else par
            mi = mm * (1 - eps if mm > 0 else 1 + eps) if fun == "EpsilonPI" else mm
            q = by_integral(fun, par, mi, s, pp)
            mon.event("integrals compared")
            mon.check(agree(got, q, 1e-5, 1e-10 * max(1, s)), f"definition-{fun}",
                      lambda: f"minimize={mini} mean={m} sd={s} incumbent={p} par={par}: {got} != {q}")


def k_monotone(rng, mon):
    fun = FUNS[rng.randint(len(FUNS))]
    mini, col = bool(rng.randint(2)), bool(rng.randint(2))
    par = param(rng, fun)
    model = Fixed(rng, 1, col)
    model.a, model.c = np.zeros(1), np.zeros(1)
    sgn = 1 if mini else -1
    mon.note(function=fun, minimize=mini, parameter=par)
    mon.state("monotone", fun, mini, col, par)
    mon.check(True, "reached")
    for _ in range(6):
        p = draw(rng, model)
        s, base = model.s0, model.m0
        ms = np.sort(base + s * rng.uniform(-3, 3, 8))  # from best to worst
        vals = []
        for m in ms:
            if not usable(fun, par, m, s, sgn * p):
                continue
            model.m0 = sgn * float(m)
            vals.append(call(make(fun, par, model, mini, p), [0.0])[0])
        mon.event("predictions ordered", len(vals))
        mon.check(all(b <= a + 1e-9 * (1 + abs(a)) for a, b in zip(vals, vals[1:])), f"monotone-mean-{fun}",
                  lambda: f"minimize={mini} means {ms * sgn} sd={s} incumbent={p} par={par}: {vals}")
        # uncertainty: for predictions not better than the incumbent, for EI and UCB for every prediction
        m = sgn * p + (abs(rng.randn()) if fun in ("PI", "EpsilonPI", "MGFI") or rng.rand() < 0.5 else rng.randn())
        if fun == "EpsilonPI":
            m = abs(m) + abs(p) + 0.1
            if m * (1 - par) < sgn * p:
                continue
        model.m0 = sgn * float(m)
        vals = []
        ss = np.sort(10 ** rng.uniform(-3, 0.5, 8))
        for s in ss:
            if not usable(fun, par, m, s, sgn * p):
                continue
            model.s0 = float(s)
            vals.append(call(make(fun, par, model, mini, p), [0.0])[0])
        mon.event("uncertainties ordered", len(vals))
        mon.check(all(b >= a - 1e-9 * (1 + abs(a)) for a, b in zip(vals, vals[1:])), f"monotone-sd-{fun}",
                  lambda: f"minimize={mini} mean={m * sgn} sds {ss} incumbent={p} par={par}: {vals}")


def k_gradient(rng, mon):
    fun = FUNS[rng.randint(len(FUNS))]
    mini, col, d = bool(rng.randint(2)), bool(rng.randint(2)), int(rng.randint(1, 5))
    par = param(rng, fun)
    model = Fixed(rng, d, col, sig=col)
    mon.note(function=fun, minimize=mini, parameter=par, d=d)
    mon.state("gradient", fun, mini, col, d, par)
    mon.check(True, "reached")
    for _ in range(8):
        p = draw(rng, model)
        x = rng.uniform(-1, 1, d)
        m, s = model.dist(x)
        mm, pp = (m, p) if mini else (-m, -p)
        if not usable(fun, par, mm, s, pp) or abs(m) < 1e-3:
            continue

        def f(z):
            m_, s_ = model.dist(z)
            return ref(fun, par, m_ if mini else -m_, s_, pp)

        h = 1e-3 * min(1.0, s)
        if fun == "MGFI":
            h /= max(1, min(par, 22.36) * max(1, s * min(par, 22.36)))
        want, err = [], 0
        for i in range(d):
            e = np.zeros(d)
            e[i] = h
            d1 = (f(x + e) - f(x - e)) / (2 * h)
            d2 = (f(x + e / 2) - f(x - e / 2)) / h
            want.append((4 * d2 - d1) / 3)
            err = max(err, abs(d2 - d1))
        want = np.array(want)
        acq = make(fun, par, model, mini, p)
        v, dx, _ = call(acq, x.tolist(), dx=True)
        tol = 1e-4 * np.abs(want).max() + err + 1e-9 * max(abs(v), 1e-3) / h
        if err > 1e-2 * np.abs(want).max():
            continue
        mon.event("gradients compared")
        mon.check(dx.shape == (d,) and np.all(np.abs(dx - want) <= tol), f"gradient-{fun}",
                  lambda: f"minimize={mini} mean={m} sd={s} incumbent={p} par={par}: {dx} != {want}")


def k_gp(rng, mon):
    """a fitted Gaussian process: default incumbent and gradient through the model"""
    d, n = int(rng.randint(1, 4)), int(rng.randint(6, 15))
    spec = [dict(t="r", lo=-2.0, hi=2.0) for _ in range(d)]
    X = rng.uniform(-2, 2, (n, d))
    y = np.sin(X @ rng.randn(d)) + 0.2 * np.sum(X**2, axis=1)
    y = (y - y.mean()) / y.std()
    gp = gen.make_gp(spec, corr=("matern", "squared_exponential")[rng.randint(2)], thetaL=np.full(d, 0.05), thetaU=np.full(d, 5.0))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        gp.fit(X, y)
    fun, mini = FUNS[rng.randint(len(FUNS))], bool(rng.randint(2))
    par = param(rng, fun)
    p = None if rng.rand() < 0.5 else float(rng.randn())
    acq = make(fun, par, gp, mini, p)
    if p is None:
        p = float(y.min() if mini else y.max())
    mon.note(function=fun, minimize=mini, parameter=par, d=d, n=n)
    mon.state("gp", fun, mini, d, n, par)
    mon.check(True, "reached")

    def f(z):
        m_, v_ = gp.predict(np.asarray(z, float).reshape(1, -1), eval_MSE=True)
        m_, s_ = float(np.ravel(m_)[0]), math.sqrt(max(float(np.ravel(v_)[0]), 0))
        return m_, s_

    for _ in range(6):
        x = rng.uniform(-2, 2, d)
        m, s = f(x)
        mm, pp = (m, p) if mini else (-m, -p)
        if s < 1e-2 or abs(m) < 1e-2 or not usable(fun, par, mm, s, pp):
            continue
        want = ref(fun, par, mm, s, pp)
        v, dx, _ = call(acq, x.tolist(), dx=True)
        v0, _, _ = call(acq, x)
        mon.event("values compared")
        mon.check(agree(v, want, 1e-6) and agree(v0, want, 1e-6), f"gp-value-{fun}", lambda: f"{v} {v0} != {want} (mean {m} sd {s} incumbent {p})")

        def g(z):
            m_, s_ = f(z)
            return ref(fun, par, m_ if mini else -m_, s_, pp)

        h = 1e-4
        num, err = [], 0
        for i in range(d):
            e = np.zeros(d)
            e[i] = h
            d1, d2 = (g(x + e) - g(x - e)) / (2 * h), (g(x + 2 * e) - g(x - 2 * e)) / (4 * h)
            num.append(d1)
            err = max(err, abs(d1 - d2))
        num = np.array(num)
        if err > 1e-2 * np.abs(num).max() or np.abs(num).max() < 1e-8:
            continue
        mon.event("gradients compared")
        mon.check(np.all(np.abs(dx - num) <= 1e-3 * np.abs(num).max() + 3 * err), f"gp-gradient-{fun}",
                  lambda: f"minimize={mini} par={par}: {dx} != {num} at {x}")


def k_forest(rng, mon):
    spec = gen.rand_spec(rng)
    space = gen.build_space(spec)
    rf = gen.make_rf(space, n=int(rng.randint(2, 12)), random_state=int(rng.randint(1, 999)))
    n = int(rng.randint(8, 20))
    rows = [gen.rand_point(rng, spec) for _ in range(n)]
    y = rng.randn(n)
    rf.fit(rows, y)
    fun, mini = FUNS[rng.randint(len(FUNS))], bool(rng.randint(2))
    par = param(rng, fun)
    p = None if rng.rand() < 0.5 else float(rng.randn())
    acq = make(fun, par, rf, mini, p)
    p = p if p is not None else float(y.min() if mini else y.max())
    mon.note(function=fun, minimize=mini, spec=spec)
    mon.state("forest", fun, mini, repr(spec))
    mon.check(True, "reached")
    for _ in range(8):
        x = gen.rand_point(rng, spec)
        m, v = rf.predict([x], eval_MSE=True)
        m, s = float(np.ravel(m)[0]), math.sqrt(float(np.ravel(v)[0]))
        mm, pp = (m, p) if mini else (-m, -p)
        if not usable(fun, par, mm, s, pp):
            continue
        a = np.empty((1, len(x)), dtype=object)
        for j, v in enumerate(x):
            a[0, j] = v
        got, _, _ = call(acq, a)
        want = ref(fun, par, mm, s, pp)
        mon.event("values compared")
        mon.check(agree(got, want, 1e-6), f"forest-value-{fun}", lambda: f"{got} != {want} at {x}")


def k_incumbent(rng, mon):
    """the acquisition functions an optimizer builds use its model, direction, parameters and best (standardised) value"""
    from bayes_optim.acquisition import acquisition_fun as A

    fun = FUNS[rng.randint(len(FUNS))]
    cls_name = "BO" if fun in ("EI", "PI", "EpsilonPI") or rng.rand() < 0.5 else "ParallelBO"
    mini = bool(rng.randint(2))
    par = param(rng, fun)
    spec = [dict(t="r", lo=-5.0, hi=5.0, name=f"x{i}") for i in range(int(rng.randint(1, 4)))]
    space = gen.build_space(spec)
    model = gen.Stub(spec)
    made = []
    orig = getattr(A, fun)

    saved = {k: orig.__dict__[k] for k in ("__init__", "__call__") if k in orig.__dict__}
    init, evaluate = orig.__init__, orig.__call__

    def spy_init(self, *a, **kw):
        init(self, *a, **kw)
        made.append(self)

    def spy_call(self, X, *a, **kw):
        out = evaluate(self, X, *a, **kw)
        calls.append((np.array(X, dtype=object), out))
        return out

    calls = []
    ap = {dict(UCB="alpha", MGFI="t", EpsilonPI="epsilon")[fun]: par} if par is not None else None
    if fun == "MGFI":
        ap["t"] = par = min(par, 5.0)
    orig.__init__, orig.__call__ = spy_init, spy_call
    try:
        kw = dict(search_space=space, obj_fun=None, model=model, DoE_size=6, max_FEs=50, minimize=mini, acquisition_fun=fun,
                  acquisition_par=ap, acquisition_optimization=dict(max_FEs=30, n_restart=1), random_seed=int(rng.randint(1, 999)))
        if cls_name == "ParallelBO":
            kw["n_point"] = 2
            kw["DoE_size"] = int(rng.randint(4, 14))
        noisy = cls_name == "ParallelBO" and rng.rand() < 0.5
        if noisy:  # the incumbent is the best prediction for an observed point
            cls_name = "NoisyBO"
        opt = bo.CLS[cls_name](**kw)
        made.clear()
        for it in range(3):
            X = opt.ask()
            if model.is_fitted:
                data = np.asarray(opt.data.fitness, float).ravel()
                z = (data - data.mean()) / data.std()
                inc = z.min() if mini else -z.max()
                if noisy:
                    q = np.ravel(model.predict(opt.data.tolist()))
                    inc = float(q.min() if mini else -q.max())
                used = [m for m in made]
                mon.event("acquisition functions observed", len(used))
                for m in used:
                    if fun != "UCB":
                        mon.check(abs(float(np.ravel(m.plugin)[0]) - inc) < 1e-9, "incumbent",
                                  lambda: f"{cls_name} {fun} minimize={mini}: incumbent {m.plugin}, best standardised value {inc}")
                    mon.check(m.model is model and bool(m.minimize) == mini, "model-direction", f"{m.minimize} {mini}")
                if cls_name == "BO" and par is not None and used:
                    name = dict(UCB="alpha", MGFI="t", EpsilonPI="epsilon")[fun]
                    mon.check(abs(getattr(used[-1], name) - par) < 1e-12, "parameter", lambda: f"{name}={getattr(used[-1], name)} configured {par}")
                # what was evaluated is the definition at the model's prediction
                for x, out in calls[:20]:
                    xs = x.tolist() if x.ndim == 1 else x.tolist()[0]
                    m_, v_ = model.predict([[float(t) for t in xs]], eval_MSE=True)
                    m_, s_ = float(m_[0]), math.sqrt(float(v_[0]))
                    mm = m_ if mini else -m_
                    if cls_name == "BO" and usable(fun, par, mm, s_, inc):
                        want = ref(fun, par, mm, s_, inc)
                        got = float(np.ravel(out[0] if isinstance(out, tuple) else out)[0])
                        mon.event("values compared")
                        mon.check(agree(got, want, 1e-6), "value-in-use", lambda: f"{fun} minimize={mini}: {got} != {want}")
            made.clear()
            calls.clear()
            opt.tell(X, [float(v) for v in rng.randn(len(X)) * 10])
    finally:
        for k in ("__init__", "__call__"):
            if k in saved:
                setattr(orig, k, saved[k])
            else:
                delattr(orig, k)
    mon.note(optimizer=cls_name, function=fun, minimize=mini, parameter=par)
    mon.state("incumbent", cls_name, fun, mini, len(spec), par)
    mon.check(True, "reached")
