"""C17: Gaussian-process predictions, variances and gradients against independently evaluated kriging equations."""
import warnings

import numpy as np

from vp import core

ID = "C17"
LEVEL = "exploration"
RULE = ("a case fits one Gaussian process (random kernel, trend, nugget mode, data shape and scale) and compares its "
        "predictions with the kriging equations solved independently at the fitted hyper-parameters; two cases differ "
        "when kernel, trend, noise mode, dimension or data size differ")
TIMEOUT = 120


def kinds(tier):
    m = 1 if tier == "quick" else 20
    return dict(equations=160 * m, gradient=120 * m, batching=60 * m, interpolation=80 * m, start=80 * m, kernels=100 * m,
                targets=40 * m, sklearn=30 * m)


# ---- reference ---------------------------------------------------------------------------------------------------
def ref_corr(name, theta, A, B):
    d = np.abs(np.asarray(A, float)[:, None, :] - np.asarray(B, float)[None, :, :])
    t = np.asarray(theta, float)
    if name == "squared_exponential":
        return np.exp(-np.einsum("ijk,k->ij", d**2, t))
    if name == "absolute_exponential":
        return np.exp(-np.einsum("ijk,k->ij", d, t))
    if name == "generalized_exponential":
        return np.exp(-np.einsum("ijk,k->ij", d ** t[-1], t[:-1]))
    if name == "matern":
        s = np.sqrt(3.0 * np.einsum("ijk,k->ij", d**2, t))
        return (1 + s) * np.exp(-s)
    raise ValueError(name)


def ref_F(trend, X):
    X = np.asarray(X, float)
    if trend == "quadratic":
        d = X.shape[1]
        return np.c_[np.ones(len(X)), X, np.array([X[:, i] * X[:, j] for i in range(d) for j in range(i, d)]).T]
    return np.c_[np.ones(len(X)), X] if trend == "linear" else np.ones((len(X), 1))


class Ref:
    """kriging with given theta, process variance s2, noise variance nv and trend"""

    def __init__(self, name, theta, s2, nv, X, y, trend, beta0):
        self.name, self.theta, self.s2, self.nv, self.X = name, theta, float(s2), float(nv), np.asarray(X, float)
        self.y = np.asarray(y, float).ravel()
        self.trend = trend
        self.K = self.s2 * ref_corr(name, theta, X, X) + self.nv * np.eye(len(X))
        w = np.linalg.eigvalsh(self.K)
        self.cond = w[-1] / max(w[0], 1e-300) if w[0] > 0 else np.inf
        F = ref_F(trend, X)
        self.est = beta0 is None
        if not np.isfinite(self.cond) or self.cond > 1e12:
            return
        if self.est:
            KiF = np.linalg.solve(self.K, F)
            self.A = F.T @ KiF
            if np.linalg.cond(self.A) > 1e12:
                self.cond = np.inf
                return
            self.beta = np.linalg.solve(self.A, KiF.T @ self.y)
        else:
            self.beta = np.broadcast_to(np.asarray(beta0, float).ravel(), (F.shape[1],))
        self.F = F
        self.w = np.linalg.solve(self.K, self.y - F @ self.beta)

    def predict(self, Z):
        k = self.s2 * ref_corr(self.name, self.theta, Z, self.X)
        f = ref_F(self.trend, Z)
        m = f @ self.beta + k @ self.w
        V = np.linalg.solve(self.K, k.T)
        v = self.s2 - np.einsum("ij,ji->i", k, V)
        if self.est:
            u = self.F.T @ V - f.T
            v = v + np.einsum("ij,ij->j", u, np.linalg.solve(self.A, u))
        return m, np.maximum(v, 0)

    def llf(self):
        r = self.y - self.F @ self.beta
        s, ld = np.linalg.slogdet(self.K)
        return -0.5 * (len(r) * np.log(2 * np.pi) + ld + r @ np.linalg.solve(self.K, r))


# ---- workloads ---------------------------------------------------------------------------------------------------
def data(rng, d, n, form=None):
    lo, hi = (0, 1) if rng.rand() < 0.5 else (-5, 5)
    X = rng.uniform(lo, hi, (n, d))
    if rng.rand() < 0.3:
        X = np.round(X, 1)
    w = rng.randn(d)
    f = rng.randint(4)
    if f == 0:
        y = np.sin(X @ w) + 0.3 * np.cos(3 * X[:, 0])
    elif f == 1:
        y = np.sum((X - X.mean(0)) ** 2, axis=1)
    elif f == 2:
        y = X @ w + 0.1 * rng.randn(n)
    else:
        y = rng.randn(n)
    sd = y.std()
    if sd < 1e-8:
        raise core.Skip("flat data")
    y = (y - y.mean()) / sd  # what the optimizers feed it with
    if rng.rand() < 0.25:
        y = y * 10 ** rng.uniform(-0.5, 1.5) + rng.randn()
    return X, y


def setting(rng, kernels=("squared_exponential", "matern", "absolute_exponential"), noise=None, trends=None):
    d = int(rng.randint(1, 5))
    n = int(rng.randint(max(4, d + 3), 26))
    kern = kernels[rng.randint(len(kernels))]
    trend = (trends or ("none", "constant", "fixed", "linear"))[rng.randint(len(trends or "1234"))]
    if trend == "quadratic" and n < (d + 1) * (d + 2) / 2 + 3:
        trend = "linear"
    noise = noise or ("zero", "default", "small", "large", "estim")[rng.randint(5)]
    return d, n, kern, trend, noise


def model(rng, d, kern, trend, noise, theta0=None, wide=None, **kw):
    from bayes_optim.surrogate import GaussianProcess
    from bayes_optim.surrogate.gaussian_process.trend import constant_trend, linear_trend, quadratic_trend

    beta0 = None
    if trend == "none":
        mean, beta0 = None, 0.0
    elif trend == "constant":
        mean = constant_trend(d)
    elif trend == "fixed":
        beta0 = float(np.round(rng.randn(), 2))
        mean = constant_trend(d, beta=beta0)
    else:
        mean = linear_trend(d) if trend == "linear" else quadratic_trend(d)
    a = dict(zero=dict(nugget=0), default={}, small=dict(nugget=1e-4), large=dict(nugget=float(rng.choice([0.01, 0.1]))),
             estim=dict(noise_estim=True))[noise]
    wide = rng.rand() < 0.5 if wide is None else wide
    tl, tu = (1e-3, 1e2) if wide else (10 ** rng.uniform(-1, 0.5), 10 ** rng.uniform(0.6, 2))
    if kern == "generalized_exponential":
        tl, tu = [tl] * d + [1.0], [tu] * d + [2.0]
    else:
        tl, tu = [tl] * d, [tu] * d
    gp = GaussianProcess(mean=mean, corr=kern, thetaL=tl, thetaU=tu, theta0=theta0,
                         random_start=int(rng.randint(1, 4)), random_state=int(rng.randint(1, 1000)), **a, **kw)
    return gp, beta0, np.array(tl), np.array(tu)


def fit(gp, X, y):
    # the estimation of the hyper-parameters may warn; the library turns warnings into errors at import
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        gp.fit(X, y)
    return gp


def hyper(gp, t=0):
    return (np.asarray(gp.theta_, float), float(np.ravel(gp.sigma2)[t]),
            float(np.ravel(gp.noise_var)[min(t, np.size(gp.noise_var) - 1)]))


def bounds_ok(mon, gp, tl, tu):
    th = np.asarray(gp.theta_, float)
    mon.check(th.shape == tl.shape and np.all(np.isfinite(th)) and np.all(th >= tl * (1 - 1e-9)) and np.all(th <= tu * (1 + 1e-9)),
              "theta-bounds", lambda: f"theta {th} outside {tl} {tu}")
    s2, nv = np.ravel(gp.sigma2), np.ravel(gp.noise_var)
    mon.check(np.all(s2 > 0) and np.all(np.isfinite(s2)) and np.all(nv >= 0), "variances", lambda: f"{s2} {nv}")


def close(a, b, tol):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    return a.shape == b.shape and np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol)


def test_points(rng, X, m=8):
    lo, hi = X.min(0), X.max(0)
    Z = rng.uniform(lo - 0.3 * (hi - lo) - 1e-3, hi + 0.3 * (hi - lo) + 1e-3, (m, X.shape[1]))
    return np.r_[Z, X[rng.randint(len(X), size=3)]]


def tolerance(ref, y):
    """rounding errors of a solve are proportional to the condition number"""
    return 1e-7 + 50 * ref.cond * np.finfo(float).eps


def run(kind, rng, mon):
    if kind == "kernels":
        return kernels(rng, mon)
    if kind == "targets":
        return targets(rng, mon)
    if kind == "sklearn":
        return sklearn_wrapper(rng, mon)
    if kind == "start":
        return start(rng, mon)
    if kind == "interpolation":
        return interpolation(rng, mon)
    kern_set = ("squared_exponential", "matern", "absolute_exponential")
    trends = None if kind == "gradient" else ("none", "constant", "fixed", "linear", "quadratic")
    d, n, kern, trend, noise = setting(rng, kern_set, trends=trends)
    X, y = data(rng, d, n)
    if noise in ("small", "large", "estim") and rng.rand() < 0.4:  # repeated points
        X[1] = X[0]
    gp, beta0, tl, tu = model(rng, d, kern, trend, noise, wide=False if kind == "gradient" else None)
    form = rng.randint(3)
    Xin = X if form == 0 else X.tolist()
    yin = y if form != 1 else y.reshape(-1, 1)
    X0, y0 = X.copy(), y.copy()
    fit(gp, Xin, yin)
    mon.event("models fitted")
    mon.note(d=d, n=n, kernel=kern, trend=trend, noise=noise, theta=np.asarray(gp.theta_).tolist())
    mon.state(kind, d, n, kern, trend, noise)
    mon.check(np.array_equal(X, X0) and np.array_equal(y, y0), "data-modified", "training data were modified")
    bounds_ok(mon, gp, tl, tu)
    Z = test_points(rng, X)
    if kind == "batching":
        return batching(rng, mon, gp, Z)
    th, s2, nv = hyper(gp)
    ref = Ref(kern, th, s2, nv, X, y, trend, beta0)
    if ref.cond > 1e10:
        m, v = gp.predict(Z, eval_MSE=True)
        mon.check(np.all(np.isfinite(m)) and np.all(np.asarray(v) >= 0), "negative-variance", lambda: f"{m} {v}")
        mon.event("ill-conditioned models, equations not compared")
        return
    scale = max(1.0, np.abs(y).max(), np.abs(y - ref.F @ ref.beta).max())
    tol = tolerance(ref, y) * scale
    if kind == "equations":
        m, v = gp.predict(Z, eval_MSE=True)
        m1 = gp.predict(Z)
        rm, rv = ref.predict(Z)
        mon.event("predictions compared", len(Z))
        mon.check(close(m, rm, tol * 10), "mean", lambda: f"{kern} {trend} {noise}: {np.ravel(m)} != {rm} (tol {tol})")
        mon.check(close(m1, rm, tol * 10), "mean-only", lambda: f"{kern} {trend} {noise}: {np.ravel(m1)} != {rm}")
        tv = tolerance(ref, y) * max(s2, 1e-300) * 10
        big = max(1.0, float(np.max(rv)) / max(s2, 1e-300))
        mon.check(np.all(np.asarray(v) >= 0), "negative-variance", lambda: f"{v}")
        mon.check(close(v, rv, tv * big), "variance", lambda: f"{kern} {trend} {noise}: {np.ravel(v)} != {rv} (tol {tv * big})")
        if ref.est:
            mon.check(close(gp.mean.beta, ref.beta, tol * 1e3), "beta", lambda: f"{gp.mean.beta} {ref.beta}")
        if not (ref.est and nv == 0):  # the library corrects sigma2 for the estimated trend there
            l = ref.llf()
            mon.check(abs(gp.log_likelihood_ - l) <= 1e-6 * (1 + abs(l)) + ref.cond * 1e-13, "likelihood",
                      lambda: f"{kern} {trend} {noise} reported {gp.log_likelihood_} real {l}")
        return
    gradients(rng, mon, gp, ref, Z, X, kern, trend, noise, s2, scale)


def numdiff(f, x, h):
    out = []
    for i in range(len(x)):
        e = np.zeros(len(x))
        e[i] = h
        d1 = (f(x + e) - f(x - e)) / (2 * h)
        d2 = (f(x + e / 2) - f(x - e / 2)) / h
        out.append((4 * d2 - d1) / 3)
    return np.array(out)


def gradients(rng, mon, gp, ref, Z, X, kern, trend, noise, s2, scale):
    if ref.cond > 1e7:
        mon.check(True, "cond")
        mon.event("ill-conditioned models, gradients not compared")
        return
    h = 1e-4
    for x in Z[:8]:
        if kern == "absolute_exponential" and np.min(np.abs(X - x)) < 10 * h:
            continue
        g, gv = gp.gradient(x.reshape(1, -1))
        g, gv = np.ravel(g), np.ravel(gv)
        fm = lambda z: float(ref.predict(z.reshape(1, -1))[0][0])
        fv = lambda z: float(ref.predict(z.reshape(1, -1))[1][0])
        nm, nvv = numdiff(fm, x, h), numdiff(fv, x, h)
        rough = 1.0 + np.abs(ref.theta).max()
        near = kern == "matern" and np.min(np.sqrt(np.sum((X - x) ** 2, 1))) < 20 * h
        tol = (1e-5 if not near else 2e-2) * scale * rough
        mon.event("gradients compared")
        mon.check(close(g, nm, tol + 1e-5 * np.abs(nm).max()), "mean-gradient", lambda: f"{kern} {trend} {noise}: {g} != {nm} at {x}")
        if fv(x) > 1e-6 * s2 and s2 > 1e-4 * (s2 + ref.nv):
            tol = (1e-5 if not near else 2e-2) * s2 * rough * 4
            mon.check(close(gv, nvv, tol + 1e-4 * np.abs(nvv).max()), "variance-gradient",
                      lambda: f"{kern} {trend} {noise}: {gv} != {nvv} at {x} (s2={s2})")
    if kern == "squared_exponential":
        x = Z[rng.randint(len(Z))]
        H = np.asarray(gp.Hessian(x.reshape(1, -1)), float)
        fm = lambda z: float(ref.predict(z.reshape(1, -1))[0][0])
        num = np.array([numdiff(lambda z: numdiff(fm, z, 1e-3)[i], x, 1e-3) for i in range(len(x))])
        t = 1e-4 * scale * (1 + ref.theta.max()) ** 2 + 1e-4 * np.abs(num).max() + ref.cond * 1e-9
        mon.event("Hessians compared")
        mon.check(H.shape == num.shape and np.all(np.abs(H - num) <= t), "mean-Hessian", lambda: f"{trend} {noise}: {H} != {num} at {x}")
    # at a training point the kernel has zero slope w.r.t. that point itself
    if kern != "absolute_exponential":
        x = X[rng.randint(len(X))]
        g = np.ravel(gp.gradient(x.reshape(1, -1))[0])
        nm = numdiff(lambda z: float(ref.predict(z.reshape(1, -1))[0][0]), x, 1e-5)
        mon.event("gradients at training points")
        mon.check(close(g, nm, 1e-3 * scale * (1 + np.abs(ref.theta).max())), "mean-gradient-at-training-point",
                  lambda: f"{kern} {trend} {noise}: {g} != {nm} at {x}")
    mon.check(True, "reached")


def batching(rng, mon, gp, Z):
    m, v = [np.asarray(a, float).reshape(len(Z), -1) for a in gp.predict(Z, eval_MSE=True)]
    mon.check(np.all(v >= 0) and np.all(np.isfinite(m)), "negative-variance", lambda: f"{v}")
    s = np.abs(m).max() + 1
    rows = [gp.predict(z.reshape(1, -1), eval_MSE=True) for z in Z]
    m1 = np.array([np.ravel(r[0]) for r in rows])
    v1 = np.array([np.ravel(r[1]) for r in rows])
    tol = 1e-6  # an ill-conditioned model amplifies the rounding of differently blocked products
    mon.event("batched predictions", len(Z))
    mon.check(close(m1, m, tol * s) and close(v1, v, tol * (1 + v.max())), "one-by-one", lambda: f"{m.ravel()} {m1.ravel()} {v.ravel()} {v1.ravel()}")
    p = rng.permutation(len(Z))
    mp, vp = gp.predict(Z[p], eval_MSE=True)
    mon.check(close(mp, m[p], tol * s) and close(vp, v[p], tol * (1 + v.max())), "permuted", lambda: f"{m[p]} {mp}")
    for b in sorted({1, 2, 3, len(Z) - 1, len(Z), len(Z) + 3}):
        mb, vb = gp.predict(Z, eval_MSE=True, batch_size=int(b))
        mb1 = gp.predict(Z, batch_size=int(b))
        mon.check(close(mb, m, tol * s) and close(vb, v, tol * (1 + v.max())) and close(mb1, m, tol * s), "batch-size",
                  lambda: f"batch size {b} of {len(Z)}: {m.ravel()} {np.ravel(mb)} {np.ravel(mb1)}")


def interpolation(rng, mon):
    d, n, kern, trend, noise = setting(rng, noise="zero", trends=("none", "constant", "fixed", "linear", "quadratic"))
    X, y = data(rng, d, n)
    gp, beta0, tl, tu = model(rng, d, kern, trend, "zero", wide=False)
    if min(np.min(np.sum((X - x) ** 2, 1)[np.arange(n) != i]) for i, x in enumerate(X)) < 1e-6:
        raise core.Skip("repeated points")
    fit(gp, X, y)
    th, s2, nv = hyper(gp)
    mon.note(d=d, n=n, kernel=kern, trend=trend, noise_var=nv)
    bounds_ok(mon, gp, tl, tu)
    if nv > 0:
        mon.event("model turned noisy by the library")
        return
    ref = Ref(kern, th, s2, nv, X, y, trend, beta0)
    if ref.cond > 1e9:
        mon.event("ill-conditioned")
        return
    m, v = gp.predict(X, eval_MSE=True)
    t = tolerance(ref, y)
    mon.event("training points reproduced", n)
    mon.state("interp", d, n, kern, trend)
    mon.check(close(m, y, 100 * t * (1 + np.abs(y).max())), "interpolation", lambda: f"{kern} {trend}: {np.ravel(m)} != {y}")
    mon.check(close(v, np.zeros(n), 100 * t * s2), "variance-at-data", lambda: f"{kern} {trend}: {np.ravel(v)}")
    far = X.max(0) + 1e3
    mf, vf = gp.predict(far.reshape(1, -1), eval_MSE=True)
    mon.check(np.ravel(vf)[0] >= s2 * (1 - 1e-6), "variance-far-away", lambda: f"{vf} < {s2}")


def start(rng, mon):
    """the likelihood is never below the one at the start"""
    d, n, kern, trend, noise = setting(rng, trends=("none", "fixed", "constant"))
    noise = ("zero", "default", "small", "large")[rng.randint(4)]
    X, y = data(rng, d, n)
    tl, tu = 1e-3, 1e2
    th0 = (10 ** rng.uniform(-2.9, 1.9, d)).tolist()
    gp, beta0, tl, tu = model(rng, d, kern, trend, noise, theta0=th0, wide=True)
    seen = []
    orig = getattr(gp, "log_likelihood_concentrated", None)
    if orig is not None:
        def spy(par, *a, **k):
            out = orig(par, *a, **k)
            v = out[0] if isinstance(out, tuple) else out
            seen.append((np.array(par, float), float(np.sum(v)), float(np.ravel(gp.noise_var)[0])))
            return out
        gp.log_likelihood_concentrated = spy
    fit(gp, X, y)
    th, s2, nv = hyper(gp)
    mon.note(d=d, n=n, kernel=kern, trend=trend, noise=noise, theta0=th0, theta=th.tolist(), llf=float(gp.log_likelihood_))
    mon.state("start", d, n, kern, trend, noise)
    bounds_ok(mon, gp, tl, tu)
    mon.check(np.isfinite(gp.log_likelihood_), "finite-likelihood", lambda: f"{gp.log_likelihood_}")
    same = [s for s in seen if s[2] == (seen[-1][2] if seen else 0)]
    if same and np.isfinite(same[0][1]):
        mon.event("starting likelihoods compared")
        mon.check(gp.log_likelihood_ >= same[0][1] - 1e-6 * (1 + abs(same[0][1])), "below-start",
                  lambda: f"{kern} {trend} {noise}: {gp.log_likelihood_} < {same[0][1]} at the start {same[0][0]}")
        best = max(s[1] for s in same)
        mon.event("final likelihood within 1e-3 of the best one seen", int(gp.log_likelihood_ >= best - 1e-3 * (1 + abs(best))))
    if noise == "zero" and nv == 0 and trend != "constant":
        r0 = ref_corr(kern, th0, X, X)
        w = np.linalg.eigvalsh(r0)
        if w[0] > 1e-8 * w[-1]:
            r = y - (beta0 or 0.0)
            q = r @ np.linalg.solve(r0, r) / n
            l0 = -0.5 * (n * np.log(2 * np.pi * q) + np.linalg.slogdet(r0)[1] + n)
            if l0 <= 0:
                mon.event("starting likelihoods recomputed")
                mon.check(gp.log_likelihood_ >= l0 - 1e-6 * (1 + abs(l0)), "below-start",
                          lambda: f"{kern} {trend}: fitted {gp.log_likelihood_} < {l0} at theta0 {th0}")


def targets(rng, mon):
    """several targets share the correlation; each is predicted by its own kriging equations"""
    d, n, kern, _, noise = setting(rng, trends=("none",), noise="zero")
    X, y = data(rng, d, n)
    k = int(rng.randint(2, 4))
    Y = np.c_[tuple([y] + [rng.permutation(y) for _ in range(k - 1)])]
    gp, beta0, tl, tu = model(rng, d, kern, "none", "zero" if rng.rand() < 0.5 else "estim", wide=False)
    fit(gp, X, Y)
    bounds_ok(mon, gp, tl, tu)
    Z = test_points(rng, X)
    m, v = gp.predict(Z, eval_MSE=True)
    mon.note(d=d, n=n, kernel=kern, targets=k)
    mon.state("targets", d, n, kern, k)
    mon.check(np.shape(m) == (len(Z), k) and np.shape(v) == (len(Z), k), "target-shape", lambda: f"{np.shape(m)} {np.shape(v)}")
    for t in range(k):
        th, s2, nv = hyper(gp, t)
        ref = Ref(kern, th, s2, nv, X, Y[:, t], "none", 0.0)
        if ref.cond > 1e9:
            mon.event("ill-conditioned")
            continue
        rm, rv = ref.predict(Z)
        tol = tolerance(ref, y) * 20 * (1 + np.abs(Y).max())
        mon.event("target predictions compared", len(Z))
        mon.check(close(m[:, t], rm, tol), "target-mean", lambda: f"target {t}: {m[:, t]} {rm}")
        mon.check(close(v[:, t], rv, tol * max(1, s2)), "target-variance", lambda: f"target {t}: {v[:, t]} {rv}")


def kernels(rng, mon):
    from bayes_optim.surrogate.gaussian_process import kernel as K

    d, n = int(rng.randint(1, 6)), int(rng.randint(2, 20))
    X = rng.uniform(-3, 3, (n, d))
    if rng.rand() < 0.5:
        X = np.round(X)
    name = ("squared_exponential", "matern", "absolute_exponential", "generalized_exponential", "pure_nugget")[rng.randint(5)]
    theta = 10 ** rng.uniform(-2, 1.5, d)
    iso = rng.rand() < 0.3 and name not in ("generalized_exponential", "pure_nugget")
    th = np.repeat(theta[0], d) if iso else theta
    arg = theta[:1] if iso else theta
    D = np.abs(X[:, None, :] - X[None, :, :]).reshape(-1, d)
    kw = {}
    if name == "generalized_exponential":
        arg = np.r_[theta, rng.uniform(0.3, 2)]
        want = ref_corr(name, arg, X, X)
    elif name == "pure_nugget":
        want = np.array([[float(np.array_equal(a, b)) for b in X] for a in X])
    elif name == "matern":
        nu = (0.5, 1.5, 2.5)[rng.randint(3)]
        r = np.sqrt(np.einsum("ijk,k->ij", (X[:, None] - X[None]) ** 2, th))
        s = np.sqrt(2 * nu) * r
        want = np.exp(-s) * {0.5: 1, 1.5: 1 + s, 2.5: 1 + s + s**2 / 3}[nu]
        if nu != 1.5 or rng.rand() < 0.5:
            kw = dict(nu=nu)
    else:
        want = ref_corr(name, th, X, X)
    got = np.asarray(getattr(K, name)(arg, D, **kw), float).reshape(n, n)
    mon.note(kernel=name, d=d, n=n, theta=np.ravel(arg).tolist(), **kw)
    mon.state("kernel", name, d, n, iso, tuple(kw.values()))
    mon.event("kernel matrices compared")
    mon.check(close(got, want, 1e-10), f"kernel-{name}", lambda: f"theta {arg} {kw}: {got} != {want}")
    mon.check(np.allclose(got, got.T, atol=1e-12), "kernel-symmetric", lambda: f"{got}")
    mon.check(np.allclose(np.diag(got), 1, atol=1e-12), "kernel-diagonal", lambda: f"{np.diag(got)}")
    mon.check(np.linalg.eigvalsh((got + got.T) / 2)[0] > -1e-8 * n, "kernel-psd", lambda: f"{np.linalg.eigvalsh(got)[0]}")
    if name in ("squared_exponential", "matern", "absolute_exponential") and n >= d + 4:
        gp, b0, tl, tu = model(rng, d, name, "none", "small", wide=True)
        try:
            fit(gp, X, rng.randn(n))
        except np.linalg.LinAlgError:
            raise core.Skip("singular")
        A, B = rng.uniform(-3, 3, (3, d)), rng.uniform(-3, 3, (5, d))
        s2 = float(np.ravel(gp.sigma2)[0])
        R = ref_corr(name, gp.theta_, A, B)
        mon.check(close(gp.prior_cov(A, B, corr=True), R, 1e-9), "prior-correlation", "prior correlation of two point sets")
        mon.check(close(gp.prior_cov(A, B), s2 * R, 1e-9 * (1 + s2)), "prior-covariance", "prior covariance of two point sets")
        mon.check(close(gp.prior_cov(A), s2 * ref_corr(name, gp.theta_, A, A), 1e-9 * (1 + s2)), "prior-covariance-self", "")


def stationary(nu, d):
    if nu == 0.5:
        return np.exp(-d)
    if nu == 1.5:
        return (1 + np.sqrt(3) * d) * np.exp(-np.sqrt(3) * d)
    if nu == 2.5:
        return (1 + np.sqrt(5) * d + 5 * d**2 / 3) * np.exp(-np.sqrt(5) * d)
    return np.exp(-0.5 * d**2)


def sklearn_wrapper(rng, mon):
    """the alternative surrogate built on scikit-learn: one independent process per objective"""
    from sklearn.gaussian_process import GaussianProcessRegressor
    from sklearn.gaussian_process.kernels import RBF, Matern, WhiteKernel

    from bayes_optim.search_space import RealSpace
    from bayes_optim.surrogate.gaussian_process import GaussianProcessSklearn

    d, m = int(rng.randint(1, 4)), int(rng.choice([1, 1, 2, 3]))
    n = int(rng.randint(5, 16))
    lo = rng.uniform(-5, 0, d)
    hi = lo + 10 ** rng.uniform(-0.5, 1.5, d)
    X = lo + (hi - lo) * rng.rand(n, d)
    Y = np.array([np.sin(((X - lo) / (hi - lo)) @ rng.randn(d) * 4) * 10 ** rng.uniform(-1, 1) + rng.randn() for _ in range(m)]).T
    if np.min(Y.std(0)) < 1e-3:
        raise core.Skip("flat data")
    lb = (1e-2, 1e2) if rng.rand() < 0.6 else (1e-10, 1e10)
    gp = GaussianProcessSklearn(RealSpace([list(b) for b in zip(lo, hi)]), n_obj=m, n_restarts_optimizer=int(rng.randint(0, 3)),
                                length_scale_bounds=lb)
    yin = Y[:, 0] if m == 1 and rng.rand() < 0.5 else Y
    X0, Y0 = X.copy(), Y.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        gp.fit(X, yin)
        mon.event("models fitted")
        mon.state("sklearn", d, m, n, lb)
        mon.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), "sklearn-data-modified", "training data were modified")
        mon.check(gp.is_fitted, "sklearn-fitted", "not marked as fitted")
        Z = lo + (hi - lo) * rng.uniform(-0.1, 1.1, (5, d))
        mu, v = gp.predict(Z, eval_MSE=True)
        mu1 = gp.predict(Z)
        dm, dv = gp.gradient(Z)
        dm2, dv2 = gp.gradient(Z)  # the inverse is kept from the first call
    mon.check(np.shape(mu) == np.shape(v) == np.shape(mu1) == (5, m) and np.shape(dm) == np.shape(dv) == (m, 5, d), "sklearn-shape",
              lambda: f"{np.shape(mu)} {np.shape(v)} {np.shape(dm)} {np.shape(dv)}")
    mon.check(np.all(v >= 0) and np.all(np.isfinite(mu)), "sklearn-negative-variance", lambda: f"{v}")
    mon.check(close(mu1, mu, 1e-9 * (1 + np.abs(mu).max())), "sklearn-mean-only", lambda: f"{mu1} {mu}")
    mon.check(np.array_equal(dm, dm2) and np.array_equal(dv, dv2), "sklearn-gradient-repeat", "gradient changes when asked again")
    for i in range(m):
        if not hasattr(gp, "_gprs"):
            break
        k = gp._gprs[i].kernel_
        s2, ls, nv = np.exp(k.k1.k1.theta)[0], np.exp(k.k1.k2.theta), np.exp(k.k2.theta)[0]
        r = (hi - lo)
        mon.check(np.all(ls >= lb[0] * r * (1 - 1e-6)) and np.all(ls <= lb[1] * r * (1 + 1e-6)), "sklearn-length-bounds",
                  lambda: f"length scales {ls} outside {lb} times the ranges {r}")
        dist = lambda A, B: np.sqrt(np.sum(((A[:, None, :] - B[None, :, :]) / ls) ** 2, axis=2))
        K = s2 * stationary(1.5, dist(X, X)) + (nv + 1e-8) * np.eye(n)
        cond = np.linalg.cond(K)
        if cond > 1e8:
            mon.event("ill-conditioned models, equations not compared")
            continue
        sc, off = Y[:, i].std(), Y[:, i].mean()
        t = (Y[:, i] - off) / sc
        w, Ki = np.linalg.solve(K, t), np.linalg.inv(K)

        def ref(A):
            kk = s2 * stationary(1.5, dist(A, X))
            return sc * kk @ w + off, sc**2 * (s2 + nv - np.einsum("ij,jk,ik->i", kk, Ki, kk))

        rm, rv = ref(Z)
        tol = 1e-6 + cond * 1e-13
        mon.event("predictions compared", 5)
        mon.check(close(mu[:, i], rm, tol * (sc + abs(off)) * 10), "sklearn-mean", lambda: f"objective {i}: {mu[:, i]} != {rm}")
        mon.check(close(v[:, i], rv, tol * sc**2 * (s2 + nv) * 10), "sklearn-variance", lambda: f"objective {i}: {v[:, i]} != {rv}")
        for j, z in enumerate(Z):
            h = 1e-4 * np.minimum(ls, r)
            if np.min(dist(z[None], X)) < 1e-2 or np.max(h / ls) < 1e-9:
                continue
            nm, nvv = np.empty(d), np.empty(d)
            for c in range(d):
                e = np.zeros(d)
                e[c] = h[c]
                a, b = ref((z + e)[None]), ref((z - e)[None])
                nm[c], nvv[c] = (a[0][0] - b[0][0]) / (2 * h[c]), (a[1][0] - b[1][0]) / (2 * h[c])
            mon.event("gradients compared")
            g = np.maximum(np.abs(nm), 1.0 / ls * sc * np.sqrt(s2))
            noise = cond * 1e-14 * (sc**2 * (s2 + nv) + sc * (1 + np.sqrt(s2)) + abs(off)) / h  # of the differences
            mon.check(np.all(np.abs(dm[i, j] - nm) <= (1e-4 + cond * 1e-11) * g + noise), "sklearn-mean-gradient", lambda: f"objective {i}: {dm[i, j]} != {nm} at {z}")
            g = np.maximum(np.abs(nvv), 1.0 / ls * sc**2 * s2)
            mon.check(np.all(np.abs(dv[i, j] - nvv) <= (1e-4 + cond * 1e-11) * g + noise), "sklearn-variance-gradient",
                      lambda: f"objective {i}: {dv[i, j]} != {nvv} at {z}")
    # the derivative of the kernel, for each kernel the wrapper declares
    nu = float(rng.choice([0.5, 1.5, 2.5, np.inf]))
    ls = (hi - lo) * 10 ** rng.uniform(-1, 0.5, d)
    kern = Matern(length_scale=ls, nu=nu) if np.isfinite(nu) else RBF(length_scale=ls)
    s2 = 10 ** rng.uniform(-1, 1)
    est = GaussianProcessRegressor(s2 * kern + WhiteKernel(0.1), optimizer=None).fit(X, Y[:, 0])
    Z = lo + (hi - lo) * rng.rand(3, d)
    dk = gp.kernel_dx(est, Z)
    mon.check(np.shape(dk) == (3, d, n), "sklearn-kernel-shape", lambda: f"{np.shape(dk)}")
    for c in range(d):
        e = np.zeros(d)
        e[c] = 1e-5 * ls[c]
        f = lambda A: s2 * stationary(nu, np.sqrt(np.sum(((A[:, None, :] - X[None, :, :]) / ls) ** 2, axis=2)))
        num = (f(Z + e) - f(Z - e)) / (2 * e[c])
        far = np.sqrt(np.sum(((Z[:, None, :] - X[None, :, :]) / ls) ** 2, axis=2)) > 1e-2
        mon.event("kernel derivatives compared", int(far.sum()))
        mon.check(np.all(np.abs(dk[:, c, :] - num)[far] <= 1e-5 * s2 / ls[c]), "sklearn-kernel-gradient",
                  lambda: f"nu={nu}: {dk[:, c, :]} != {num}")
