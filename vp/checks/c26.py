"""C26  PCA-assisted optimization: linear transformation, penalized acquisition and the optimizer built on them."""
import os
import warnings

import numpy as np

from bayes_optim.extension import PCABO, LinearTransform, penalized_acquisition
from bayes_optim.search_space import RealSpace


from ..core import Skip

ID = "C26"
LEVEL = "exploration"
RULE = ("seeded data sets through LinearTransform, points inside and outside the box through the penalized acquisition, and "
        "ask/tell histories, runs and checkpoints of PCABO; distinct situation = (kind, dimension, components, direction, step)")
TIMEOUT = 150
HEAVY = ("history", "run")


def kinds(tier):
    k = dict(transform=150, penalty=150, history=32, run=14)
    return k if tier == "quick" else {a: 14 * b for a, b in k.items()}


def box(rng, d):
    lo = np.where(rng.rand(d) < 0.5, rng.uniform(-5, 0, d), rng.uniform(-100, 100, d))
    return lo, lo + 10 ** rng.uniform(-0.5, 1.5, d)


def ranks(y):
    y = np.asarray(y)
    return np.array([np.sum(y < a) + 0.5 * (np.sum(y == a) + 1) for a in y])


def ref_directions(X, y, minimize):
    """principal directions of the data centered and weighted by the rank of the objective value"""
    Xc = X - X.mean(0)
    w = np.log(len(y)) - np.log(ranks(y if minimize else -np.asarray(y)))
    Z = Xc * (w / w.sum()).reshape(-1, 1)
    C = np.cov(Z.T, ddof=1).reshape(X.shape[1], X.shape[1])
    ev, V = np.linalg.eigh(C)
    o = np.argsort(ev)[::-1]
    return ev[o], V[:, o]


def data(rng, d=None, n=None):
    d = d or int(rng.randint(2, 8))
    n = n or int(rng.randint(d + 2, 4 * d + 6))
    lo, hi = box(rng, d)
    X = lo + (hi - lo) * rng.rand(n, d)
    y = rng.randn(n) if rng.rand() < 0.7 else np.round(rng.randn(n), 0)
    if len(set(y)) < 2:
        y[0] += 1
    return lo, hi, X, y


def run_transform(rng, mon):
    lo, hi, X, y = data(rng)
    d = X.shape[1]
    minimize = bool(rng.randint(2))
    nc = [None, None, int(rng.randint(1, d + 1)), float(rng.choice([0.5, 0.9, 0.99]))][rng.randint(4)]
    t = LinearTransform(n_components=nc, svd_solver="full", minimize=minimize)
    X0, y0 = X.copy(), y.copy()
    Z = t.fit_transform(X, y)
    sc = np.max(np.abs(X)) + 1
    mon.check(np.array_equal(X, X0) and np.array_equal(y, y0), "data-modified", lambda: "fit_transform changed its arguments")
    t2 = LinearTransform(n_components=nc, svd_solver="full", minimize=minimize)
    t2.fit(X, y)
    P = lo + (hi - lo) * rng.rand(6, d)
    mon.check(np.allclose(Z, t2.transform(X), atol=1e-8 * sc) and np.allclose(t.transform(P), t2.transform(P), atol=1e-8 * sc),
              "fit-transform-differs", lambda: "fit_transform(X, y) differs from fit(X, y).transform(X)")
    k = Z.shape[1]
    ev, V = ref_directions(X, y, minimize)
    if isinstance(nc, int):
        mon.check(k == nc, "component-count", lambda: f"{nc} components requested, {k} produced")
    elif nc is None:
        mon.check(k == d, "component-count", lambda: f"no reduction requested, but {d} -> {k}")
    else:
        fr = np.cumsum(ev) / ev.sum()
        want = int(np.sum(fr < nc) + 1)
        if np.min(np.abs(fr - nc)) > 1e-6:
            mon.check(k == want, "component-count", lambda: f"{nc} of the variance needs {want} components, got {k}")
    # images span the leading directions
    gap = k == d or (ev[k - 1] - ev[k]) > 1e-6 * ev[0]
    R = t.inverse_transform(t.transform(P))
    j = int(rng.randint(len(P)))  # one point is mapped like a member of a batch, as a row of its own and as a vector
    Zp = t.transform(P)
    mon.check(np.allclose(t.transform(P[j:j + 1]), Zp[j:j + 1], atol=1e-8 * sc) and np.allclose(t.inverse_transform(Zp[j:j + 1]), R[j:j + 1], atol=1e-8 * sc)
              and np.allclose(np.ravel(t.inverse_transform(Zp[j])), R[j], atol=1e-8 * sc), "one-point-mapped-differently",
              lambda: f"batch {R[j]}, alone {t.inverse_transform(Zp[j:j + 1])}, vector {t.inverse_transform(Zp[j])}")
    if k == d:
        mon.check(np.allclose(R, P, atol=1e-7 * sc), "round-trip", lambda: f"max deviation {np.max(np.abs(R - P))}")
    mon.check(np.allclose(t.transform(R), t.transform(P), atol=1e-7 * sc), "round-trip-of-images",
              lambda: "mapping an image back and forth changes it")
    D = R - R[0]
    W = t.transform(P)
    mon.check(np.allclose(np.linalg.norm(D, axis=1), np.linalg.norm(W - W[0], axis=1), rtol=1e-6, atol=1e-7 * sc),
              "distances-changed", lambda: "the transformation does not keep the distances of the projected points")
    if gap:
        B = V[:, :k]
        want = (P - P[0]) @ B @ B.T
        mon.check(np.allclose(D, want, atol=1e-5 * sc), "other-directions",
                  lambda: f"the reduced space is not spanned by the {k} leading directions of the rank-weighted data "
                          f"(deviation {np.max(np.abs(D - want))}, minimize={minimize})")
    mon.event("transforms")
    mon.state("transform", d, k, minimize, nc is None)


def run_penalty(rng, mon):
    lo, hi, X, y = data(rng)
    d = X.shape[1]
    k = int(rng.randint(1, d + 1))
    t = LinearTransform(n_components=k, svd_solver="full", minimize=True)
    t.fit(X, y)
    calls = []

    def acq(x):
        calls.append(np.array(x, float))
        return (1.25, np.full((k, 1), 0.5)) if dx else 1.25

    bounds = [(float(a), float(b)) for a, b in zip(lo, hi)]
    total = 0
    for _ in range(12):
        dx = bool(rng.randint(2))
        base = t.transform((lo + (hi - lo) * rng.rand(1, d)))[0]
        z = base + rng.randn(k) * float(rng.choice([0, 0.3, 3])) * (hi - lo).mean()
        x = t.inverse_transform(z)
        below, above = np.maximum(lo - x, 0), np.maximum(x - hi, 0)
        viol = below.sum() + above.sum()
        edge = np.min(np.minimum(np.abs(x - lo), np.abs(x - hi)))
        if edge < 1e-6:
            continue
        total += 1
        n0 = len(calls)
        out = penalized_acquisition(z, acq, bounds, t, dx)
        if viol == 0:
            v = out[0] if dx else out
            mon.check(len(calls) > n0 and np.allclose(calls[-1], z) and v == 1.25 and (not dx or np.allclose(out[1], 0.5)),
                      "inside-not-the-acquisition", lambda: f"{x} lies in the box, got {out}")
        else:
            v = float(np.ravel(out[0] if dx else out)[0])
            mon.check(abs(v + viol) <= 1e-9 * (1 + viol), "outside-not-the-violation",
                      lambda: f"{x} leaves the box [{lo}, {hi}] by {viol} in total, got {v}")
            if dx:
                g = np.ravel(out[1])
                num = np.zeros(k)
                for i in range(k):
                    e = np.zeros(k)
                    e[i] = 1e-7
                    num[i] = -(np.sum(np.maximum(lo - t.inverse_transform(z + e), 0) + np.maximum(t.inverse_transform(z + e) - hi, 0))
                               - np.sum(np.maximum(lo - t.inverse_transform(z - e), 0) + np.maximum(t.inverse_transform(z - e) - hi, 0))) / 2e-7
                mon.check(g.shape == (k,) and np.allclose(g, num, atol=1e-3), "penalty-gradient", lambda: f"{g} instead of {num} at {x}")
        mon.state("penalty", d, k, int(np.sum(below > 0)), int(np.sum(above > 0)), dx)
    mon.event("penalized_points", total)
    if total == 0:
        raise Skip("all points at the edge")


def build(rng, f, **over):
    d = int(rng.randint(2, 9))
    lo, hi = box(rng, d)
    if rng.rand() < 0.6:
        lo, hi = np.full(d, -5.0), np.full(d, 5.0)
    minimize = bool(rng.randint(2))
    nc = [None, int(rng.randint(1, d + 1)), float(rng.choice([0.5, 0.9, 0.95]))][rng.randint(3)]
    c = lo + (hi - lo) * rng.rand(d)
    w = rng.rand(d) / (hi - lo) ** 2
    s = 1.0 if minimize else -1.0
    f.update(f=lambda x: float(s * np.sum(w * (np.asarray(x, float) - c) ** 2)))
    kw = dict(DoE_size=int(rng.randint(d + 2, d + 8)), max_FEs=60, n_components=nc, minimize=minimize,
              acquisition_fun=["EI", "EI", "PI", "MGFI"][rng.randint(4)],
              acquisition_optimization=dict(max_FEs=100, n_restart=3, wait_iter=3))
    if rng.rand() < 0.6:
        kw["acquisition_optimization"]["optimizer"] = ["BFGS", "OnePlusOne_Cholesky_CMA", "MIES"][rng.randint(3)]
    kw.update(over)
    names = [f"v{i}" for i in range(d)][:: -1]
    opt = PCABO(search_space=RealSpace([[float(a), float(b)] for a, b in zip(lo, hi)], var_name=names), obj_fun=f["f"], **kw)
    return opt, lo, hi, minimize, nc, kw


def legal(mon, lo, hi, X, step):
    for x in X:
        ok = len(x) == len(lo) and all(isinstance(a, (float, np.floating)) and np.isfinite(a) for a in x)
        mon.check(ok, "malformed-suggestion", lambda: f"{x!r} ({type(x).__name__}) does not assign {len(lo)} real variables")
        if ok:
            x = np.asarray(x, float)
            v = np.max(np.maximum(lo - x, x - hi))
            mon.check(v <= 1e-8 * (1 + np.max(np.abs(np.r_[lo, hi]))), "suggestion-outside-the-box",
                      lambda: f"{x} leaves [{lo}, {hi}] by {v} at step {step}")


def run_history(rng, mon, scratch):
    F = {}
    np.random.seed(int(rng.randint(1, 10 ** 6)))
    warm = rng.rand() < 0.2
    opt, lo, hi, minimize, nc, kw = build(rng, F)
    f, d = F["f"], len(lo)
    mon.note(lo=lo.tolist(), hi=hi.tolist(), minimize=minimize, components=nc, **{k: v for k, v in kw.items() if k not in ("n_components", "minimize")})
    TX, TY, count = [], [], 0
    best = None
    n_hist = 0
    if warm:
        W = (lo + (hi - lo) * rng.rand(d + 3, d)).tolist()
        wy = [f(x) for x in W]
        kw["warm_data"] = (W, wy)
        opt = PCABO(search_space=RealSpace([[float(a), float(b)] for a, b in zip(lo, hi)]), obj_fun=f, **kw)
        TX, TY = [list(x) for x in W], list(wy)
        t = LinearTransform(n_components=nc, svd_solver="full", minimize=minimize).fit(np.array(TX), np.array(TY))
    for step in range(int(rng.randint(2, 5))):
        X = opt.ask()
        n = kw["DoE_size"] if not TX else 1
        mon.check(len(X) == n, "batch-size", lambda: f"{len(X)} points at step {step}, expected {n}")
        legal(mon, lo, hi, X, step)
        X = [list(map(float, x)) for x in X]
        if TX:  # model-based suggestions are images of points of the reduced space
            for x in np.array(X):
                if np.all((x > lo) & (x < hi)):
                    back = np.ravel(t.inverse_transform(t.transform(x.reshape(1, -1))))
                    mon.check(np.allclose(back, x, rtol=0, atol=1e-6 * (1 + np.max(np.abs(np.r_[lo, hi])))), "suggestion-outside-the-reduced-space",
                              lambda: f"{x} is not the pre-image of its components: {back}")
                    mon.event("suggestions_in_the_reduced_space")
        Y = [f(x) for x in X]
        bad = rng.rand(len(X)) < 0.1 if step else np.zeros(len(X), bool)
        allbad = step == 0 and not TX and rng.rand() < 0.15
        if allbad:
            bad[:] = True
        opt.tell(X, [float("nan") if b else y for b, y in zip(bad, Y)])
        count += len(X)
        TX += [x for x, b in zip(X, bad) if not b]
        TY += [y for y, b in zip(Y, bad) if not b]
        mon.event("tells")
        mon.check(opt.eval_count == count, "evaluation-count", lambda: f"{opt.eval_count} counted, {count} told")
        mon.check(opt.iter_count == step + 1, "iteration-count", lambda: f"{opt.iter_count} after {step + 1} tells")
        if not TX:
            mon.check(opt.xopt is None, "incumbent-of-nothing", lambda: f"xopt={opt.xopt!r} without any successful evaluation")
            continue
        D = np.asarray(opt.data.tolist(), float)
        mon.check(D.shape == (len(TX), d) and np.allclose(D, TX, rtol=0, atol=1e-9), "records-differ",
                  lambda: f"{len(TX)} successful evaluations, recorded {D.shape}: {D[-2:]} vs {TX[-2:]}")
        mon.check(np.allclose(np.ravel(opt.data.fitness), TY, rtol=0, atol=0), "values-differ", lambda: f"{opt.data.fitness} vs {TY}")
        best = min(TY) if minimize else max(TY)
        mon.check(float(np.ravel(opt.xopt.fitness)[0]) == best, "incumbent", lambda: f"{opt.xopt.fitness} reported, best is {best}; minimize={minimize}")
        ix = [i for i, y in enumerate(TY) if y == best]
        mon.check(any(np.allclose(np.asarray(opt.xopt.tolist(), float).ravel(), TX[i], atol=1e-9) for i in ix), "incumbent-point",
                  lambda: f"xopt={opt.xopt.tolist()} but the best points are {[TX[i] for i in ix]}")
        # the box searched in the reduced space contains the image of the original one
        t = LinearTransform(n_components=nc, svd_solver="full", minimize=minimize).fit(np.array(TX), np.array(TY))
        B = np.asarray(opt.search_space.bounds, float)
        mon.check(B.shape == (t.transform(np.array(TX)).shape[1], 2), "reduced-dimension", lambda: f"{B.shape}")
        C = np.array([np.where(rng.rand(d) < 0.5, lo, hi) for _ in range(30)] + TX)
        Z = t.transform(C)
        tol = 1e-6 * (1 + np.max(np.abs(B)))
        mon.check(np.all(Z >= B[:, 0] - tol) and np.all(Z <= B[:, 1] + tol), "reduced-box-too-small",
                  lambda: f"image of the box exceeds the reduced bounds {B.tolist()} by {np.max(np.maximum(B[:, 0] - Z, Z - B[:, 1]))}")
        mon.state("history", d, B.shape[0], minimize, kw["acquisition_fun"], kw["acquisition_optimization"].get("optimizer"), step)
    if TX and rng.rand() < 0.4:
        p = os.path.join(scratch, "o.dump")
        opt.save(p)
        q = PCABO.load(p)
        out = []
        for o in (opt, q):
            np.random.seed(99)
            out.append(np.asarray(o.ask(), float))
        mon.check(np.array_equal(out[0], out[1]), "checkpoint-differs", lambda: f"{out}")
        mon.event("checkpoints")


def run_run(rng, mon):
    F, log = {}, []
    np.random.seed(int(rng.randint(1, 10 ** 6)))
    n = int(rng.randint(12, 18))
    opt, lo, hi, minimize, nc, kw = build(rng, F, max_FEs=n, DoE_size=10)
    f = F["f"]

    def obj(x):
        log.append(([float(a) for a in x], f(x)))
        return log[-1][1]

    opt.obj_fun = obj
    target = None
    if rng.rand() < 0.4:
        ys = sorted(f(x) for x in lo + (hi - lo) * rng.rand(40, len(lo)))
        target = ys[2] if minimize else ys[-3]
        opt.ftarget = target
    xopt, fopt, stop = opt.run()
    mon.event("runs")
    Y = [y for _, y in log]
    hit = lambda ys: target is not None and (min(ys) <= target if minimize else max(ys) >= target)
    if hit(Y):
        mon.check(len(Y) == 10 or not hit(Y[:-1]), "runs-past-target", lambda: f"{len(Y)} evaluations, target {target}: {Y}")
    else:
        mon.check(len(Y) == n, "budget", lambda: f"{len(Y)} evaluations instead of {n}")
    legal(mon, lo, hi, [x for x, _ in log], "run")
    b = min(Y) if minimize else max(Y)
    mon.check(float(np.ravel(fopt)[0]) == b and np.allclose(np.ravel(np.asarray(xopt, float)), log[Y.index(b)][0], atol=1e-9),
              "run-result", lambda: f"run returned {xopt}, {fopt}; best evaluation {log[Y.index(b)]}")
    mon.state("run", len(lo), minimize, len(Y), hit(Y))


def run(kind, rng, mon):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "transform":
            run_transform(rng, mon)
        elif kind == "penalty":
            run_penalty(rng, mon)
        elif kind == "history":
            run_history(rng, mon, os.getcwd())
        else:
            run_run(rng, mon)
