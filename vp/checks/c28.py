"""C28  the inner searches make progress and keep reaching the whole space.  Statistical oracles over several independent searches
per case, with thresholds far from what a correct search shows (calibration in DESIGN.md)."""
import numpy as np
from scipy.stats import kstest

from .. import bo, gen
from ..core import Skip
from bayes_optim.acquisition.optim import MIES, OnePlusOne_Cholesky_CMA, OnePlusOne_CMA, argmax_restart
from bayes_optim.search_space import RealSpace

ID = "C28"
LEVEL = "exploration"
RULE = ("batches of independent seeded searches by (1+1)-CMA-ES, its Cholesky variant, MIES (with and without elitism) and the restarted "
        "searches on random quadratic landscapes over random spaces, minimized and maximized, with and without constraints, compared with "
        "uniform random points; long searches on noise for reachability; distinct situation = (search, types, direction, elitism, constraint)")
TIMEOUT = 200
RUNS = 14


def kinds(tier):
    k = dict(cma=8, chol=8, mies=14, restart=8, constrained=10, reach=12, reach_real=6, restarts=8, starts=16)
    return k if tier == "quick" else {a: 12 * b for a, b in k.items()}


def problem(rng, types, con=False):
    while True:
        spec = gen.rand_spec(rng, types, int(rng.randint(2, 5)))
        if gen.space_size(spec) >= 60 and all(gen.n_points(v) > 8 or v["t"] not in "ri" for v in spec):
            break
    top = np.array([gen.encode(v, a) for v, a in zip(spec, gen.rand_point(rng, spec))])
    w = rng.uniform(0.5, 2, len(spec))
    off = float(rng.uniform(-3, 3))

    def q(p):
        return float(np.sum(w * (np.array([gen.encode(v, a) for v, a in zip(spec, p)]) - top) ** 2))
    return spec, q, off


def search(rng, which, minimize, elitism, mon, con):
    """-> values of the search in order of evaluation (0 = optimum), feasible flags, and reference values of random points"""
    types = {"cma": "r", "chol": "r", "bfgs": "r", "argmax_chol": "r"}.get(which) or ["ri", "ricob", "ricobs", "r", "i", "cob"][rng.randint(6)]
    if con:
        types = "r" if types == "r" else ["ri", "rico", "r"][rng.randint(3)]
    spec, q, off = problem(rng, types)
    if which == "bfgs":
        for v in spec:
            v["prec"] = None
    space = gen.build_space(spec, rng.randint(2))
    if which == "bfgs" and not isinstance(space, RealSpace):
        space = gen.build_space(spec, 1)
    d = len(spec)
    X = [gen.rand_point(rng, spec) for _ in range(400)]
    g, thr = None, np.inf
    if con:
        num = [i for i, v in enumerate(spec) if v["t"] in "ri"]
        if not num:
            raise Skip("no numerical variable")
        a = rng.randn(len(num))

        def val(x):
            return float(a @ np.array([gen.encode(spec[i], x[i]) for i in num]))
        thr = float(np.quantile([val(x) for x in X], [0.25, 0.5, 0.75][rng.randint(3)]))

        def g(x):
            x = x.tolist() if hasattr(x, "tolist") else list(x)
            return np.array([2.0 * (val(x) - thr)])
    ref = [q(x) for x in X if g is None or g(x)[0] <= 0]
    if len(ref) < 40:
        raise Skip("hardly feasible")
    ys, fs = [], []
    sgn = 1.0 if minimize else -1.0

    def f(x):
        if getattr(x, "ndim", 1) == 2:
            x = x[0]
        p = x.tolist() if hasattr(x, "tolist") else list(x)
        y = q(p)
        ys.append(y)
        fs.append(g is None or bool(g(p)[0] <= 0))
        if which == "bfgs":
            G = np.zeros((d, 1))
            for i in range(d):
                h = 1e-6 * (spec[i]["hi"] - spec[i]["lo"])
                u, l = list(p), list(p)
                u[i], l[i] = min(p[i] + h, spec[i]["hi"]), max(p[i] - h, spec[i]["lo"])
                G[i, 0] = sgn * (q(u) - q(l)) / (u[i] - l[i])
            return np.array([sgn * y + off]), G
        return sgn * y + off

    B = 60 + 60 * d
    if which in ("cma", "chol"):
        x = (OnePlusOne_CMA if which == "cma" else OnePlusOne_Cholesky_CMA)(space, f, g=g, max_FEs=B, minimize=minimize).run()[0]
    elif which == "mies":
        x = MIES(space, f, ineq_func=g, max_eval=B, minimize=minimize, elitism=elitism).optimize()[0]
    else:
        x = argmax_restart(f, space, g=g, eval_budget=2 * B, n_restart=5, wait_iter=5,
                           optimizer={"bfgs": "BFGS", "argmax_chol": "OnePlusOne_Cholesky_CMA"}.get(which, "MIES"))[0]
    mon.event("searches")
    mon.event("evaluations", len(ys))
    x = x.tolist() if hasattr(x, "tolist") else list(x)
    final = q(x) if len(x) else None
    if final is not None and g is not None and g(x)[0] > 0:
        final = None
    return np.array(ys), np.array(fs), np.array(ref), final, bo.desc(spec), spec, x


def run(kind, rng, mon):
    if kind in ("cma", "chol", "mies", "restart", "constrained"):
        which = {"restart": ["argmax_mies", "argmax_chol", "bfgs"][rng.randint(3)],
                 "constrained": ["cma", "chol", "mies", "argmax_mies", "argmax_chol", "bfgs"][rng.randint(6)]}.get(kind, kind)
        minimize = bool(rng.randint(2)) if which in ("cma", "chol", "mies") else False
        elitism = bool(rng.randint(2))
        con = kind == "constrained"
        best, late, early, miss = [], [], [], 0
        mon.note(which=which, minimize=minimize, elitism=elitism, con=con)
        for _ in range(RUNS):
            ys, fs, ref, final, desc, spec, x = search(rng, which, minimize, elitism, mon, con)
            if final is None:
                miss += 1
                continue
            best.append(float(np.mean(ref < final)))
            if len(ys) >= 8:
                k = max(2, len(ys) // 4)
                late.append(float(np.mean(ref < np.mean(ys[-k:]))))
            mon.state(which, desc, minimize, elitism if which == "mies" else "", con)
        tag = f"{which}{'-con' if con else ''}"
        mon.check(miss <= (11 if which == "bfgs" else 8), f"{tag}:no-feasible-point", lambda: f"{miss} of {RUNS} searches end without a feasible point although at least a quarter of the space is feasible")
        if best:
            mon.check(float(np.mean(best)) <= 0.2, f"{tag}:no-better-than-random", lambda: f"on average {np.mean(best):.2f} of random points are better than the result ({np.round(best, 2)})")
        if late and not con and which in ("cma", "chol", "mies"):
            mon.check(float(np.mean(late)) <= 0.45, f"{tag}:search-moves-away", lambda: f"on average {np.mean(late):.2f} of random points are better than the last quarter of the search")
        mon.note(best=np.round(best, 3).tolist(), late=np.round(late, 3).tolist(), miss=miss)
        return

    if kind == "reach":
        # on pure noise nothing is selected away, so every value has to keep appearing
        spec = []
        for i, t in enumerate("".join(["c", "o", "b", "co", "cb", "cob", "cc"][rng.randint(7)])):
            if t == "b":
                spec.append(dict(t="b", name=f"v{i}", levels=[False, True], default=None))
            else:
                L = [["A", "B", "C"], ["p", "q", "r", "s", "t"], [3, 1, 7, 9]][rng.randint(3)] if t == "c" else [[1, 3, 5, 8], [0.5, 2.5, 3.5]][rng.randint(2)]
                spec.append(dict(t=t, name=f"v{i}", levels=L, default=None))
        space = gen.build_space(spec, 0)
        noise = np.random.RandomState(int(rng.randint(2 ** 31)))
        X = []

        def f(x):
            X.append(list(x))
            return float(noise.rand())

        n = 1200
        minimize, elitism = bool(rng.randint(2)), False
        mon.note(spec=spec, minimize=minimize)
        opt = MIES(space, f, max_eval=n, minimize=minimize, elitism=elitism, mu_=int([4, 2][rng.randint(2)]), lambda_=10)
        opt.optimize()
        mon.event("searches")
        mon.event("evaluations", len(X))
        if len(X) < n:
            raise Skip("search ended early")
        for i, v in enumerate(spec):
            vals = v["levels"]
            seen = {repr(x[i]) if not hasattr(x[i], "item") else repr(x[i].item()) for x in X[n // 2:]}
            gone = [a for a in vals if repr(a) not in seen]
            mon.check(not gone, f"reach:{v['t']}", lambda: f"values {gone} of {vals} do not appear in {len(X) - n // 2} evaluations of the second half (seen {sorted(seen)})")
        mon.state("reach", "".join(v["t"] for v in spec), minimize)
        return

    if kind == "starts":
        # restarts of the gradient search on plateaus: every restart is a single evaluation at its starting point
        U = []
        for _ in range(12):
            d = int(rng.randint(1, 4))
            spec = []
            for i in range(d):
                lo = float(np.round(rng.uniform(-10, 10), 2))
                spec.append(dict(t="r", name=f"v{i}", lo=lo, hi=lo + float(np.round(rng.uniform(0.5, 20), 2)), prec=None, scale="linear", default=None))
            n_restart, wait = int(rng.randint(1, 13)), int(rng.randint(1, 5))
            budget = int([1, 3, 8, 1000][rng.randint(4)])
            m = rng.randint(4)
            vals = np.array([rng.randn(20), np.zeros(20) + rng.randn(), np.arange(20.0) - 7, rng.randint(0, 3, 20)][m], dtype=float)
            X = []

            def f(x):
                X.append([float(a) for a in np.ravel(x)])
                return np.array([vals[min(len(X), 20) - 1]]), np.zeros((d, 1))

            x, y = argmax_restart(f, gen.build_space(spec, 1), eval_budget=budget, n_restart=n_restart, wait_iter=wait, optimizer="BFGS")
            best, idle, n = -np.inf, 0, 0
            while n < n_restart and idle < wait and n < budget:
                idle = 0 if vals[n] > best else idle + 1
                best = max(best, vals[n])
                n += 1
            mon.check(len(X) == n, "starts:number-of-restarts", lambda: f"{len(X)} restarts, expected {n} (at most {n_restart}, patience {wait}, budget {budget}, values {vals[:n_restart].tolist()})")
            k = min(len(X), 20)
            mon.check(len({tuple(p) for p in X}) == len(X), "starts:repeated", lambda: f"starting points {X}")
            mon.check(float(np.ravel(y)[0]) == max(vals[:k]) and any(np.allclose(x, p, rtol=1e-12, atol=0) and vals[i] == max(vals[:k]) for i, p in enumerate(X[:20])), "starts:result",
                      lambda: f"returned {x} {y}, values {vals[:k].tolist()} at {X}")
            for p in X:
                U += [(a - v["lo"]) / (v["hi"] - v["lo"]) for a, v in zip(p, spec)]
            mon.event("searches")
            mon.event("restarts", len(X))
            mon.state("starts", d, m, min(budget, 10), n_restart > wait)
        mon.check(len(U) < 25 or kstest(U, "uniform").pvalue > 1e-7, "starts:not-spread", lambda: f"positions in the box {np.round(np.sort(U), 2)}")
        return

    if kind == "restarts":
        # every restart is a search of its own: it proceeds from its new starting point
        which = ["cma", "chol"][rng.randint(2)]
        minimize, con = bool(rng.randint(2)), rng.rand() < 0.3
        sgn = 1.0 if minimize else -1.0
        best, late, moved = [], [], []
        mon.note(which=which, minimize=minimize, con=con)
        for _ in range(5):
            d = int(rng.randint(1, 4))
            spec = []
            for i in range(d):
                lo = float(np.round(rng.uniform(-10, 10), 2))
                spec.append(dict(t="r", name=f"v{i}", lo=lo, hi=lo + float(np.round(rng.uniform(2, 20), 2)), prec=None, scale="linear", default=None))
            top, w = rng.rand(d), rng.uniform(0.5, 2, d)
            off = float(rng.uniform(-3, 3))

            def q(x):
                u = np.array([gen.encode(v, a) for v, a in zip(spec, x)])
                return float(np.sum(w * (u - top) ** 2))

            def f(x):
                return sgn * q(x) + off

            seg, cur = [], []

            def rec(x):
                p = x.tolist() if hasattr(x, "tolist") else list(x)
                cur.append(q(p))
                return f(p)

            g = None
            if con:  # half of the box, the optimum inside
                j = int(rng.randint(d))
                c, s = float(top[j]), 1 if top[j] < 0.5 else -1

                def g(x):
                    return np.array([s * (gen.encode(spec[j], x[j]) - c) - 0.3])
            ref = np.array([q(gen.rand_point(rng, spec)) for _ in range(400)])
            opt = (OnePlusOne_CMA if which == "cma" else OnePlusOne_Cholesky_CMA)(
                gen.build_space(spec, 1), rec, g=g, max_FEs=1500, minimize=minimize, n_restart=6, xtol=1e-3, ftol=1e-4)
            left = opt.n_restart
            while not bo.stopped(opt):
                opt.step()
                if opt.n_restart < left:
                    left = opt.n_restart
                    seg.append(cur[:-1])
                    del cur[:-1]  # the new starting point has been evaluated already
            mon.event("searches")
            mon.event("evaluations", sum(map(len, seg)))
            mon.event("restarts", len(seg))
            for part in seg[1:]:
                best.append(float(np.mean(ref < min(part))))
                late.append(float(np.mean(ref < np.mean(part[-max(1, len(part) // 4):]))))
            mon.state("restarts", which, d, minimize, con, len(seg))
        if len(best) < 6:
            raise Skip("few restarts")
        mon.note(best=np.round(best, 2).tolist(), late=np.round(late, 2).tolist())
        mon.check(float(np.mean(best)) <= 0.16, f"restarts:{which}:no-better-than-random", lambda: f"on average {np.mean(best):.2f} of random points are better than the best of a restart ({np.round(best, 2)})")
        mon.check(float(np.mean(late)) <= 0.3, f"restarts:{which}:search-stands-still", lambda: f"on average {np.mean(late):.2f} of random points are better than the last quarter of a restart ({np.round(late, 2)})")
        return

    # real variables: the search reaches optima at any place of the box, including both ends
    spec = []
    for i in range(int(rng.randint(1, 3))):
        lo = float(np.round(rng.uniform(-10, 10), 2))
        spec.append(dict(t="r", name=f"v{i}", lo=lo, hi=lo + float(np.round(rng.uniform(0.5, 20), 2)), prec=None, scale="linear", default=None))
    which = ["cma", "chol", "mies", "bfgs"][rng.randint(4)]
    space = gen.build_space(spec, 1)
    dist = []
    for end in (0.0, 1.0, 0.5, 0.1, 0.9, 0.0, 1.0, 0.3):
        top = np.full(len(spec), end)

        def f(x):
            x = np.ravel(np.asarray(x, dtype=float))
            u = np.array([(a - v["lo"]) / (v["hi"] - v["lo"]) for a, v in zip(x, spec)])
            y = -float(np.sum(np.abs(u - top) ** 2))
            if which == "bfgs":
                return np.array([y]), np.array([-2 * (b - t) / (v["hi"] - v["lo"]) for b, t, v in zip(u, top, spec)]).reshape(-1, 1)
            return y

        if which == "mies":
            x = MIES(space, f, max_eval=400, minimize=False, elitism=True).optimize()[0]
        elif which == "bfgs":
            x = argmax_restart(f, space, eval_budget=200, n_restart=2, optimizer="BFGS")[0]
        else:
            x = (OnePlusOne_CMA if which == "cma" else OnePlusOne_Cholesky_CMA)(space, f, max_FEs=400, minimize=False, n_restart=0).run()[0]
        u = np.array([(a - v["lo"]) / (v["hi"] - v["lo"]) for a, v in zip(np.ravel(x), spec)])
        dist.append(float(np.max(np.abs(u - top))))
        mon.event("searches")
    mon.note(which=which, spec=spec, dist=np.round(dist, 4).tolist())
    mon.check(float(np.median(dist)) <= 0.15, f"reach_real:{which}", lambda: f"distances {np.round(dist, 3)} (in units of the box) from the optimum")
    mon.state("reach_real", which, len(spec))
