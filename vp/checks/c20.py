"""C20  inner optimizers ((1+1)-CMA-ES, its Cholesky variant, MIES, restarted L-BFGS-B/CMA/MIES).  The objective and the
constraints are recorders; every claim is judged against the log of calls."""
import math

import numpy as np

from .. import bo, gen
from ..core import Skip
from .c03 import make_ineq
from bayes_optim.acquisition.optim import MIES, OnePlusOne_Cholesky_CMA, OnePlusOne_CMA, argmax_restart

ID = "C20"
LEVEL = "exploration"
RULE = ("seeded random spaces (real with precisions and scales for CMA/BFGS, six types for MIES) x objectives (smooth, "
        "multimodal, plateau, offset) x minimize/maximize x budgets 1..400 x restarts x strategy parameters x "
        "inequality/equality constraints; distinct situation = (optimizer, types, direction, budget class, constraint "
        "form, feasible share, stop reasons)")
TIMEOUT = 60


def kinds(tier):
    k = dict(cma=190, cma_con=90, asktell=40, mies=110, mies_con=90, argmax=60, argmax_con=60, configured=40)
    return k if tier == "quick" else {a: 25 * b for a, b in k.items()}


def make_fun(rng, spec):
    """a function of the point, using the harness's own encoding to [0, 1] of every variable"""
    k = rng.randint(6)
    c = rng.rand(len(spec))
    w = rng.uniform(0.2, 2, len(spec)) * rng.choice([-1, 1])
    off = [0.0, 0.0, 100.0, -50.0][rng.randint(4)]
    amp = float(10 ** rng.uniform(-1, 2))

    def u(x):
        return np.array([gen.encode(v, a) for v, a in zip(spec, x)], dtype=float)

    if k == 0:
        f = lambda x: float(np.sum((u(x) - c) ** 2))
    elif k == 1:
        f = lambda x: float(np.sum(w * u(x)))
    elif k == 2:
        f = lambda x: float(np.sum((u(x) - c) ** 2 + 0.2 * np.cos(12 * (u(x) - c))))
    elif k == 3:
        f = lambda x: float(np.floor(6 * np.sum(np.abs(u(x) - c))))
    elif k == 4:
        f = lambda x: -float(np.exp(-5 * np.sum((u(x) - c) ** 2)))
    else:
        f = lambda x: float(np.max(np.abs(u(x) - c)))
    return (lambda x: amp * f(x) + off), ("sphere", "linear", "waves", "steps", "bump", "max")[k]


class Log:
    """records every call of the objective"""

    def __init__(self, spec, f, mon, tag, form, grid=True, grad=False):
        self.spec, self.f, self.mon, self.tag, self.form, self.grid, self.grad = spec, f, mon, tag, form, grid, grad
        self.x, self.y, self.given = [], [], []

    def __call__(self, x, shift=0.0, mul=1.0):
        if hasattr(x, "shape") and getattr(x, "ndim", 1) == 2:
            x = x[0]
        p = x.tolist() if hasattr(x, "tolist") else list(x)
        b = gen.bad_point(self.spec, p, grid=self.grid)
        self.mon.check(b is None, f"{self.tag}:illegal", lambda: f"{b}: {p} (space {self.spec})")
        y = mul * self.f(p) + shift if b is None else 0.0
        self.given.append((shift, mul))
        self.x.append(p)
        self.y.append(y)
        self.mon.event("evaluations")
        if self.grad:
            g = np.zeros((len(p), 1))
            for i in range(len(p)):
                h = 1e-6 * (self.spec[i]["hi"] - self.spec[i]["lo"])
                a, c = list(p), list(p)
                a[i] = min(p[i] + h, self.spec[i]["hi"])
                c[i] = max(p[i] - h, self.spec[i]["lo"])
                g[i, 0] = (self.f(a) - self.f(c)) / (a[i] - c[i])
            return (np.array([y]), g)
        return np.array([y]) if self.form == "array" else y


class Con:
    def __init__(self, rng, spec, mon, which):
        self.h = self.g = None
        self.which = which
        if which in ("g", "gh"):
            k = int(rng.randint(1, 4))
            g = make_ineq(rng, spec, k)
            scale = float(10 ** rng.uniform(-2, 2))
            self._g = lambda x: scale * np.atleast_1d(np.asarray(g(x), dtype=float))
            self.g = self._call(self._g)
        if which in ("h", "gh"):
            num = [i for i, v in enumerate(spec) if v["t"] in "ri"]
            i = int(num[rng.randint(len(num))])
            j = int(num[rng.randint(len(num))])
            c = rng.uniform(0.2, 0.8)
            if rng.rand() < 0.5:
                self._h = lambda x: np.array([gen.encode(spec[i], x[i]) - c])
            else:
                self._h = lambda x: np.array([gen.encode(spec[i], x[i]) + gen.encode(spec[j], x[j]) - 2 * c])
            self.h = self._call(self._h)

    def _call(self, f):
        def con(x):
            return f(x.tolist() if hasattr(x, "tolist") else list(x))
        return con

    def ok(self, x):
        if self.g is not None and not np.all(self._g(x) <= 0):
            return False
        if self.h is not None and not np.all(np.abs(self._h(x)) <= 0.1):
            return False
        return True

    def edge(self, x):
        """so close to the tolerance of an equality constraint that rounding decides"""
        return self.h is not None and bool(np.any(np.abs(np.abs(self._h(x)) - 0.1) < 1e-9))


def plain(x):
    return x.tolist() if hasattr(x, "tolist") else list(x)


def scalar(f):
    return float(np.ravel(f)[0])


def judge(mon, tag, log, con, x, f, minimize, spec):
    """the reported point and value against the log"""
    x, f = plain(x), scalar(f)
    hit = [i for i, p in enumerate(log.x) if p == x] or [i for i, p in enumerate(log.x) if gen.same_point(p, x, spec)]
    if not mon.check(bool(hit), f"{tag}:not-evaluated", lambda: f"reported point {x} was never evaluated ({len(log.x)} calls)"):
        return
    feas = [con is None or con.ok(p) for p in log.x]
    sgn = 1 if minimize else -1
    tol = 1e-9 * (1 + max(abs(v) for v in log.y))
    if any(feas):
        if con is not None and any(con.edge(p) for p in log.x):
            raise Skip("on the tolerance")
        best = min(sgn * y for y, k in zip(log.y, feas) if k)
        mon.check(feas[hit[0]], f"{tag}:infeasible", lambda: f"reported {x} is infeasible, {sum(feas)} of {len(feas)} evaluated "
                  f"points are feasible (constraint values {con._g(x) if con.g else ''} {con._h(x) if con.h else ''})")
        mon.check(abs(sgn * f - best) <= tol, f"{tag}:not-best",
                  lambda: f"reported value {f}, best feasible evaluated value {sgn * best} (minimize={minimize}, {len(log.x)} calls)")
        mon.check(abs(log.y[hit[0]] - f) <= tol, f"{tag}:value-of-other-point",
                  lambda: f"reported value {f} at a point whose value is {log.y[hit[0]]}")
        mon.event("optima_judged")
    else:
        mon.event("runs_without_feasible_point")


def share(log, con):
    if con is None:
        return "free"
    k = sum(con.ok(p) for p in log.x)
    return "none" if k == 0 else "few" if k < 0.2 * len(log.x) else "some" if k < len(log.x) else "all"


def real_spec(rng, dim=None):
    while True:
        spec = gen.rand_spec(rng, "r", dim or int(rng.randint(1, 7)))
        if all(gen.n_points(v) > 3 for v in spec):
            return spec


def run_configured(rng, mon):
    """the budget configured for the acquisition search is the one spent by `ask`, whatever else is configured"""
    from .c25 import Landscape, Smooth
    spec = bo.big_enough(rng, ["r", "r", "ri", "ric"][rng.randint(4)], least=2000)
    real = all(v["t"] == "r" for v in spec)
    cls = Smooth if real and rng.rand() < 0.4 and all(v.get("scale") in (None, "linear") for v in spec) else Landscape
    model = cls(rng, spec, "both")
    budget = int(rng.choice([20, 40, 80, 150]))
    kw = dict(max_FEs=[budget, str(budget)][rng.randint(2)])
    if rng.rand() < 0.6:
        kw["n_restart"] = int(rng.choice([1, 2, 5]))
    if rng.rand() < 0.6:
        kw["optimizer"] = ["MIES", "OnePlusOne_Cholesky_CMA"][rng.randint(2)] if real else "MIES"
    if rng.rand() < 0.3:
        kw["wait_iter"] = int(rng.choice([1, 50]))
    n = int(rng.choice([1, 1, 3]))
    opt = (bo.BO if n == 1 else bo.ParallelBO)(search_space=gen.build_space(spec), obj_fun=None, model=model, DoE_size=4, minimize=bool(rng.randint(2)),
                acquisition_fun=["EI", "UCB"][rng.randint(2)] if n == 1 else "MGFI", n_point=n, acquisition_optimization=dict(kw))
    mon.note(space=spec, model=cls.__name__, acquisition_optimization=kw, n_point=n)
    f = gen.make_objective(rng, spec)
    P = [gen.rand_point(rng, spec) for _ in range(6)]
    opt.tell([list(p) for p in P], [f(p) for p in P])
    for _ in range(2):
        model.log.clear()
        X = opt.ask()
        c = len(model.log)
        mon.note(calls=c)
        mon.event("predictions_during_ask", c)
        most = n * (budget + 40) * (2 if cls is Smooth else 1)
        mon.check(c <= most, "configured:budget", lambda: f"ask for {n} points used {c} predictions, configured max_FEs {budget} per point ({kw})")
        mon.check(c > 0, "configured:no-search", lambda: "ask made no prediction at all")
        X = [bo.to_list(spec, x) for x in X]
        opt.tell(X, [f(x) for x in X])
    mon.state("configured", bo.desc(spec), cls.__name__, budget, kw.get("optimizer"), kw.get("n_restart"), n)


def run(kind, rng, mon):
    if kind == "configured":
        return run_configured(rng, mon)
    minimize = bool(rng.randint(2))
    if kind in ("cma", "cma_con", "asktell"):
        spec = real_spec(rng)
        space = gen.build_space(spec, rng.randint(2))
        f, fname = make_fun(rng, spec)
        cls = [OnePlusOne_CMA, OnePlusOne_Cholesky_CMA][rng.randint(2)]
        con = Con(rng, spec, mon, ["g", "h", "gh"][rng.randint(3)]) if kind == "cma_con" else None
        log = Log(spec, f, mon, "cma", ["float", "array"][rng.randint(2)])
        budget = int([1, 2, 3, 5, 10, 30, 100, 200, 400][rng.randint(9)])
        kw = dict(max_FEs=budget, minimize=minimize, n_restart=int([0, 0, 1, 3, 10][rng.randint(5)]))
        if rng.rand() < 0.3:
            kw["xtol"], kw["ftol"] = 10.0 ** rng.uniform(-8, -1), 10.0 ** rng.uniform(-8, -1)
        if rng.rand() < 0.3:
            x0 = gen.rand_point(rng, spec)
            kw["x0"] = [x0, np.array(x0), str(x0)][rng.randint(3)]
        if rng.rand() < 0.3:
            kw["sigma0"] = float(10 ** rng.uniform(-3, 3))
        if rng.rand() < 0.2:
            kw["args"] = [{"shift": 3.5}, {"shift": 1.0, "mul": 2.5}, (3.5,), [1.5, 0.5]][rng.randint(4)]
        if rng.rand() < 0.2:
            kw["max_FEs"] = str(budget)
        a = kw.get("args", {})
        shift, mul = (a.get("shift", 0.0), a.get("mul", 1.0)) if isinstance(a, dict) else (a[0], a[1] if len(a) > 1 else 1.0)
        target = None
        if rng.rand() < 0.35:
            vals = [f(gen.rand_point(rng, spec)) for _ in range(30)]
            target = float(np.quantile(vals, [0.05, 0.3][rng.randint(2)] if minimize else 0.95)) * mul + shift
            kw["ftarget"] = target
        if con is not None:
            kw["h"], kw["g"] = con.h, con.g
        mon.note(cls=cls.__name__, spec=spec, fun=fname, con=con.which if con else None, kw={k: v for k, v in kw.items() if k not in "hg"})
        opt = cls(space, log, **kw)
        if kind == "asktell":
            # the user drives the loop; values only arrive through tell
            n0 = len(log.x)
            told = list(zip(log.x, log.y))
            for _ in range(int(rng.randint(1, 40))):
                if bo.stopped(opt):
                    break
                x = np.array(opt.ask(), dtype=float)
                b = gen.bad_point(spec, x.tolist())
                if not mon.check(b is None, "ask:illegal", lambda: f"{b}: {x.tolist()}"):
                    return
                y = f(x.tolist())
                told.append((x.tolist(), y))
                opt.tell(x.copy(), np.array([y]) if rng.rand() < 0.5 else y)
                mon.event("tells")
                b = (min if minimize else max)(v for _, v in told)
                mon.check(abs(scalar(opt.fopt) - b) <= 1e-9 * (1 + abs(b)), "asktell:not-best", lambda: f"fopt {opt.fopt}, best told {b}")
                mon.check(any(gen.same_point(p, plain(opt.xopt), spec) and abs(v - scalar(opt.fopt)) <= 1e-9 * (1 + abs(v)) for p, v in told),
                          "asktell:point", lambda: f"xopt {opt.xopt} not the point of value {opt.fopt}")
            mon.check(len(log.x) == n0, "asktell:evaluates", lambda: f"{len(log.x) - n0} evaluations by ask/tell")
            mon.state(cls.__name__, len(spec), minimize, len(told) > 10)
            return
        if rng.rand() < 0.3:  # step by step
            while not bo.stopped(opt):
                opt.step()
                b = [y for p, y in zip(log.x, log.y) if con is None or con.ok(p)]
                if b and not (con and any(con.edge(p) for p in log.x)):
                    b = (min if minimize else max)(b)
                    if not mon.check(abs(scalar(opt.fopt) - b) <= 1e-9 * (1 + abs(b)), "step:not-best", lambda: f"fopt {opt.fopt} after {len(log.x)} evaluations, best {b}"):
                        return
                if len(log.x) > 3 * budget + 20:
                    break
            x, fo, stop = opt.xopt, opt.fopt, opt.stop_dict
        else:
            x, fo, stop = opt.run()
        n = len(log.x)
        mon.check(all(t == (shift, mul) for t in log.given), "cma:arguments", lambda: f"objective called with {set(log.given)}, given {kw.get('args')}")
        mon.check(n <= max(2, budget), "cma:budget", lambda: f"{n} evaluations, budget {budget}")
        mon.check(opt.eval_count == n, "cma:count", lambda: f"eval_count {opt.eval_count}, {n} calls")
        mon.check(bool(stop) and bo.stopped(opt), "cma:no-stop-reason", lambda: f"stop_dict {stop}")
        if "FEs" in stop:
            mon.check(stop["FEs"] == n and n >= budget, "cma:stop-FEs", lambda: f"stopped for FEs {stop} after {n} of {budget}")
        if target is not None:
            if con is not None and any(con.edge(p) for p in log.x):
                raise Skip("on the tolerance")
            better = [i for i, (p, y) in enumerate(zip(log.x, log.y)) if (y <= target if minimize else y >= target) and (con is None or con.ok(p))]
            if better:
                mon.event("targets_hit")
                late = n - 1 - better[0]
                mon.check(late <= 2, "cma:runs-past-target", lambda: f"target {target} met at call {better[0] + 1} of {n}")
                mon.check("ftarget" in stop or "FEs" in stop, "cma:stop-target", lambda: f"target hit, stop_dict {stop}")
            else:
                mon.check("ftarget" not in stop, "cma:false-target", lambda: f"stop_dict {stop}, best {scalar(fo)}, target {target}")
        judge(mon, "cma", log, con, x, fo, minimize, spec)
        h = [scalar(a) for a in opt.hist_fopt]
        if con is None and h:
            d = np.diff(h) * (1 if minimize else -1)
            mon.check(bool(np.all(d <= 1e-9 * (1 + np.max(np.abs(h))))), "cma:history-gets-worse", lambda: f"hist_fopt {h[:20]}")
            mon.check(abs(h[-1] - scalar(fo)) <= 1e-9 * (1 + abs(h[-1])) or kw["n_restart"] > 0, "cma:history-end", lambda: f"{h[-1]} vs {fo}")
        mon.state(cls.__name__, len(spec), minimize, min(budget, 50), con.which if con else "", share(log, con), sorted(stop), bool(kw["n_restart"]))
        return

    if kind in ("mies", "mies_con"):
        while True:
            spec = gen.rand_spec(rng, ["r", "ri", "ricobs", "ricob", "cob", "i", "rs", "s"][rng.randint(8)], int(rng.randint(1, 7)))
            if kind == "mies" or any(v["t"] in "ri" for v in spec):
                break
        space = gen.build_space(spec, rng.randint(2))
        f, fname = make_fun(rng, spec)
        con = Con(rng, spec, mon, ["g", "g", "h", "gh"][rng.randint(4)]) if kind == "mies_con" else None
        log = Log(spec, f, mon, "mies", ["float", "array"][rng.randint(2)])
        budget = int([1, 4, 5, 10, 30, 100, 300][rng.randint(7)])
        mu, lam = [(4, 10), (4, 10), (2, 5), (3, 20), (1, 4), (5, 7)][rng.randint(6)]
        kw = dict(max_eval=budget, minimize=minimize, elitism=bool(rng.randint(2)), mu_=mu, lambda_=lam)
        if con is not None:
            kw["eq_func"], kw["ineq_func"] = con.h, con.g
        mon.note(spec=spec, fun=fname, con=con.which if con else None, budget=budget, mu=mu, lam=lam, minimize=minimize, elitism=kw["elitism"])
        opt = MIES(space, log, **kw)
        x, fo, stop = opt.optimize()
        n = len(log.x)
        mon.check(n <= max(mu, budget + lam), "mies:budget", lambda: f"{n} evaluations, budget {budget}, mu {mu}, lambda {lam}")
        mon.check(opt.eval_count == n and stop.get("funcalls") == n, "mies:count", lambda: f"eval_count {opt.eval_count}, funcalls {stop}, {n} calls")
        if stop.get("max_eval"):
            mon.check(n > budget or n >= budget, "mies:stop-early", lambda: f"stopped for the budget after {n} of {budget}")
        mon.check(bool({k for k, v in stop.items() if v and k != "funcalls"}), "mies:no-stop-reason", lambda: f"{stop}")
        judge(mon, "mies", log, con, x, fo, minimize, spec)
        mon.state("mies", bo.desc(spec), minimize, min(budget, 50), con.which if con else "", share(log, con), sorted(k for k in stop if stop[k]), mu)
        return

    which = ["BFGS", "OnePlusOne_Cholesky_CMA", "MIES", "fallback"][rng.randint(4)]
    if which in ("BFGS", "OnePlusOne_Cholesky_CMA"):
        spec = real_spec(rng, int(rng.randint(1, 5)))
    else:
        while True:
            spec = gen.rand_spec(rng, ["r", "ri", "ricobs", "ricob"][rng.randint(4)], int(rng.randint(1, 5)))
            if any(v["t"] in "ri" for v in spec) and (which == "MIES" or any(v["t"] != "r" for v in spec)):
                break
    space = gen.build_space(spec, rng.randint(2))
    if which == "BFGS":
        from bayes_optim.search_space import RealSpace
        if not isinstance(space, RealSpace):
            space = gen.build_space(spec, 1)
        if not isinstance(space, RealSpace):
            which = "fallback"
    f, fname = make_fun(rng, spec)
    con = Con(rng, spec, mon, ["g", "g", "h", "gh"][rng.randint(4)]) if kind == "argmax_con" else None
    log = Log(spec, f, mon, "argmax-" + which, "array", grid=which != "BFGS", grad=which == "BFGS")
    budget = int([1, 10, 50, 150, 400][rng.randint(5)])
    n_restart = int([1, 2, 5, 10][rng.randint(4)])
    wait = int([1, 3, 5][rng.randint(3)])
    starts = []
    sample = space.sample

    def spy(*a, **k):
        s = sample(*a, **k)
        if k.get("N") == 1 and k.get("method") == "uniform" or (a and a[0] == 1):
            starts.append((s[0].tolist(), len(log.x)))
        return s

    if which == "BFGS":
        space.sample = spy
    mon.note(which=which, spec=spec, fun=fname, con=con.which if con else None, budget=budget, n_restart=n_restart, wait=wait)
    x, fo = argmax_restart(log, space, h=con.h if con else None, g=con.g if con else None, eval_budget=budget, n_restart=n_restart,
                           wait_iter=wait, optimizer="BFGS" if which == "fallback" else which, logger=None)
    n = len(log.x)
    mon.event("restarted_searches")
    slack = {"BFGS": 45 + n_restart, "OnePlusOne_Cholesky_CMA": 2}.get(which, 10)
    mon.check(n <= budget + slack, f"argmax-{which}:budget", lambda: f"{n} evaluations, budget {budget}")
    mon.state(which, bo.desc(spec), min(budget, 50), con.which if con else "", share(log, con), n_restart, len(x) > 0)
    feas = [con is None or con.ok(p) for p in log.x]
    if con is not None and any(con.edge(p) for p in log.x):
        raise Skip("on the tolerance")
    if len(x) == 0:
        if which != "BFGS":
            mon.check(not any(feas), f"argmax-{which}:nothing", lambda: f"nothing returned although {sum(feas)} of {n} evaluated points are feasible")
        else:
            mon.check(con is not None, "argmax-BFGS:nothing", lambda: "nothing returned in an unconstrained search")
        return
    x = plain(x)
    b = gen.bad_point(spec, x)
    if not mon.check(b is None, f"argmax-{which}:illegal-result", lambda: f"{b}: {x}"):
        return
    if con is not None:
        mon.check(con.ok(x), f"argmax-{which}:infeasible", lambda: f"returned {x} is infeasible")
    if which != "BFGS":
        judge(mon, "argmax-" + which, log, con, x, fo, False, spec)
        return
    mon.check(abs(f(x) - scalar(fo)) <= 1e-9 * (1 + abs(f(x))), "argmax-BFGS:value", lambda: f"value {fo} reported, {f(x)} at the point")
    mon.check(any(np.allclose(p, x, rtol=1e-12, atol=0) for p in log.x), "argmax-BFGS:not-evaluated", lambda: f"{x} never evaluated")
    if con is None and all(v.get("prec") is None for v in spec):
        used = [s for s, k in starts if k < n]
        for s in used:
            mon.event("restart_points")
            mon.check(scalar(fo) >= f(s) - 1e-9 * (1 + abs(f(s))), "argmax-BFGS:worse-than-start",
                      lambda: f"returned value {fo} is worse than the value {f(s)} of a starting point")
