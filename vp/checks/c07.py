"""C07  runs stop exactly at the budget or the target.  Oracle: the trace of objective calls grouped in batches; the
stopping rule is replayed over it."""
import numpy as np

from .. import bo, gen
from ..core import Skip
from bayes_optim.utils.exception import FlatFitnessError, RecommendationUnavailableError

ID = "C07"
LEVEL = "exploration"
RULE = ("seeded complete runs: budgets below/at/above the design size and at/between batch boundaries, targets met in the "
        "design, later, exactly equal, never; both directions, failed evaluations, sequential and batch objectives, "
        "repeated run(); distinct situation = (optimizer, direction, stop reason, batch number, objective form)")
TIMEOUT = 100


def kinds(tier):
    k = dict(budget=110, target=110, both=80, tiny=40)
    return k if tier == "quick" else {a: 12 * b for a, b in k.items()}


def run(kind, rng, mon):
    spec = bo.big_enough(rng, ["r", "ri", "ric", "rcob"][rng.randint(4)], dim=int(rng.randint(1, 4)), least=5000)
    space = gen.build_space(spec, rng.randint(2))
    cls = ["BO", "ParallelBO", "NoisyBO", "MultiAcquisitionBO", "SelfAdaptiveBO", "AnnealingBO"][rng.randint(6)]
    minimize = bool(rng.randint(2))
    form = ["list", "dict"][rng.randint(2)]
    n_doe = int(rng.randint(2, 8))
    n_point = 1 if cls == "BO" else int(rng.randint(2, 5))
    f = gen.make_objective(rng, spec)
    script = None
    if rng.rand() < 0.5:  # scripted values: improvements at chosen moments
        base = np.round(rng.randn(60), 3)
        if rng.rand() < 0.6:  # slowly improving: the target is met late
            base = np.sort(base)[:: -1 if minimize else 1] + np.round(0.05 * rng.randn(60), 3)
        script = [float(b) for b in base]
    calls, batches = [], []
    fails = rng.rand() < 0.3

    def value(x):
        v = f(bo.to_list(spec, x)) if script is None else script[len(calls) % 60]
        if fails and len(calls) % 4 == 3:
            v = [np.nan, np.inf, -np.inf][len(calls) % 3]
        calls.append(v)
        return v

    def pobj(X):
        batches.append(len(X))
        return [value(x) for x in X]

    parallel = rng.rand() < 0.5
    max_FEs = ftarget = None
    if kind in ("budget", "both"):
        max_FEs = int(rng.randint(1, n_doe + 4 * n_point + 2))
        if rng.rand() < 0.4:
            max_FEs = n_doe + int(rng.randint(0, 4)) * n_point + int(rng.randint(-1, 2))
            max_FEs = max(1, max_FEs)
    if kind == "tiny":
        max_FEs = int(rng.randint(1, n_doe + 1))
        ftarget = float(rng.choice([-1e9, 1e9, 0.0]))
    if cls == "AnnealingBO" and max_FEs is None:
        max_FEs = n_doe + 8
    if kind in ("target", "both"):
        if script is not None:
            lo, hi = np.sort(base)[[2, -3]]
            c = [float(rng.choice(base)), 0.0, float(rng.uniform(lo, hi))][rng.randint(3)]
            if kind == "target":  # reachable: strictly worse than the best finite value of the script
                good = [s for i, s in enumerate(script[:n_doe + 4 * n_point]) if not (fails and i % 4 == 3)]
                b = min(good) if minimize else max(good)
                if not (b < c if minimize else b > c):
                    c = b + 0.01 if minimize else b - 0.01
                if rng.rand() < 0.3:  # a value of the script itself: equality must not stop the run
                    g2 = sorted(good, reverse=not minimize)
                    c = float(g2[1]) if g2[1] != g2[0] else c
            ftarget = c
        else:
            vals = [f(gen.rand_point(rng, spec)) for _ in range(60)]
            ftarget = float(np.quantile(vals, 0.4 if minimize else 0.6))
    if kind == "target" and cls == "AnnealingBO":
        max_FEs = 60
    if kind == "target" and max_FEs is None:
        max_FEs = 80 if rng.rand() < 0.5 else None
    kw = dict(DoE_size=n_doe, eval_type=form, minimize=minimize, ftarget=ftarget, max_FEs=max_FEs,
              acquisition_optimization=dict(max_FEs=30, n_restart=1))
    if cls != "BO":
        kw["n_point"] = n_point
    model = gen.Stub(spec)
    if parallel:
        kw["parallel_obj_fun"] = pobj
    else:
        kw["obj_fun"] = value
    opt = bo.CLS[cls](search_space=space, model=model, **kw)
    info = dict(cls=cls, minimize=minimize, DoE=n_doe, n_point=n_point, max_FEs=max_FEs, ftarget=ftarget, parallel=parallel)
    mon.note(space=spec, **info)
    if max_FEs is None:
        # without a budget: at most 40 steps by hand
        try:
            for _ in range(40):
                if opt.check_stop():
                    break
                opt.step()
            else:
                raise Skip("target not reached")
            x = y = None
            stop = opt.stop_dict
        except FlatFitnessError:
            raise Skip("flat")
    else:
        try:
            x, y, stop = opt.run()
        except FlatFitnessError:
            raise Skip("flat")
        except RecommendationUnavailableError:
            mon.check(not any(np.isfinite(c) for c in calls), "no-result", lambda: f"no recommendation although {calls} were observed")
            mon.check(max_FEs <= len(calls) < max_FEs + n_doe, "stopped-elsewhere", lambda: f"{len(calls)} failed evaluations, budget {max_FEs}, designs of {n_doe}")
            mon.event("runs_without_success")
            mon.state(cls, minimize, "all-failed", parallel)
            return
    if not any(np.isfinite(c) for c in calls):
        raise Skip("every evaluation failed")
    mon.event("runs")
    mon.event("objective_calls", len(calls))
    # replay of the stopping rule
    sizes = list(batches) if parallel else []
    if not parallel:
        left, b = len(calls), n_doe
        ok_first = False
        while left > 0:
            # while no evaluation has succeeded, another initial design is taken
            k = n_doe if not any(np.isfinite(c) for c in calls[:len(calls) - left]) else n_point
            sizes.append(min(k, left))
            mon.check(left >= k, "partial-batch", lambda: f"{len(calls)} evaluations do not consist of whole batches; {info}")
            left -= k

    def best_at(n):
        v = [c for c in calls[:n] if np.isfinite(c)]
        return (min(v) if minimize else max(v)) if v else None

    n = 0
    budget = max_FEs if max_FEs is not None else np.inf
    reasons = set()
    for i, s in enumerate(sizes):
        n += s
        b = best_at(n)
        reasons = set()
        if n >= budget:
            reasons.add("max_FEs")
        if ftarget is not None and b is not None and (b < ftarget if minimize else b > ftarget):
            reasons.add("ftarget")
        if i < len(sizes) - 1:
            mon.check(not reasons, "stopped-too-late", lambda: f"continued after {n} evaluations with best {b}: {reasons} held; {info}, values {calls}")
    mon.check(bool(reasons), "stopped-too-early", lambda: f"stopped after {n} evaluations, best {best_at(n)}; {info}, values {calls}")
    mon.check(set(stop) == reasons, "stop-reason", lambda: f"reported {stop}, true reasons {reasons}; {info}")
    if "max_FEs" in stop:
        mon.check(int(stop["max_FEs"]) == len(calls), "stop-value", lambda: f"{stop} with {len(calls)} calls")
    if "ftarget" in stop:
        mon.check(float(np.ravel(stop["ftarget"])[0]) == best_at(n), "stop-value", lambda: f"{stop} with best {best_at(n)}")
    mon.check(opt.eval_count == len(calls), "eval-count", lambda: f"{opt.eval_count} counted, {len(calls)} objective calls; {info}")
    mon.check(opt.iter_count == len(sizes), "iter-count", lambda: f"{opt.iter_count} iterations counted, {len(sizes)} batches; {info}")
    if y is not None:
        mon.check(float(np.ravel(y)[0]) == best_at(n), "returned-value", lambda: f"{y} returned, best {best_at(n)}; {info}")
        xo = opt.xopt.tolist()
        mon.check(gen.same_point(bo.to_list(spec, x), xo, spec), "returned-point", lambda: f"{x} vs incumbent {xo}")
    mon.state(cls, minimize, tuple(sorted(reasons)), len(sizes), parallel, fails)
    # a stopped run does not evaluate again
    if max_FEs is not None:
        k = len(calls)
        opt.run()
        mon.check(len(calls) == k, "ran-on-after-stop", lambda: f"{len(calls) - k} further evaluations in a second run(); {info}")
    # a run is continued with a larger budget
    if rng.rand() < 0.5:
        k, more = len(calls), int(rng.randint(1, 2 * n_point + 2))
        opt.max_FEs, opt.ftarget = k + more, None
        if rng.rand() < 0.3:
            opt.save("ck.dump")
            opt = type(opt).load("ck.dump")
            calls2 = calls if opt.obj_fun is value or opt.parallel_obj_fun is pobj else None
        else:
            calls2 = calls
        try:
            x, y, stop = opt.run()
        except FlatFitnessError:
            raise Skip("flat")
        want = k + -(-more // n_point) * n_point
        mon.event("continued_runs")
        if calls2 is not None:
            mon.check(len(calls) == want, "continued:stopped-elsewhere", lambda: f"{len(calls) - k} evaluations for {more} more in batches of {n_point}; {info}")
            mon.check(float(np.ravel(y)[0]) == best_at(want), "continued:returned-value", lambda: f"{y} returned, best {best_at(want)}; {info}")
        mon.check(opt.eval_count == want, "continued:eval-count", lambda: f"{opt.eval_count} counted, {want} expected; {info}")
        mon.check(set(stop) == {"max_FEs"} and int(stop["max_FEs"]) == want, "continued:stop-reason", lambda: f"reported {stop} after {want} evaluations; {info}")
        mon.state(cls, minimize, "continued", more % n_point, parallel)
