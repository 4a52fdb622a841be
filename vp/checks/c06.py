"""C06  the incumbent is the best observation so far.  Oracle: running best over the finite values told."""
import numpy as np

from .. import bo, gen, hist
from ..core import Skip
from bayes_optim.utils.exception import FlatFitnessError, RecommendationUnavailableError

ID = "C06"
LEVEL = "exploration"
RULE = ("seeded observation histories (suggested and foreign points, ties, failures, re-observed points, value scales) x "
        "direction x optimizer class, and complete runs; incumbent, recommendation and history of best values judged after "
        "every observation; distinct situation = (types, optimizer, direction, improvement/tie/failure pattern)")
TIMEOUT = 100


def kinds(tier):
    k = dict(history=150, ties=50, near=40, run=40, long=8)
    return k if tier == "quick" else {a: 14 * b for a, b in k.items()}


def best(ref, minimize):
    vals = [float(v) for _, v in ref]
    return min(vals) if minimize else max(vals)


def judge(mon, spec, opt, ref, minimize, info, iters_with_data):
    if not ref:
        try:
            r = opt.recommend()
            mon.check(False, "recommend-before-data", lambda: f"recommend() returned {r!r} without any finite observation")
        except RecommendationUnavailableError:
            mon.check(True, "recommend-before-data")
        return
    b = best(ref, minimize)
    for name, s in (("xopt", opt.xopt), ("recommend", opt.recommend())):
        fit = float(np.ravel(s.fitness)[0])
        mon.check(fit == b, f"{name}-not-best", lambda: f"{fit} reported, best of {[v for _, v in ref]} is {b}; {info}")
        p = s.tolist()
        p = p[0] if p and isinstance(p[0], list) else p
        owners = [q for q, v in ref if float(v) == fit]
        mon.check(any(gen.same_point(q, p, spec) for q in owners), f"{name}-wrong-point",
                  lambda: f"{p} reported with value {fit}; that value was observed at {owners}; {info}")
    h = [float(np.ravel(v)[0]) for v in opt.hist_f]
    mon.check(len(h) == iters_with_data, "history-length", lambda: f"{len(h)} entries after {iters_with_data} iterations; {info}")
    mon.check(h and h[-1] == b, "history-last", lambda: f"{h} ends differently from the best value {b}; {info}")
    d = np.diff(h)
    mon.check(np.all(d <= 0) if minimize else np.all(d >= 0), "history-worsens", lambda: f"{h}; {info}")


def run(kind, rng, mon):
    spec = bo.big_enough(rng, least=40)
    space = gen.build_space(spec, rng.randint(2))
    cls = list(bo.CLS)[rng.randint(len(bo.CLS))]
    minimize = bool(rng.randint(2))
    f = gen.make_objective(rng, spec)
    if kind == "run":
        spec2 = spec
        ref = []
        rf, dead = bool(rng.randint(2)), rng.rand() < 0.2  # some evaluations fail / all of them

        def obj(x):
            p = bo.to_list(spec2, x)
            if gen.bad_point(spec2, p, grid=False):
                raise Skip("illegal suggestion (C01)")
            v = f(p)
            if rf and len(ref) > 4 and len(ref) % 5 == 3:
                v = np.nan
            if dead:
                v = [np.nan, np.inf, -np.inf][len(ref) % 3]
            ref.append((p, v))
            return v

        if gen.space_size(spec) < 200:
            raise Skip("small space")
        opt, info = bo.build(rng, spec, space, cls, obj_fun=obj, minimize=minimize, max_FEs=int(rng.randint(8, 16)))
        mon.note(space=spec, **info)
        try:
            x, y, stop = opt.run()
        except FlatFitnessError:
            raise Skip("flat")
        except RecommendationUnavailableError:
            mon.check(dead, "no-result", lambda: f"no recommendation after {ref}")
            mon.check(opt.eval_count == len(ref) and len(ref) >= info["max_FEs"], "stopped-early", lambda: f"{len(ref)} evaluations, counted {opt.eval_count}, budget {info['max_FEs']}")
            mon.event("runs_without_success")
            mon.state("run-all-failed", cls, minimize)
            return
        mon.check(not dead, "result-without-success", lambda: f"{x} {y} returned, every evaluation failed")
        ok = [(p, v) for p, v in ref if np.isfinite(v)]
        judge(mon, spec, opt, ok, minimize, info, opt.iter_count)
        b = best(ok, minimize)
        mon.check(float(np.ravel(y)[0]) == b, "returned-not-best", lambda: f"{y} returned, best {b}")
        p = bo.to_list(spec, x)
        mon.check(any(gen.same_point(q, p, spec) for q, v in ok if v == b), "returned-wrong-point", lambda: f"{x} with {y}")
        mon.event("runs")
        mon.state("run", cls, minimize, bo.desc(spec))
        return
    kw = bo.opt_kwargs(rng, spec, cls)
    kw["minimize"] = minimize
    model = gen.Stub(spec) if rng.rand() < 0.8 else gen.make_model(rng, spec, space)[1]
    opt = bo.CLS[cls](search_space=space, obj_fun=None, model=model, **kw)
    info = dict(cls=cls, minimize=minimize)
    mon.note(space=spec, **info)
    judge(mon, spec, opt, [], minimize, info, 0)
    near_base = float(rng.choice([1e6, -3e5, 1e3])) * (1 + rng.rand())
    near_gap = abs(near_base) * float(10 ** rng.uniform(-9, -6))
    ref, n_hist = [], 0
    many = kind == "long" and rng.rand() < 0.5
    for it in range(7 if kind != "long" else 4 if many else 70):
        k = int(rng.randint(1, 6)) if not many else int(rng.randint(40, 140))
        if rng.rand() < (0.25 if kind != "long" else 0.03) and gen.space_size(spec) > 200:
            pts = [bo.to_list(spec, x) for x in opt.ask(n_point=1 if cls == "BO" else None)]
            if any(gen.bad_point(spec, p, grid=False) for p in pts):
                raise Skip("illegal suggestion (C01)")
        else:
            pts = [gen.rand_point(rng, spec) for _ in range(k)]
            if ref and rng.rand() < 0.3:
                pts[-1] = list(ref[rng.randint(len(ref))][0])
        y = [float(v) for v in rng.randint(-2, 3, len(pts))] if kind == "ties" else hist.rand_values(rng, len(pts), f, pts)
        if kind == "near":  # values that differ in the last digits only
            y = [near_base + near_gap * float(v) for v in rng.randint(-9, 10, len(pts))]
        if rng.rand() < 0.3:
            y = hist.fail_some(rng, y, all_=rng.rand() < 0.25)
        ok = [(p, v) for p, v in zip(pts, y) if np.isfinite(v)]
        new = [float(v) for _, v in ref + ok]
        if len(new) > 5 and np.std(new) < 1e-6:
            raise Skip("flat")
        old = best(ref, minimize) if ref else None
        opt.tell(hist.x_form(rng, spec, pts, kw["eval_type"])[1], hist.y_form(rng, y))
        ref += ok
        if ref:
            n_hist += 1
        mon.event("observations", len(pts))
        judge(mon, spec, opt, ref, minimize, dict(info, step=it, y=list(y)), n_hist)
        if ref:
            b = best(ref, minimize)
            mon.event("improved" if old is None or b != old else "kept")
            mon.state(bo.desc(spec), cls, minimize, old is not None and b == old, len(ok) < len(pts), sum(v == b for _, v in ref) > 1)
