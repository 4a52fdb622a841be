"""C01  every suggested point is legal.  Oracle: gen.bad_point, an independent membership test on the
declared ranges, applied to every ask() result and to every argument the objective receives."""
import numpy as np

from .. import bo, gen
from ..core import Skip
from bayes_optim.utils.exception import AskEmptyError, FlatFitnessError

ID = "C01"
LEVEL = "exploration"
RULE = ("seeded random spaces (6 variable types, precision, scale, step) x optimizer class x surrogate x inner "
        "optimizer x list/dict candidates, driven through ask/tell/run histories incl. failed evaluations, external "
        "observations and changing batch sizes; one distinct situation per (types, optimizer, surrogate, form, phase)")
TIMEOUT = 120


def kinds(tier):
    k = dict(asktell=110, run=40, inner=50, mobo=24, grid=50)
    return k if tier == "quick" else {a: 14 * b for a, b in k.items()}


def judge(mon, spec, X, info, phase, form):
    mon.event("points_" + phase, len(X))
    for x in X:
        if form == "dict":
            mon.check(isinstance(x, dict), "not-a-dict", lambda: f"{x!r} ({info})")
        else:
            mon.check(isinstance(x, list), "not-a-list", lambda: f"{type(x)} {x!r} ({info})")
        b = gen.bad_point(spec, x)
        mon.check(b is None, f"illegal-point:{phase}", lambda: f"{b}; point {x!r}; space {spec}; {info}")
    mon.state(bo.desc(spec), info["cls"], info["model"], form, phase)


def history(rng, mon, spec, opt, info, steps, form, noisy=False):
    f = gen.make_objective(rng, spec)
    seen = []
    for it in range(steps):
        kw = {}
        if rng.rand() < 0.25:
            kw["n_point"] = int(rng.randint(1, 5)) if info["cls"] != "BO" else 1
        X = bo.ask(opt, spec, seen, **kw)
        if X is None:
            mon.event("exhausted")
            break
        judge(mon, spec, X, info, "doe" if it == 0 else "model", form)
        L = [bo.to_list(spec, x) for x in X]
        if any(gen.bad_point(spec, l) for l in L):
            return
        y = [f(l) for l in L]
        if rng.rand() < 0.2 and len(seen) > 3:  # some evaluations fail
            y[rng.randint(len(y))] = [np.nan, np.inf, -np.inf][rng.randint(3)]
            mon.event("failed_evaluation")
        if rng.rand() < 0.25:  # points from elsewhere
            p = gen.rand_point(rng, spec)
            X = X + [bo.to_form(spec, p, form)]
            L, y = L + [p], y + [f(p)]
            mon.event("external_observation")
        seen += L
        try:
            opt.tell(X, y)
        except FlatFitnessError:
            fin = [v for v in y if np.isfinite(v)]
            if noisy or len(set(opt.data.fitness.ravel())) == 1:
                raise Skip("flat fitness")
            raise


def run(kind, rng, mon):
    if kind in ("asktell", "grid"):
        if kind == "grid":  # coarse precisions and steps: values must stay on their grids
            spec = bo.big_enough(rng, ["r", "i", "ri", "ric", "ris"][rng.randint(5)], least=60)
            for v in spec:
                if v["t"] == "r" and v["prec"] is None and rng.rand() < 0.8:
                    p = max(0, int(np.ceil(-np.log10((v["hi"] - v["lo"]) / 25))))
                    if p <= 6:
                        v["prec"] = p
                if v["t"] == "i" and v["hi"] - v["lo"] >= 6 and rng.rand() < 0.8:
                    v["step"] = int(rng.randint(2, 4))
        else:
            spec = bo.big_enough(rng, least=12)
        space = gen.build_space(spec, rng.randint(2))
        cls = list(bo.CLS)[rng.randint(len(bo.CLS))]
        opt, info = bo.build(rng, spec, space, cls)
        mon.note(space=spec, **info)
        history(rng, mon, spec, opt, info, 5, info["eval_type"], cls == "NoisyBO")
    elif kind == "inner":  # every inner optimizer, on real spaces
        spec = bo.big_enough(rng, "r", dim=int(rng.randint(1, 4)), least=100)
        space = gen.build_space(spec, rng.randint(2))
        o = ["MIES", "OnePlusOne_Cholesky_CMA", "BFGS"][rng.randint(3)]
        cls = ["BO", "ParallelBO", "NoisyBO"][rng.randint(3)]
        opt, info = bo.build(rng, spec, space, cls, model="gp" if o == "BFGS" else None,
                             acquisition_optimization=dict(gen.FAST, optimizer=o))
        info["optimizer"] = o
        mon.event("inner_" + o)
        mon.note(space=spec, **info)
        history(rng, mon, spec, opt, info, 4, info["eval_type"], cls == "NoisyBO")
    elif kind == "run":
        spec = bo.big_enough(rng, least=60)
        space = gen.build_space(spec, rng.randint(2))
        cls = list(bo.CLS)[rng.randint(len(bo.CLS))]
        f = gen.make_objective(rng, spec)
        calls = []

        def obj(x):
            calls.append(x)
            l = bo.to_list(spec, x)
            return f(l) if gen.bad_point(spec, l, grid=False) is None else 0.0

        opt, info = bo.build(rng, spec, space, cls, obj_fun=obj, max_FEs=int(rng.randint(8, 14)))
        mon.note(space=spec, **info)
        try:
            x, y, _ = opt.run()
        except FlatFitnessError:
            raise Skip("flat fitness")
        except AskEmptyError:
            raise Skip("exhausted")
        judge(mon, spec, calls, info, "evaluated", info["eval_type"])
        judge(mon, spec, [x], info, "returned", info["eval_type"])
    elif kind == "mobo":
        spec = bo.big_enough(rng, ["r", "ri", "ric", "rcob"][rng.randint(4)], dim=int(rng.randint(2, 4)), least=60)
        space = gen.build_space(spec, rng.randint(2))
        fs = [gen.make_objective(rng, spec) for _ in range(2)]
        form = ["list", "dict"][rng.randint(2)]
        opt = bo.MOBO(search_space=space, n_obj=2, obj_fun=None, model=gen.make_rf(space), eval_type=form,
                      DoE_size=4, minimize=[bool(rng.randint(2)) for _ in range(2)],
                      acquisition_optimization=dict(max_FEs=30, n_restart=1))
        info = dict(cls="MOBO", model="rf", form=form)
        mon.note(space=spec, **info)
        for it in range(3):
            X = opt.ask(n_point=None if it == 0 else 1)
            judge(mon, spec, X, info, "doe" if it == 0 else "model", form)
            L = [bo.to_list(spec, x) for x in X]
            if any(gen.bad_point(spec, l) for l in L):
                return
            opt.tell(X, [[g(l) for g in fs] for l in L])
