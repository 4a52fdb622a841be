"""C02  fixed variables.  Oracles: exact values at the right positions + membership of the rest; a twin optimizer
that never saw the fixed request must make the same later suggestions from the same random state."""
import copy

import numpy as np

from .. import bo, gen
from ..core import Skip
from bayes_optim.utils.exception import FlatFitnessError

ID = "C02"
LEVEL = "exploration"
RULE = ("seeded random spaces, random non-empty proper subsets of variables fixed to random admissible values, asked from "
        "the initial design and from fitted models (GP with gradients, random forest, stub), with and without "
        "constraints, list and dict candidates; distinct situation = (types, fixed positions, optimizer, model, phase)")
TIMEOUT = 120


def kinds(tier):
    k = dict(doe=60, model=90, bfgs=30, constrained=30, mobo=16, trace=40)
    return k if tier == "quick" else {a: 14 * b for a, b in k.items()}


def pick_fixed(rng, spec):
    n = int(rng.randint(1, len(spec)))
    ids = sorted(rng.choice(len(spec), n, replace=False))
    order = list(rng.permutation(ids))
    return {spec[i]["name"]: gen.rand_value(rng, spec[i]) for i in order}


def judge(mon, spec, X, fixed, info, phase):
    mon.event("points_" + phase, len(X))
    for x in X:
        l = bo.to_list(spec, x)
        b = gen.bad_point(spec, l)
        mon.check(b is None, f"illegal:{phase}", lambda: f"{b} in {x!r}, fixed {fixed}, space {spec}, {info}")
        for v, xi in zip(spec, l):
            if v["name"] in fixed:
                w = fixed[v["name"]]
                ok = type(xi) == type(w) and xi == w or (isinstance(w, float) and isinstance(xi, float) and xi == w) \
                    or (isinstance(w, bool) and isinstance(xi, (bool, np.bool_)) and xi == w)
                mon.check(ok, f"fixed-value-lost:{phase}", lambda: f"{v['name']}: wanted {w!r}, got {xi!r} in {x!r}; {info}")
    mon.state(bo.desc(spec), tuple(v["name"] in fixed for v in spec), info["cls"], info["model"], phase)


def fill(rng, spec, opt, n=8, form="list"):
    f = gen.make_objective(rng, spec)
    P = [gen.rand_point(rng, spec) for _ in range(n)]
    y = [f(p) for p in P]
    if len(set(y)) < 2:
        raise Skip("flat")
    opt.tell([bo.to_form(spec, p, form) for p in P], y)
    return P


def spec_for(rng, types=None, real=False):
    for _ in range(100):
        s = gen.rand_spec(rng, "r" if real else bo.rand_types(rng), int(rng.randint(2, 5)))
        if gen.space_size(s) >= 200:
            return s
    return gen.rand_spec(rng, "r", 3)


def run(kind, rng, mon):
    if kind == "mobo":
        spec = spec_for(rng)
        while any(v["t"] == "s" for v in spec):
            spec = spec_for(rng)
        space = gen.build_space(spec, rng.randint(2))
        form = ["list", "dict"][rng.randint(2)]
        fs = [gen.make_objective(rng, spec) for _ in range(2)]
        opt = bo.MOBO(search_space=space, n_obj=2, obj_fun=None, model=gen.make_rf(space), eval_type=form,
                      DoE_size=4, acquisition_optimization=dict(max_FEs=30, n_restart=1))
        info = dict(cls="MOBO", model="rf")
        fixed = pick_fixed(rng, spec)
        mon.note(space=spec, fixed=fixed)
        X = opt.ask(fixed=dict(fixed))
        judge(mon, spec, X, fixed, info, "mobo-doe")
        P = [gen.rand_point(rng, spec) for _ in range(6)]
        opt.tell([bo.to_form(spec, p, form) for p in P], [[g(p) for g in fs] for p in P])
        X = opt.ask(fixed=dict(fixed))
        judge(mon, spec, X, fixed, info, "mobo-model")
        return

    spec = spec_for(rng, real=kind == "bfgs")
    space = gen.build_space(spec, rng.randint(2))
    cls = ["BO", "ParallelBO", "NoisyBO", "MultiAcquisitionBO", "SelfAdaptiveBO"][rng.randint(5)]
    over, model = {}, None
    if kind == "bfgs":
        over["acquisition_optimization"] = dict(gen.FAST, optimizer="BFGS")
        model = "gp"
        cls = ["BO", "ParallelBO"][rng.randint(2)]
    if kind == "constrained":
        cls = "BO"
        num = [i for i, v in enumerate(spec) if v["t"] in "ri"]
        if not num:
            raise Skip("no numeric variable")
        j = int(num[rng.randint(len(num))])
        mid = 0.5 * (spec[j]["lo"] + spec[j]["hi"])
        nm = spec[j]["name"]
        sgn = 1 if rng.rand() < 0.5 else -1

        def g(x):
            return sgn * ((x[nm] if isinstance(x, dict) else x[j]) - mid)

        over["ineq_fun"] = g
    opt, info = bo.build(rng, spec, space, cls, model=model, **over)
    form = info["eval_type"]
    fixed = pick_fixed(rng, spec)
    if kind == "constrained" and nm in fixed:
        for _ in range(100):
            if sgn * (fixed[nm] - mid) <= 0:
                break
            fixed[nm] = gen.rand_value(rng, spec[j])
        else:
            raise Skip("no feasible fixed value")
    mon.note(space=spec, fixed=fixed, **info)
    free = int(np.clip(gen.space_size([v for v in spec if v["name"] not in fixed]), 0, 10 ** 9))
    given = dict(fixed)
    if kind == "trace":
        if cls == "SelfAdaptiveBO":
            raise Skip("adapts on every request by design")
        opt2, _ = None, None
        st = rng.get_state()
        kw = dict(DoE_size=4, eval_type=form, acquisition_optimization=dict(gen.FAST))
        mname = info["model"]
        s = int(rng.randint(1, 10 ** 6))
        built = []
        for _ in range(2):
            np.random.seed(s)
            r2 = np.random.RandomState(s)
            sp = gen.build_space(spec, 0)
            m = gen.make_model(r2, spec, sp, mname)[1]
            kk = dict(kw)
            if cls != "BO":
                kk["n_point"] = 3
            built.append(bo.CLS[cls](search_space=sp, obj_fun=None, model=m, **kk))
            np.random.seed(s + 1)
            fill(np.random.RandomState(s), spec, built[-1], form=form)
        a, b = built
        if free < 10:
            raise Skip("few free points")
        a.ask(fixed=given)
        mon.check(given == fixed and list(given) == list(fixed), "fixed-dict-modified", f"{fixed} -> {given}")
        for r in range(2):
            np.random.seed(s + 2 + r)
            A = a.ask()
            np.random.seed(s + 2 + r)
            Bp = b.ask()
            mon.event("twin_requests")
            mon.check(A == Bp, "trace-of-fixed-request", lambda: f"{A} vs {Bp} after fixing {fixed}; {cls} {mname}")
        mon.state("trace", bo.desc(spec), cls, mname)
        return
    # initial design
    n = int(rng.randint(1, 6))
    if free < 3 * n + 3:
        n = 1
    X = opt.ask(n_point=n, fixed=given)
    mon.check(given == fixed and list(given) == list(fixed), "fixed-dict-modified", f"{fixed} -> {given}")
    judge(mon, spec, X, fixed, info, "doe")
    if kind == "doe":
        X = opt.ask(n_point=12)  # unrestricted again
        for v in spec:
            if v["name"] in fixed and gen.n_points(v) > 100 and gen.space_size(spec) > 1000:
                vals = {repr(bo.to_list(spec, x)[spec.index(v)]) for x in X}
                mon.check(len(vals) > 1, "still-fixed", lambda: f"{v['name']} only takes {vals} in {X}")
        return
    fill(rng, spec, opt, form=form)
    for it in range(2):
        if it:
            fixed = {k: fixed[k] for k in list(fixed)[:max(1, len(fixed) - 1)]} if kind == "constrained" else pick_fixed(rng, spec)
            given = dict(fixed)
            free = gen.space_size([v for v in spec if v["name"] not in fixed])
        if free < 12 and cls != "NoisyBO":
            continue
        n = 1 if cls == "BO" else int(rng.randint(1, 4))
        X = opt.ask(n_point=n, fixed=given)
        mon.check(given == fixed and list(given) == list(fixed), "fixed-dict-modified", f"{fixed} -> {given}")
        judge(mon, spec, X, fixed, info, "model")
        if kind == "constrained":
            for x in X:
                mon.check(g(x) <= 0, "infeasible", lambda: f"{x}")
