"""C04  batches: requested size, no repetition.  Oracle: a set of the observed points kept by the harness, and the
exact number of points of small finite spaces."""
import functools
import math

import numpy as np

from .. import bo, gen
from ..core import Skip
from bayes_optim.utils.exception import AskEmptyError, FlatFitnessError

ID = "C04"
LEVEL = "exploration"
RULE = ("seeded ask/tell histories with random batch sizes: small finite spaces, and finite parts of larger spaces given by fixed variables, driven to exhaustion, large and continuous "
        "spaces, narrow ranges far from zero, points observed elsewhere, re-told points; distinct situation = (types, "
        "optimizer, model, batch size, share of the space seen)")
TIMEOUT = 120


def kinds(tier):
    k = dict(finite=80, slice=24, big=60, doe=60, revisit=40, mobo=14, long=8, conditional=12, narrow=16)
    return k if tier == "quick" else {a: 14 * b for a, b in k.items()}


def small_spec(rng):
    """a finite space of at most 60 points in which every point has a fair share of the samples"""
    for _ in range(300):
        s = gen.rand_spec(rng, ["cob", "i", "icob", "icobs", "s", "rc"][rng.randint(6)], int(rng.randint(1, 4)))
        for v in s:
            if v["t"] == "r":
                v["scale"], v["lo"], v["hi"], v["prec"] = "linear", 0.0, 1.0, 1
            if v["t"] == "i" and v["hi"] > 100:
                v["hi"] = v["lo"] + 9
        if 4 <= gen.space_size(s) <= 60:
            return s
    return [dict(t="i", name="n", lo=0, hi=9, step=1)]


def conditional(rng, mon):
    """batches over a space whose variables are active only on some branches"""
    import itertools

    from bayes_optim.extension import ConditionalBO
    from bayes_optim.search_space import Bool, Discrete, Integer, Ordinal, Real, SearchSpace

    branches = int(rng.choice([2, 2, 3]))
    real = rng.rand() < 0.2
    levels, vs, every = [f"b{i}" for i in range(branches)], [], []
    free = [False, True] if rng.rand() < 0.5 else [0, 1, 2]
    for i, lv in enumerate(levels):
        dom = []
        for j in range(int(rng.randint(1, 3))):
            t = int(rng.randint(3))
            name, cond = f"x{i}{j}", f"c == '{lv}'"
            if real and i == 0 and j == 0:
                vs.append(Real([0, 1], name=name, conditions=cond))
                dom.append(None)
                continue
            vals = [list(range(int(rng.randint(2, 5)))), ["p", "q", "r"][: int(rng.randint(2, 4))], [1, 5, 9]][t]
            vs.append(Integer([0, len(vals) - 1], name=name, conditions=cond) if t == 0 else
                      (Discrete if t == 1 else Ordinal)(vals, name=name, conditions=cond))
            dom.append(vals)
        if not (real and i == 0):
            every += [(lv, fr) + p for fr in free for p in itertools.product(*dom)]
    space = SearchSpace([Discrete(levels, name="c")] + vs + [Bool(name="free") if free[0] is False else Integer([0, 2], name="free")])
    n_point = int(rng.randint(2, 6))
    import bayes_optim.extension as ext

    forest = getattr(ext, "RandomForest", None)
    if forest is not None:  # smaller forests for the sake of speed
        ext.RandomForest = functools.partial(forest, n_estimators=6)
    try:
        opt = ConditionalBO(search_space=space, obj_fun=None, n_point=n_point, DoE_size=3, max_FEs=500, minimize=bool(rng.randint(2)),
                            acquisition_optimization=dict(max_FEs=20, n_restart=1))
    finally:
        if forest is not None:
            ext.RandomForest = forest
    mon.note(branches=branches, real=real, n_point=n_point, size=len(every))
    mon.state("conditional", branches, real, n_point, len(every))
    flat = rng.rand() < 0.3
    seen, left = set(), int(rng.randint(3, 9)) if real or len(every) > 16 or rng.rand() < 0.3 else 60
    canon = lambda x: tuple((k, type(x[k]).__name__, repr(x[k])) for k in sorted(x))
    while left > 0:
        left -= 1
        n = n_point if rng.rand() < 0.7 else int(rng.randint(1, 9))
        rest = 10**6 if real else len(every) - len(seen)
        try:
            X = opt.ask() if n == n_point else opt.ask(n_point=n)
        except AskEmptyError:
            mon.check(rest == 0, "conditional:empty", lambda: f"nothing suggested although {rest} of {len(every)} points are new")
            mon.event("spaces exhausted")
            return
        ks = [canon(x) for x in X]
        mon.event("conditional suggestions", len(X))
        mon.check(len(set(ks)) == len(ks), "conditional:repeated-in-batch", lambda: f"{X}")
        mon.check(not set(ks) & seen, "conditional:observed-before", lambda: f"{X}")
        mon.check(len(X) == min(n, rest), "conditional:size", lambda: f"{len(X)} points for {n}, {rest} new points left")
        if mon.violations:
            return
        seen |= set(ks)
        opt.tell(X, [float(levels.index(x["c"])) + (0.0 if flat and x["c"] == "b1" else float(rng.rand())) for x in X])
    mon.check(opt.eval_count == len(seen), "conditional:count", lambda: f"{opt.eval_count} {len(seen)}")


def run(kind, rng, mon):
    if kind == "conditional":
        return conditional(rng, mon)
    if kind == "finite":
        spec = small_spec(rng)
    elif kind == "slice":  # finitely many points are left once the real variables are fixed
        spec = [v for v in small_spec(rng) if v["t"] != "r"] or [dict(t="i", name="n", lo=0, hi=9, step=1)]
        size = gen.space_size(spec)
        for i in range(int(rng.randint(1, 4))):
            spec.insert(int(rng.randint(len(spec) + 1)), dict(gen.rand_var(rng, "r", f"real_{i}"), prec=None))
    elif kind == "long":  # a finite space of which nearly everything has been observed
        spec = [dict(t="i", name="n", lo=int(rng.randint(-50, 50)), hi=0, step=1)]
        spec[0]["hi"] = spec[0]["lo"] + int(rng.randint(80, 240))
        if rng.rand() < 0.5:
            spec.append(gen.rand_var(rng, "b", "flag"))
    elif kind == "narrow":  # a real variable of a small range next to wide ones that are fixed
        c, w = float(rng.choice([10.0, 1e3, 1e6, -1e4])), float(rng.choice([1e-3, 1e-2, 1.0]))
        spec = [dict(t="r", name="narrow", lo=c, hi=c + w, scale="linear", prec=None)]
        for i in range(int(rng.randint(1, 3))):
            spec.insert(int(rng.randint(len(spec) + 1)), dict(t="r", name=f"wide_{i}", lo=0.0, hi=float(10 ** rng.uniform(3, 7)), scale="linear", prec=None))
        if rng.rand() < 0.4:
            spec.append(gen.rand_var(rng, "c", "kind"))
    elif kind == "mobo":
        spec = bo.big_enough(rng, ["r", "ri", "i"][rng.randint(3)], least=100)
    else:
        spec = bo.big_enough(rng, least=2000, rich=rng.rand() < 0.6)
        if rng.rand() < 0.2 and spec[0]["t"] == "r":
            spec[0].update(lo=1e6, hi=1e6 + 1.0, scale="linear", prec=None)
    space = gen.build_space(spec, rng.randint(2))
    size = gen.space_size(spec) if kind != "slice" else size
    has_real = any(v["t"] == "r" for v in spec) and kind != "slice"
    fixed = {v["name"]: gen.rand_value(rng, v) for v in spec if v["t"] == "r" and v["name"] != "narrow"} if kind in ("slice", "narrow") else None
    seen = set()

    def canon(x):
        return tuple(float(a) if v["t"] == "r" else bool(a) if v["t"] == "b" else a for v, a in zip(spec, bo.to_list(spec, x)))

    def relevant():
        """the observed points of the (sub)space asked for"""
        if kind != "slice":
            return seen
        return {k for k in seen if all(k[i] == float(fixed[v["name"]]) for i, v in enumerate(spec) if v["name"] in fixed)}

    def judge(X, n, info, phase):
        ks = [canon(x) for x in X]
        mon.event("batches_" + phase)
        mon.event("points_" + phase, len(X))
        mon.check(len(set(ks)) == len(ks), f"repeats-within-batch:{phase}", lambda: f"{X}; {info}")
        old = [k for k in ks if k in seen]
        mon.check(not old, f"repeats-observed:{phase}", lambda: f"{old} already observed; {info} {spec}")
        mon.check(len(X) <= n, f"too-many:{phase}", lambda: f"{len(X)} points for a request of {n}; {info}")
        left = size - len(relevant())
        # a real with a declared precision has end points with half the probability of the others
        enough = left >= n if not has_real or math.isinf(size) or size > 1000 else left >= n + 15
        if enough:
            mon.check(len(X) == n, f"too-few:{phase}", lambda: f"{len(X)} points for a request of {n} with {left} unseen points; {info} {spec}")
        mon.state(bo.desc(spec), info["cls"], info["model"], n, min(9, int(10 * len(seen) / size)) if math.isfinite(size) else 0)

    if kind == "mobo":
        fs = [gen.make_objective(rng, spec) for _ in range(2)]
        opt = bo.MOBO(search_space=space, n_obj=2, obj_fun=None, model=gen.make_rf(space), DoE_size=4,
                      acquisition_optimization=dict(max_FEs=30, n_restart=1))
        info = dict(cls="MOBO", model="rf")
        mon.note(space=spec, **info)
        n = 4
        for it in range(4):
            X = opt.ask()
            judge(X, n, info, "mobo")
            opt.tell(X, [[g(x) for g in fs] for x in X])
            seen.update(map(canon, X))
            n = 1
        return

    cls = ["BO", "ParallelBO", "AnnealingBO", "MultiAcquisitionBO", "SelfAdaptiveBO"][rng.randint(5)]
    opt, info = bo.build(rng, spec, space, cls, model="stub" if rng.rand() < 0.6 else None)
    form = info["eval_type"]
    f = gen.make_objective(rng, spec)
    mon.note(space=spec, size=str(size), **info)
    if kind == "doe":
        d = int(rng.randint(2, 12))
        how = int(rng.randint(5))
        if how < 3:  # the size as text or a number
            opt.DoE_size = [str(d), f"{d - 1} + 1", float(d)][how]
            info["DoE_size"] = d
        for n in (None, int(rng.randint(1, 30))):
            X = opt.ask(n_point=n)
            judge(X, n or info["DoE_size"], info, "doe")
        return
    if kind == "long":
        every = [[i] + ([b] if len(spec) > 1 else []) for i in range(spec[0]["lo"], spec[0]["hi"] + 1) for b in ([False, True] if len(spec) > 1 else [0])]
        keep = set(rng.permutation(len(every))[:int(rng.randint(2, 12))].tolist())
        P = [every[i] for i in rng.permutation(len(every)) if i not in keep]
        opt.tell([bo.to_form(spec, p, form) for p in P], [f(p) for p in P])
        seen.update(map(canon, P))
    steps = 40 if kind in ("finite", "slice", "long") else 4
    for it in range(steps):
        if cls == "BO" and (it > 0 or kind == "long"):
            n = 1
        elif it == 0:
            n = int(rng.randint(2, 7))
        else:
            n = int(rng.randint(1, 7)) if rng.rand() < 0.5 else None
        want = n if n is not None else info.get("n_point", 1)
        try:
            X = opt.ask(n_point=n, fixed=fixed)
        except AskEmptyError:
            mon.event("ask_empty")
            left = size - len(relevant())
            mon.check(left <= 0 or (has_real and left <= 15), "empty-but-unseen",
                      lambda: f"AskEmptyError with {left} of {size} points unseen; {info} {spec}")
            mon.state("exhausted", bo.desc(spec), cls, info["model"])
            return
        if kind in ("finite", "slice", "long"):
            mon.check(size - len(relevant()) > 0, "exhausted-not-reported", lambda: f"{X} suggested although all {size} points were observed")
        judge(X, want, info, kind)
        y = [f(bo.to_list(spec, x)) for x in X]
        X = list(X)
        if rng.rand() < 0.3:  # observed elsewhere
            p = gen.rand_point(rng, spec)
            X, y = X + [bo.to_form(spec, p, form)], y + [f(p)]
        if kind == "revisit":  # points next to, and points equal to observed ones
            x = bo.to_list(spec, X[0])
            for v, i in zip(spec, range(len(x))):
                if v["t"] == "i" and x[i] + v["step"] <= v["hi"]:
                    x = x[:i] + [x[i] + v["step"]] + x[i + 1:]
                    break
            X, y = X + [bo.to_form(spec, x, form)], y + [f(x)]
            X, y = X + [X[0]], y + [y[0]]
        if len(set(y)) == 1 and it == 0 and len(y) > 5:
            raise Skip("flat")
        try:
            opt.tell(X, y)
        except FlatFitnessError:
            if len(set(opt.data.fitness.ravel())) == 1:
                raise Skip("flat")
            raise
        seen.update(map(canon, X))
