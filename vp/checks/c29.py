"""C29  equivalent formulations of a problem give the same optimization.  Oracle: twin optimizers built from the same seed and fed
the same observations in equivalent form must make identical suggestions (metamorphic comparison of complete traces)."""
import contextlib
import io
import math

import numpy as np

from .. import bo, gen
from ..core import Skip
from . import c10
from bayes_optim.utils.exception import AskEmptyError, FlatFitnessError

ID = "C29"
LEVEL = "exploration"
RULE = ("seeded configurations of all single-objective optimizers (types, surrogates, acquisitions, inner optimizers, directions, fixed "
        "variables) driven twice from the same seed: objective in another unit (powers of two from 2^-60 to 2^60), variables renamed, points as dictionaries, run() instead of the manual loop, and with logging, data "
        "file and console output; several objectives likewise, also negated with the opposite direction (recommendation); distinct situation = (relation, optimizer, types, surrogate, direction)")
TIMEOUT = 170


def kinds(tier):
    k = dict(unit=48, rename=36, form=30, loop=30, quiet=20, mobo=20)
    return k if tier == "quick" else {a: 12 * b for a, b in k.items()}


NAMES = ["a", "b1", "zeta", "Alpha", "x_9", "r0", "real", "m", "lr", "_q", "k10", "k9", "Z"]


def trace(spec, cls, kw, which, seed, f, fixed, steps=4, names=None, form="list", factor=1.0, manual=True, more=None):
    """-> list of suggestions (as lists in the order of `spec`), list of incumbents"""
    spec = [dict(v, name=n) for v, n in zip(spec, names)] if names else spec
    space = gen.build_space(spec, seed % 2)
    m = gen.make_model(np.random.RandomState(0), spec, space, which)[1]
    k2 = dict(kw, acquisition_optimization=dict(kw["acquisition_optimization"]), eval_type=form, **(more or {}))
    out, best = [], []

    def val(x):
        return factor * f(bo.to_list(spec, x))

    if not manual:
        def obj(x):
            out.append(bo.to_list(spec, x))
            return val(x)
        opt = bo.CLS[cls](search_space=space, obj_fun=obj, model=m, random_seed=seed, **k2)
        opt.run()
        return out, [opt.xopt.tolist()]
    opt = bo.CLS[cls](search_space=space, obj_fun=None, model=m, random_seed=seed, **k2)
    for i in range(steps):
        a = {}
        if fixed is not None and i in fixed:
            a["fixed"] = {spec[j]["name"]: v for j, v in fixed[i].items()}
        try:
            X = opt.ask(**a)
        except AskEmptyError:
            raise Skip("exhausted")
        out += [bo.to_list(spec, x) for x in X]
        opt.tell(X, [val(x) for x in X])
        best.append(opt.xopt.tolist())
    return out, best


def same(a, b):
    return len(a) == len(b) and all(c10.canon(x) == c10.canon(y) for x, y in zip(a, b))


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if c10.canon(x) != c10.canon(y):
            return f"point {i}: {x} vs {y}"
    return f"{len(a)} vs {len(b)} points"


def mobo(rng, mon, seed):
    rel = ["negate", "unit", "rename"][rng.randint(3)]
    m = int(rng.randint(2, 4))
    spec = bo.big_enough(rng, ["r", "ri", "rc", "ricob"][rng.randint(4)], least=500)
    fs = [gen.make_objective(rng, spec) for _ in range(m)]
    flags = [bool(rng.randint(2)) for _ in range(m)]
    factor = [2.0 ** int(rng.randint(-20, 21)) for _ in range(m)]
    names = [NAMES[i] + str(i) for i in rng.choice(len(NAMES), len(spec), replace=False)]
    mon.note(relation=rel, spec=spec, flags=flags, seed=seed)

    def once(twin, points=None):
        sp = [dict(v, name=n) for v, n in zip(spec, names)] if twin and rel == "rename" else spec
        space = gen.build_space(sp)
        sg = [-1.0 if twin and rel == "negate" else 1.0] * m
        mn = [(not k) if twin and rel == "negate" else k for k in flags]
        opt = bo.MOBO(search_space=space, n_obj=m, obj_fun=None, model=gen.make_rf(space), DoE_size=5, random_seed=seed, minimize=mn,
                      acquisition_optimization=dict(max_FEs=30, n_restart=1))
        out, fronts = [], []
        for i in range(3):
            X = opt.ask() if points is None or i == 0 else points[i]
            out.append([list(x) for x in X])
            opt.tell(X, [[s * (c if twin and rel == "unit" else 1.0) * g(x) for s, c, g in zip(sg, factor, fs)] for x in X])
            fronts.append(sorted(map(repr, c10.canon(opt.xopt.tolist()))))
        return out, fronts

    A, FA = once(False)
    # NOTE: objectives to be maximized are normalized to another interval, which is equivalent but not bit by bit: the twin is
    # told the same points there and only the recommendation is compared
    Bt, FB = once(True, A if rel == "negate" else None)
    A, Bt = sum(A, []), sum(Bt, [])
    mon.check(same(A, Bt), f"mobo-{rel}", lambda: f"{diff(A, Bt)}; {spec}")
    if same(A, Bt):
        mon.check(FA == FB, f"mobo-{rel}:front", lambda: f"{FA} vs {FB}")
    mon.event("twin_points", len(A))
    mon.state("mobo", rel, bo.desc(spec), m, tuple(flags))


def run(kind, rng, mon):
    seed = int(rng.randint(1, 10 ** 6))
    if kind == "mobo":
        return mobo(rng, mon, seed)
    spec, cls, kw, which, fs = c10.config(rng)
    kw = dict(kw)
    kw.pop("ineq_fun", None)
    form = kw.pop("eval_type")
    f = gen.make_objective(np.random.RandomState(fs), spec)
    fixed = None
    if rng.rand() < 0.3 and len(spec) > 1 and kind != "loop":
        j = int(rng.randint(len(spec)))
        fixed = {int(rng.randint(1, 4)): {j: gen.rand_value(rng, spec[j])}}
    if kind == "loop":
        kw["max_FEs"] = kw["DoE_size"] + 2 * kw.get("n_point", 1)
    elif rng.rand() < 0.1 and spec[0]["t"] in "ri":
        v = spec[0]
        kw["ineq_fun"] = lambda x: [gen.encode(v, (list(x.values()) if isinstance(x, dict) else x)[0]) - 0.7]
    base = dict(spec=spec, cls=cls, kw=kw, which=which, seed=seed, f=f, fixed=fixed, form=form)
    mon.note(space=spec, cls=cls, model=which, kw={a: b for a, b in kw.items() if not callable(b)}, seed=seed, form=form, fixed=fixed)
    other, what = dict(base), ""
    if kind == "unit":
        e = int(rng.randint(1, 61)) * (1 if rng.rand() < 0.4 else -1)
        other["factor"], what = 2.0 ** e, f"2^{e}"
    elif kind == "rename":
        other["names"] = [NAMES[i] + (str(i) if rng.rand() < 0.3 else "") for i in rng.choice(len(NAMES), len(spec), replace=False)]
        what = str(other["names"])
    elif kind == "form":
        base["form"], other["form"] = "list", "dict"
    elif kind == "loop":
        base["steps"] = 3
        other["manual"] = False
    elif kind == "quiet":
        other["more"] = [dict(log_file="run.log"), dict(data_file="d.csv"), dict(verbose=True), dict(instance_id="abc", log_file="x.log", data_file="y.csv")][rng.randint(4)]
        what = str(other["more"])
    try:
        c10.scramble(1)
        A, a = trace(**base)
        c10.scramble(2 + seed % 7)
        with contextlib.redirect_stdout(io.StringIO()):
            Bt, b = trace(**other)
    except FlatFitnessError as e:
        if kind == "unit":
            v = [f(x) for x in A] if "A" in dir() else []
            mon.check(not v or np.ptp(v) <= 1e-9 * np.max(np.abs(v)), "unit:flat", lambda: f"values {v[:8]} times {what} are taken as constant")
        raise Skip("flat")
    if kind == "loop":
        A = A[:len(Bt)] if len(A) > len(Bt) else A
        n = min(len(A), len(Bt))
        mon.check(n >= kw["max_FEs"] and same(A[:n], Bt[:n]), "loop", lambda: f"{diff(A, Bt)}")
    else:
        mon.check(same(A, Bt), kind, lambda: f"{what} {diff(A, Bt)}; {cls} {which} {kw} {spec}")
        if same(A, Bt):
            mon.check(same(a, b), f"{kind}:incumbent", lambda: f"{a} vs {b}")
    mon.event("twin_points", len(A))
    mon.state(kind, cls, bo.desc(spec), which, kw.get("minimize", True), bool(fixed))
