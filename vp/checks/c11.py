"""C11  inputs and other optimizers are left untouched.  Oracles: deep snapshots of everything passed in, taken before
and after each call; twin optimizers created with and without another optimizer working in between."""
import copy

import numpy as np

from .. import bo, gen, hist
from ..core import Skip
from bayes_optim.solution import Solution
from bayes_optim.utils.exception import AskEmptyError, FlatFitnessError

ID = "C11"
LEVEL = "exploration"
RULE = ("seeded histories (construct, ask with/without fixed, tell in every form, run, warm start, fmin) with deep snapshots of "
        "the caller's objects around each call; pairs of optimizers sharing a space and/or option dictionaries where one works "
        "in between; distinct situation = (optimizer, types, call, input form)")
TIMEOUT = 120


def kinds(tier):
    k = dict(inputs=110, warm=40, leak=60, defaults=24, mobo=16, fmin=8)
    return k if tier == "quick" else {a: 12 * b for a, b in k.items()}


def snap_space(s):
    out = [type(s).__name__, list(s.var_name), list(map(str, s.var_type))]
    for v in s.data:
        out.append((type(v).__name__, v.name, repr(v.bounds), repr(getattr(v, "precision", None)), repr(getattr(v, "scale", None)),
                    repr(getattr(v, "step", None)), repr(getattr(v, "conditions", None)), repr(getattr(v, "default_value", None))))
    out.append(repr(s.bounds))
    out.append(repr({k: list(v) for k, v in s.levels.items()} if s.levels else None))
    for a in ("real_id", "integer_id", "categorical_id", "discrete_id", "ordinal_id", "bool_id", "subset_id"):
        if hasattr(s, a):
            out.append((a, list(np.ravel(getattr(s, a)))))
    return out


def snap(o):
    if isinstance(o, Solution):
        return ("S", repr(o.tolist()), repr(np.asarray(o.fitness).tolist()), repr(np.asarray(o.n_eval).tolist()),
                repr(np.asarray(o.index).tolist()), list(o.var_name))
    if isinstance(o, np.ndarray):
        return ("A", repr(o.tolist()), str(o.dtype), o.shape)
    if isinstance(o, dict):
        return ("D", [(repr(k), snap(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snap(v) for v in o])
    if callable(o) or hasattr(o, "__dict__"):
        return ("O", id(o))
    return repr(o)


def run(kind, rng, mon):
    seed = int(rng.randint(1, 10 ** 6))
    if kind == "fmin":
        from bayes_optim import fmin

        lower, upper = [-5.0, 0.0], [5.0, 2.0]
        x0 = [[1.0, 1.0], [2.0, 0.5], [-3.0, 1.5], [0.5, 0.2]]
        if rng.rand() < 0.5:
            x0 = np.array(x0)
        f = lambda x: float(np.sum(np.asarray(x) ** 2))  # noqa
        y0 = [f(x) for x in x0] if rng.rand() < 0.7 else None
        if y0 is not None and rng.rand() < 0.5:
            y0 = np.array(y0)
        opts = dict(max_FEs=30, n_restart=1)
        objs = dict(lower=lower, upper=upper, x0=x0, y0=y0, acquisition_optimization=opts)
        before = {k: snap(v) for k, v in objs.items()}
        fmin(f, lower, upper, x0=x0, y0=y0, max_FEs=3, seed=seed, acquisition_optimization=opts)
        for k, v in objs.items():
            mon.check(snap(v) == before[k], f"fmin-modifies:{k}", lambda: f"{before[k]} -> {snap(v)}")
        mon.event("fmin_calls")
        mon.note(x0=x0, y0=y0)
        mon.state("fmin", type(x0).__name__, type(y0).__name__)
        return
    if kind == "mobo":
        spec = bo.big_enough(rng, ["r", "ri", "rc"][rng.randint(3)], least=300)
        space = gen.build_space(spec, rng.randint(2))
        fs = [gen.make_objective(rng, spec) for _ in range(2)]
        flags = [True, False]
        opts = dict(max_FEs=30, n_restart=1)
        form = ["list", "dict"][rng.randint(2)]
        s0 = snap_space(space)
        o = bo.MOBO(search_space=space, n_obj=2, obj_fun=fs, model=gen.make_rf(space), DoE_size=4, minimize=flags,
                    eval_type=form, acquisition_optimization=opts)
        for it in range(3):
            fixed = {spec[0]["name"]: gen.rand_value(rng, spec[0])} if len(spec) > 1 and it else None
            f0 = snap(fixed)
            X = o.ask(fixed=fixed)
            mon.check(snap(fixed) == f0, "mobo-modifies:fixed", f"{f0} -> {fixed}")
            Y = [[g(bo.to_list(spec, x)) for g in fs] for x in X]
            if it == 1:
                Y = np.array(Y)
            if it == 2:
                Y[0][0] = np.nan
            b = snap(X), snap(Y)
            o.tell(X, Y)
            mon.check(snap(X) == b[0], "mobo-modifies:X", f"{b[0]} -> {snap(X)}")
            mon.check(snap(Y) == b[1], "mobo-modifies:values", f"{b[1]} -> {snap(Y)}")
            mon.event("mobo_calls", 2)
        mon.check(snap_space(space) == s0, "mobo-modifies:space", "")
        mon.check(flags == [True, False] and len(fs) == 2 and opts == dict(max_FEs=30, n_restart=1), "mobo-modifies:options", f"{flags} {opts}")
        mon.note(space=spec)
        mon.state("mobo", bo.desc(spec), form)
        return

    spec = bo.big_enough(rng, least=2000)
    space = gen.build_space(spec, rng.randint(2))
    cls = list(bo.CLS)[rng.randint(len(bo.CLS))]
    kw = bo.opt_kwargs(rng, spec, cls)
    form = kw["eval_type"]
    kw["acquisition_optimization"] = dict(max_FEs=30, n_restart=1)
    acq = kw.get("acquisition_fun", "MGFI")
    if rng.rand() < 0.7:
        par = {"MGFI": {"t": 1.5}, "UCB": {"alpha": 0.4}, "EpsilonPI": {"epsilon": 0.05}}.get(acq, {})
        kw["acquisition_par"] = dict(par)
    f = gen.make_objective(rng, spec)
    which = ["stub", "stub", "rf"][rng.randint(3)]
    info = dict(cls=cls, model=which, form=form, acq=acq)
    mon.note(space=spec, **info)

    if kind == "inputs":
        s0 = snap_space(space)
        opts = {k: kw[k] for k in ("acquisition_par", "acquisition_optimization") if k in kw}
        o0 = {k: snap(v) for k, v in opts.items()}
        opt = bo.CLS[cls](search_space=space, obj_fun=lambda x: f(bo.to_list(spec, x)), model=gen.make_model(rng, spec, space, which)[1], **kw)

        def around(what, objs, call):
            b = {k: snap(v) for k, v in objs.items()}
            try:
                r = call()
            except FlatFitnessError:
                raise Skip("flat")
            for k, v in objs.items():
                mon.check(snap(v) == b[k], f"{what}-modifies:{k}", lambda: f"{b[k]} -> {snap(v)}; {info}")
            mon.check(snap_space(space) == s0, f"{what}-modifies:space", lambda: f"{s0} -> {snap_space(space)}; {info}")
            for k, v in opts.items():
                mon.check(snap(v) == o0[k], f"{what}-modifies:{k}", lambda: f"{o0[k]} -> {snap(v)}; {info}")
            mon.event("watched_" + what)
            mon.state(cls, bo.desc(spec), what, tuple(objs))
            return r

        around("construct", {}, lambda: None)
        for it in range(4):
            fixed = None
            if rng.rand() < 0.5 and len(spec) > 1:
                j = rng.randint(len(spec))
                fixed = {spec[j]["name"]: gen.rand_value(rng, spec[j])}
            n = 1 if cls == "BO" and it else None
            X = around("ask", {"fixed": fixed}, lambda: opt.ask(n_point=n, fixed=fixed))
            pts = [bo.to_list(spec, x) for x in X]
            if any(gen.bad_point(spec, p, grid=False) for p in pts):
                raise Skip("illegal (C01)")
            y = [f(p) for p in pts]
            if rng.rand() < 0.3 and it:
                y = hist.fail_some(rng, y)
            xf, XX = (("as-asked", X) if rng.rand() < 0.4 else hist.x_form(rng, spec, pts, form))
            yy = hist.y_form(rng, y)
            around("tell", {"X": XX, "values": yy}, lambda: opt.tell(XX, yy))
            if rng.rand() < 0.2 and it and hasattr(opt, "data") and len(opt.data) > 2:
                # telling recorded rows again must not change the caller's copy
                rows = opt.data[[0, 1]]
                around("tell", {"rows": rows}, lambda: opt.tell(rows, [float(v) + 0.5 for v in np.ravel(rows.fitness)]))
        opt.max_FEs = opt.eval_count + 2
        around("run", {}, lambda: opt.run())
    elif kind == "warm":
        n = int(rng.randint(4, 9))
        pts = [gen.rand_point(rng, spec) for _ in range(n)]
        y = [f(p) for p in pts]
        if len(set(y)) < 2:
            raise Skip("flat")
        xf, X = hist.x_form(rng, spec, pts, form)
        yy = hist.y_form(rng, y)
        data = (X, yy)
        b, s0 = snap(data), snap_space(space)
        opt = bo.CLS[cls](search_space=space, obj_fun=None, model=gen.make_model(rng, spec, space, which)[1], warm_data=data, **kw)
        mon.check(snap(data) == b, "warm-data-modified", lambda: f"{b} -> {snap(data)} ({xf}); {info}")
        A = opt.ask()
        opt.tell(A, [f(bo.to_list(spec, x)) for x in A])
        mon.check(snap(data) == b, "warm-data-modified-later", lambda: f"{b} -> {snap(data)} ({xf}); {info}")
        mon.check(snap_space(space) == s0, "warm-modifies:space", "")
        mon.event("warm_starts")
        mon.state("warm", cls, bo.desc(spec), xf)
    elif kind in ("leak", "defaults"):
        # B must behave the same whether or not A has worked before / between
        if kind == "defaults":
            kw.pop("acquisition_par", None)
            cls = ["ParallelBO", "AnnealingBO", "SelfAdaptiveBO", "MultiAcquisitionBO"][rng.randint(4)]
            kw.pop("acquisition_fun", None)
            kw.setdefault("n_point", 3)
            if cls == "AnnealingBO":
                kw["max_FEs"] = 40
            else:
                kw.pop("schedule", None)
        clsA = ["ParallelBO", "AnnealingBO", "SelfAdaptiveBO", "MultiAcquisitionBO", cls][rng.randint(5)]
        order = rng.randint(3)
        share_opts, share_space = rng.rand() < 0.7, rng.rand() < 0.7

        def worker_kw(c):
            k = {x: v for x, v in kw.items() if x in ("DoE_size", "eval_type")}
            if c != "BO":
                k["n_point"] = 3
            if c == "AnnealingBO":
                k["max_FEs"] = 40
            if "acquisition_par" in kw and share_opts and acq == "MGFI" and c != "BO":
                k["acquisition_par"] = kw["acquisition_par"]
            k["acquisition_optimization"] = kw["acquisition_optimization"] if share_opts else dict(kw["acquisition_optimization"])
            return k

        def work(o, s):
            for i in range(3):
                np.random.seed(s + i)
                X = o.ask(n_point=3 if i and type(o).__name__ != "BO" else None)
                try:
                    o.tell(X, [f(bo.to_list(spec, x)) for x in X])
                except FlatFitnessError:
                    raise Skip("flat")

        def trace(with_a):
            sp = gen.build_space(spec)
            mk = lambda c, s, k: bo.CLS[c](search_space=s, obj_fun=None, model=gen.make_model(np.random.RandomState(1), spec, s, which)[1], **k)  # noqa
            kb = dict(kw)
            if not share_opts:
                kb["acquisition_optimization"] = dict(kw["acquisition_optimization"])
            out = []
            if with_a and order == 0:
                work(mk(clsA, sp if share_space else gen.build_space(spec), worker_kw(clsA)), seed + 100)
            np.random.seed(seed)
            b = mk(cls, sp, kb)
            a = None
            for i in range(3):
                if with_a and order == 1 and i == 1:
                    a = mk(clsA, sp if share_space else gen.build_space(spec), worker_kw(clsA))
                    work(a, seed + 100)
                if with_a and order == 2 and i in (0, 2):
                    a = a or mk(clsA, sp if share_space else gen.build_space(spec), worker_kw(clsA))
                    work(a, seed + 100 + i)
                np.random.seed(seed + i)
                X = b.ask()
                out.append(copy.deepcopy(X))
                try:
                    b.tell(X, [f(bo.to_list(spec, x)) for x in X])
                except FlatFitnessError:
                    raise Skip("flat")
            return out

        alone = trace(False)
        after = trace(True)
        again = trace(False)
        for i, (p, q, r) in enumerate(zip(alone, after, again)):
            mon.check(p == q, "leaks-between-optimizers", lambda: f"step {i}: {p} alone, {q} with a {clsA} at work (order {order}, shared options {share_opts}, space {share_space}); {info}")
            mon.check(p == r, "leaks-into-later-optimizers", lambda: f"step {i}: {p} first, {r} later; {info}")
        mon.event("twin_traces", 3)
        mon.state(kind, cls, clsA, order, share_opts, share_space)
