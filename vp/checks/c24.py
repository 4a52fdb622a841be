"""C24  warm starts and `fmin`.  Oracle: the warm data the harness handed over and a recording objective."""
import contextlib
import io

import numpy as np

import bayes_optim
from .. import bo, gen, hist
from ..core import Skip
from bayes_optim.solution import Solution
from bayes_optim.utils.exception import AskEmptyError, FlatFitnessError

ID = "C24"
LEVEL = "exploration"
RULE = ("warm starts of every optimizer class with random spaces, input forms (lists, arrays, Solution, dictionaries), value "
        "forms and sizes, followed by ask/tell or runs; fmin with random bounds (scalars, lists, arrays), x0 (none, count, "
        "points as lists or arrays, with and without values), extra arguments, batch sizes, budgets and seeds; distinct "
        "situation = (class, types, forms, size class) or (bound form, x0 form, y0, batch size, budget class)")
TIMEOUT = 150


def kinds(tier):
    k = dict(warm=110, warm_run=50, fmin=40, fmin_x0=40)
    return k if tier == "quick" else {a: 12 * b for a, b in k.items()}


def warm(rng, mon, kind):
    cls = list(bo.CLS)[rng.randint(len(bo.CLS))]
    spec = bo.big_enough(rng, least=400)
    space = gen.build_space(spec, rng.randint(2))
    f = gen.make_objective(rng, spec, kind=0)
    n = int([2, 3, 5, 9, 20, 35, 70][rng.randint(7)])
    pts = []
    while len(pts) < n:
        p = gen.rand_point(rng, spec)
        if gen.key_of(p) not in {gen.key_of(q) for q in pts}:
            pts.append(p)
    m = rng.randint(4)
    y = [f(p) for p in pts]
    if m == 1:
        y = [float(v) for v in rng.randn(n)]
    elif m == 2:
        y = [int(v) for v in rng.permutation(3 * n)[:n] - n]
    if np.std(y) < 1e-6:
        y = [float(i) for i in range(n)]
    form = ["list", "dict"][rng.randint(2)]
    xf, X = hist.x_form(rng, spec, pts, form)
    Y = [list(y), tuple(y), np.array(y, dtype=float)][rng.randint(3)]
    calls = []

    def obj(x):
        p = bo.to_list(spec, x)
        calls.append(p)
        return f(p)

    doe = n + int(rng.randint(3, 9)) if rng.rand() < 0.6 else int(rng.randint(1, 7))
    extra = int(rng.randint(2, 9))
    model = hist.SpyStub(spec)
    kw = bo.opt_kwargs(rng, spec, cls)
    kw.update(eval_type=form, DoE_size=doe, max_FEs=extra if kind == "warm_run" else kw.get("max_FEs", 60))
    if cls == "AnnealingBO":  # its schedule needs room for at least one iteration after the design
        kw["max_FEs"] = doe + extra
    opt = bo.CLS[cls](search_space=space, obj_fun=obj, model=model, warm_data=(X, Y), **kw)
    mon.note(cls=cls, space=spec, form=xf, n=n, kw={k: v for k, v in kw.items() if k != "acquisition_optimization"})
    mon.event("warm_starts")
    mon.check(not calls, "warm:evaluates", lambda: f"{len(calls)} evaluations by the warm start")
    mon.check(opt.eval_count == 0 and opt.iter_count == 0 and len(opt.hist_f) == 0, "warm:counted",
              lambda: f"eval_count {opt.eval_count}, iter_count {opt.iter_count}, history {opt.hist_f}")

    def records(P, V, tag):
        D, F = opt.data.tolist(), np.ravel(np.asarray(opt.data.fitness, dtype=float))
        if mon.check(len(D) == len(P), f"{tag}:records", lambda: f"{len(D)} records, expected {len(P)}"):
            for i, (r, p) in enumerate(zip(D, P)):
                mon.check(gen.same_point(r, p, spec) and F[i] == V[i], f"{tag}:record", lambda: f"record {i}: {r} {F[i]}, given {p} {V[i]}")
                b = gen.bad_point(spec, r)
                mon.check(b is None, f"{tag}:type", lambda: f"record {i}: {b}: {r!r} (given {p!r})")
                mon.event("records")
        best = (min if opt.minimize else max)(V)
        mon.check(opt.xopt is not None and float(np.ravel(opt.xopt.fitness)[0]) == best, f"{tag}:incumbent", lambda: f"incumbent {opt.xopt.fitness}, best {best}")

    records(pts, y, "warm")
    mon.check(len(model.log) > 0 and len(model.log[-1][0]) == n, "warm:model", lambda: f"model fitted to {[len(a) for a, _ in model.log]} points")
    P, V = list(pts), [float(v) for v in y]
    size = kw.get("n_point", 1)
    if kind == "warm_run":
        try:
            xo, fo, stop = opt.run()
        except AskEmptyError:
            raise Skip("no further point")
        except FlatFitnessError:
            raise Skip("flat values")
        k = len(calls)
        lim = kw["max_FEs"]
        mon.check(opt.eval_count == k, "run:eval_count", lambda: f"eval_count {opt.eval_count}, {k} evaluations")
        mon.check(lim <= k < lim + size, "run:budget", lambda: f"{k} evaluations after the warm start, budget {lim}, batches of {size}")
        records(P + calls, V + [f(p) for p in calls], "run")
        mon.check(opt.iter_count == -(-k // size), "run:iter_count", lambda: f"iter_count {opt.iter_count} for {k} evaluations in batches of {size}")
        mon.check(float(np.ravel(fo)[0]) == (min if opt.minimize else max)(V + [f(p) for p in calls]), "run:result", lambda: f"{fo}")
    else:
        for it in range(int(rng.randint(1, 4))):
            try:
                A = opt.ask()
            except AskEmptyError:
                raise Skip("no further point")
            mon.check(len(A) == size, "ask:design-instead-of-model", lambda: f"{len(A)} points asked after the warm start, batches of {size}, design of {doe}")
            new = [bo.to_list(spec, a) for a in A]
            for p in new:
                if cls != "NoisyBO":
                    mon.check(gen.key_of(p) not in {gen.key_of(q) for q in P}, "ask:repeats", lambda: f"{p} is a known point")
            vals = [f(p) for p in new]
            try:
                opt.tell(A, vals)
            except FlatFitnessError:
                raise Skip("flat values")
            P, V = P + new, V + vals
            mon.check(opt.eval_count == len(P) - n and opt.iter_count == it + 1, "tell:counts", lambda: f"eval_count {opt.eval_count}, iter_count {opt.iter_count}")
            records(P, V, "tell")
    mon.state(cls, bo.desc(spec), xf, min(n, 6), m, kind)


def fmin(rng, mon, with_x0):
    d = int(rng.randint(1, 4))
    lo = np.round(rng.uniform(-5, 1, d), 2)
    hi = lo + np.round(rng.uniform(0.5, 6, d), 2)
    form = rng.randint(4)
    lower, upper = [(lo.tolist(), hi.tolist()), (lo, hi), (tuple(lo), tuple(hi)), (lo.tolist(), hi)][form]
    if d == 1 and rng.rand() < 0.5:
        lower, upper = float(lo[0]), float(hi[0])
    c = lo + rng.rand(d) * (hi - lo)
    k = rng.randint(3)
    calls = []
    args = [(), (2.5,), (1.5, -3.0), (0.5, 2.0, "tag"), (1.0, 0.0, None, 7)][rng.randint(5)]

    def value(x):
        x = np.asarray(x, dtype=float)
        v = [np.sum((x - c) ** 2), np.sum(np.abs(x - c)) + 3, np.sum(np.sin(3 * x) + 0.1 * x ** 2)][k]
        return float(v * (args[0] if args else 1) + (args[1] if len(args) > 1 else 0))

    def func(x, *a):
        mon.check(a == args, "fmin:args", lambda: f"extra arguments {a}, given {args}")
        p = [float(v) for v in x]
        mon.check(len(p) == d and all(l <= v <= h for l, v, h in zip(lo, p, hi)), "fmin:bounds", lambda: f"evaluated at {p}, bounds {lo.tolist()} {hi.tolist()}")
        calls.append(p)
        y = value(x)
        return y

    q = 1 if rng.rand() < 0.6 else int(rng.randint(2, 4))
    kw = dict(n_point=q, seed=int(rng.randint(1, 1000)) if rng.rand() < 0.7 else None, acquisition_optimization=dict(max_FEs=40, n_restart=1))
    if args or rng.rand() < 0.5:
        kw["args"] = args
    if q > 1:
        kw["acquisition_fun"] = "MGFI"
    given, gy, doe, style = [], [], 5 * d, "none"
    if with_x0:
        n = int(rng.randint(3, 9))
        given = (lo + rng.rand(n, d) * (hi - lo)).tolist()
        gy = [value(x) for x in given]
        style = ["list", "array"][rng.randint(2)]
        kw["x0"] = given if style == "list" else np.array(given)
        if rng.rand() < 0.6:
            kw["y0"] = gy if rng.rand() < 0.5 else np.array(gy)
        doe = 0
    elif rng.rand() < 0.6:
        doe = int(rng.randint(3, 10))
        kw["x0"], style = doe, "count"
    budget = doe + int(rng.randint(1, 7))
    kw["max_FEs"] = budget
    mon.note(bounds=(lo.tolist(), hi.tolist()), form=int(form), kw={a: b for a, b in kw.items() if a not in ("x0", "y0")}, x0=style, y0="y0" in kw)
    with contextlib.redirect_stdout(io.StringIO()):
        x, fo, iters, n_eval, trials = bayes_optim.fmin(func, lower, upper, **kw)
    mon.event("fmin_runs")
    mon.event("evaluations", len(calls))
    pre = len(given) if with_x0 and "y0" not in kw else 0
    if pre:
        mon.check(all(np.allclose(a, b) for a, b in zip(calls[:pre], given)), "fmin:x0-evaluated", lambda: f"first evaluations {calls[:pre]}, x0 {given}")
    mon.check(n_eval == len(calls), "fmin:count", lambda: f"{n_eval} evaluations reported, {len(calls)} made")
    new = calls[pre:]
    mon.check(budget <= len(new) < budget + q, "fmin:budget", lambda: f"{len(new)} evaluations, budget {budget}, batches of {q}")
    allx = [list(g) for g in given] + new
    ally = [value(p) for p in allx]
    fo = float(np.ravel(fo)[0])
    xl = [float(v) for v in np.ravel(np.asarray(x.tolist() if hasattr(x, "tolist") else x, dtype=float))]
    mon.check(abs(fo - min(ally)) <= 1e-12 * (1 + abs(fo)), "fmin:best", lambda: f"value {fo} reported, best {min(ally)}")
    mon.check(any(np.allclose(xl, p, rtol=0, atol=1e-12) and abs(v - fo) <= 1e-12 * (1 + abs(fo)) for p, v in zip(allx, ally)), "fmin:point",
              lambda: f"point {xl} with value {fo} was neither given nor evaluated")
    exp = [new[:doe]] if doe else []
    exp += [new[i:i + q] for i in range(doe, len(new), q)]
    ok = mon.check(len(trials) == len(exp) and all(len(a) == len(b) and np.allclose(np.asarray(a, dtype=float).reshape(len(b), d), b, rtol=0, atol=1e-12) for a, b in zip(trials, exp)),
                   "fmin:trials", lambda: f"trial points per iteration {[np.asarray(t).tolist() for t in trials][:4]}, evaluated {exp[:4]}")
    if ok:
        mon.check(iters == len(exp), "fmin:iterations", lambda: f"{iters} iterations reported, {len(exp)} made")
    mon.state(int(form), style, "y0" in kw, q, min(len(new), 12), d, len(args))


def run(kind, rng, mon):
    if kind.startswith("warm"):
        warm(rng, mon, kind)
    else:
        fmin(rng, mon, kind == "fmin_x0")
