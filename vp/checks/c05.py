"""C05  observations are recorded completely, in order and correctly paired.  Oracle: a reference list of
(point, value) kept by the harness, compared with the data set, the counters, what the surrogate was fitted to and
the data file after every observation."""
import csv
import os

import numpy as np

from .. import bo, gen, hist
from ..core import Skip
from bayes_optim.utils.exception import FlatFitnessError

ID = "C05"
LEVEL = "exploration"
RULE = ("seeded histories of tell() with 1-6 points each, suggested or foreign, in every accepted form (lists, arrays, "
        "dicts in any key order, Solution), values with ties/ints/failures (NaN, inf), interleaved with ask; distinct "
        "situation = (types, optimizer, input form, value form, failures, step)")
TIMEOUT = 100


def kinds(tier):
    k = dict(history=150, allfail=40, mixed=60, datafile=20, long=8, unfit=30)
    return k if tier == "quick" else {a: 14 * b for a, b in k.items()}


def same(v, a, b):
    if v["t"] == "r":
        return isinstance(b, (float, np.floating)) and float(a) == float(b)
    if v["t"] == "b":
        return bool(a) == bool(b)
    return a == b and type(a) == type(b) or (a == b and not isinstance(a, (str, tuple)))


def judge(mon, spec, opt, ref, evals, iters, info, spy=None):
    names = [v["name"] for v in spec]
    data = getattr(opt, "data", None)
    n = 0 if data is None else len(data)
    mon.check(n == len(ref), "row-count", lambda: f"{n} rows recorded, {len(ref)} finite observations told; {info}")
    mon.check(opt.eval_count == evals, "eval-count", lambda: f"{opt.eval_count} != {evals}; {info}")
    mon.check(opt.iter_count == iters, "iter-count", lambda: f"{opt.iter_count} != {iters}; {info}")
    if n != len(ref) or n == 0:
        return
    rows = data.tolist()
    fit = np.asarray(data.fitness, dtype=float).reshape(n, -1)
    mon.check(fit.shape == (n, 1), "fitness-shape", f"{fit.shape}")
    mon.check(list(data.var_name) == names, "var-names", lambda: f"{list(data.var_name)} != {names}")
    for i, (p, y) in enumerate(ref):
        ok = len(rows[i]) == len(p) and all(same(v, a, b) for v, a, b in zip(spec, p, rows[i]))
        mon.check(ok, "row-values", lambda: f"row {i}: told {p}, recorded {rows[i]}; {info}")
        mon.check(fit[i, 0] == float(y), "row-fitness", lambda: f"row {i}: told {y}, recorded {fit[i, 0]}; {info}")
    ne = np.asarray(data.n_eval).ravel()
    mon.check(np.all(ne == 1), "n-eval", lambda: f"n_eval {ne} for points evaluated once each; {info}")
    if spy is not None and spy.log:
        X, ys = spy.log[-1]
        mon.check(X == rows, "model-inputs", lambda: f"surrogate fitted to {X}, recorded {rows}")
        y = fit.ravel()
        mon.check(len(ys) == n and np.all(np.isfinite(ys)), "model-targets", lambda: f"fitted to {ys}")
        if len(ys) == n and n > 1 and np.std(y) > 1e-6:
            z = (y - y.mean()) / y.std()
            mon.check(np.allclose(ys, z, rtol=1e-6, atol=1e-6) or np.allclose(ys, y), "model-targets",
                      lambda: f"targets {ys} are not the (standardised) values {y}")


class Broken(Exception):
    pass


class Unfit(hist.SpyStub):
    broken = False

    def fit(self, X, y):
        if self.broken:
            raise Broken()
        return super().fit(X, y)


def run(kind, rng, mon):
    spec = bo.big_enough(rng, least=40)
    space = gen.build_space(spec, rng.randint(2))
    cls = list(bo.CLS)[rng.randint(len(bo.CLS))]
    over = {}
    if kind == "datafile" or kind == "unfit" and rng.rand() < 0.5:
        over["data_file"] = os.path.abspath("data.csv")
        over["eval_type"] = ["list", "dict"][rng.randint(2)]
    kw = bo.opt_kwargs(rng, spec, cls)
    kw.update(over)
    spy = hist.SpyStub(spec) if rng.rand() < 0.7 else None
    if kind == "unfit":
        spy = Unfit(spec)
    model = spy or gen.make_model(rng, spec, space)[1]
    opt = bo.CLS[cls](search_space=space, obj_fun=None, model=model, **kw)
    form = kw["eval_type"]
    info = dict(cls=cls, form=form, model=type(model).__name__)
    f = gen.make_objective(rng, spec)
    mon.note(space=spec, **info)
    ref, evals, iters = [], 0, 0
    judge(mon, spec, opt, ref, 0, 0, info)
    many = kind == "long" and rng.rand() < 0.5  # many observations: in a few large batches, or one after the other
    for it in range(6 if kind != "long" else 4 if many else 70):
        k = int(rng.randint(1, 6)) if not many else int(rng.randint(40, 140))
        ask_it = rng.rand() < (0.4 if kind != "long" else 0.05) and gen.space_size(spec) > 200
        if ask_it:
            A = opt.ask(n_point=None if rng.rand() < 0.5 else (1 if cls == "BO" and it else k))
            pts = [bo.to_list(spec, x) for x in A]
            if any(gen.bad_point(spec, p, grid=False) for p in pts):
                raise Skip("illegal suggestion (C01)")
            if rng.rand() < 0.3:  # reported in another order
                pts = [pts[i] for i in rng.permutation(len(pts))]
            mon.event("told_suggested", len(pts))
        else:
            pts = [gen.rand_point(rng, spec) for _ in range(k)]
            if rng.rand() < 0.3 and ref:
                pts[0] = list(ref[rng.randint(len(ref))][0])  # observed again
                mon.event("told_again")
            mon.event("told_foreign", len(pts))
        y = hist.rand_values(rng, len(pts), f, pts)
        fail = (kind == "allfail" and it < 2) or (kind in ("mixed", "history", "datafile") and rng.rand() < 0.35)
        if fail:
            y = hist.fail_some(rng, y, all_=(kind == "allfail" and it < 2) or rng.rand() < 0.25)
        xf, X = hist.x_form(rng, spec, pts, form)
        yy = hist.y_form(rng, y)
        ok = [(p, v) for p, v in zip(pts, y) if np.isfinite(v)]
        new = [float(v) for _, v in ref + ok]
        if kind == "unfit":
            # the model cannot be fitted: equal values, or an error of its own; what was told is recorded all the same
            if rng.rand() < 0.5:
                y = [3.25] * len(pts)
                yy, ok = list(y), [(p, 3.25) for p in pts]
            spy.broken = rng.rand() < 0.3
        elif len(new) > 5 and np.std(new) < 1e-6:
            raise Skip("flat")
        kk = {}
        if rng.rand() < 0.15:
            kk["index"] = [100 + i for i in range(len(pts))]
        try:
            opt.tell(X, yy, **kk)
        except (FlatFitnessError, Broken) as err:
            flat = np.ptp([float(v) for _, v in ref + ok]) <= 1e-9
            mon.check(kind == "unfit" and (flat if isinstance(err, FlatFitnessError) else spy.broken), "tell-refused", lambda: f"{type(err).__name__} for {[v for _, v in ref + ok]}")
            mon.event("tells_without_model")
        ref += ok
        evals += len(pts)
        iters += 1
        mon.event("tell_" + xf)
        mon.event("failed", len(pts) - len(ok))
        judge(mon, spec, opt, ref, evals, iters, dict(info, step=it, xform=xf, y=list(y)), spy if kind != "unfit" else None)
        mon.state(bo.desc(spec), cls, xf, type(yy).__name__, len(pts) - len(ok) > 0, min(it, 6), len(ref) > 100)
    if "data_file" in over and (ref or os.path.exists("data.csv")):
        with open("data.csv") as fh:
            rows = [r for r in csv.reader(fh) if r]
        mon.check(len(rows) == len(ref), "data-file-rows", lambda: f"{len(rows)} lines for {len(ref)} observations")
        for r, (p, y) in zip(rows, ref):
            mon.check(any(_num(c) == float(y) or abs((_num(c) or 0) - float(y)) < 1e-4 * max(1, abs(y)) for c in r),
                      "data-file-value", lambda: f"{r} does not contain {y}")


def _num(s):
    try:
        return float(s)
    except ValueError:
        return None
