"""C22  multi-objective optimizer.  Oracle: a reference record of every told point with all its values, and the brute-force
Pareto set of the recorded values under the configured directions."""
import csv
import os
import zlib

import numpy as np

from .. import bo, gen, hist
from ..core import Skip
from .c09 import MultiStub
from .c03 import make_ineq
from bayes_optim.utils.exception import AskEmptyError, RecommendationUnavailableError

ID = "C22"
LEVEL = "exploration"
RULE = ("seeded random spaces x 2..4 objectives x directions (one flag or a list) x histories of told batches (lists, "
        "dictionaries, permuted dictionaries, failures in one or all objectives, ties, near ties, hugely different ranges, "
        "constant objectives) and complete runs with recording objectives; distinct situation = (types, objectives, "
        "directions, value class, failures, front size class)")
TIMEOUT = 120


def kinds(tier):
    k = dict(tell=110, run=44, ask=36)
    return k if tier == "quick" else {a: 14 * b for a, b in k.items()}


class Spy(MultiStub):
    def __init__(self, spec):
        super().__init__(spec)
        self.log = []

    def fit(self, X, y):
        self.log.append((X.tolist(), np.array(y, dtype=float)))
        return super().fit(X, y)


def values(rng, n, m):
    k = rng.randint(7)
    Y = rng.randn(n, m)
    if k == 1:
        Y = rng.randint(0, 4, (n, m)).astype(float)
    elif k == 2:
        Y = Y * 10.0 ** rng.uniform(-6, 6, m)
    elif k == 3:  # near ties: only the last digits decide
        Y = rng.randint(0, 3, (n, m)) + rng.randint(0, 3, (n, m)) * 1e-9
    elif k == 4:
        Y[:, rng.randint(m)] = 3.0
    elif k == 5:
        t = rng.rand(n)
        Y = np.column_stack([t if j % 2 else 1 - t for j in range(m)]) + 0.02 * rng.randint(0, 2, (n, m))
    elif k == 6:  # an outlier compresses the others
        Y[rng.randint(n)] += 10.0 ** rng.uniform(6, 10)
    return Y, ("normal", "ties", "ranges", "near", "constant", "front", "outlier")[k]


def _num(s):
    try:
        return float(s)
    except ValueError:
        return None


def front(Y, flags):
    S = np.where(np.array(flags)[None, :], Y, -Y)
    return [not any(np.all(S[j] <= S[i]) and np.any(S[j] < S[i]) for j in range(len(S))) for i in range(len(S))]


def judge(mon, opt, spec, X, Y, flags, tag, exact=True):
    """the recorded data and the recommendation against the reference record (X, Y)"""
    if not X:
        mon.check(opt.xopt is None, f"{tag}:xopt-without-data", lambda: f"{opt.xopt}")
        try:
            opt.recommend()
            mon.fail(f"{tag}:recommends-without-data", "a recommendation without any successful evaluation")
        except RecommendationUnavailableError:
            mon.check(True, f"{tag}:recommends-without-data", "")
        return
    Y = np.array(Y, dtype=float)
    d = opt.data
    ok = mon.check(len(d) == len(X), f"{tag}:records", lambda: f"{len(d)} records of {len(X)} successful evaluations")
    if not ok:
        return
    F = np.atleast_2d(np.asarray(d.fitness, dtype=float))
    mon.check(F.shape == Y.shape, f"{tag}:shape", lambda: f"objective values of shape {F.shape}, expected {Y.shape}")
    if F.shape != Y.shape:
        return
    for i, (r, x) in enumerate(zip(d.tolist(), X)):
        mon.check(gen.same_point(r, x, spec), f"{tag}:point", lambda: f"record {i}: {r}, told {x}")
        mon.check(np.array_equal(F[i], Y[i]), f"{tag}:values", lambda: f"record {i} {x}: values {F[i]}, told {Y[i]}")
        mon.event("records")
    nd = front(Y, flags)
    rec = opt.recommend()
    R = np.atleast_2d(np.asarray(rec.fitness, dtype=float))
    got = list(zip([gen.key_of(r) for r in rec.tolist()], [tuple(r) for r in R]))
    known = {(gen.key_of(x), tuple(y)): k for x, y, k in zip(d.tolist(), Y, nd)}
    for g in got:
        if mon.check(g in known, f"{tag}:recommends-unrecorded", lambda: f"{g} is no recorded pair"):
            mon.check(known[g] or any(k for (a, b), k in known.items() if b == g[1]), f"{tag}:recommends-dominated",
                      lambda: f"{g} is dominated (directions minimize={flags}), values {Y.tolist()}")
    need = {tuple(y) for y, k in zip(Y, nd) if k}
    have = {g[1] for g in got}
    mon.check(need <= have, f"{tag}:misses", lambda: f"non-dominated values {sorted(need - have)} not recommended (directions minimize={flags}), values {Y.tolist()}")
    mon.event("recommendations")


def run(kind, rng, mon):
    spec = bo.big_enough(rng, ["r", "ri", "rc", "ricob", "ricobs"][rng.randint(5)], least=300)
    space = gen.build_space(spec, rng.randint(2))
    m = int(rng.randint(2, 5)) if kind == "tell" else int(rng.randint(2, 4))
    one = rng.rand() < 0.3
    flags = [bool(rng.randint(2))] * m if one else [bool(rng.randint(2)) for _ in range(m)]
    form = ["list", "dict"][rng.randint(2)]
    kw = dict(n_obj=m, eval_type=form, DoE_size=int(rng.randint(2, 6) if rng.rand() < 0.7 else rng.randint(7, 20)), minimize=flags[0] if one else ([np.array, list, tuple][rng.randint(3)](flags)),
              acquisition_optimization=dict(max_FEs=25, n_restart=1))
    names = [v["name"] for v in spec]
    if kind == "tell":
        model = Spy(spec)
        X, Y, told, fails = [], [], 0, 0
        if rng.rand() < 0.25:  # warm start: taken over, not counted
            n = int(rng.randint(2, 8))
            X = [gen.rand_point(rng, spec) for _ in range(n)]
            Y = values(rng, n, m)[0].tolist()
            kw["warm_data"] = (hist.x_form(rng, spec, X, form, allow_solution=False)[1], [list(v) for v in Y])
        file = None
        if not X and rng.rand() < 0.4:
            file = kw["data_file"] = os.path.abspath("mo.csv")
        opt = bo.MOBO(search_space=space, obj_fun=None, model=model, **kw)
        if X:
            mon.event("warm_starts")
            mon.check(opt.eval_count == 0 and opt.iter_count == 0, "warm:counted", lambda: f"eval_count {opt.eval_count}, iter_count {opt.iter_count}")
            judge(mon, opt, spec, X, Y, flags, "warm")
        cls = []
        for it in range(int(rng.randint(1, 6) if rng.rand() < 0.85 else rng.randint(12, 18))):
            n = int(rng.randint(1, 8)) if rng.rand() < 0.97 else int(rng.randint(60, 160))
            pts = [gen.rand_point(rng, spec) for _ in range(n)]
            if X and rng.rand() < 0.2:
                pts[0] = list(X[rng.randint(len(X))])
            V, c = values(rng, n, m)
            cls.append(c)
            V = V.tolist()
            if rng.rand() < 0.35:
                for i in range(n):
                    if rng.rand() < 0.4 or it == 0 and rng.rand() < 0.3:
                        V[i][rng.randint(m)] = [np.nan, np.inf, -np.inf][rng.randint(3)]
                        if rng.rand() < 0.3:
                            V[i] = [np.nan] * m
            ok = [bool(np.all(np.isfinite(v))) for v in V]
            # the record is taken before the call: the optimizer may not depend on the caller's lists
            X += [list(p) for p, k in zip(pts, ok) if k]
            Y += [list(v) for v, k in zip(V, ok) if k]
            told += n
            fails += n - sum(ok)
            _, arg = hist.x_form(rng, spec, pts, form, allow_solution=False)
            vals = [V, [tuple(v) for v in V], np.array(V)][rng.randint(3)]
            opt.tell(arg, vals)
            mon.event("tells")
            mon.check(opt.eval_count == m * told, "tell:eval_count", lambda: f"eval_count {opt.eval_count} after {told} points with {m} objectives")
            mon.check(opt.iter_count == it + 1, "tell:iter_count", lambda: f"iter_count {opt.iter_count} after {it + 1} tells")
            judge(mon, opt, spec, X, Y, flags, "tell")
            if X and sum(ok):
                P, T = model.log[-1]
                mon.check(len(P) == len(X) and T.shape == (len(X), m), "tell:fit-shape", lambda: f"model fitted to {len(P)} points, values {T.shape}; {len(X)} recorded")
                if len(P) == len(X) and T.shape == (len(X), m):
                    A = np.array(Y)
                    for k in range(m):
                        r = A[:, k].max() - A[:, k].min()
                        e = (A[:, k] - A[:, k].min()) / (r if r > 0 else 1)
                        e = -e if flags[k] else e
                        mon.check(np.allclose(T[:, k] - T[:, k].mean(), e - e.mean(), atol=1e-6), "tell:fit-values",
                                  lambda: f"objective {k} (minimize={flags[k]}): model fitted to {T[:, k].tolist()}, values {A[:, k].tolist()}")
        mon.note(space=spec, directions=flags, values=cls, fails=fails)
        if file and X:
            with open(file) as fh:
                rows = [r for r in csv.reader(fh) if r]
            mon.check(len(rows) == len(X), "data-file-rows", lambda: f"{len(rows)} lines for {len(X)} successful observations in {it + 1} tells")
            for r, y in zip(rows, Y):
                got = [u for u in map(_num, r) if u is not None]
                mon.check(all(any(abs(u - v) <= 1e-4 * max(1, abs(v)) for u in got) for v in y), "data-file-values", lambda: f"{r} does not contain {y}")
            mon.event("data_file_rows", len(rows))
        mon.state(bo.desc(spec), m, tuple(flags), tuple(cls[:2]), bool(fails), min(len(X), 8))
        return

    calls = [[] for _ in range(m)]
    fs = [gen.make_objective(rng, spec) for _ in range(m)]
    bad = rng.rand() < 0.3
    salt = int(rng.randint(10 ** 6))

    def obj(k):
        def f(x):
            p = bo.to_list(spec, x)
            b = gen.bad_point(spec, p)
            mon.check(b is None and (isinstance(x, dict) == (form == "dict")), f"{kind}:argument", lambda: f"objective {k} called with {x!r}: {b}")
            y = fs[k](p)
            if bad and zlib.crc32(repr((p, k, salt)).encode()) % 7 == 0:
                y = float("nan")
            calls[k].append((list(p), y))
            return y
        return f

    which = ["stub", "stub", "rf"][rng.randint(3)]
    model = MultiStub(spec) if which == "stub" else gen.make_rf(space)
    con = None
    if rng.rand() < 0.25 and any(v["t"] in "ri" for v in spec):
        g = make_ineq(rng, spec, 1)
        con = lambda x: np.array(g(bo.to_list(spec, x)), dtype=float)
    budget = int(rng.randint(1, 14)) * int(rng.randint(1, 4))
    objs = [obj(k) for k in range(m)]
    opt = bo.MOBO(search_space=space, obj_fun=objs if rng.rand() < 0.5 else tuple(objs), model=model, max_FEs=budget, ineq_fun=con, **kw)
    mon.note(space=spec, directions=flags, model=which, budget=budget, constrained=con is not None, fails=bad)
    if kind == "run":
        its = []
        tell = opt.tell

        def spy(X, *a, **k):
            its.append(len(X))
            return tell(X, *a, **k)

        opt.tell = spy
        try:
            xo, fo, stop = opt.run()
        except AskEmptyError:
            raise Skip("no further point")
        except RecommendationUnavailableError:  # there is nothing to report if every evaluation failed
            n = len(calls[0])
            mon.check(not any(all(np.isfinite(c[i][1]) for c in calls) for i in range(n)), "run:no-result", lambda: f"no recommendation after {calls}")
            mon.check(m * n >= budget and opt.eval_count == m * n, "run:stops-early", lambda: f"stopped after {m * n} of {budget}")
            mon.event("runs_without_success")
            return
        n = len(calls[0])
        mon.check(all(len(c) == n for c in calls), "run:calls", lambda: f"calls per objective {[len(c) for c in calls]}")
        for k in range(1, m):
            mon.check(all(gen.same_point(a[0], b[0], spec) for a, b in zip(calls[0], calls[k])), "run:objectives-differ-in-points",
                      lambda: "the objectives were not evaluated at the same points in the same order")
        mon.check(opt.eval_count == m * n, "run:eval_count", lambda: f"eval_count {opt.eval_count}, {n} points with {m} objectives")
        mon.check(opt.eval_count >= budget and "max_FEs" in stop, "run:stops-early", lambda: f"stopped after {opt.eval_count} of {budget}: {stop}")
        mon.check(m * (n - its[-1]) < budget, "run:continues", lambda: f"another iteration after {m * (n - its[-1])} of {budget} evaluations")
        keep = [all(np.isfinite(c[i][1]) for c in calls) for i in range(n)]
        X = [calls[0][i][0] for i in range(n) if keep[i]]
        Y = [[c[i][1] for c in calls] for i in range(n) if keep[i]]
        judge(mon, opt, spec, X, Y, flags, "run")
        if X:
            fo = np.atleast_2d(np.asarray(fo, dtype=float))
            xl = [bo.to_list(spec, x) for x in (xo if isinstance(xo, list) and xo and isinstance(xo[0], (list, dict)) else [xo])]
            mon.check(len(xl) == len(fo), "run:result-length", lambda: f"{len(xl)} points, {len(fo)} values")
            for x, y in zip(xl, fo):
                mon.check(any(gen.same_point(x, p, spec) and np.array_equal(y, q) for p, q in zip(X, Y)), "run:result-pair", lambda: f"{x} {y} is no evaluated pair")
        mon.event("runs")
        mon.state("run", bo.desc(spec), m, tuple(flags), which, bad, con is not None)
        return

    # ask/tell with the suggestions checked
    seen = []
    for it in range(int(rng.randint(2, 6))):
        fixed = None
        if it and rng.rand() < 0.3 and con is None:
            j = int(rng.randint(len(spec)))
            fixed = {names[j]: gen.rand_value(rng, spec[j])}
            if len(spec) == 1:
                fixed = None
        try:
            A = opt.ask(1 if it and rng.rand() < 0.5 else None, **(dict(fixed=fixed) if fixed else {}))
        except AskEmptyError:
            raise Skip("no further point")
        P = [bo.to_list(spec, x) for x in A]
        for p in P:
            b = gen.bad_point(spec, p)
            mon.check(b is None, "ask:illegal", lambda: f"{b}: {p}")
            mon.check(gen.key_of(p) not in {gen.key_of(q) for q in seen}, "ask:repeated", lambda: f"{p} was evaluated before")
            if con is not None:
                mon.check(bool(np.all(con(p) <= 1e-9)), "ask:infeasible", lambda: f"{p}: {con(p)}")
            if fixed:
                j = names.index(list(fixed)[0])
                mon.check(gen.same_point([p[j]], [fixed[names[j]]], [spec[j]]), "ask:fixed", lambda: f"{p} for fixed {fixed}")
            mon.event("suggestions")
        V = [[f(p) for f in fs] for p in P]
        seen += P
        opt.tell(A, V)
    mon.state("ask", bo.desc(spec), m, tuple(flags), which, con is not None)
