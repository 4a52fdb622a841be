"""C23  parallel evaluation.  The objectives append start/finish events to a log file (so that threads and worker processes
are seen alike) and take random times; the log and the recorded data are compared with a sequential twin."""
import json
import os
import shutil
import tempfile
import time
import zlib

import joblib
import numpy as np

from .. import bo, gen
from ..core import Skip
from .c09 import MultiStub
from bayes_optim.utils.exception import AskEmptyError, FlatFitnessError

ID = "C23"
LEVEL = "exploration"
RULE = ("seeded random spaces x optimizer classes x models x worker counts 2..8 x random evaluation times (thread workers, "
        "process workers, user-supplied batch objectives returning lists, arrays, tuples, generators' lists), failing and "
        "raising evaluations; distinct situation = (kind, class, types, workers, completion order of the last batch)")
TIMEOUT = 150


def kinds(tier):
    k = dict(run=64, evaluate=60, batchobj=50, mobo=30, raising=24, loky=8)
    return k if tier == "quick" else {a: 12 * b for a, b in k.items()}


class Logged:
    """objective: random duration, events in a file"""

    def __init__(self, path, f, spec, salt, slow, fail=0, form="list"):
        self.path, self.f, self.spec, self.salt, self.slow, self.fail, self.form = path, f, spec, salt, slow, fail, form

    def write(self, *ev):
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        try:
            os.write(fd, (json.dumps(ev) + "\n").encode())
        finally:
            os.close(fd)

    def value(self, p):
        c = zlib.crc32(repr((p, self.salt, "v")).encode())
        if self.fail and c % self.fail == 0:
            return float("nan")
        return self.f(p)

    def __call__(self, x):
        p = bo.to_list(self.spec, x)
        k = gen.key_of(p)
        self.write("start", k, isinstance(x, dict) == (self.form == "dict"))
        time.sleep(self.slow * (zlib.crc32(repr((p, self.salt)).encode()) % 1000) / 1000)
        y = self.value(p)
        self.write("end", k, os.getpid())
        return y


class Raises(Exception):
    pass


class Raising(Logged):
    armed = True

    def __call__(self, x):
        p = bo.to_list(self.spec, x)
        if os.path.exists(self.path + ".armed") and zlib.crc32(repr((p, "r")).encode()) % 3 == 0:
            raise Raises("evaluation broke")
        return super().__call__(x)


def read(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(l) for l in f]


def key(p):
    return json.loads(json.dumps(gen.key_of(p)))


def order_of(ev, n):
    """completion order of the last n evaluations relative to their start order"""
    starts = [e[1] for e in ev if e[0] == "start"][-n:]
    ends = [e[1] for e in ev if e[0] == "end"][-n:]
    return [ends.index(s) if s in ends else -1 for s in starts]


def exactly_once(mon, ev, pts, tag):
    """every suggested point was evaluated exactly once, and nothing else"""
    want = sorted(json.dumps(key(p)) for p in pts)
    for what in ("start", "end"):
        got = sorted(json.dumps(e[1]) for e in ev if e[0] == what)
        if not mon.check(got == want, f"{tag}:once", lambda: f"{what}: {len(got)} evaluations of {len(want)} suggested points; "
                         f"missing {[w for w in want if want.count(w) > got.count(w)][:3]}, extra {[g for g in got if got.count(g) > want.count(g)][:3]}"):
            return False
    mon.check(all(e[2] for e in ev if e[0] == "start"), f"{tag}:form", lambda: "the objective did not receive the declared form of a point")
    mon.event("evaluations", len(want))
    return True


def backend(which):
    return joblib.parallel_config(backend="threading") if which == "threads" else joblib.parallel_config(backend="loky")


def rows(opt, spec):
    return opt.data.tolist(), np.asarray(opt.data.fitness, dtype=float)


def compare(mon, a, b, spec, tag):
    """two optimizers in the same state"""
    X, F = rows(a, spec)
    P, G = rows(b, spec)
    ok = mon.check(len(X) == len(P), f"{tag}:records", lambda: f"{len(X)} records, {len(P)} in the sequential run")
    if ok:
        for i in range(len(X)):
            mon.check(gen.same_point(X[i], P[i], spec), f"{tag}:point", lambda: f"record {i}: {X[i]}, sequential {P[i]}")
            mon.check(np.allclose(F[i], G[i], rtol=1e-9, atol=1e-12), f"{tag}:value", lambda: f"record {i} {X[i]}: value {F[i]}, sequential {G[i]}")
    for c in ("eval_count", "iter_count"):
        mon.check(getattr(a, c) == getattr(b, c), f"{tag}:{c}", lambda: f"{getattr(a, c)}, sequential {getattr(b, c)}")
    xa, xb = a.xopt, b.xopt
    mon.check(np.array_equal(np.asarray(xa.fitness), np.asarray(xb.fitness)) and xa.tolist() == xb.tolist(), f"{tag}:xopt", lambda: f"incumbent {xa.tolist()} {xa.fitness}, sequential {xb.tolist()} {xb.fitness}")
    ha, hb = a.hist_f, b.hist_f
    mon.check(len(ha) == len(hb) and all(np.allclose(u, v) for u, v in zip(ha, hb)), f"{tag}:hist_f", lambda: f"{ha} vs {hb}")


def run(kind, rng, mon):
    tmp = tempfile.mkdtemp(prefix="vp_c23_")
    os.environ["PYTHONWARNINGS"] = "ignore"  # of joblib's resource tracker
    try:
        go(kind, rng, mon, tmp)
    except FlatFitnessError:
        raise Skip("flat values")
    finally:
        if kind == "loky":
            from joblib.externals.loky import get_reusable_executor
            get_reusable_executor().shutdown(wait=True, kill_workers=True)
        shutil.rmtree(tmp, ignore_errors=True)


def go(kind, rng, mon, tmp):
    spec = bo.big_enough(rng, least=400)
    f = gen.make_objective(rng, spec, kind=0 if rng.rand() < 0.5 else None)
    salt = int(rng.randint(10 ** 6))
    workers = int(rng.choice([2, 2, 3, 4, 8]))
    seed = int(rng.randint(1, 10 ** 6))
    slow = float(rng.choice([0.0, 0.005, 0.03]))
    form = ["list", "dict"][rng.randint(2)]
    path = os.path.join(tmp, "log")
    fail = int(rng.choice([0, 0, 4]))

    if kind == "mobo":
        m = int(rng.randint(2, 4))
        fs = [gen.make_objective(rng, spec) for _ in range(m)]
        flags = [bool(rng.randint(2)) for _ in range(m)]
        doe = int(rng.randint(3, 8))
        budget = m * (doe + int(rng.randint(0, 4)))
        pair = []
        for n_job, sl in ((workers, slow), (1, 0.0)):
            objs = [Logged(path + f"{n_job}-{k}", fs[k], spec, salt + k, sl, form=form, fail=fail) for k in range(m)]
            o = bo.MOBO(search_space=gen.build_space(spec), obj_fun=objs, n_obj=m, model=MultiStub(spec), DoE_size=doe, minimize=flags,
                        eval_type=form, n_job=n_job, max_FEs=budget, acquisition_optimization=dict(max_FEs=20, n_restart=1))
            np.random.seed(seed)
            its = []
            while o.eval_count < budget:
                try:
                    X = o.ask()
                except AskEmptyError:
                    raise Skip("no further point")
                its += [bo.to_list(spec, x) for x in X]
                with backend("threads"):
                    Y = o.evaluate(X)
                o.tell(X, Y)
            pair.append(o)
            for k in range(m):
                exactly_once(mon, read(path + f"{n_job}-{k}"), its, "mobo")
        if not hasattr(pair[1], "data") or not hasattr(pair[0], "data"):
            raise Skip("every evaluation failed")
        compare(mon, pair[0], pair[1], spec, "mobo")
        mon.state("mobo", bo.desc(spec), workers, order_of(read(path + f"{workers}-0"), 4))
        mon.note(space=spec, workers=workers, directions=flags)
        return

    if kind == "evaluate":  # the batch evaluation of every class
        cls = list(bo.CLS)[rng.randint(len(bo.CLS))]
        obj = Logged(path, f, spec, salt, slow, form=form, fail=fail)
        o, info = bo.build(rng, spec, gen.build_space(spec), cls, "stub", obj, n_job=workers, eval_type=form)
        mon.note(space=spec, workers=workers, **info)
        n = int(rng.randint(1, 20))
        pts = [gen.rand_point(rng, spec) for _ in range(n)]
        with backend("threads"):
            Y = o.evaluate([bo.to_form(spec, p, form) for p in pts])
        Y = [float(y) for y in Y]
        mon.check(len(Y) == n, "evaluate:length", lambda: f"{len(Y)} values for {n} points")
        for p, y in zip(pts, Y):
            e = obj.value(p)
            mon.check(y == e or (y != y and e != e), "evaluate:attributed", lambda: f"value {y} for {p}, whose value is {e}")
        ev = read(path)
        exactly_once(mon, ev, pts, "evaluate")
        mon.state("evaluate", cls, workers, order_of(ev, 5))
        return

    if kind == "batchobj":
        cls = list(bo.CLS)[rng.randint(len(bo.CLS))]
        truth = Logged(path, f, spec, salt, 0.0, form=form, fail=fail)
        out = rng.randint(4)
        batches = []

        def batch(X):
            pts = [bo.to_list(spec, x) for x in X]
            mon.check(all(isinstance(x, dict) == (form == "dict") for x in X), "batchobj:form", lambda: f"batch objective called with {X!r}")
            batches.append(pts)
            y = [truth.value(p) for p in pts]
            return [y, np.array(y), tuple(y), [np.float64(v) for v in y]][out]

        o, info = bo.build(rng, spec, gen.build_space(spec), cls, "stub", None, parallel_obj_fun=batch, eval_type=form, n_job=workers if cls == "BO" and rng.rand() < 0.5 else 1)
        o.obj_fun = None
        mon.note(space=spec, **info)
        told = []
        with backend("threads"):
            for _ in range(int(rng.randint(1, 5))):
                n = len(batches)
                try:
                    if rng.rand() < 0.5:
                        o.step()
                    else:
                        X = o.ask()
                        Y = o.evaluate(X)
                        o.tell(X, Y)
                except AskEmptyError:
                    raise Skip("no further point")
                mon.check(len(batches) == n + 1, "batchobj:calls", lambda: f"batch objective called {len(batches) - n} times in one iteration")
                told += batches[-1]
        mon.event("batches", len(batches))
        good = [(p, truth.value(p)) for p in told]
        good = [(p, y) for p, y in good if np.isfinite(y)]
        mon.check(o.eval_count == len(told), "batchobj:eval_count", lambda: f"eval_count {o.eval_count}, {len(told)} points")
        if good:
            X, F = rows(o, spec)
            if mon.check(len(X) == len(good), "batchobj:records", lambda: f"{len(X)} records of {len(good)} evaluations"):
                for r, v, (p, y) in zip(X, F.ravel(), good):
                    mon.check(gen.same_point(r, p, spec) and v == y, "batchobj:attributed", lambda: f"record {r} {v}, evaluated {p} {y}")
        mon.state("batchobj", cls, bo.desc(spec), out, form, bool(fail))
        return

    if kind == "raising":  # an evaluation breaks off: nothing half-recorded, a repetition succeeds
        cls = list(bo.CLS)[rng.randint(len(bo.CLS))]
        obj = Raising(path, f, spec, salt, slow, form=form)
        o, info = bo.build(rng, spec, gen.build_space(spec), cls, "stub", obj, n_job=1, eval_type=form)
        several = workers if rng.rand() < 0.7 else 1
        mon.note(space=spec, **info)
        with backend("threads"):
            for it in range(3):
                state = (o.eval_count, o.iter_count, len(o.data) if hasattr(o, "data") else 0, len(o.hist_f))
                open(path + ".armed", "w").close()
                # NOTE: the suggestions are made by one worker: the warning filters the acquisition functions set are
                # not meant for threads
                o.n_job = 1
                try:
                    X = o.ask()
                except AskEmptyError:
                    raise Skip("no further point")
                o.n_job = several
                hit = any(zlib.crc32(repr((bo.to_list(spec, x), "r")).encode()) % 3 == 0 for x in X)
                try:
                    o.evaluate(X)
                    broke = False
                except Raises:
                    broke = True
                mon.check(broke == hit, "raising:swallowed", lambda: f"an evaluation raised ({hit}), the optimizer reported {broke}")
                now = (o.eval_count, o.iter_count, len(o.data) if hasattr(o, "data") else 0, len(o.hist_f))
                mon.check(now == state, "raising:state", lambda: f"(evaluations, iterations, records, history) {state} -> {now} by a broken evaluation")
                os.remove(path + ".armed")
                Y = list(o.evaluate(X))
                for x, y in zip(X, Y):
                    mon.check(float(y) == obj.value(bo.to_list(spec, x)), "raising:attributed", lambda: f"{x}: {y}")
                o.tell(X, Y)
                mon.event("broken_batches", int(broke))
        mon.state("raising", cls, bo.desc(spec), workers)
        return

    if kind == "loky":  # worker processes; every class, batch acquisition included
        cls = list(bo.CLS)[rng.randint(len(bo.CLS))]
        obj = Logged(path, f, spec, salt, slow, form=form, fail=fail)
        o, info = bo.build(rng, spec, gen.build_space(spec), cls, "stub", obj, n_job=min(workers, 3), eval_type=form, DoE_size=6)
        mon.note(space=spec, **info)
        told = []
        tell = o.tell
        try:
            for _ in range(3):
                X = o.ask()
                pts = [bo.to_list(spec, x) for x in X]
                for p in pts:
                    b = gen.bad_point(spec, p)
                    mon.check(b is None, "loky:illegal", lambda: f"{b}: {p}")
                Y = [float(y) for y in o.evaluate(X)]
                for p, y in zip(pts, Y):
                    e = obj.value(p)
                    mon.check(abs(y - e) <= 1e-9 * (1 + abs(e)) or (y != y and e != e), "loky:attributed", lambda: f"value {y} for {p}, whose value is {e}")
                tell(X, Y)
                told += pts
        except AskEmptyError:
            raise Skip("no further point")
        ev = read(path)
        exactly_once(mon, ev, told, "loky")
        mon.event("worker_processes", len({e[2] for e in ev if e[0] == "end"}))
        mon.state("loky", cls, workers, len({e[2] for e in ev if e[0] == "end"}))
        return

    # complete runs: several workers against one, from the same random state
    doe = int(rng.randint(3, 12))
    budget = doe + int(rng.randint(0, 6))
    which = ["stub", "stub", "rf", "gp"][rng.randint(4)]
    if which == "gp" and not all(v["t"] == "r" for v in spec):
        which = "stub"
    acq = ["EI", "PI", "UCB", "MGFI"][rng.randint(4)]
    minimize = bool(rng.randint(2))
    pair = []
    for n_job, sl in ((workers, slow), (1, 0.0)):
        obj = Logged(path + str(n_job), f, spec, salt, sl, form=form, fail=fail)
        np.random.seed(seed)
        model = gen.make_model(np.random.RandomState(seed), spec, gen.build_space(spec), which)[1]
        o = bo.BO(search_space=gen.build_space(spec), obj_fun=obj, model=model, DoE_size=doe, max_FEs=budget, eval_type=form, n_job=n_job,
                  acquisition_fun=acq, minimize=minimize, acquisition_optimization=dict(gen.FAST))
        if which == "gp":
            o.acquisition_fun = "EI"
        np.random.seed(seed)
        asked = []
        ask = o.ask

        def spy(*a, _ask=ask, _l=asked, **k):
            X = _ask(*a, **k)
            _l.extend(bo.to_list(spec, x) for x in X)
            return X

        o.ask = spy
        try:
            with backend("threads"):
                o.run()
        except AskEmptyError:
            raise Skip("no further point")
        except AttributeError:
            if not hasattr(o, "data"):
                raise Skip("every evaluation failed")
            raise
        pair.append(o)
        exactly_once(mon, read(path + str(n_job)), asked, "run")
    compare(mon, pair[0], pair[1], spec, "run")
    mon.note(space=spec, workers=workers, model=which, acq=acq, budget=budget)
    mon.state("run", which, bo.desc(spec), workers, order_of([e for e in read(path + str(workers))], 5))
    mon.event("twin_runs")
