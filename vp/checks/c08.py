"""C08  checkpoints.  Oracles: observable-state comparison of saved/loaded/live optimizers, twin runs from equal random
states, and fault injection into save() (write failing after k bytes, process killed after k bytes, unpicklable
content, unusable path) followed by a check of the live optimizer and of the previous checkpoint."""
import json
import os
import pickle
import resource
import signal
import subprocess
import sys

import numpy as np

from .. import bo, gen, hist
from ..core import Skip
from bayes_optim.utils.exception import FlatFitnessError

ID = "C08"
LEVEL = "fault_enumeration"
RULE = ("seeded histories of every optimizer class saved at a random moment (incl. before any data), loaded in the same or a "
        "new process and continued against the live one; fault cases enumerate the byte position at which the write fails or "
        "the process dies (0, 1, quarters, size-1), unpicklable content and unusable paths; distinct situation = (optimizer, "
        "types, model, phase, fault)")
TIMEOUT = 150


def kinds(tier):
    k = dict(roundtrip=90, live=40, fault=60, killed=24, unpicklable=20, fresh=6, mobo=16, console=6)
    return k if tier == "quick" else {a: 12 * b for a, b in k.items()}


def snap(opt):
    """what a user can observe of an optimizer"""
    d = {}
    data = getattr(opt, "data", None)
    if data is not None:
        d["rows"] = [[_py(v) for v in r] for r in data.tolist()]
        d["fitness"] = np.asarray(data.fitness, dtype=float).ravel().tolist()
        d["n_eval"] = np.asarray(data.n_eval).ravel().tolist()
        d["index"] = [str(i) for i in np.ravel(data.index)]
        d["names"] = list(data.var_name)
        x = opt.xopt
        d["xopt"] = [[_py(v) for v in r] if isinstance(r, list) else _py(r) for r in x.tolist()]
        d["fopt"] = np.ravel(x.fitness).astype(float).tolist()
    for a in ("eval_count", "iter_count", "n_point", "DoE_size", "minimize", "max_FEs", "ftarget", "n_job", "n_obj",
              "acquisition_fun", "dim", "AQ_max_FEs", "AQ_n_restart", "AQ_wait_iter"):
        if hasattr(opt, a):
            d[a] = _py(getattr(opt, a))
    d["hist_f"] = [np.ravel(v).astype(float).tolist() for v in opt.hist_f]
    d["stop"] = {k: np.ravel(v).astype(float).tolist() for k, v in opt.stop_dict.items()}
    d["vars"] = list(opt.search_space.var_name)
    d["bounds"] = [[_py(b) for b in np.ravel(np.array(bb, dtype=object)).tolist()] for bb in opt.search_space.bounds]
    d["fitted"] = bool(opt.model.is_fitted) if not isinstance(opt.model, list) else None
    d["data_is_table"] = data is None or type(data).__name__ == "Solution"
    return d


def _py(v):
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, (list, tuple)):
        return [_py(u) for u in v]
    return v


def diff(a, b):
    return [k for k in sorted(set(a) | set(b)) if json.dumps(a.get(k), default=str) != json.dumps(b.get(k), default=str)]


class Objective:
    """picklable objective"""

    def __init__(self, spec, seed):
        self.spec, self.seed = spec, seed
        self.f = gen.make_objective(np.random.RandomState(seed), spec)

    def __call__(self, x):
        return self.f(bo.to_list(self.spec, x))


def make(rng, light=False):
    spec = bo.big_enough(rng, least=300)
    seed = int(rng.randint(1, 10 ** 6))
    cls = list(bo.CLS)[rng.randint(len(bo.CLS))]
    kw = bo.opt_kwargs(rng, spec, cls)
    kw["acquisition_optimization"] = dict(max_FEs=30, n_restart=1)
    cons = None
    if rng.rand() < 0.3 and spec[0]["t"] in "ri" and not light:
        v = spec[0]
        mid = 0.6 * v["hi"] + 0.4 * v["lo"]
        nm = v["name"]
        cons = lambda x: [(x[nm] if isinstance(x, dict) else x[0]) - mid]  # noqa
        kw["ineq_fun"] = cons
        if rng.rand() < 0.5:
            kw["eq_fun"] = lambda x: [0.0]  # noqa: satisfied everywhere
    if rng.rand() < 0.3:
        kw["max_FEs"] = 50
        kw["ftarget"] = -1e9 if kw.get("minimize", True) else 1e9
    which = ["stub", "stub", "rf", "gp"][rng.randint(4)]
    if which == "gp" and not all(v["t"] == "r" for v in spec):
        which = "stub"
    if which == "stub" and rng.rand() < 0.2:
        kw["DoE_size"] = 1
    obj = Objective(spec, seed)
    info = dict(cls=cls, model=which, form=kw["eval_type"], cons=cons is not None)

    def build():
        np.random.seed(seed)
        space = gen.build_space(spec, seed % 2)
        k2 = dict(kw, acquisition_optimization=dict(kw["acquisition_optimization"]))
        return bo.CLS[cls](search_space=space, obj_fun=obj, model=gen.make_model(rng, spec, space, which)[1], **k2)

    return spec, seed, obj, info, build


def advance(opt, obj, seed, steps):
    """a deterministic number of iterations from a given random state; returns the suggestions"""
    out = []
    for i in range(steps):
        np.random.seed(seed + 31 * i)
        X = opt.ask()
        out.append(X)
        try:
            opt.tell(X, [obj(x) for x in X])
        except FlatFitnessError:
            raise Skip("flat")
    return out


def fork_save(opt, path, limit, ignore, post=None):
    """run opt.save(path) in a child process whose files cannot grow beyond `limit` bytes.
    -> ('saved' | 'raised' | 'killed', result of post)"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN if ignore else signal.SIG_DFL)
            soft = (limit, resource.getrlimit(resource.RLIMIT_FSIZE)[1])
            resource.setrlimit(resource.RLIMIT_FSIZE, soft)
            try:
                opt.save(path)
                res = "saved"
            except BaseException as e:
                res = "raised"
                res_e = f"{type(e).__name__}: {e}"
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.getrlimit(resource.RLIMIT_FSIZE)[1],) * 2)
            val = post() if post else None
            os.write(w, pickle.dumps((res, val)))
            code = 0
        except BaseException as e:
            try:
                os.write(w, pickle.dumps(("error", repr(e))))
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return "killed", None
    return pickle.loads(buf)


def equal_snap(mon, a, b, key, what):
    dd = diff(a, b)
    mon.check(not dd, key, lambda: f"{what}: differs in {dd}: {[(k, a.get(k), b.get(k)) for k in dd[:3]]}")


class Unpicklable:
    def __init__(self, obj):
        self.obj = obj
        self.armed = False

    def __call__(self, x):
        return self.obj(x)

    def __reduce__(self):
        if self.armed:
            raise pickle.PicklingError("cannot be pickled")
        return (Objective, (self.obj.spec, self.obj.seed))


def run_mobo(rng, mon):
    from .c09 import MultiStub

    spec = bo.big_enough(rng, ["r", "ri", "rc", "i"][rng.randint(4)], least=1000)
    m = int(rng.randint(2, 4))
    flags = [bool(rng.randint(2)) for _ in range(m)]
    fs = [Objective(spec, int(rng.randint(10 ** 6))) for _ in range(m)]
    opt = bo.MOBO(search_space=gen.build_space(spec), n_obj=m, obj_fun=fs, model=MultiStub(spec), DoE_size=5, minimize=flags,
                  max_FEs=100, acquisition_optimization=dict(max_FEs=25, n_restart=1))
    info = dict(cls="MOBO", directions=flags)
    mon.note(space=spec, **info)

    def state(o):
        d = dict(count=o.eval_count, iter=o.iter_count, n_obj=o.n_obj, minimize=[bool(b) for b in o.minimize])
        if hasattr(o, "data"):
            d.update(rows=[[_py(v) for v in r] for r in o.data.tolist()], fit=np.asarray(o.data.fitness, float).tolist(),
                     pareto=np.asarray(o.xopt.fitness, float).tolist(), n=[np.asarray(h).tolist() for h in o.hist_f],
                     names=list(o.data.var_name), n_eval=np.ravel(o.data.n_eval).tolist())
        return d

    def step(o, s):
        np.random.seed(s)
        X = o.ask()
        o.tell(X, o.evaluate(X))
        return X

    n0 = int(rng.randint(0, 3))
    for i in range(n0):
        step(opt, 7 + i)
    before = state(opt)
    opt.save("m.dump")
    equal_snap(mon, before, state(opt), "live-changed-by-save", info)
    back = bo.MOBO.load("m.dump")
    equal_snap(mon, before, state(back), "loaded-differs", info)
    A, B = [step(opt, 50 + i) for i in range(2)], [step(back, 50 + i) for i in range(2)]
    mon.check(A == B, "loaded-suggests-differently", lambda: f"{info}: {A} vs {B}")
    equal_snap(mon, state(opt), state(back), "loaded-evolves-differently", info)
    mon.event("loaded")
    mon.state("mobo", bo.desc(spec), tuple(flags), n0)


CONSOLE = '''
import sys, warnings; warnings.simplefilter("ignore")
import numpy as np
from bayes_optim import BO, RealSpace
from bayes_optim.surrogate import RandomForest
mode, log, verbose = sys.argv[1], sys.argv[2] or None, sys.argv[3] == "1"
np.random.seed(3)
if mode == "make":
    o = BO(search_space=RealSpace([[0, 1], [0, 1]]), obj_fun=None, model=RandomForest(levels={}, n_estimators=4), DoE_size=5,
           log_file=log, verbose=verbose, acquisition_optimization=dict(max_FEs=20, n_restart=1))
    X = o.ask(); o.tell(X, [float(sum(x)) for x in X]); o.save("c.dump")
else:
    o = BO.load("c.dump")
    X = o.ask(); o.tell(X, [float(sum(x)) for x in X])
'''


def run_console(rng, mon):
    """a loaded optimizer reports its progress where the saved one did"""
    log, verbose = ["", os.path.abspath("run.log")][rng.randint(2)], bool(rng.randint(2))
    out, size = [], []
    for mode in ("make", "load"):
        q = subprocess.run([sys.executable, "-c", CONSOLE, mode, log, "1" if verbose else "0"], capture_output=True, text=True, timeout=120)
        mon.check(q.returncode == 0, "load-in-new-process-fails", lambda: q.stderr[-1200:])
        if q.returncode:
            return
        out.append(q.stdout)
        size.append(os.path.getsize(log) if log and os.path.exists(log) else 0)
    info = dict(log=bool(log), verbose=verbose)
    mon.check((len(out[0]) > 0) == verbose, "console-ignores-verbosity", lambda: f"{info}: {out[0][:300]!r}")
    mon.check((len(out[1]) > 0) == verbose, "loaded-console-differs", lambda: f"{info}: loaded optimizer printed {out[1][:300]!r}")
    mon.check((size[0] > 0) == bool(log) and (size[1] > size[0]) == bool(log), "log-file-not-continued", lambda: f"{info}: sizes {size}")
    mon.note(**info)
    mon.event("loaded")
    mon.state("console", bool(log), verbose)


def run(kind, rng, mon):
    if kind == "mobo":
        return run_mobo(rng, mon)
    if kind == "console":
        return run_console(rng, mon)
    spec, seed, obj, info, build = make(rng, light=kind != "roundtrip")
    opt = build()
    cls = type(opt)
    mon.note(space=spec, **info)
    n0 = int(rng.randint(12, 30)) if kind == "roundtrip" and info["model"] == "stub" and rng.rand() < 0.15 else int(rng.randint(0, 4)) if kind in ("roundtrip", "fresh") else int(rng.randint(1, 4))
    advance(opt, obj, seed, n0)
    path = ["ck.dump", "sub/dir/ck.dump", os.path.abspath("abs/ck")][rng.randint(3)]
    phase = "before-data" if n0 == 0 else "design" if n0 == 1 else "model"
    if rng.rand() < 0.2 and n0:  # failed evaluations in the history
        opt.tell([bo.to_form(spec, gen.rand_point(rng, spec), info["form"])], [np.nan])

    if kind == "roundtrip":
        before = snap(opt)
        opt.save(path)
        mon.event("saved")
        equal_snap(mon, before, snap(opt), "live-changed-by-save", info)
        mon.check(os.path.exists(path), "no-file", path)
        back = cls.load(path)
        mon.event("loaded")
        mon.check(type(back) is cls, "loaded-type", f"{type(back)}")
        equal_snap(mon, before, snap(back), "loaded-differs", info)
        s2 = seed + 17
        A = advance(opt, obj, s2, 2)
        B = advance(back, obj, s2, 2)
        mon.check(A == B, "loaded-suggests-differently", lambda: f"{info}: {A} vs {B}")
        equal_snap(mon, snap(opt), snap(back), "loaded-evolves-differently", info)
        # a second generation, over the same file
        back.save(path)
        third = cls.load(path)
        equal_snap(mon, snap(back), snap(third), "second-load-differs", info)
        mon.check(third.obj_fun(A[0][0]) == obj(A[0][0]), "objective-lost", "the loaded objective differs")
        mon.state(info["cls"], bo.desc(spec), info["model"], phase, info["cons"])
    elif kind == "live":
        # the saved optimizer must go on exactly like one that was never saved
        twin = build()
        advance(twin, obj, seed, n0)
        while len(getattr(opt, "data", [])) != len(getattr(twin, "data", [])) or opt.iter_count != twin.iter_count:
            if opt.iter_count > twin.iter_count:
                twin.tell([bo.to_form(spec, gen.rand_point(rng, spec), info["form"])], [np.nan])
            else:
                raise Skip("twins out of step")
        np.random.seed(seed + 5)
        opt.save(path)
        st = np.random.randint(1 << 30)
        np.random.seed(seed + 5)
        mon.check(st == np.random.randint(1 << 30), "save-uses-randomness", "saving changed the random state")
        A, B = advance(opt, obj, seed + 9, 2), advance(twin, obj, seed + 9, 2)
        mon.check(A == B, "saved-suggests-differently", lambda: f"{info}: {A} vs {B}")
        equal_snap(mon, snap(opt), snap(twin), "saved-evolves-differently", info)
        mon.state("live", info["cls"], bo.desc(spec), info["model"], phase)
    elif kind in ("fault", "killed"):
        opt.save(path)
        old = snap(opt)
        size = os.path.getsize(path)
        advance(opt, obj, seed + 3, 1)
        before = snap(opt)
        opt.save("probe")
        size2 = os.path.getsize("probe")
        A = None
        if kind == "fault":
            opt2 = cls.load("probe")
            A = advance(opt2, obj, seed + 77, 1)

        def post():
            return snap(opt), advance(opt, obj, seed + 77, 1)

        for k in sorted({0, 1, size2 // 4, size2 // 2, size2 - 1, int(rng.randint(0, size2))}):
            res, val = fork_save(opt, path, k, kind == "fault", post)
            mon.event(f"{kind}:{res}")
            if res == "error":
                mon.check(False, "live-broken-after-failed-save", f"after a write failing at byte {k}: {val}; {info}")
                continue
            mon.check(res != "saved", "incomplete-save-not-reported",
                      lambda: f"save() returned normally although only {k} of {size2} bytes could be written; {info}")
            if res == "raised":
                s, A2 = val
                equal_snap(mon, before, s, "live-changed-by-failed-save", f"write failing at byte {k}; {info}")
                mon.check(A2 == A, "failed-save-changes-suggestions", lambda: f"{info}: {A2} vs {A}")
            try:
                back = cls.load(path)
            except Exception as e:
                mon.check(False, "previous-checkpoint-destroyed", f"{res} at byte {k} of {size2}: {type(e).__name__}: {e}; {info}")
                opt_old = None
                break
            equal_snap(mon, old, snap(back), "previous-checkpoint-changed", f"{res} at byte {k}; {info}")
            mon.state(kind, info["cls"], info["model"], bo.desc(spec), k * 8 // max(1, size2))
    elif kind == "unpicklable":
        u = Unpicklable(obj)
        opt.obj_fun = u
        mode = rng.randint(2)
        opt.save(path)
        old = snap(opt)
        advance(opt, obj, seed + 3, 1)
        before = snap(opt)
        opt.save("probe")
        A = advance(cls.load("probe"), obj, seed + 77, 1)
        target = path
        if mode == 0:
            u.armed = True
        else:
            open("plain", "w").close()
            target = "plain/ck"  # the folder is a file
        try:
            opt.save(target)
            mon.check(False, "failure-not-reported", "save() returned normally although it cannot have saved anything")
        except Exception as e:
            mon.event(f"save_raised_{type(e).__name__}")
        equal_snap(mon, before, snap(opt), "live-changed-by-failed-save", info)
        u.armed = False
        B = advance(opt, obj, seed + 77, 1)
        mon.check(A == B, "failed-save-changes-suggestions", lambda: f"{info}: {A} vs {B}")
        try:
            back = cls.load(path)
        except Exception as e:
            mon.check(False, "previous-checkpoint-destroyed", f"{type(e).__name__}: {e}; {info}")
            return
        equal_snap(mon, old, snap(back), "previous-checkpoint-changed", info)
        opt.save(path)  # and saving works again
        equal_snap(mon, snap(opt), snap(cls.load(path)), "loaded-differs", info)
        mon.state("unpicklable", mode, info["cls"], info["model"], bo.desc(spec))
    elif kind == "fresh":
        # load in a new process
        p = os.path.abspath("ck.dump")
        opt.save(p)
        before = snap(opt)
        A = advance(opt, obj, seed + 17, 1)
        code = ("import sys, json, logging, warnings, io, os, pickle; warnings.simplefilter('ignore'); logging.disable(50);"
                "from vp.checks import c08; import bayes_optim; from vp import bo;"
                "o = bo.CLS[sys.argv[2]].load(sys.argv[1]); s = c08.snap(o); f = o.obj_fun;"
                "A = c08.advance(o, f, int(sys.argv[3]), 1); pickle.dump((s, A), open('out.pkl', 'wb'))")
        q = subprocess.run([sys.executable, "-c", code, p, info["cls"], str(seed + 17)], capture_output=True, text=True,
                           timeout=120)
        mon.check(q.returncode == 0, "load-in-new-process-fails", lambda: q.stderr[-1200:])
        if q.returncode == 0:
            s, B = pickle.load(open("out.pkl", "rb"))
            equal_snap(mon, before, s, "loaded-differs", f"new process; {info}")
            mon.check(A == B, "loaded-suggests-differently", lambda: f"new process, {info}: {A} vs {B}")
        mon.state("fresh", info["cls"], bo.desc(spec), info["model"], phase)
