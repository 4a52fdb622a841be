"""C10  equal seeds, equal runs.  Oracle: the trace of a run repeated after disturbing all global random state (and, for
the process kind, under a different hash seed in a new process) must be identical."""
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import bo, gen
from ..core import Skip
from bayes_optim.utils.exception import AskEmptyError, FlatFitnessError

ID = "C10"
LEVEL = "exploration"
RULE = ("seeded configurations of all optimizers (incl. multi-objective, conditional, PCA and the one-call minimizer), each "
        "built and driven twice with the same random_seed after scrambling the global generators, plus repeats in new "
        "processes with other hash seeds; samplers and inner optimizers repeated from equal and consecutive states; distinct "
        "situation = (kind, optimizer/method, types, model)")
TIMEOUT = 170
HEAVY = ("process",)


def kinds(tier):
    k = dict(repeat=70, special=30, differ=30, sample=60, restart=30, process=6)
    return k if tier == "quick" else {a: 10 * b for a, b in k.items()}


def scramble(k):
    np.random.seed(1000 + k)
    np.random.rand(k % 17)
    random.seed(77 * k)


def canon(x):
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in sorted(x.items())}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, np.ndarray):
        return [canon(v) for v in x.tolist()]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    return x


def config(rng):
    spec = bo.big_enough(rng, least=3000)
    cls = list(bo.CLS)[rng.randint(len(bo.CLS))]
    kw = bo.opt_kwargs(rng, spec, cls)
    kw["acquisition_optimization"] = dict(max_FEs=40, n_restart=2)
    which = ["stub", "rf", "gp"][rng.randint(3)]
    if which == "gp" and not all(v["t"] == "r" for v in spec):
        which = "rf"
    if all(v["t"] == "r" for v in spec):
        o = ["MIES", "OnePlusOne_Cholesky_CMA", "BFGS"][rng.randint(3)]
        if o != "BFGS" or which == "gp":
            kw["acquisition_optimization"]["optimizer"] = o
    fs = int(rng.randint(10 ** 6))
    if rng.rand() < 0.1 and spec[0]["t"] in "ri":
        v = spec[0]
        kw["ineq_fun"] = lambda x, v=v: [gen.encode(v, x[v["name"]] if isinstance(x, dict) else x[0]) - 0.7]
    return spec, cls, kw, which, fs


def drive(spec, cls, kw, which, fs, seed, steps=3):
    """build with that seed and drive; -> trace of suggestions"""
    space = gen.build_space(spec, fs % 2)
    f = gen.make_objective(np.random.RandomState(fs), spec)
    m = gen.make_model(np.random.RandomState(0), spec, space, which)[1]
    k2 = dict(kw, acquisition_optimization=dict(kw["acquisition_optimization"]))
    opt = bo.CLS[cls](search_space=space, obj_fun=None, model=m, random_seed=seed, **k2)
    out = []
    for i in range(steps):
        X = opt.ask()
        out.append(canon(X))
        try:
            opt.tell(X, [f(bo.to_list(spec, x)) for x in X])
        except FlatFitnessError:
            raise Skip("flat")
    return out


def special(which, seed, rng):
    """optimizers with their own construction; -> trace"""
    if which == "mobo":
        spec = bo.big_enough(rng, ["r", "ri", "rc"][rng.randint(3)], least=500)
        fs = [gen.make_objective(rng, spec) for _ in range(2)]
        space = gen.build_space(spec)
        opt = bo.MOBO(search_space=space, n_obj=2, obj_fun=None, model=gen.make_rf(space), DoE_size=4, random_seed=seed,
                      acquisition_optimization=dict(max_FEs=30, n_restart=1))
        out = []
        for _ in range(3):
            X = opt.ask()
            out.append(canon(X))
            opt.tell(X, [[g(x) for g in fs] for x in X])
        return out
    if which == "pca":
        from bayes_optim.extension import PCABO

        spec = [dict(t="r", name=f"x{i}", lo=-5.0, hi=5.0, prec=None, scale="linear") for i in range(4)]
        f = gen.make_objective(rng, spec, kind=0)
        opt = PCABO(search_space=gen.build_space(spec), obj_fun=None, DoE_size=6, n_components=0.9, random_seed=seed,
                    model=None, acquisition_optimization=dict(max_FEs=40, n_restart=2))
        out = []
        for _ in range(3):
            X = opt.ask()
            X = [list(map(float, x)) for x in np.atleast_2d(X)]
            out.append(X)
            opt.tell(X, [float(np.sum(np.asarray(x) ** 2)) + x[0] for x in X])
        return out
    if which == "conditional":
        from bayes_optim.extension import ConditionalBO
        from bayes_optim.search_space import Discrete, Integer, Real, SearchSpace

        sp = SearchSpace([Discrete(["a", "b", "c"], name="kind"), Real([0, 1], name="u", conditions="kind == 'a'"),
                          Integer([1, 9], name="n", conditions="kind == 'b'"), Real([-5, 5], name="w"),
                          Real([0, 9], name="v", conditions="kind == 'a'")])
        opt = ConditionalBO(search_space=sp, obj_fun=None, DoE_size=4, n_point=3, max_FEs=40, random_seed=seed,
                            acquisition_optimization=dict(max_FEs=30, n_restart=1))
        out = []
        for _ in range(3):
            X = opt.ask()
            out.append(canon(X))
            opt.tell(X, [x["w"] ** 2 + (x["u"] or 0) + (x["n"] or 0) for x in X])
        return out
    if which == "fmin":
        from bayes_optim import fmin

        calls = []

        def f(x):
            calls.append(list(map(float, x)))
            return float(np.sum(np.asarray(x) ** 2))

        fmin(f, [-5] * 2, [5] * 2, x0=5, max_FEs=8, seed=seed)
        return calls
    raise ValueError


def run(kind, rng, mon):
    seed = 0 if rng.rand() < 0.15 else int(rng.randint(1, 10 ** 6))
    if kind == "repeat":
        c = config(rng)
        mon.note(space=c[0], cls=c[1], model=c[3], seed=seed)
        scramble(1)
        A = drive(*c, seed)
        scramble(2 + seed % 13)
        Bt = drive(*c, seed)
        for i, (a, b) in enumerate(zip(A, Bt)):
            mon.check(a == b, f"not-reproducible:{'doe' if i == 0 else 'model'}",
                      lambda: f"step {i}: {a} vs {b}; {c[1]} {c[3]} seed {seed} {c[2]} {c[0]}")
            mon.event("repeated_steps")
        # consecutive requests must not repeat each other
        pts = [json.dumps(p) for s in A for p in s]
        if c[1] != "NoisyBO":
            mon.check(len(set(pts)) == len(pts), "consecutive-requests-repeat", lambda: f"{pts}")
        mon.state(c[1], bo.desc(c[0]), c[3], c[2]["acquisition_optimization"].get("optimizer"))
    elif kind == "special":
        which = ["mobo", "pca", "conditional", "fmin"][rng.randint(4)]
        s0 = int(rng.randint(10 ** 6))
        scramble(1)
        A = special(which, seed, np.random.RandomState(s0))
        scramble(5)
        Bt = special(which, seed, np.random.RandomState(s0))
        mon.check(A == Bt, f"not-reproducible:{which}", lambda: f"{A} vs {Bt}")
        scramble(5)
        C = special(which, seed + 1, np.random.RandomState(s0))
        mon.check(A[0] != C[0], f"seed-ignored:{which}", lambda: f"seeds {seed} and {seed + 1} give {A[0]}")
        mon.event("repeated_" + which)
        mon.note(optimizer=which, seed=seed)
        mon.state(which, seed % 7)
    elif kind == "differ":
        c = config(rng)
        while not any(v["t"] == "r" for v in c[0]):
            c = config(rng)
        scramble(3)
        A = drive(*c, seed, steps=1)
        scramble(3)  # the same outer state: only the seed differs
        # (also seeds that differ in their leading digits only)
        gap = [1 + int(rng.randint(1000)), 10 ** int(rng.randint(2, 9)), 2 ** int(rng.randint(4, 31))][rng.randint(3)]
        Bt = drive(*c, seed + gap, steps=1)
        mon.check(A != Bt, "seed-ignored", lambda: f"two seeds give the same design {A}; {c[1]}")
        mon.event("different_seeds")
        mon.state("differ", c[1], bo.desc(c[0]))
        mon.note(space=c[0], cls=c[1], seed=seed)
    elif kind == "sample":
        spec = bo.big_enough(rng, least=10 ** 6)
        space = gen.build_space(spec, rng.randint(2))
        n = int(rng.randint(2, 12))
        method = ["uniform", "LHS", "sobol"][rng.randint(3)] if all(v["t"] == "r" for v in spec) else ["uniform", "LHS"][rng.randint(2)]
        kw = {}
        if rng.rand() < 0.25 and spec[0]["t"] in "ri":
            kw["g"] = lambda x: gen.encode(spec[0], x[0]) - 0.6
        scramble(1)
        np.random.seed(seed)
        A = canon(space.sample(n, method=method, **kw))
        A2 = canon(space.sample(n, method=method, **kw))
        scramble(9)
        np.random.seed(seed)
        Bt = canon(space.sample(n, method=method, **kw))
        B2 = canon(space.sample(n, method=method, **kw))
        mon.check(A == Bt and A2 == B2, f"sample-not-reproducible:{method}", lambda: f"{spec}: {A},{A2} vs {Bt},{B2}")
        if method != "sobol" and A and A2:
            mon.check(A != A2, f"consecutive-samples-equal:{method}", lambda: f"{spec}: {A}")
        # a seeded space is reproducible, and using it does not freeze the randomness
        sp = type(space)(space.data, random_seed=seed) if type(space).__name__ == "SearchSpace" else None
        if sp is not None:
            a1, a2 = canon(sp.sample(n, method="uniform")), canon(sp.sample(n, method="uniform"))
            sp = type(space)(space.data, random_seed=seed)
            mon.check(a1 == canon(sp.sample(n, method="uniform")), "seeded-space-not-reproducible", f"{spec}")
            mon.check(a1 != a2, "seeded-space-frozen", f"{a1}")
        # building and slicing spaces must leave the generator alone
        np.random.seed(seed)
        a = np.random.rand()
        np.random.seed(seed)
        s2 = gen.build_space(spec, rng.randint(2))
        s2[0:1], s2.filter([spec[0]["name"]])
        mon.check(np.random.rand() == a, "space-operations-touch-random-state", f"{spec}")
        mon.event("samples", 4)
        mon.state("sample", bo.desc(spec), method, bool(kw))
        mon.note(space=spec, method=method)
    elif kind == "restart":
        # inner optimizers: equal states give equal results, consecutive ones differ
        from bayes_optim.acquisition.optim import argmax_restart
        from bayes_optim.acquisition.optim.mies import MIES
        from bayes_optim.acquisition.optim.one_plus_one_cma_es import OnePlusOne_Cholesky_CMA

        dim = int(rng.randint(2, 4))
        spec = [dict(t="r", name=f"x{i}", lo=-5.0, hi=5.0, prec=None, scale="linear") for i in range(dim)]
        c = rng.uniform(-4, 4, dim)
        which = ["mies", "cma", "argmax-cma", "argmax-mies"][rng.randint(4)]

        def once():
            space = gen.build_space(spec)
            calls = []

            def f(x):
                calls.append(tuple(map(float, np.ravel(np.asarray(x, dtype=float)))))
                return -float(np.sum((np.asarray(x, dtype=float).ravel() - c) ** 2))

            if which == "mies":
                MIES(space, f, max_eval=60, minimize=False, verbose=False, eval_type="list").optimize()
            elif which == "cma":
                OnePlusOne_Cholesky_CMA(search_space=space, obj_fun=f, max_FEs=60, minimize=False, verbose=False).run()
            else:
                argmax_restart(f, space, eval_budget=90, n_restart=3, wait_iter=3,
                               optimizer="MIES" if which.endswith("mies") else "OnePlusOne_Cholesky_CMA")
            return calls

        scramble(4)
        np.random.seed(seed)
        A, A2 = once(), once()
        scramble(6)
        np.random.seed(seed)
        Bt = once()
        mon.check(A == Bt, f"inner-not-reproducible:{which}", lambda: f"{A[:4]} vs {Bt[:4]}")
        mon.check(A[:10] != A2[:10], f"restarts-identical:{which}", lambda: f"{A[:4]}")
        mon.event("inner_runs", 3)
        mon.state("restart", which, dim)
        mon.note(optimizer=which, dim=dim)
    elif kind == "process":
        code = ("import sys, json, warnings, logging; warnings.simplefilter('ignore'); logging.disable(50)\n"
                "import numpy as np\nfrom vp.checks import c10\nfrom vp.core import Skip\n"
                "out = []\n"
                "for s in json.loads(sys.argv[1]):\n"
                "    rng = np.random.RandomState(s)\n"
                "    try:\n"
                "        out.append(c10.drive(*c10.config(rng), s, steps=3))\n"
                "    except Skip:\n        out.append('skip')\n"
                "for w in ('mobo', 'conditional'):\n"
                "    out.append(c10.special(w, 5, np.random.RandomState(3)))\n"
                "json.dump(out, open(sys.argv[2], 'w'), default=str)\n")
        seeds = [int(rng.randint(1, 10 ** 6)) for _ in range(5)]
        res = []
        for h in ("1", "4242"):
            env = dict(os.environ, PYTHONHASHSEED=h)
            q = subprocess.run([sys.executable, "-c", code, json.dumps(seeds), f"o{h}.json"], env=env, capture_output=True,
                               text=True, timeout=160)
            if q.returncode:
                mon.check(False, "process-fails", q.stderr[-1200:])
                return
            res.append(json.load(open(f"o{h}.json")))
        for i, (a, b) in enumerate(zip(*res)):
            mon.check(a == b, "process-dependent", lambda: f"case {i} of {seeds}: {str(a)[:500]} vs {str(b)[:500]}")
            mon.event("cross_process_traces")
        mon.state("process", tuple(seeds))
        mon.note(seeds=seeds)
