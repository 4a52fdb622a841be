"""C09  maximizing f mirrors minimizing -f.  Oracle: two optimizers driven in lock step from equal random states."""
import numpy as np

from .. import bo, gen, hist
from ..core import Skip
from bayes_optim.utils.exception import AskEmptyError, FlatFitnessError

ID = "C09"
LEVEL = "exploration"
RULE = ("seeded pairs of optimizers, one maximizing f, one minimizing -f, fed mirrored observations from the same random state "
        "through ask/tell and complete runs with mirrored targets; all acquisition functions, surrogates, inner optimizers; "
        "distinct situation = (types, optimizer, acquisition, model, step)")
TIMEOUT = 150


def kinds(tier):
    k = dict(asktell=90, inner=50, run=50, mobo=12, pareto=20)
    return k if tier == "quick" else {a: 12 * b for a, b in k.items()}


class MultiStub:
    """smooth multi-output surrogate"""

    def __init__(self, spec):
        self.spec, self.is_fitted = spec, False

    def fit(self, X, y):
        self.U = np.array([[gen.encode(v, a) for v, a in zip(self.spec, r)] for r in X.tolist()])
        self.y = np.array(y, dtype=float)
        self.is_fitted = True
        return self

    def predict(self, X, eval_MSE=False):
        rows = X.tolist() if isinstance(X, np.ndarray) else X
        rows = rows if isinstance(rows[0], (list, np.ndarray)) else [rows]
        U = np.array([[gen.encode(v, a) for v, a in zip(self.spec, r)] for r in rows])
        D = ((U[:, None, :] - self.U[None]) ** 2).sum(-1) + 1e-6
        W = 1 / D
        W /= W.sum(1, keepdims=True)
        m = W @ self.y
        s = np.minimum(1, D.min(1))[:, None] * 0.5 + 1e-3
        return (m, np.repeat(s, m.shape[1], axis=1)) if eval_MSE else m


def same_batch(spec, A, Bx):
    if len(A) != len(Bx):
        return False
    return all(gen.same_point(bo.to_list(spec, a), bo.to_list(spec, b), spec) for a, b in zip(A, Bx))


def run(kind, rng, mon):
    seed = int(rng.randint(1, 10 ** 6))
    if kind == "pareto":
        spec = bo.big_enough(rng, ["r", "ri", "rc"][rng.randint(3)], least=100)
        m = int(rng.randint(2, 4))
        flags = [bool(rng.randint(2)) for _ in range(m)]
        P = [gen.rand_point(rng, spec) for _ in range(12)]
        Y = np.round(rng.randn(12, m), 1)
        sets = []
        for flip in (False, True):
            space = gen.build_space(spec)
            fl = [b != flip for b in flags]
            o = bo.MOBO(search_space=space, n_obj=m, obj_fun=None, model=MultiStub(spec), DoE_size=4, minimize=fl,
                        acquisition_optimization=dict(max_FEs=20, n_restart=1))
            o.tell([list(p) for p in P], (Y if not flip else -Y).tolist())
            x = o.xopt
            sets.append({(gen.key_of(r), tuple(np.round(np.ravel(f) * (-1 if flip else 1), 9) + 0.0))
                         for r, f in zip(x.tolist(), x.fitness)})
        mon.check({k[1] for k in sets[0]} == {k[1] for k in sets[1]}, "pareto-not-mirrored", lambda: f"{sets} directions {flags}")
        mon.note(space=spec, directions=flags)
        mon.event("pareto_sets")
        mon.state("pareto", tuple(flags), len(sets[0]))
        return
    if kind == "mobo":
        # the suggestions agree up to rounding of the (single precision) acquisition function: judged by majority
        spec = bo.big_enough(rng, "r", dim=2, least=1e9, rich=False)
        flags = [bool(rng.randint(2)) for _ in range(2)]
        agree = total = 0
        for rep in range(8):
            fs = [gen.make_objective(rng, spec, kind=int(rng.choice([0, 3]))) for _ in range(2)]
            P = [gen.rand_point(rng, spec) for _ in range(7)]
            Y = np.array([[g(p) for g in fs] for p in P])
            out = []
            for flip in (False, True):
                space = gen.build_space(spec)
                o = bo.MOBO(search_space=space, n_obj=2, obj_fun=None, model=MultiStub(spec), DoE_size=4,
                            minimize=[b != flip if k == rep % 2 or rep > 3 else b for k, b in enumerate(flags)],
                            acquisition_optimization=dict(max_FEs=60, n_restart=1))
                s = np.array([-1.0 if flip and (k == rep % 2 or rep > 3) else 1.0 for k in range(2)])
                o.tell([list(p) for p in P], (Y * s).tolist())
                np.random.seed(seed + rep)
                out.append(o.ask())
            d = max(abs(gen.encode(v, a) - gen.encode(v, b)) for v, a, b in zip(spec, out[0][0], out[1][0]))
            agree += d < 0.02
            total += 1
        mon.event("mobo_pairs", total)
        mon.note(space=spec, directions=flags, agree=agree)
        mon.check(4 * agree >= 3 * total, "mobo-suggestions-not-mirrored", lambda: f"only {agree} of {total} mirrored pairs agree; directions {flags}, {spec}")
        mon.state("mobo", tuple(flags), agree)
        return

    real = kind == "inner"
    spec = bo.big_enough(rng, "r" if real else None, least=3000)
    cls = list(bo.CLS)[rng.randint(len(bo.CLS))]
    kw = bo.opt_kwargs(rng, spec, cls)
    kw.pop("minimize", None)
    which = ["stub", "stub", "rf", "gp"][rng.randint(4)]
    if which == "gp" and not all(v["t"] == "r" for v in spec):
        which = "stub"
    if real:
        o = ["MIES", "OnePlusOne_Cholesky_CMA", "BFGS"][rng.randint(3)]
        if o == "BFGS":
            which = "gp"
        kw["acquisition_optimization"] = dict(gen.FAST, optimizer=o)
    f = gen.make_objective(rng, spec)
    form = kw["eval_type"]
    info = dict(cls=cls, model=which, acq=kw.get("acquisition_fun"), **kw["acquisition_optimization"])
    mon.note(space=spec, **info)
    pair = []
    log = {True: [], False: []}
    tgt = None
    if kind == "run":
        kw["max_FEs"] = int(rng.randint(kw["DoE_size"] + 3, kw["DoE_size"] + 12))
        if rng.rand() < 0.6:
            vals = [f(gen.rand_point(rng, spec)) for _ in range(40)]
            tgt = float(np.quantile(vals, 0.85))
    for minimize in (False, True):
        np.random.seed(seed)
        space = gen.build_space(spec, 0)
        k2 = dict(kw, acquisition_optimization=dict(kw["acquisition_optimization"]))
        if tgt is not None:
            k2["ftarget"] = tgt if not minimize else -tgt

        def obj(x, minimize=minimize):
            v = f(bo.to_list(spec, x))
            v = -v if minimize else v
            log[minimize].append((bo.to_list(spec, x), v))
            return v

        pair.append(bo.CLS[cls](search_space=space, obj_fun=obj, minimize=minimize,
                                model=gen.make_model(rng, spec, space, which)[1], **k2))
    mx, mn = pair

    def incumbents():
        a, b = float(np.ravel(mx.xopt.fitness)[0]), float(np.ravel(mn.xopt.fitness)[0])
        mon.check(a == -b, "incumbent-value", lambda: f"{a} vs {b}; {info}")
        pa, pb = mx.xopt.tolist(), mn.xopt.tolist()
        mon.check(gen.same_point(pa, pb, spec), "incumbent-point", lambda: f"{pa} vs {pb}; {info}")

    if kind == "run":
        res = []
        for o in pair:
            np.random.seed(seed + 1)
            try:
                res.append(o.run())
            except FlatFitnessError:
                raise Skip("flat")
        A, Bq = log[False], log[True]
        mon.check(len(A) == len(Bq), "stop-moment", lambda: f"{len(A)} vs {len(Bq)} evaluations; {info}, target {tgt}")
        mon.check(same_batch(spec, [a for a, _ in A], [b for b, _ in Bq]), "run-points", lambda: f"{A} vs {Bq}; {info}")
        mon.check(set(res[0][2]) == set(res[1][2]), "stop-reason", lambda: f"{res[0][2]} vs {res[1][2]}")
        incumbents()
        mon.check(len(mx.hist_f) == len(mn.hist_f) and all(np.all(np.ravel(a) == -np.ravel(b)) for a, b in zip(mx.hist_f, mn.hist_f)),
                  "history", lambda: f"{mx.hist_f} vs {mn.hist_f}")
        mon.event("mirrored_runs")
        mon.state("run", bo.desc(spec), cls, which, kw.get("acquisition_fun"), len(A))
        return
    for it in range(4):
        out = []
        for o in pair:
            np.random.seed(seed + 7 * it)
            out.append(o.ask())
        mon.check(same_batch(spec, *out), f"suggestions-differ:{'model' if it else 'doe'}",
                  lambda: f"step {it}: maximizing suggests {out[0]}, minimizing the negation {out[1]}; {info}")
        if not same_batch(spec, *out):
            return
        mon.event("mirrored_requests")
        X = out[0]
        y = [f(bo.to_list(spec, x)) for x in X]
        if rng.rand() < 0.3 and it:
            y = hist.fail_some(rng, y)
        if it == 0:
            extra = [gen.rand_point(rng, spec) for _ in range(3)]
            X = X + [bo.to_form(spec, p, form) for p in extra]
            y = y + [f(p) for p in extra]
        for o, s in ((mx, 1), (mn, -1)):
            np.random.seed(seed + 7 * it + 3)
            try:
                o.tell(X, [s * v for v in y])
            except FlatFitnessError:
                raise Skip("flat")
        incumbents()
        mon.state(bo.desc(spec), cls, which, kw.get("acquisition_fun"), it, kw["acquisition_optimization"].get("optimizer"))
