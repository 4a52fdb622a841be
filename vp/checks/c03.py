"""C03  constraints.  Oracle: the recording constraint functions themselves, evaluated by the harness on every
suggested point; every argument the library passes to them is checked for being a complete point."""
import math

import numpy as np

from .. import bo, gen
from ..core import Skip
from bayes_optim.utils.exception import AskEmptyError, ConstraintEvaluationError, FlatFitnessError

ID = "C03"
LEVEL = "exploration"
RULE = ("seeded random spaces x random inequality/equality constraints (scalar, vector, list valued; on numeric and "
        "categorical variables), DoE and model-based requests, optionally with fixed variables, plus unsatisfiable and "
        "raising constraints; distinct situation = (types, constraint form, optimizer, model, phase)")
TIMEOUT = 150
TOL = 0.1


def kinds(tier):
    k = dict(ineq=44, eq=24, both=16, hard=16, fixed=20, infeasible=8, raising=30)
    return k if tier == "quick" else {a: 14 * b for a, b in k.items()}


class Cons:
    """a recording constraint"""

    def __init__(self, spec, fun, form, out, mon):
        self.spec, self.fun, self.form, self.out, self.mon = spec, fun, form, out, mon
        self.calls = 0
        self.broken = None  # predicate: where evaluating the constraint fails
        self.raised = 0

    def value(self, x):
        return np.atleast_1d(np.asarray(self.fun(bo.to_list(self.spec, x)), dtype=float))

    def __call__(self, x):
        self.calls += 1
        if self.form == "dict":
            ok = isinstance(x, dict) and set(x) == {v["name"] for v in self.spec}
        else:
            ok = not isinstance(x, dict) and len(x) == len(self.spec)
        self.mon.check(ok, "incomplete-point", lambda: f"constraint called with {x!r} for {[v['name'] for v in self.spec]}")
        if not ok:
            return self._ret(np.zeros(1))
        b = gen.bad_point(self.spec, bo.to_list(self.spec, x), grid=False)
        self.mon.check(b is None, "constraint-on-illegal-point", lambda: f"{b}: {x!r} (space {self.spec})")
        if b is not None:
            return self._ret(np.zeros(1))
        if self.broken is not None and self.broken(bo.to_list(self.spec, x)):
            self.raised += 1
            raise RuntimeError("constraint broken")
        return self._ret(self.value(x))

    def _ret(self, v):
        if self.out == "array":
            return v
        if self.out == "list":
            return v.tolist()
        return float(v[0])


def make_ineq(rng, spec, k):
    num = [i for i, v in enumerate(spec) if v["t"] in "ri"]
    kind = rng.randint(4)
    fs = []
    for _ in range(k):
        i = int(num[rng.randint(len(num))])
        j = int(num[rng.randint(len(num))])
        v, w = spec[i], spec[j]
        c = rng.uniform(0.4, 0.8)
        cat = [q for q, u in enumerate(spec) if u["t"] not in "ri"]
        if kind == 0:
            fs.append(lambda x, i=i, v=v, c=c: gen.encode(v, x[i]) - c)
        elif kind == 1:
            fs.append(lambda x, i=i, v=v, c=c: (1 - c) - gen.encode(v, x[i]))
        elif kind == 2:
            fs.append(lambda x, i=i, j=j, v=v, w=w, c=c: gen.encode(v, x[i]) + gen.encode(w, x[j]) - 2 * c)
        elif cat:
            q = int(cat[rng.randint(len(cat))])
            u, L = spec[q], spec[q]["levels"][0]
            fs.append(lambda x, q=q, L=L, i=i, v=v, c=c: gen.encode(v, x[i]) - (c if x[q] == L else 1.0))
        else:
            fs.append(lambda x, i=i, v=v, c=c: 50 * (gen.encode(v, x[i]) ** 2 - c))
    return lambda x: [f(x) for f in fs]


def run(kind, rng, mon):
    for _ in range(200):
        t = ["r", "r", "ri", "ric", "ricob", "rs", "srb", "i"][rng.randint(8)]
        spec = gen.rand_spec(rng, t, int(rng.randint(1, 4)))
        num = [i for i, v in enumerate(spec) if v["t"] in "ri"]
        reals = [i for i, v in enumerate(spec) if v["t"] == "r" and v["prec"] is None and v["scale"] == "linear"]
        if not num or gen.space_size(spec) < 300:
            continue
        if kind in ("eq", "both") and not reals:
            continue
        break
    else:
        raise Skip("no suitable space")
    space = gen.build_space(spec, rng.randint(2))
    form = ["list", "dict"][rng.randint(2)]
    out = ["array", "list", "scalar"][rng.randint(3)]
    k = 1 if out == "scalar" else int(rng.randint(1, 3))
    over = dict(eval_type=form, DoE_size=int(rng.randint(2, 6)))
    G = H = None
    if kind in ("ineq", "both", "raising", "fixed"):
        G = Cons(spec, make_ineq(rng, spec, k), form, out, mon)
    if kind == "infeasible":
        G = Cons(spec, lambda x: [1.0 + gen.encode(spec[0], x[0])] * k, form, out, mon)
    if kind == "hard":  # a small feasible pocket
        j = int(num[rng.randint(len(num))])
        G = Cons(spec, lambda x: [gen.encode(spec[j], x[j]) - 0.07] * k, form, out, mon)
    if kind in ("eq", "both"):
        j = int(reals[rng.randint(len(reals))])
        v, c = spec[j], rng.uniform(0.25, 0.4)
        steep = [1.0, 1.0, 4.0, 20.0][rng.randint(4)]
        shape = int(rng.randint(3)) if out == "array" else 0  # several components, not all of them decisive

        def eq(x):
            e = steep * (gen.encode(v, x[j]) - c)
            return [[e], [0.0, e], [e, 0.004 * (gen.encode(v, x[j]) - 0.5), -e]][shape]
        H = Cons(spec, eq, form, "scalar" if out == "list" else out, mon)
    cls = ["BO", "ParallelBO", "NoisyBO", "MultiAcquisitionBO", "SelfAdaptiveBO", "AnnealingBO"][rng.randint(6)]
    opt, info = bo.build(rng, spec, space, cls, ineq_fun=G, eq_fun=H, **over)
    mon.note(space=spec, form=form, out=out, **info)

    def judge(X, phase):
        mon.event("points_" + phase, len(X))
        for x in X:
            if gen.bad_point(spec, x, grid=False):
                mon.fail("illegal", f"{x}")
                continue
            if G is not None:
                mon.check(np.all(G.value(x) <= 0), f"inequality-violated:{phase}", lambda: f"g({x}) = {G.value(x)}; {info}")
            if H is not None:
                mon.check(np.all(np.abs(H.value(x)) <= TOL * (1 + 1e-9)), f"equality-violated:{phase}",
                          lambda: f"h({x}) = {H.value(x)}; {info}")
        mon.state(bo.desc(spec), kind, out, form, cls, info["model"], phase)

    def feasible(x):
        return (G is None or np.all(G.value(x) <= 0)) and (H is None or np.all(np.abs(H.value(x)) <= TOL))

    # variables fixed by the requests: the constraints then see complete points and bind the rest
    fixed = {}
    if kind in ("ineq", "eq", "both", "hard", "fixed") and len(spec) > 1 and rng.rand() < (1.0 if kind == "fixed" else 0.2):
        ids = rng.permutation(len(spec))[:int(rng.randint(1, len(spec)))]
        fixed = {spec[i]["name"]: gen.rand_value(rng, spec[i]) for i in ids}
        if gen.space_size([v for v in spec if v["name"] not in fixed]) < 100:
            raise Skip("few free points")
        mon.note(fixed=fixed)

    def sampled():
        return [fixed.get(v["name"], a) for v, a in zip(spec, gen.rand_point(rng, spec))]

    # is there a substantial feasible region? (harness sampling, not the library's)
    share = np.mean([feasible(sampled()) for _ in range(300)])
    if H is not None and fixed and v["name"] in fixed:  # the initial design takes points within 0.01
        share = share if np.all(np.abs(H.value(sampled())) <= 0.009) else 0.0
    if kind == "raising":
        exempt = rng.randint(2)
        if exempt:  # break later, in a model-based request
            P = [gen.rand_point(rng, spec) for _ in range(6)]
            f = gen.make_objective(rng, spec)
            y = [f(p) for p in P]
            if len(set(y)) < 2:
                raise Skip("flat")
            opt.tell([bo.to_form(spec, p, form) for p in P], y)
        j = int(num[rng.randint(len(num))])
        c = rng.uniform(0.3, 0.9)
        G.broken = (lambda x: True) if rng.rand() < 0.4 else (lambda x: gen.encode(spec[j], x[j]) > c)
        try:
            X = opt.ask(n_point=1 if cls == "BO" and exempt else None)
        except ConstraintEvaluationError:
            mon.check(G.raised > 0, "false-constraint-error", "reported although no constraint failed")
            mon.event("constraint_error_reported")
            mon.state("raising", bo.desc(spec), cls, exempt)
            return
        except AskEmptyError:
            mon.check(G.raised == 0, "constraint-failure-swallowed", f"reported as empty ({info})")
            return
        except Exception as e:
            if not G.raised:
                raise
            mon.check(False, "constraint-failure-not-reported",
                      lambda: f"{type(e).__name__}: {e} instead of ConstraintEvaluationError ({info})")
            return
        mon.check(G.raised == 0, "constraint-failure-swallowed", lambda: f"returned {X} ({info})")
        return
    f = gen.make_objective(rng, spec)
    for it in range(3):
        n = None if it == 0 or cls == "BO" else int(rng.randint(1, 4))
        try:
            X = opt.ask(n_point=n, fixed=dict(fixed)) if fixed else opt.ask(n_point=n)
        except AskEmptyError:
            mon.event("ask_empty")
            # (an initial design only takes points that meet equalities much more closely)
            mon.check(share < (0.1 if H is None else 0.15), "feasible-but-empty", lambda: f"AskEmptyError although {share:.0%} of the space is feasible; {info}")
            mon.state("empty", kind, bo.desc(spec), cls)
            if it == 0 and kind == "infeasible" and rng.rand() < 0.6:
                # observations made elsewhere: now model-based requests
                P = [gen.rand_point(rng, spec) for _ in range(6)]
                y = [f(p) for p in P]
                if len(set(y)) > 1:
                    opt.tell([bo.to_form(spec, p, form) for p in P], y)
                    continue
            return
        mon.check(kind != "infeasible", "infeasible-returned", lambda: f"{X} satisfies no constraint; {info}")
        judge(X, ("doe" if it == 0 else "model") + ("-fixed" if fixed else ""))
        y = [f(bo.to_list(spec, x)) for x in X]
        try:
            opt.tell(X, y)
        except FlatFitnessError:
            raise Skip("flat")
