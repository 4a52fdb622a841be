"""C15  conditional spaces.  Oracle: a reference enumeration of the branch combinations from the harness's own condition forest;
monitors on every suggestion and on the recorded data of the conditional optimizer."""
import copy
import math

import dill
import numpy as np

from .. import bo, gen
from ..core import Skip
from . import c13
from bayes_optim.extension import ConditionalBO
from bayes_optim.search_space import SearchSpace
from bayes_optim.search_space.node import Node
from bayes_optim.surrogate import RandomForest
from bayes_optim.utils.exception import AskEmptyError

ID = "C15"
LEVEL = "exploration"
RULE = ("seeded random condition forests (depth <= 4; integer, categorical, Boolean, real selectors; values incl. 0, False, negative and "
        "fractional ones; children declared before or after their parents; conditions in variables or as an explicit structure), subspaces "
        "after random space operations, and ask/tell/run histories of the conditional optimizer; distinct situation = (forest shape, "
        "operation / phase)")
TIMEOUT = 200


def kinds(tier):
    k = dict(forest=300, ops=200, structure=100, node=120, history=40, run=8, reach=12)
    return k if tier == "quick" else {a: (30 if a not in ("history", "run") else 12) * b for a, b in k.items()}


NM = ["sel", "x", "y1", "y2", "z", "alpha", "beta", "k9", "lr", "opt", "u_v", "w0", "depth", "eta", "m", "q"]


def literal(v):
    return repr(v)


def selector(rng, name):
    """a variable usable in conditions and its admissible branch values"""
    k = rng.randint(5)
    if k == 0:
        v = dict(t="i", name=name, lo=-2, hi=4, step=1, default=None)
        vals = list(range(-2, 5))
    elif k == 1:
        L = [["A", "B", "C"], ["a b", "c"], ["relu", "tanh", "0"]][rng.randint(3)]
        v, vals = dict(t="c", name=name, levels=L, default=None), list(L)
    elif k == 2:
        v, vals = dict(t="b", name=name, levels=[False, True], default=None), [False, True]
    elif k == 3:
        L = [[0, 1, 5], [0.5, 1.5, 2.5], [-3, 0, 3]][rng.randint(3)]
        v, vals = dict(t="o", name=name, levels=L, default=None), list(L)
    else:
        L = [10, 20, 0]
        v, vals = dict(t="c", name=name, levels=L, default=None), list(L)
    return v, vals


def forest(rng, leaf_types="ricob", depth=3, n_free=None):
    """-> list of variable descriptions with 'cond' = None or (parent name, value)"""
    names = [f"t{k}" for k in range(300)] + [str(n) for n in rng.permutation(NM)]
    out = []

    def leaf(cond):
        v = gen.rand_var(rng, leaf_types[rng.randint(len(leaf_types))], names.pop())
        v["default"], v["cond"] = None, cond
        out.append(v)

    def tree(cond, d):
        v, vals = selector(rng, names.pop())
        v["cond"] = cond
        out.append(v)
        k = int(rng.randint(1, min(3 if rng.rand() < 0.8 else 6, len(vals)) + 1))
        for val in [vals[i] for i in rng.choice(len(vals), k, replace=False)]:
            for _ in range(int(rng.randint(1, 3))):
                if len(out) > 12:
                    if not any(u["cond"] == (v["name"], val) for u in out):
                        leaf((v["name"], val))
                    continue
                if d > 1 and rng.rand() < 0.35:
                    tree((v["name"], val), d - 1)
                else:
                    leaf((v["name"], val))

    for _ in range(int(rng.randint(1, 3))):
        if len(out) < 10:
            tree(None, depth)
    for _ in range(int(rng.randint(0, 3)) if n_free is None else n_free):
        if names:
            leaf(None)
    if rng.rand() < 0.5:  # declaration order is arbitrary
        out = [out[i] for i in rng.permutation(len(out))]
    return out


def cond_str(rng, c):
    p, v = c
    return [f"{p} == {literal(v)}", f"{p}=={literal(v)}", f"{p} == {literal(v)}"][rng.randint(3)]


def lib(rng, spec, with_cond=True):
    vs = []
    for v in spec:
        x = c13.lib_var(v)
        if with_cond and v["cond"] is not None:
            x.set_conditions(cond_str(rng, v["cond"]))
        vs.append(x)
    return vs


def make(rng, spec):
    """a conditional space, with the conditions in the variables or as an explicit structure"""
    if rng.rand() < 0.6 or not any(v["cond"] for v in spec):
        return SearchSpace(lib(rng, spec))
    d = {}
    for v in spec:
        if v["cond"] is not None:
            d.setdefault(v["cond"][0], []).append({"name": v["name"], "condition": f"{v['cond'][0]} == {v['cond'][1]!r}"})
    return SearchSpace(lib(rng, spec, False), structure=d)


def expected(spec):
    """reference: list of (key items, set of active variables that are not condition variables)"""
    names = {v["name"] for v in spec}
    by = {v["name"]: v for v in spec}
    child = {}
    for v in spec:
        if v["cond"] is not None and v["cond"][0] in names:
            child.setdefault(v["cond"][0], []).append(v)
    roots = [v["name"] for v in spec if v["name"] in child and (v["cond"] is None or v["cond"][0] not in names)]

    def combos(n):
        vals = []
        for c in child[n]:
            if not any(c["cond"][1] == q and type(c["cond"][1]) is type(q) for q in vals):
                vals.append(c["cond"][1])
        res = []
        for val in vals:
            part = [({n: val}, set())]
            for c in child[n]:
                if c["cond"][1] != val or type(c["cond"][1]) is not type(val):
                    continue
                sub = combos(c["name"]) if c["name"] in child else [({}, {c["name"]})]
                part = [({**k, **k2}, s | s2) for k, s in part for k2, s2 in sub]
            res += part
        return res

    in_tree = set()

    def mark(n):
        in_tree.add(n)
        for c in child.get(n, []):
            mark(c["name"])

    for r in roots:
        mark(r)
    free = {v["name"] for v in spec if v["name"] not in in_tree}
    res = [({}, set(free))]
    for r in roots:
        res = [({**k, **k2}, s | s2) for k, s in res for k2, s2 in combos(r)]
    return res


def canon(items):
    return sorted((tuple(sorted((k, type(v).__name__, repr(v)) for k, v in key.items())), tuple(sorted(names))) for key, names in items)


def observe(mon, s, spec, tag, ctx=""):
    by = {v["name"]: v for v in spec}
    before = [c13.shown(v) for v in s.data], list(s.var_name)
    subs = s.get_unconditional_subspace()
    mon.event("subspace_enumerations")
    mon.event("subspaces", len(subs))
    got, want = canon([(k, t.var_name) for k, t in subs]), canon(expected(spec))
    ok = mon.check(got == want, f"{tag}:subspaces", lambda: f"{ctx} forest {[(v['name'], v['cond']) for v in spec]} got {got} expected {want}")
    for k, t in subs:
        for var in t.data:
            mon.check(var.name in by and c13.shown(var) == c13.describe(by[var.name]), f"{tag}:subspace-variable",
                      lambda: f"{ctx} {c13.shown(var)}")
        mon.check(len(set(t.var_name)) == len(t.var_name), f"{tag}:repeated-variable", lambda: f"{k} {t.var_name}")
    mon.check((([c13.shown(v) for v in s.data], list(s.var_name)) == before), f"{tag}:space-changed", ctx)
    again = canon([(k, t.var_name) for k, t in s.get_unconditional_subspace()])
    mon.check(again == got, f"{tag}:second-enumeration-differs", ctx)
    return ok


def shape(spec):
    e = expected(spec)
    return len(e), max(len(k) for k, _ in e), len(spec)


def run(kind, rng, mon):
    if kind == "node":
        spec = forest(rng, depth=4)
        d = {}
        for v in spec:
            if v["cond"] is not None:
                d.setdefault(v["cond"][0], []).append({"name": v["name"], "condition": f"{v['cond'][0]} == {v['cond'][1]!r}"})
        before = copy.deepcopy(d)
        trees = Node.from_dict(d)
        mon.check(d == before, "node:description-modified", "")
        back = {}
        for t in trees:
            back.update(t.to_dict())
        norm = lambda q: {k: sorted((c["name"], c["condition"]) for c in v) for k, v in q.items()}  # noqa
        mon.check(norm(back) == norm(d), "node:roundtrip", lambda: f"{d} -> {back}")
        names = [n for t in trees for n in t.get_all_name()]
        intree = {k for k in d} | {c["name"] for v in d.values() for c in v}
        mon.check(sorted(names) == sorted(intree), "node:names", lambda: f"{names} {intree}")
        roots = {k for k in d} - {c["name"] for v in d.values() for c in v}
        mon.check({t.name for t in trees} == roots, "node:roots", lambda: f"{trees} {roots}")
        # removing keeps exactly the sub-trees that are still connected, and leaves the original alone
        drop = [n for n in sorted(intree) if rng.rand() < 0.3]
        inv = rng.rand() < 0.5
        arg = [n for n in sorted(intree) if n not in drop] if inv else drop
        for t in trees:
            r = t.remove(arg, invert=inv)

            def keep(n):
                if n in drop:
                    return []
                return [n] + [m for c in d.get(n, []) for m in keep(c["name"])]

            want = keep(t.name)
            got = r.get_all_name() if r is not None else []
            mon.check(sorted(got) == sorted(want), "node:remove", lambda: f"{d} without {drop}: {got} expected {want}")
            if r is not None:
                mon.check(norm(r.to_dict()) == norm({k: [c for c in v if c["name"] in want] for k, v in d.items() if k in want and any(c["name"] in want for c in v)}),
                          "node:remove-conditions", lambda: f"{d} without {drop}: {r.to_dict()}")
            cp = t.deepcopy()
            cp.add_child(Node("new"), "c")
            for c in list(cp.children):
                c.name = "renamed"
        back2 = {}
        for t in trees:
            back2.update(t.to_dict())
        mon.check(norm(back2) == norm(d), "node:original-changed", lambda: f"{d} -> {back2}")
        mon.event("trees", len(trees))
        mon.state("node", shape(spec), len(drop), inv)
        mon.note(structure=d)
        return

    if kind == "structure":
        spec = forest(rng)
        d = {}
        for v in spec:
            if v["cond"] is not None:
                d.setdefault(v["cond"][0], []).append({"name": v["name"], "condition": f"{v['cond'][0]} == {v['cond'][1]!r}"})
        before = copy.deepcopy(d)
        arg = d if rng.rand() < 0.5 else Node.from_dict(d)
        s = SearchSpace(lib(rng, spec, False), structure=arg)
        mon.check(d == before, "structure-modified", lambda: f"{before} -> {d}")
        observe(mon, s, spec, "structure")
        mon.state("structure", shape(spec), isinstance(arg, dict))
        mon.note(structure=before)
        return

    if kind in ("forest", "ops"):
        spec = forest(rng)
        s = make(rng, spec)
        mon.note(forest=[(v["name"], v["t"], v["cond"]) for v in spec])
        if not observe(mon, s, spec, "forest"):
            return
        mon.state("forest", shape(spec), tuple(sorted(v["t"] for v in spec if v["cond"])))
        if kind == "forest":
            return
        for _ in range(4):
            op = ["filter", "remove", "pop", "slice", "add", "iadd", "sub", "isub", "deepcopy", "dill", "concat"][rng.randint(11)]
            if len(spec) < 2:
                break
            old_s, old_spec = s, spec
            if op == "filter":
                keep = [v["name"] for v in spec if rng.rand() < 0.75] or [spec[0]["name"]]
                s, spec = s.filter(keep), [v for v in spec if v["name"] in keep]
            elif op in ("remove", "pop"):
                k = int(rng.randint(len(spec)))
                s = copy.deepcopy(s)
                s.remove(spec[k]["name"] if rng.rand() < 0.5 else k) if op == "remove" else s.pop(k)
                spec = [v for i, v in enumerate(spec) if i != k]
            elif op == "slice":
                idx = sorted(rng.choice(len(spec), rng.randint(1, len(spec) + 1), replace=False).tolist())
                s, spec = s[idx], [spec[i] for i in idx]
            elif op in ("add", "iadd", "concat"):
                if len(spec) > 10:
                    continue
                more = []
                for _ in range(2 if op == "concat" and len(spec) < 7 and rng.rand() < 0.5 else 1):
                    o = forest(rng, depth=2)
                    ren = {v["name"]: f"p{rng.randint(10 ** 6)}_{v['name']}" for v in o}
                    o = [dict(v, name=ren[v["name"]], cond=None if v["cond"] is None else (ren[v["cond"][0]], v["cond"][1])) for v in o]
                    more.append((make(rng, o), o))
                os_, o = more[0]
                if len(expected(spec + [v for _, q in more for v in q])) > 3000:
                    continue
                if op == "add":
                    s = s + os_
                elif op == "concat":
                    s = SearchSpace.concat(s, *[q for q, _ in more])
                else:
                    s = copy.deepcopy(s)
                    s += os_
                spec = spec + [v for _, q in more for v in q]
                observe(mon, os_, o, f"operand-{op}")
            elif op in ("sub", "isub"):
                drop = [v for v in spec if rng.rand() < 0.3]
                if not drop or len(drop) == len(spec):
                    continue
                other = SearchSpace([c13.lib_var(v) for v in drop])
                if op == "sub":
                    s = s - other
                else:
                    s = copy.deepcopy(s)
                    s -= other
                dn = {v["name"] for v in drop}
                spec = [v for v in spec if v["name"] not in dn]
            elif op == "deepcopy":
                s = copy.deepcopy(s)
            else:
                s = dill.loads(dill.dumps(s))
            mon.event(f"op_{op}")
            mon.state(op, shape(spec))
            ok = observe(mon, s, spec, f"after-{op}")
            ok &= observe(mon, old_s, old_spec, f"operand-{op}")
            if not ok:
                return
        return

    # the conditional optimizer
    for _ in range(60):
        spec = forest(rng, depth=2, leaf_types="ric" if rng.rand() < 0.6 else "ricob", n_free=0)
        e = expected(spec)
        if 2 <= len(e) <= 9:
            break
    else:
        raise Skip("no suitable forest")
    spec.append(dict(t="r", name="free", lo=-1.0, hi=2.0, prec=None, scale="linear", default=None, cond=None))
    e = expected(spec)
    space = SearchSpace(lib(rng, spec))
    by = {v["name"]: v for v in spec}
    names = list(space.var_name)
    w = {v["name"]: float(rng.rand()) for v in spec}
    calls = []

    flat = {tuple(sorted((n, repr(v)) for n, v in k.items())) for k, _ in e if rng.rand() < 0.25} if rng.rand() < 0.4 else set()

    def f(x):
        y = 0.0
        for b in flat:  # a branch on which the objective is constant
            if all(repr(x[n]) == v for n, v in b):
                return 1.0
        for n, v in x.items():
            if v is not None:
                y += w[n] * gen.encode(by[n], v)
        return float(y + 1.3 * gen.encode(by["free"], x["free"]))

    def objective(x):
        y = f(x)
        calls.append((dict(x), y))
        return y

    keys = {}
    for k, act in e:
        keys[tuple(sorted((n, repr(v)) for n, v in k.items()))] = (k, act)
    cond_vars = {n for k, _ in e for n in k}

    def look(x, tag):
        if not mon.check(isinstance(x, dict) and sorted(x) == sorted(names), f"{tag}:keys", lambda: f"{x}"):
            return None
        active = {n for n, v in x.items() if v is not None}
        # which branch combination is it?  follow the forest from the roots
        hit = [(k, a) for k, a in e if all(n in x and x[n] is not None and x[n] == v and type(x[n]) is type(v) or
                                           (n in x and x[n] is not None and isinstance(x[n], (np.generic,)) and x[n] == v) for n, v in k.items())
               and active == set(k) | a]
        mon.check(len(hit) >= 1, f"{tag}:activation", lambda: f"{x} matches no branch of {[(v['name'], v['cond']) for v in spec]}")
        for n in active:
            b = gen.bad_value(by[n], x[n])
            mon.check(b is None, f"{tag}:illegal-value", lambda: f"{n}: {b}")
        mon.event("suggestions")
        if hit:
            mon.state("branch", tuple(sorted(by[n]["t"] for n in hit[0][0])), tuple(sorted(by[n]["t"] for n in hit[0][1])))
        return hit[0] if hit else None

    minimize = bool(rng.randint(2))
    n_point = int(rng.randint(2, 5))
    kw = dict(search_space=space, obj_fun=objective, DoE_size=int(rng.randint(2, 6)), n_point=n_point, minimize=minimize,
              acquisition_optimization=dict(gen.FAST), acquisition_fun="MGFI")
    if kind == "run":
        kw["max_FEs"] = int(rng.randint(6, 14))
    opt = ConditionalBO(**kw)
    mon.note(forest=[(v["name"], v["t"], v["cond"]) for v in spec], n_point=n_point, minimize=minimize)
    log = []

    def verify(tag):
        fin = [(x, y) for x, y in log if math.isfinite(y)]
        mon.check(opt.eval_count == len(log), f"{tag}:eval_count", lambda: f"{opt.eval_count} != {len(log)}")
        if not fin:
            return
        D = opt.data
        mon.check(len(D) == len(fin), f"{tag}:rows", lambda: f"{len(D)} rows for {len(fin)} finite observations")
        rows = D.tolist()
        fit = np.asarray(D.fitness, dtype=float).ravel()
        for r, (x, y), g in zip(rows, fin, fit):
            d = dict(zip(D.var_name, r))
            mon.check(all(type(d[n]) is type(x[n]) and d[n] == x[n] or d[n] is None and x[n] is None or d[n] == x[n] for n in names) and len(d) == len(names),
                      f"{tag}:row", lambda: f"{d} recorded for {x}")
            mon.check(g == y, f"{tag}:value", lambda: f"{g} recorded for {y}")
        best = (min if minimize else max)(y for _, y in fin)
        mon.check(float(np.ravel(opt.xopt.fitness)[0]) == best, f"{tag}:incumbent", lambda: f"{opt.xopt.fitness} vs {best}")

    if kind == "run":
        xopt, fopt, stop = opt.run()
        for x, y in calls:
            look(x, "run")
            log.append((x, y))
        mon.event("runs")
        verify("run")
        mon.check(len(calls) >= kw["max_FEs"] and len(calls) < kw["max_FEs"] + n_point, "run:budget", lambda: f"{len(calls)} calls, budget {kw['max_FEs']}")
        best = (min if minimize else max)(y for _, y in calls)
        mon.check(float(np.ravel(fopt)[0]) == best, "run:fopt", lambda: f"{fopt} {best}")
        return
    if kind == "reach":
        # every branch combination keeps being proposed, not only in the first round
        X = opt.ask(n_point=len(e))
        first = [look(x, "ask") for x in X]
        mon.check(len({id(h[1]) for h in first if h}) == len(e) or mon.violations, "first-round-misses-a-branch", lambda: f"{len(e)} branches: {X}")
        opt.tell(X, [f(x) for x in X])
        left = 40 * len(e)
        seen = set()
        while left > 0:
            X = opt.ask(n_point=len(e))
            for x in X:
                h = look(x, "ask")
                if h:
                    seen.add(id(h[1]))
            left -= len(X)
            if len(seen) == len(e):
                break
        mon.event("branches_revisited", len(seen))
        mon.check(len(seen) == len(e) or mon.violations, "branch-never-proposed-again", lambda: f"{len(seen)} of {len(e)} in {40 * len(e)} suggestions")
        return
    visited, fits = set(), []
    original = RandomForest.fit

    def fit(self, X, y, *a, **k):
        fits.append((X, np.array(y, dtype=float).ravel()))
        return original(self, X, y, *a, **k)

    def learned():
        """what the models of the branches were fitted to"""
        last = {tuple(X.var_name): i for i, (X, _) in enumerate(fits) if hasattr(X, "var_name")}
        for i, (X, ys) in enumerate(fits):
            if not hasattr(X, "var_name") or not math.isfinite(np.sum(ys)):
                continue
            vs = list(X.var_name)
            fin = [(tuple(gen.key_of([x[n]]) for n in vs), y) for x, y in log
                   if math.isfinite(y) and all(x[n] is not None for n in vs) and {n for n in x if x[n] is not None} - cond_vars == set(vs) - cond_vars]
            rows = [tuple(gen.key_of([v]) for v in r) for r in X.tolist()]
            want = [[y for k, y in fin if k == r] for r in rows]
            if not mon.check(len(rows) == len(ys) and all(want), "fit:unknown-points", lambda: f"model fitted to {X.tolist()} ({vs}), told {log}"):
                return
            # (a model cannot be fitted to more than five equal values)
            if last[tuple(vs)] == i and len({frozenset(b) for _, b in e}) == len(e) and not (len(fin) > 5 and len({y for _, y in fin}) == 1):
                mon.check(len(rows) == len(fin), "fit:observations-missing", lambda: f"model of {vs} fitted to {len(rows)} of {len(fin)} observations")
            if all(len(set(w)) == 1 for w in want):
                w = np.array([w[0] for w in want])
                if len(w) > 1 and np.std(w) > 1e-6:
                    z = (w - w.mean()) / w.std()
                    mon.check(np.allclose(ys, z, rtol=1e-6, atol=1e-6) or np.allclose(ys, w), "fit:values", lambda: f"model of {vs} fitted to {ys}, values told {w}")
                mon.event("branch_fits")
        del fits[:]

    for it in range(5 if not flat else 9):
        n = None if rng.rand() < 0.6 else int(rng.randint(1, 4) if rng.rand() < 0.7 else rng.randint(5, 9))
        try:
            X = opt.ask() if n is None else opt.ask(n_point=n)
        except AskEmptyError:
            raise Skip("no more points")
        mon.check(len(X) == (n or n_point), "batch-size", lambda: f"{len(X)} for {n or n_point}")
        for x in X:
            h = look(x, "ask")
            if h:
                visited.add(repr(sorted(h[0].items(), key=str)))
        y = [f(x) if rng.rand() > 0.12 else [np.nan, np.inf][rng.randint(2)] for x in X]
        log += [(dict(x), v) for x, v in zip(X, y)]
        RandomForest.fit = fit
        try:
            opt.tell(X, y)  # equal values on one branch do not stop the others
        finally:
            RandomForest.fit = original
        mon.event("tells")
        learned()
        verify("tell")
        if mon.violations:
            return
