"""C12  sampling.  Oracles: membership of every sampled point, exact counts, occupancy of the Latin hypercube slices on each
variable's own scale, reachability of every level/region, and the harness's evaluation of the constraints."""
import math

import numpy as np

from .. import bo, gen
from ..core import Skip
from .c03 import make_ineq

ID = "C12"
LEVEL = "exploration"
RULE = ("seeded random spaces (six types, precisions, scales, steps; built directly, by sums, products, slices) x methods x "
        "sample sizes, and constrained sampling with scalar/vector inequality and equality constraints; distinct situation = "
        "(types, method, size class, route / constraint form)")
TIMEOUT = 90


def kinds(tier):
    k = dict(plain=260, single=90, derived=70, spread=60, ineq=44, eq=30, hard=12, sobol=30, round=60, scale=30)
    return k if tier == "quick" else {a: 25 * b for a, b in k.items()}


def T(v, x):
    s = v.get("scale", "linear")
    x = np.asarray(x, dtype=float)
    if s == "log":
        return np.log(x)
    if s == "log10":
        return np.log10(x)
    if s == "logit":
        return np.log(x / (1 - x))
    if s == "bilog":
        return np.sign(x) * np.log1p(np.abs(x))
    return x


def unit(v, x):
    """position on the variable's own scale, in [0, 1]"""
    lo, hi = T(v, v["lo"]), T(v, v["hi"])
    return (T(v, x) - lo) / (hi - lo)


def slices(v, col):
    """None if the k-th smallest value lies in the k-th slice (up to the rounding of the precision)"""
    n = len(col)
    lo, hi = T(v, v["lo"]), T(v, v["hi"])
    h = 0.0 if v.get("prec") is None else 0.5000001 * 10.0 ** -v["prec"]
    for k, x in enumerate(sorted(float(c) for c in col)):
        a = T(v, min(max(x - h, v["lo"]), v["hi"]))
        b = T(v, min(max(x + h, v["lo"]), v["hi"]))
        p, q = lo + (hi - lo) * k / n, lo + (hi - lo) * (k + 1) / n
        eps = 1e-8 * (hi - lo) + 1e-12 * max(abs(lo), abs(hi))
        if b < p - eps or a > q + eps:
            return f"{k}-th smallest value {x!r} of {n} not in its slice"
    return None


def look(mon, spec, S, N, tag):
    ok = mon.check(isinstance(S, np.ndarray) and S.shape == (N, len(spec)), f"{tag}:shape",
                   lambda: f"shape {getattr(S, 'shape', None)} for {N} points of {len(spec)} variables")
    if not ok:
        return False
    mon.event("points", N)
    for x in S.tolist():
        b = gen.bad_point(spec, x)
        if not mon.check(b is None, f"{tag}:illegal", lambda: f"{b}: {x} (space {spec})"):
            return False
    return True


def run(kind, rng, mon):
    method = ["uniform", "LHS", "sobol"][rng.randint(3)]
    if kind in ("plain", "single", "derived"):
        if kind == "single":
            t = "ricobs"[rng.randint(6)]
            spec = gen.rand_spec(rng, t, int(rng.randint(1, 7)))
        else:
            spec = gen.rand_spec(rng, ["r", "ri", "ricobs", "ricob", "rs", "cob", "rc"][rng.randint(7)], int(rng.randint(1, 7)))
        route = "direct"
        if kind == "derived":
            sp = gen.build_space(spec, rng.randint(2))
            how = rng.randint(4)
            if how == 0:
                idx = sorted(rng.choice(len(spec), rng.randint(1, len(spec) + 1), replace=False).tolist())
                space, spec, route = sp[idx], [spec[i] for i in idx], "slice"
            elif how == 1:
                k = int(rng.randint(2, 4))
                space, route = sp * k, "mul"
                spec = [dict(v, name=f"{v['name']}{j}") for j in range(k) for v in spec]
            elif how == 2:
                other = gen.rand_spec(rng, "ricobs", int(rng.randint(1, 4)))
                other = [dict(v, name="Z" + v["name"]) for v in other]
                space, route = sp + gen.build_space(other), "add"
                spec = spec + other
            else:
                drop = int(rng.randint(len(spec)))
                if len(spec) == 1:
                    raise Skip("one variable")
                space, route = sp - gen.build_space([spec[drop]]), "sub"
                spec = [v for i, v in enumerate(spec) if i != drop]
        else:
            r = rng.randint(2)
            route = ("direct", "sum")[r]
            space = gen.build_space(spec, r)
        mon.note(space=spec, method=method, route=route)
        for _ in range(3):
            N = int([1, 2, 3, 5, 10, 17, 50, int(rng.randint(1, 120))][rng.randint(8)]) if rng.rand() < 0.97 else int(rng.randint(150, 350 if method == "LHS" else 2500))
            m = method
            if sum(v["t"] == "r" for v in spec) > 10:
                m = "LHS"
            n = np.int64(N) if rng.rand() < 0.3 else N
            S = space.sample(n, method=m) if rng.rand() < 0.7 or m != "uniform" else space.sample(n)
            mon.event(f"samples_{m}")
            if look(mon, spec, S, N, f"sample-{m}") and m == "LHS" and N > 1:
                for j, v in enumerate(spec):
                    if v["t"] == "r":
                        b = slices(v, S[:, j])
                        mon.event("hypercube_columns")
                        mon.check(b is None, "lhs-slices", lambda: f"variable {v}: {b}")
            mon.state(bo.desc(spec), m, min(N, 20), route)
        if rng.rand() < 0.3:
            S = space.sample()
            look(mon, spec, S, 1, "sample-default")
        return

    if kind == "spread":  # every level and every region of the scale can be drawn, with the declared distribution
        spec = gen.rand_spec(rng, "ricobs", int(rng.randint(1, 5)))
        for v in spec:
            if v["t"] == "i" and gen.n_points(v) > 40:
                v["lo"], v["hi"] = 0, 12
        space = gen.build_space(spec, rng.randint(2))
        N = 3000
        method = "uniform"
        S = space.sample(N)
        mon.note(space=spec, N=N)
        if not look(mon, spec, S, N, "spread"):
            return
        for j, v in enumerate(spec):
            col = S[:, j]
            mon.event("columns")
            if v["t"] == "r":
                if v.get("prec") is not None and gen.n_points(v) < 100:
                    continue
                u = np.sort(unit(v, col.astype(float)))
                tol = 0.0 if v.get("prec") is None else np.max(np.abs(unit(v, np.clip(col.astype(float) + 10.0 ** -v["prec"], v["lo"], v["hi"])) - unit(v, col.astype(float))))
                D = max(np.max(np.arange(1, N + 1) / N - u), np.max(u - np.arange(N) / N))
                # Kolmogorov: P(D > 4/sqrt(N)) < 1e-13
                mon.check(D - tol < 4 / math.sqrt(N), "not-uniform-on-scale", lambda: f"{v}: KS distance {D}")
            else:
                levels = v["levels"] if "levels" in v else list(range(v["lo"], v["hi"] + 1, v["step"]))
                vals = col.tolist()
                p = 1 / len(levels)
                for l in levels:
                    c = sum(1 for x in vals if x == l)
                    z = (c - N * p) / math.sqrt(N * p * (1 - p)) if p < 1 else 0
                    mon.check(abs(z) < 9, "level-frequency", lambda: f"{v}: value {l!r} drawn {c} times of {N}")
        # independence of the columns: two variables never move in lock-step
        for i in range(len(spec)):
            for j in range(i):
                a = np.array([gen.encode(spec[i], x) for x in S[:, i]])
                b = np.array([gen.encode(spec[j], x) for x in S[:, j]])
                if a.std() > 0 and b.std() > 0:
                    r = np.corrcoef(a, b)[0, 1]
                    mon.check(abs(r) < 9 / math.sqrt(N), "columns-dependent", lambda: f"{spec[i]} {spec[j]} corr {r}")
        mon.state(bo.desc(spec), "spread")
        return

    if kind == "sobol":  # low-discrepancy points cover every variable's own scale evenly
        spec = gen.rand_spec(rng, ["r", "ri", "ric"][rng.randint(3)], int(rng.randint(1, 6)))
        space = gen.build_space(spec, rng.randint(2))
        N = int(rng.choice([128, 200, 256]))
        S = space.sample(N, method="sobol")
        mon.note(space=spec, N=N)
        if not look(mon, spec, S, N, "sobol"):
            return
        for j, v in enumerate(spec):
            if v["t"] == "r" and (v.get("prec") is None or gen.n_points(v) > 200) and v.get("scale", "linear") != "logit":
                col = S[:, j].astype(float)
                u = np.sort(unit(v, col))
                tol = 0.0 if v.get("prec") is None else np.max(np.abs(unit(v, np.clip(col + 10.0 ** -v["prec"], v["lo"], v["hi"])) - unit(v, col)))
                D = max(np.max(np.arange(1, N + 1) / N - u), np.max(u - np.arange(N) / N))
                mon.event("columns")
                mon.check(D - tol < 0.12, "sobol-not-even", lambda: f"{v}: discrepancy {D} of {N} points")
        mon.state(bo.desc(spec), "sobol")
        return

    if kind == "round":
        spec = gen.rand_spec(rng, ["r", "ri", "ricobs", "rc", "rs"][rng.randint(5)], int(rng.randint(1, 6)))
        space = gen.build_space(spec, rng.randint(2))
        P = [gen.rand_point(rng, spec) for _ in range(int(rng.randint(1, 6)))]
        for p in P:
            for j, v in enumerate(spec):
                if v["t"] == "r":
                    p[j] = float(rng.uniform(v["lo"], v["hi"]))
        mon.note(space=spec)
        form = rng.randint(3)
        if form == 0:
            arg = [list(p) for p in P]
        elif form == 1:
            arg = np.empty((len(P), len(spec)), dtype=object)
            for i, p in enumerate(P):
                for j, a in enumerate(p):
                    arg[i, j] = a
        else:
            P = P[:1]
            arg = list(P[0])
        if any(v["t"] == "s" for v in spec) and form != 1:
            raise Skip("tuples in nested lists")
        R = space.round(arg)
        R = np.asarray(R, dtype=object) if not isinstance(R, np.ndarray) else R
        if form == 2 and R.ndim == 1:
            R = R.reshape(1, -1)
        mon.event("rounded", len(P))
        ok = mon.check(np.shape(R) == (len(P), len(spec)), "round:shape", lambda: f"{np.shape(R)} for {len(P)} points")
        if ok:
            for p, r in zip(P, np.asarray(R, dtype=object).tolist() if form != 1 else R.tolist()):
                for v, a, b in zip(spec, p, r):
                    if v["t"] == "r" and v.get("prec") is not None:
                        w = min(max(round(a, v["prec"]), v["lo"]), v["hi"])
                        mon.check(abs(b - w) <= 1e-9 * max(1, abs(w)), "round:value", lambda: f"{v}: {a} rounded to {b}, nearest legal value {w}")
                    else:
                        mon.check(a == b, "round:changed", lambda: f"{v}: {a!r} became {b!r} although no precision is declared")
            again = space.round(R.copy())
            mon.check(all(a == b for p, q in zip(R.tolist(), again.tolist()) for a, b in zip(p, q)), "round:not-idempotent", lambda: f"{R} {again}")
        mon.state(bo.desc(spec), "round", int(form))
        return

    if kind == "scale":  # bounds outside the working range of a scale are moved to it, the others are kept
        s = ["log", "log10", "logit", "bilog", "linear"][rng.randint(5)]
        lo = float(rng.choice([-2.0, 0.0, 0.01, 0.3]))
        hi = lo + float(rng.choice([0.2, 0.5, 3.0, 50.0]))
        if hi <= 0:
            hi = 0.5
        if s == "logit" and lo >= 1:
            lo = 0.3
        cap = 1.0 if s == "logit" else math.inf
        from bayes_optim.search_space import Real, RealSpace
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            one = Real([lo, hi], "x", scale=s)
            sp = RealSpace([[lo, hi]] * 2, scale=s)
        floor = 0.0 if s in ("log", "log10", "logit") else -math.inf
        for b in [one.bounds] + list(sp.bounds):
            mon.check(b[0] == lo if lo > floor else floor < b[0] < 1e-100, "scale:lower", lambda: f"{s} [{lo}, {hi}]: {b}")
            mon.check(b[1] == hi if hi < cap else cap - 1e-9 < b[1] <= cap, "scale:upper", lambda: f"{s} [{lo}, {hi}]: {b}")
        if mon.check(one.bounds[0] < one.bounds[1], "scale:empty", lambda: f"{one.bounds}"):
            X = np.asarray(sp.sample(40, method=method), dtype=float)
            mon.check(np.all(np.isfinite(X)) and np.all(X >= max(lo, floor)) and np.all(X <= min(hi, cap)), "scale:illegal", lambda: f"{s} [{lo}, {hi}]: {X.min()}, {X.max()}")
            mon.check(len(set(X[:, 0])) > 20, "scale:degenerate", lambda: f"{s} [{lo}, {hi}]: 40 samples take the values {sorted(set(X[:, 0]))[:5]}")
        mon.event("scales")
        mon.note(scale=s, lo=lo, hi=hi)
        mon.state("scale", s, lo, hi, method)
        return

    # constrained
    for _ in range(200):
        t = ["r", "r", "ri", "ric", "ricob", "rs", "srb", "i"][rng.randint(8)]
        spec = gen.rand_spec(rng, t, int(rng.randint(1, 4)))
        num = [i for i, v in enumerate(spec) if v["t"] in "ri"]
        reals = [i for i, v in enumerate(spec) if v["t"] == "r" and v["prec"] is None and v["scale"] == "linear"]
        if num and (kind != "eq" or reals) and gen.space_size(spec) >= 100:
            break
    else:
        raise Skip("no suitable space")
    out = ["array", "list", "scalar"][rng.randint(3)]
    k = 1 if out == "scalar" else int(rng.randint(1, 3))
    args = dict(calls=0)

    def wrap(f, o):
        def c(x):
            args["calls"] += 1
            mon.check(not isinstance(x, dict) and len(x) == len(spec), "incomplete-point", lambda: f"constraint called with {x!r}")
            v = [float(_) for _ in f(list(x))]
            return np.array(v) if o == "array" else v if o == "list" else v[0]
        return c

    space = gen.build_space(spec, rng.randint(2))
    tol = float([1e-2, 1e-1, 5e-2][rng.randint(3)])
    G = H = None
    gf = hf = None
    if kind == "ineq" or kind == "eq" and rng.rand() < 0.4:
        gf = make_ineq(rng, spec, k)
    if kind == "hard":
        j = int(num[rng.randint(len(num))])
        gf = lambda x: [gen.encode(spec[j], x[j]) - 0.05]  # noqa
    if kind == "eq":
        j = int(reals[rng.randint(len(reals))])
        v, c = spec[j], rng.uniform(0.25, 0.4)
        hf = lambda x: [gen.encode(v, x[j]) - c]  # noqa
        if len(reals) > 1 and rng.rand() < 0.6:  # two equalities, whose violations may cancel out
            j2 = int([i for i in reals if i != j][0])
            c2, sg = rng.uniform(0.25, 0.4), float(rng.choice([-1, 1]))
            hf = lambda x: [gen.encode(v, x[j]) - c, sg * (gen.encode(spec[j2], x[j2]) - c2)]  # noqa
        # equality constraints are given as arrays (the library iterates over the values)
        H = wrap(hf, "array" if out == "scalar" else out)
    if gf is not None:
        G = wrap(gf, out)
    mon.note(space=spec, out=out, tol=tol)
    total = 0
    for _ in range(2):
        N = int([1, 2, 5, 12, 25][rng.randint(5)])
        S = space.sample(N, h=H, g=G, tol=tol)
        mon.event("constrained_samples")
        n = len(S)
        total += n
        mon.check(n <= N, "too-many", lambda: f"{n} points for a request of {N}")
        if n:
            look(mon, spec, S, n, "constrained")
            for x in S.tolist():
                if gf is not None:
                    mon.check(all(np.asarray(gf(x)) <= 0), "infeasible-inequality", lambda: f"{x}: {gf(x)}")
                if hf is not None:
                    mon.check(np.all(np.abs(hf(x)) <= tol + 2e-5), "infeasible-equality", lambda: f"{x}: {hf(x)} tol {tol}")
        mon.state(bo.desc(spec), kind, out, min(N, 12), n > 0)
    mon.event("constraint_calls", args["calls"])
    if gf is not None and hf is None and kind == "ineq":
        # the harness's own estimate of the feasible share
        ok = np.mean([all(np.asarray(gf(gen.rand_point(rng, spec))) <= 0) for _ in range(300)])
        if ok >= 0.3:
            mon.event("generously_feasible")
            mon.check(total > 0, "no-point-found", lambda: f"feasible share {ok}, nothing returned")
