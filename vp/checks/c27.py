"""C27  penalties for violated constraints, reflection at the box, and completion of partially fixed arguments.
Oracle: the defining formulas, evaluated independently point by point."""
import math

import numpy as np

from .. import bo, gen
from ..core import Skip
from bayes_optim.utils import dynamic_penalty, handle_box_constraint, partial_argument, set_bounds
from bayes_optim.utils.exception import ConstraintEvaluationError

ID = "C27"
LEVEL = "exploration"
RULE = ("seeded random constraint functions (1..4 components, scalars, lists, arrays, integers, on and around the tolerance) on single "
        "points and batches of six variable types, with random iteration numbers and exponents; random points, far outside points and "
        "boxes with infinite sides; random fixed subsets; distinct situation = (form, types, components, violated parts, direction)")
TIMEOUT = 30


def kinds(tier):
    k = dict(penalty=700, order=200, box=500, partial=400, bounds=80)
    return k if tier == "quick" else {a: 40 * b for a, b in k.items()}


def constraint(rng, spec, which):
    """-> function of a point in the form handed over by the library, and the plain values"""
    k = int(rng.randint(1, 5))
    scale = float(10 ** rng.uniform(-2, 2))
    W = rng.randn(k, len(spec))
    c = rng.randn(k) * 0.5
    style = ["array", "list", "scalar", "int", "grid"][rng.randint(5)]
    if style == "scalar":
        k, W, c = 1, W[:1], c[:1]

    def values(x):
        u = np.array([gen.encode(v, a) for v, a in zip(spec, x)])
        v = scale * (W @ u + c)
        if style == "int":
            return np.round(v).astype(int)
        if style == "grid":  # values on and next to the tolerance and zero
            return np.array([[0.0, 0.05, -0.05, 1e-9, -1e-9, 0.3, -0.3, -2.0][int(abs(t) * 997) % 8] for t in v])
        return v

    def fun(x):
        v = values(x.tolist() if hasattr(x, "tolist") else list(x))
        return float(v[0]) if style == "scalar" else v.tolist() if style == "list" else v

    return fun, values, (k, style)


def reference(v_eq, v_in, t, C, alpha, beta, eps, minimize):
    p = 0.0
    for h in v_eq:
        p += abs(h) if abs(h) > eps else 0.0
    for g in v_in:
        p += g ** beta if g > 0 else 0.0
    p = (C * t) ** alpha * p
    return p if minimize else -p


def reflect(x, l, u):
    if not (math.isfinite(l) and math.isfinite(u)):
        return x
    w = u - l
    r = math.fmod(x - l, 2 * w)
    if r < 0:
        r += 2 * w
    return l + (r if r <= w else 2 * w - r)


def run(kind, rng, mon):
    if kind in ("penalty", "order"):
        spec = gen.rand_spec(rng, ["r", "ri", "ricobs", "ricob", "cs"][rng.randint(5)], int(rng.randint(1, 6)))
        n = 1 if rng.rand() < 0.4 else int(rng.randint(2, 7))
        X = [gen.rand_point(rng, spec) for _ in range(n)]
        which = ["h", "g", "hg"][rng.randint(3)]
        h, hv, hs = constraint(rng, spec, "h") if "h" in which else (None, None, None)
        g, gv, gs = constraint(rng, spec, "g") if "g" in which else (None, None, None)
        kw = dict(t=int(rng.randint(1, 60)), equality=h, inequality=g, minimize=bool(rng.randint(2)))
        if rng.rand() < 0.6:
            kw["C"], kw["alpha"] = float(rng.uniform(0.1, 2)), float([1, 2, 0.5][rng.randint(3)])
            kw["beta"], kw["epsilon"] = float([1, 1.5, 2, 3][rng.randint(4)]), float([0.1, 1e-3, 0.0, 0.3][rng.randint(4)])
        par = dict(t=kw["t"], C=kw.get("C", 0.5), alpha=kw.get("alpha", 1), beta=kw.get("beta", 1.5), eps=kw.get("epsilon", 0.1), minimize=kw["minimize"])
        form = "batch"
        arg = [list(x) for x in X]
        if n == 1 and rng.rand() < 0.6:
            arg, form = list(X[0]), "point"
        if all(v["t"] == "r" for v in spec) and rng.rand() < 0.5:
            arg, form = np.array(arg, dtype=float), form + "-array"
        mon.note(spec=spec, X=X, kw={a: b for a, b in kw.items() if not callable(b)}, which=which)
        keep = repr(arg)
        p = dynamic_penalty(arg, **kw)
        mon.event("penalties", n)
        mon.check(repr(arg) == keep, "penalty:changes-points", lambda: f"{keep} -> {arg!r}")
        if not mon.check(np.shape(p) == (n,), "penalty:shape", lambda: f"shape {np.shape(p)} for {n} points"):
            return
        sgn = 1 if kw["minimize"] else -1
        for x, q in zip(X, p):
            ve = [float(a) for a in hv(x)] if h else []
            vi = [float(a) for a in gv(x)] if g else []
            feas = all(abs(a) <= par["eps"] for a in ve) and all(a <= 0 for a in vi)
            mon.check((q == 0) == feas, "penalty:feasible" if feas else "penalty:infeasible-point-not-penalized",
                      lambda: f"penalty {q} for equality {ve} and inequality values {vi} (tolerance {par['eps']})")
            if not feas:
                mon.check(sgn * q > 0, "penalty:wrong-direction", lambda: f"penalty {q}, minimize={kw['minimize']}")
            e = reference(ve, vi, **par)
            mon.check(abs(q - e) <= 1e-9 * (1e-12 + abs(e)), "penalty:value", lambda: f"penalty {q}, defined as {e} ({par}, {ve}, {vi})")
            mon.state(form, which, hs, gs, feas, kw["minimize"])
        if kind == "order":
            # later iterations never penalize less, and strictly more where infeasible
            p2 = dynamic_penalty(arg, **dict(kw, t=kw["t"] + int(rng.randint(1, 30))))
            mon.check(bool(np.all((np.abs(p2) > np.abs(p)) | (p == 0) & (p2 == 0))), "penalty:not-growing", lambda: f"{p} then {p2}")
            # a batch is judged like its points one by one
            one = [float(np.ravel(dynamic_penalty(list(x), **kw))[0]) for x in X]
            mon.check(bool(np.allclose(one, p, rtol=1e-12, atol=0)), "penalty:batch", lambda: f"batch {p}, one by one {one}")

            def boom(x):
                raise ValueError("injected")

            for key in ("equality", "inequality"):
                try:
                    dynamic_penalty(arg, **{key: boom})
                    mon.check(False, "penalty:failure-hidden", f"failing {key} constraint gave a penalty")
                except ConstraintEvaluationError:
                    mon.check(True, "penalty:failure-hidden", "")
        return

    if kind == "box":
        d = int(rng.randint(1, 7))
        lo = rng.uniform(-5, 5, d) * 10.0 ** rng.randint(-3, 4, d)
        hi = lo + 10.0 ** rng.uniform(-3, 3, d)
        if rng.rand() < 0.3:
            lo, hi = np.round(lo), np.round(lo) + rng.randint(1, 20, d)
        for i in range(d):
            if rng.rand() < 0.1:
                hi[i] = np.inf
            elif rng.rand() < 0.1:
                lo[i] = -np.inf
        w = np.where(np.isfinite(hi) & np.isfinite(lo), hi - lo, 1.0)
        base = np.where(np.isfinite(lo), lo, np.where(np.isfinite(hi), hi, 0))
        style = ["inside", "near", "far", "edge"][rng.randint(4)]
        x = {"inside": base + w * rng.rand(d), "near": base + w * rng.uniform(-1, 2, d), "far": base + w * rng.uniform(-40, 40, d),
             "edge": base + w * rng.randint(-3, 4, d)}[style]
        ints = style != "inside" and np.all(np.isfinite(lo) & np.isfinite(hi)) and np.all(lo == np.round(lo)) and rng.rand() < 0.5
        if ints:
            x = np.round(x).astype(int)
        args = (x.tolist() if rng.rand() < 0.4 else x.copy(), lo, hi)
        if d == 1 and rng.rand() < 0.5:
            args = (args[0], float(lo[0]), float(hi[0]))
        mon.note(x=x.tolist(), lo=lo.tolist(), hi=hi.tolist())
        y = handle_box_constraint(*args)
        mon.event("points")
        if not mon.check(np.shape(y) == (d,), "box:shape", lambda: f"{np.shape(y)} for {d} coordinates"):
            return
        for a, l, u, b in zip(x.tolist(), lo.tolist(), hi.tolist(), np.ravel(y).tolist()):
            e = reflect(a, l, u)
            tol = 1e-9 * (abs(a) + abs(l if math.isfinite(l) else 0) + abs(u if math.isfinite(u) else 0)) + 1e-300
            if math.isfinite(l) and math.isfinite(u):
                mon.check(l - tol <= b <= u + tol, "box:outside", lambda: f"{a} -> {b}, box [{l}, {u}]")
                if l <= a <= u:
                    mon.check(abs(b - a) <= tol, "box:moves-inner-points", lambda: f"{a} -> {b}, box [{l}, {u}]")
            mon.check(abs(b - e) <= tol, "box:not-reflected", lambda: f"{a} -> {b}, reflection gives {e} in [{l}, {u}]")
            mon.state("box", d, style, math.isfinite(l), math.isfinite(u), int(max(-4, min(4, (a - l) // (u - l)))) if math.isfinite(l) and math.isfinite(u) else 0)
        return

    if kind == "partial":
        spec = gen.rand_spec(rng, ["r", "ri", "ricobs", "ricob", "cs"][rng.randint(5)], int(rng.randint(2, 7)))
        names = [v["name"] for v in spec]
        d = len(spec)
        fx = sorted(rng.choice(d, rng.randint(0, d), replace=False).tolist())
        full = gen.rand_point(rng, spec)
        order = [fx[i] for i in rng.permutation(len(fx))]  # the dictionary may list them in any order
        fixed = {names[i]: full[i] for i in order}
        seen = []
        reduce = rng.rand() < 0.5
        n = 1 if reduce or rng.rand() < 0.5 else int(rng.randint(2, 5))
        grad = rng.randn(d, 1)
        gform = ["col", "row", "flat"][rng.randint(3)]

        def fun(X):
            seen.append([list(r) for r in X])
            if reduce:
                return np.array([1.5]), {"col": grad, "row": grad.T, "flat": grad.ravel()}[gform]
            return np.arange(len(X)) + 0.5

        w = partial_argument(fun, names, dict(fixed) if fixed or rng.rand() < 0.5 else None, reduce_output=reduce)
        pts = []
        for _ in range(n):
            p = gen.rand_point(rng, spec)
            pts.append([full[i] if i in fx else p[i] for i in range(d)])
        free = [i for i in range(d) if i not in fx]
        arg = [[p[i] for i in free] for p in pts]
        if n == 1 and rng.rand() < 0.5:
            arg = arg[0]
        elif all(spec[i]["t"] == "r" for i in free) and rng.rand() < 0.5:
            arg = np.array(arg, dtype=float)
        mon.note(spec=spec, fixed=fixed, arg=repr(arg)[:300], reduce=reduce)
        out = w(arg)
        mon.event("calls")
        ok = mon.check(len(seen) == 1 and len(seen[0]) == n and all(len(r) == d and all(a == b for a, b in zip(r, p))
                                                                 for r, p in zip(seen[0], pts)),
                       "partial:point", lambda: f"function called with {seen}, expected {pts}")
        if reduce and ok:
            v, gr = out
            mon.check(float(np.ravel(v)[0]) == 1.5, "partial:value", lambda: f"{v}")
            mon.check(np.array_equal(np.ravel(gr), grad.ravel()[free]), "partial:gradient", lambda: f"gradient {gr}, expected the entries {free} of {grad.ravel()}")
        elif ok:
            mon.check(np.array_equal(out, np.arange(n) + 0.5), "partial:output", lambda: f"{out}")
        mon.state("partial", bo.desc(spec), len(fx), n, reduce, gform if reduce else "")
        return

    # one bound for all variables, or one per variable
    d = int(rng.randint(1, 6))
    k = rng.randint(5)
    b = np.round(rng.uniform(-5, 5, d), 3)
    arg, exp = [(float(b[0]), [b[0]] * d), (b.tolist(), b), (b, b), (str(b.tolist()), b), ([float(b[0])], [b[0]] * d)][k]
    mon.note(arg=repr(arg), d=d)
    got = set_bounds(arg, d)
    mon.event("calls")
    mon.check(np.shape(got) == (d,) and np.array_equal(np.asarray(got, dtype=float), exp), "bounds", lambda: f"{arg!r} -> {got}")
    mon.state("bounds", int(k), d)
