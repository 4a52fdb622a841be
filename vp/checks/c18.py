"""C18: random-forest surrogate and weighted aggregation of surrogates."""
import numpy as np

from vp import core, gen

ID = "C18"
LEVEL = "exploration"
RULE = ("a case fits one random forest on a random mixed space (or aggregates several surrogates) and recomputes its "
        "predictions from its trees; two cases differ when variable types, number of trees, outputs or data size differ")
TIMEOUT = 120


def kinds(tier):
    m = 1 if tier == "quick" else 20
    return dict(trees=120 * m, mixed=120 * m, levels=120 * m, aggregate=120 * m, outputs=40 * m, bo=30 * m)


LEVELS = [
    ["a", "b", "c"], ["x10", "x9", "x", "X"], [3, 1, 2], [True, False], [False, True], [(1,), (2,), (1, 2)], [0.5, 0.25, 4.0],
    [1, "a", "1"], ["only"], [(1, 2), (3, 4)], [("p", "q"), ("q", "r")], [-1, 0, 1, 7], ["", " "], [10**6, 10**6 + 1, 3],
    [0.1, 0.1 + 1e-10], ["é", "e"],
]


def table(rng, n=None, cats=None, nums=None):
    """-> (kinds of columns, levels dict, rows)"""
    cats = int(rng.randint(1, 4)) if cats is None else cats
    nums = int(rng.randint(0, 4)) if nums is None else nums
    cols = ["c"] * cats + [("r", "i")[rng.randint(2)] for _ in range(nums)]
    cols = [cols[i] for i in rng.permutation(len(cols))]
    levels = {i: list(LEVELS[rng.randint(len(LEVELS))]) for i, c in enumerate(cols) if c == "c"}
    if rng.rand() < 0.3:
        levels = dict(reversed(list(levels.items())))
    n = n or int(rng.randint(6, 30))
    return cols, levels, [row(rng, cols, levels) for _ in range(n)]


def row(rng, cols, levels):
    out = []
    for i, c in enumerate(cols):
        if c == "c":
            out.append(levels[i][rng.randint(len(levels[i]))])
        elif c == "r":
            out.append(float(rng.uniform(-5, 5)))
        else:
            out.append(int(rng.randint(-10, 10)))
    return out


def arr(rows):
    a = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            a[i, j] = v
    return a


def forms(rng, rows):
    """the same table in the forms the optimizers pass"""
    from bayes_optim.solution import Solution

    f = rng.randint(3)
    if f == 0:
        return rows
    if f == 1:
        return arr(rows)
    return Solution([list(r) for r in rows], var_name=[f"v{i}" for i in range(len(rows[0]))])


def forest(rng, levels, n=None, **kw):
    from bayes_optim.surrogate import RandomForest

    n = n or int(rng.randint(2, 25))
    return RandomForest(n_estimators=n, levels=levels, random_state=int(rng.randint(1, 10**6)), **kw), n


def eq(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol * (1 + np.abs(b).max(initial=0)))


class Spy:
    """records what every tree of a fitted forest predicts"""

    def __init__(self, rf):
        self.rf, self.out = rf, []
        for i, e in enumerate(rf.estimators_):
            def f(*a, _i=i, _p=e.predict, **k):
                r = _p(*a, **k)
                self.out.append((_i, np.array(r, float)))
                return r
            e.predict = f

    def take(self):
        o, self.out = self.out, []
        return o

    def off(self):
        for e in self.rf.estimators_:
            e.__dict__.pop("predict", None)


def common(rng, mon, rf, Z, y, what):
    """oracles that do not depend on how inputs are encoded"""
    m, v = rf.predict(Z, eval_MSE=True)
    m0 = rf.predict(Z)
    mon.check(np.shape(m) == (len(Z),) and np.shape(v) == (len(Z),), "shape", lambda: f"{np.shape(m)} {np.shape(v)}")
    mon.check(eq(m, m0), "mean-with-variance", lambda: f"{what}: {m} != {m0}")
    mon.check(np.all(v >= 0) and np.all(np.isfinite(v)), "negative-variance", lambda: f"{what}: {v}")
    mon.check(np.all(m >= y.min() - 1e-9 * (1 + abs(y.min()))) and np.all(m <= y.max() + 1e-9 * (1 + abs(y.max()))),
              "range", lambda: f"{what}: {m} outside [{y.min()}, {y.max()}]")
    one = [rf.predict([z], eval_MSE=True) for z in Z]
    mon.check(eq([float(np.ravel(a)[0]) for a, _ in one], m) and eq([float(np.ravel(b)[0]) for _, b in one], v, 1e-7), "one-by-one",
              lambda: f"{what}: {m} {one}")
    p = rng.permutation(len(Z))
    mp, vp = rf.predict([Z[i] for i in p], eval_MSE=True)
    mon.check(eq(mp, m[p]) and eq(vp, v[p], 1e-7), "permuted", lambda: f"{what}: {mp} {m[p]}")
    dup = list(Z) + list(Z)
    md = rf.predict(dup)
    mon.check(eq(md, np.r_[m, m]), "repeated-rows", lambda: f"{what}: {md}")
    for f in (arr(Z), forms(rng, Z)):
        mf, vf = rf.predict(f, eval_MSE=True)
        mon.check(eq(mf, m) and eq(vf, v, 1e-7), "input-form", lambda: f"{what}: {type(f)} {mf} {m}")
    mon.event("predictions compared", len(Z) * 5)
    return m, v


def run(kind, rng, mon):
    return globals()["k_" + kind](rng, mon)


def k_trees(rng, mon):
    """numerical inputs: every tree can be asked directly"""
    d, n = int(rng.randint(1, 6)), int(rng.randint(5, 40))
    X = [[float(v) for v in r] for r in rng.uniform(-5, 5, (n, d))]
    y = rng.randn(n) * 10 ** rng.uniform(-2, 3) + rng.randn()
    rf, k = forest(rng, {})
    yin = y.reshape(-1, 1) if rng.rand() < 0.5 else y
    rf.fit(X if rng.rand() < 0.5 else np.array(X), yin)
    Z = [[float(v) for v in r] for r in rng.uniform(-6, 6, (int(rng.randint(1, 12)), d))] + X[:3]
    mon.note(d=d, n=n, trees=k)
    mon.state("trees", d, n, k)
    m, v = common(rng, mon, rf, Z, y, f"d={d} n={n} trees={k}")
    per = np.array([e.predict(np.array(Z, dtype=np.float32)) for e in rf.estimators_])
    mon.check(len(per) == k, "n-trees", f"{len(per)} trees, {k} configured")
    mon.check(eq(m, per.mean(0)), "mean-of-trees", lambda: f"{m} != {per.mean(0)}")
    mon.check(eq(v, per.var(0, ddof=1), 1e-7), "variance-of-trees", lambda: f"{v} != {per.var(0, ddof=1)}")


def k_mixed(rng, mon):
    cols, levels, rows = table(rng)
    y = rng.randn(len(rows)) * 10 ** rng.uniform(-2, 3)
    rf, k = forest(rng, levels)
    before = (repr(rows), repr(levels))
    rf.fit(forms(rng, rows), y.reshape(-1, 1) if rng.rand() < 0.5 else y)
    Z = [row(rng, cols, levels) for _ in range(int(rng.randint(1, 10)))] + rows[:2]
    mon.note(columns=cols, levels=levels, n=len(rows), trees=k)
    mon.state("mixed", tuple(cols), len(rows), k, repr(levels))
    common(rng, mon, rf, Z, y, f"{cols} {levels}")
    mon.check(before == (repr(rows), repr(levels)), "inputs-modified", "training rows or levels were modified")
    spy = Spy(rf)
    m, v = rf.predict(Z, eval_MSE=True)
    rec = spy.take()
    spy.off()
    if sorted(i for i, _ in rec) == list(range(k)):
        per = np.array([o for _, o in sorted(rec, key=lambda t: t[0])])
        mon.event("tree outputs recorded", len(rec))
        mon.check(eq(m, per.mean(0)), "mean-of-trees", lambda: f"{m} != {per.mean(0)}")
        mon.check(eq(v, per.var(0, ddof=1), 1e-7), "variance-of-trees", lambda: f"{v} != {per.var(0, ddof=1)}")


def k_levels(rng, mon):
    """fully grown trees without bootstrap reproduce a table of distinct rows: every value must be told apart"""
    cols, levels, rows = table(rng, n=int(rng.randint(8, 40)))
    distinct = []
    for r in rows:
        if r not in distinct and not any(all(a == b for a, b in zip(r, q)) for q in distinct):
            distinct.append(r)
    for i, ls in levels.items():  # levels that do not occur in the training data
        if len(ls) > 1 and rng.rand() < 0.5:
            hide = ls[rng.randint(len(ls))]
            distinct = [r for r in distinct if not r[i] == hide]
    if len(distinct) < 2:
        raise core.Skip("only one distinct row")
    rows = distinct
    y = rng.permutation(len(rows)).astype(float)
    rf, k = forest(rng, levels, bootstrap=False, min_samples_leaf=1, max_features=1.0)
    rf.fit(forms(rng, rows), y)
    m, v = rf.predict(rows, eval_MSE=True)
    mon.note(columns=cols, levels=levels, rows=len(rows))
    mon.state("levels", tuple(cols), repr(levels), len(rows))
    mon.event("rows told apart", len(rows))
    mon.check(eq(m, y) and eq(v, np.zeros(len(rows))), "levels-distinguished", lambda: f"{cols} {levels}: rows {rows}: {m} != {y}")
    # every level is accepted, also those that do not occur in the training data
    seen = {i: [r[i] for r in rows] for i in levels}
    unseen = 0
    for i, ls in levels.items():
        for l in ls:
            z = list(rows[rng.randint(len(rows))])
            z[i] = l
            unseen += l not in seen[i]
            p, pv = rf.predict([z], eval_MSE=True)
            mon.check(np.isfinite(np.ravel(p)[0]) and y.min() <= np.ravel(p)[0] <= y.max() and np.ravel(pv)[0] >= 0, "level-accepted",
                      lambda: f"{z}: {p} {pv}")
    mon.event("levels asked", sum(map(len, levels.values())))
    mon.event("levels not in the training data", unseen)


def k_outputs(rng, mon):
    cols, levels, rows = table(rng, cats=int(rng.randint(0, 3)), nums=int(rng.randint(1, 3)))
    k = int(rng.randint(2, 4))
    Y = rng.randn(len(rows), k)
    rf, n = forest(rng, levels)
    rf.fit(rows, Y)
    Z = [row(rng, cols, levels) for _ in range(5)]
    spy = Spy(rf)
    m, v = rf.predict(Z, eval_MSE=True)
    rec = spy.take()
    spy.off()
    mon.note(columns=cols, outputs=k)
    mon.state("outputs", tuple(cols), k, n)
    mon.check(np.shape(m) == (5, k) and np.shape(v) == (5, k), "output-shape", lambda: f"{np.shape(m)} {np.shape(v)}")
    mon.check(np.all(v >= 0), "negative-variance", lambda: f"{v}")
    mon.check(np.all(m >= Y.min(0) - 1e-9) and np.all(m <= Y.max(0) + 1e-9), "range", lambda: f"{m}")
    if sorted(i for i, _ in rec) == list(range(n)):
        per = np.array([o for _, o in rec])
        mon.check(eq(m, per.mean(0)), "mean-of-trees", lambda: f"{m}")
        mon.check(eq(v, per.var(0, ddof=1), 1e-7), "variance-of-trees", lambda: f"{v}")
    mp = rf.predict(Z)
    mon.check(eq(mp, m), "mean-with-variance", lambda: f"{mp} {m}")


class Fixed:
    """a surrogate with given predictions; shapes as GP (n, 1) or forest (n,)"""

    def __init__(self, rng, d, flat):
        self.w, self.b, self.flat = rng.randn(d), rng.randn(), flat

    def ref(self, X):
        X = np.asarray(X, float)
        return X @ self.w + self.b, (X @ self.w) ** 2 + 0.1

    def predict(self, X, eval_MSE=False):
        m, v = self.ref(X)
        if not self.flat:
            m, v = m.reshape(-1, 1), v.reshape(-1, 1)
        return (m, v) if eval_MSE else m


def k_aggregate(rng, mon):
    from bayes_optim.surrogate import SurrogateAggregation

    d, k, n = int(rng.randint(1, 4)), int(rng.randint(1, 5)), int(rng.randint(1, 12))
    ms = [Fixed(rng, d, rng.rand() < 0.5) for _ in range(k)]
    if rng.rand() < 0.3:
        rf, _ = forest(rng, {})
        Xt = rng.randn(15, d)
        rf.fit(Xt, rng.randn(15))
        rf.ref = lambda X: rf.predict(np.asarray(X), eval_MSE=True)
        ms[0] = rf
    w = rng.randn(k) if rng.rand() < 0.5 else rng.dirichlet(np.ones(k))
    if rng.rand() < 0.2:
        w[0] = 0.0
    agg = SurrogateAggregation(ms, weights=w.tolist() if rng.rand() < 0.5 else w)
    X = rng.randn(n, d)
    m, v = agg.predict(X, eval_MSE=True)
    m1 = agg.predict(X)
    want = sum(wi * np.ravel(s.ref(X)[0]) for wi, s in zip(w, ms))
    wantv = sum(wi**2 * np.ravel(s.ref(X)[1]) for wi, s in zip(w, ms))
    mon.note(surrogates=k, weights=w.tolist(), n=n)
    mon.state("aggregate", d, k, n, tuple(type(s).__name__ for s in ms))
    mon.event("aggregations compared", n)
    mon.check(eq(np.ravel(m), want), "weighted-mean", lambda: f"weights {w}: {m} != {want}")
    mon.check(eq(np.ravel(m1), want), "weighted-mean-only", lambda: f"weights {w}: {m1} != {want}")
    mon.check(eq(np.ravel(v), wantv) and np.all(np.asarray(v) >= 0), "weighted-variance", lambda: f"weights {w}: {v} != {wantv}")


def k_bo(rng, mon):
    """the surrogate as an optimizer uses it: levels taken from the search space"""
    spec = gen.rand_spec(rng)
    space = gen.build_space(spec)
    rf, k = forest(rng, space.levels)
    n = int(rng.randint(8, 25))
    rows = [gen.rand_point(rng, spec) for _ in range(n)]
    y = rng.randn(n)
    rf.fit(forms(rng, rows), y.reshape(-1, 1))
    Z = [gen.rand_point(rng, spec) for _ in range(6)]
    mon.note(spec=spec, n=n)
    mon.state("bo", repr(spec), n)
    common(rng, mon, rf, Z, y, repr(spec))
    X = space.sample(6).tolist()
    m, v = rf.predict(X, eval_MSE=True)
    mon.check(np.all(np.isfinite(m)) and np.all(v >= 0), "sampled-points", lambda: f"{X}: {m} {v}")
