"""C16  solution tables.  Oracle: a reference table (list of row records) driven in lock-step through random operation sequences; all
live tables are compared after every operation; exports are parsed back with the standard library."""
import copy
import csv
import math
import pickle

import dill
import numpy as np

from .. import gen
from ..core import Skip
from bayes_optim.solution import Solution

ID = "C16"
LEVEL = "exploration"
RULE = ("seeded operation sequences (construct in all forms, slice, view-assign, concatenate, repeat, de-duplicate, copy, pickle, "
        "export/import) on tables with 1-3 objectives, all value types, 1-D and 2-D; all live tables compared after each operation; "
        "distinct situation = (operation, index form, number of objectives, row count class, value types)")
TIMEOUT = 60


def kinds(tier):
    k = dict(ops=700, one_d=200, export=300)
    return k if tier == "quick" else {a: 30 * b for a, b in k.items()}


NAMES = ["a", "b c", "x1", "x10", "x", "lr", "Kp", "zz,top", "w"]


class Table:
    def __init__(self, names, rows, fnames):
        self.names, self.rows, self.fnames = list(names), rows, list(fnames)

    def clone(self, idx=None, cols=None):
        rows = self.rows if idx is None else [self.rows[i] for i in idx]
        cols = range(len(self.names)) if cols is None else cols
        return Table([self.names[c] for c in cols],
                     [dict(x=[r["x"][c] for c in cols], f=list(r["f"]), n=r["n"], i=r["i"]) for r in rows], self.fnames)


def _num(x):
    try:
        return float(x)
    except ValueError:
        return None


def eqv(a, b):
    """same value and not a different kind of value"""
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, (str, tuple, bool)) or isinstance(b, (str, tuple, bool)) or a is None or b is None:
        return type(a) is type(b) and a == b
    return a == b


def same_rows(a, b):
    return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))


def compare(mon, s, t, tag, ctx=""):
    """2-D table s against the model"""
    k = len(t.fnames)
    ok = mon.check(isinstance(s, Solution) and s.ndim == 2 and s.shape == (len(t.rows), len(t.names)), f"{tag}:shape",
                   lambda: f"{ctx} shape {getattr(s, 'shape', None)} expected {(len(t.rows), len(t.names))}")
    if not ok:
        return False
    ok &= mon.check(s.N == len(t.rows) and s.dim == len(t.names) and s.n_obj == k, f"{tag}:counts", lambda: f"{ctx} N={s.N} dim={s.dim} n_obj={s.n_obj}")
    ok &= mon.check(list(s.var_name) == t.names, f"{tag}:var_name", lambda: f"{ctx} {list(s.var_name)} != {t.names}")
    ok &= mon.check(list(s.fitness_name) == t.fnames, f"{tag}:fitness_name", lambda: f"{ctx} {s.fitness_name}")
    got = [list(r) for r in s.tolist()]
    ok &= mon.check(all(same_rows(g, r["x"]) for g, r in zip(got, t.rows)), f"{tag}:values", lambda: f"{ctx} {got} != {[r['x'] for r in t.rows]}")
    F = np.asarray(s.fitness)
    ok &= mon.check(F.shape == ((len(t.rows),) if k == 1 else (len(t.rows), k)), f"{tag}:fitness-shape", lambda: f"{ctx} {F.shape}")
    if ok:
        want = np.array([r["f"] for r in t.rows], dtype=float).reshape(F.shape)
        ok &= mon.check(np.array_equal(F, want, equal_nan=True), f"{tag}:fitness", lambda: f"{ctx} {F.tolist()} != {want.tolist()}")
    ok &= mon.check(np.asarray(s.n_eval).tolist() == [r["n"] for r in t.rows], f"{tag}:n_eval", lambda: f"{ctx} {s.n_eval} != {[r['n'] for r in t.rows]}")
    ok &= mon.check([str(i) for i in np.asarray(s.index).tolist()] == [r["i"] for r in t.rows], f"{tag}:index", lambda: f"{ctx} {s.index} != {[r['i'] for r in t.rows]}")
    return bool(ok)


def compare_row(mon, s, t, i, tag, cols=None, ctx=""):
    """1-D row"""
    r = t.rows[i]
    cols = list(range(len(t.names))) if cols is None else cols
    ok = mon.check(isinstance(s, Solution) and s.ndim == 1 and s.shape == (len(cols),), f"{tag}:row-shape", lambda: f"{ctx} {getattr(s, 'shape', None)}")
    if not ok:
        return False
    ok &= mon.check(same_rows(list(s.tolist()), [r["x"][c] for c in cols]), f"{tag}:row-values", lambda: f"{ctx} {s.tolist()} != {r}")
    ok &= mon.check(list(s.var_name) == [t.names[c] for c in cols], f"{tag}:row-names", lambda: f"{ctx} {s.var_name}")
    ok &= mon.check(np.array_equal(np.ravel(s.fitness), np.array(r["f"], dtype=float), equal_nan=True), f"{tag}:row-fitness", lambda: f"{ctx} {s.fitness} != {r['f']}")
    ok &= mon.check(np.ravel(s.n_eval).tolist() == [r["n"]], f"{tag}:row-n_eval", lambda: f"{ctx} {s.n_eval} != {r['n']}")
    ok &= mon.check([str(q) for q in np.ravel(s.index).tolist()] == [r["i"]], f"{tag}:row-index", lambda: f"{ctx} {s.index} != {r['i']}")
    return bool(ok)


def value(rng, t):
    if t == "r":
        return float([rng.randn(), 10 ** rng.uniform(-8, 8), 0.1, -0.0][rng.randint(4)])
    if t == "i":
        return int(rng.randint(-5, 6))
    if t == "c":
        return str(["A", "BB", "c d", "e,f", 'g"h', "1", "i\nj"][rng.randint(7)])
    if t == "b":
        return bool(rng.randint(2))
    return [("p",), ("p", "q"), ("q",)][rng.randint(3)]


def make(rng, n=None, types=None, k=None, names=None, fnames=None):
    """-> (Solution, Table, description)"""
    n = n or (int(rng.randint(1, 7)) if rng.rand() < 0.97 else int(rng.randint(20, 130)))
    types = types or [str("ricbs"[rng.randint(5)]) for _ in range(int(rng.randint(1, 5)))]
    k = k or int([1, 1, 2, 3][rng.randint(4)])
    pool = [[value(rng, t) for t in types] for _ in range(max(1, n - int(rng.randint(0, 3))))]
    X = [list(pool[rng.randint(len(pool))]) if rng.rand() < 0.3 else [value(rng, t) for t in types] for _ in range(n)]
    kw, names_given = {}, names is not None or rng.rand() < 0.7
    if names_given:
        names = names or [str(s) for s in rng.choice(NAMES, len(types), replace=False)]
        kw["var_name"] = [names, np.array(names), tuple(names)][rng.randint(3)]
    else:
        names = ["x"] if len(types) == 1 else [f"x{i}" for i in range(len(types))]
    F = [[float(v) for v in rng.randn(k)] for _ in range(n)]
    fmode = rng.randint(4)
    if fmode == 0:
        F = [[math.nan] * k for _ in range(n)]
    elif fmode == 1:
        c = float(rng.randint(5))
        kw["fitness"] = c
        F = [[c] * k for _ in range(n)]
    else:
        v = [f[0] for f in F] if k == 1 else F
        kw["fitness"] = np.array(v) if fmode == 3 else v
    nmode = rng.randint(3)
    N = [0] * n
    if nmode == 1:
        N = [int(rng.randint(9))] * n
        kw["n_eval"] = N[0]
    elif nmode == 2:
        N = [int(v) for v in rng.randint(0, 9, n)]
        kw["n_eval"] = N
    I = [str(i) for i in range(n)]
    if rng.rand() < 0.5:
        I = [str(["id", "", "r"][rng.randint(3)]) + str(rng.randint(2000)) for _ in range(n)]
        kw["index"] = I if rng.rand() < 0.7 or any(not i.isdigit() for i in I) else [int(i) for i in I]
        if isinstance(kw["index"][0], int):
            I = [str(i) for i in kw["index"]]
    if k > 1:
        kw["n_obj"] = k
    if fnames is not None or rng.rand() < 0.3:
        fnames = fnames or [f"obj{j}" for j in range(k)]
        kw["fitness_name"] = fnames[0] if k == 1 and rng.rand() < 0.5 else list(fnames)
    else:
        fnames = ["f"] if k == 1 else [f"f{j}" for j in range(k)]
    arr = X
    if rng.rand() < 0.3:
        arr = np.empty((n, len(types)), dtype=object)
        for i, r in enumerate(X):
            for j, v in enumerate(r):
                arr[i, j] = v
    how = rng.randint(4)
    if how == 0:
        ns = list(names)
        D = [{ns[j]: r[j] for j in (rng.permutation(len(ns)) if i else range(len(ns)))} for i, r in enumerate(X)]
        kk = {a: b for a, b in kw.items() if a not in ("var_name",)}
        if rng.rand() < 0.5:
            s = Solution.from_dict(D, var_name=ns, **kk)
        else:
            s = Solution.from_dict(D, **kk)
        form = "from_dict"
    else:
        s = Solution(arr, **kw)
        form = type(arr).__name__
    t = Table(names, [dict(x=list(x), f=list(f), n=m, i=i) for x, f, m, i in zip(X, F, N, I)], fnames)
    return s, t, (form, tuple(sorted(set(types))), k, min(n, 3))


def rand_rows(rng, n):
    """row index expressions -> (expression, list of rows, is a view)"""
    m = rng.randint(9)
    if m == 0:
        i = int(rng.randint(-n, n))
        return i, i % n, "int", True
    if m == 1:
        i = int(rng.randint(-n, n))
        return [np.int64(i), np.int32(i), np.intp(i)][rng.randint(3)], i % n, "npint", True
    if m in (2, 3):
        a, b = sorted(rng.randint(0, n + 1, 2).tolist())
        if a == b:
            a, b = 0, n
        st = [None, 2, 1][rng.randint(3)]
        return slice(a, b, st), list(range(n))[a:b:st], "slice", True
    if m == 4:
        sl = [slice(None, None, -1), slice(None), slice(-1, None), slice(None, -1) if n > 1 else slice(None)][rng.randint(4)]
        return sl, list(range(n))[sl], "slice-neg", True
    if m in (5, 6):
        idx = rng.randint(-n, n, rng.randint(1, n + 2)).tolist()
        return (idx if m == 5 else np.array(idx)), [i % n for i in idx], "fancy", False
    mask = rng.rand(n) < 0.6
    if not mask.any():
        mask[0] = True
    return (mask if m == 7 else mask.tolist()), np.nonzero(mask)[0].tolist(), "mask", False


def rand_cols(rng, d):
    m = rng.randint(5)
    if m == 0:
        j = int(rng.randint(-d, d))
        return (j if rng.rand() < 0.5 else np.int64(j)), [j % d], "int"
    if m == 1:
        a = int(rng.randint(d))
        return slice(a, None), list(range(d))[a:], "slice"
    if m == 2:
        return slice(None), list(range(d)), "all"
    idx = rng.permutation(d)[: rng.randint(1, d + 1)].tolist()
    return (idx if m == 3 else np.array(idx)), idx, "list"


def step(rng, pool, mon):
    i = int(rng.randint(len(pool)))
    s, t = pool[i]
    n, d, k = len(t.rows), len(t.names), len(t.fnames)
    op = ["rows", "cols", "assign", "setrow", "add", "iadd", "mul", "unique", "copy", "pickle", "dict", "chain", "item", "whole"][rng.randint(14)]
    mon.event(f"op_{op}")
    lab = [op]

    def put(a, b):
        if len(pool) < 5:
            pool.append((a, b))
        else:
            pool[int(rng.randint(len(pool)))] = (a, b)

    if op == "rows":
        e, idx, form, view = rand_rows(rng, n)
        lab.append(form)
        r = s[e] if rng.rand() < 0.7 else s[e, :]
        if isinstance(idx, int):
            compare_row(mon, r, t, idx, "rows", ctx=f"[{e}]")
        else:
            tt = t.clone(idx)
            if compare(mon, r, tt, "rows", f"[{e}]") and not view and rng.rand() < 0.5:
                put(r, tt)
    elif op == "cols":
        c, cols, form = rand_cols(rng, d)
        lab.append(form)
        if rng.rand() < 0.6:
            compare(mon, s[:, c], t.clone(cols=cols), "cols", f"[:, {c}]")
        elif form != "int":
            q = int(rng.randint(-n, n))
            compare_row(mon, s[q, c], t, q % n, "cell", cols=cols, ctx=f"[{q}, {c}]")
        else:
            q = int(rng.randint(n))
            v = s[q, int(c)]
            mon.check(eqv(v, t.rows[q]["x"][cols[0]]), "element", lambda: f"[{q}, {c}] = {v!r}, expected {t.rows[q]['x'][cols[0]]!r}")
    elif op == "chain":  # slices of slices
        a = int(rng.randint(0, n))
        sub, tt = s[a:], t.clone(range(a, n))
        e, idx, form, view = rand_rows(rng, n - a)
        r = sub[e]
        if isinstance(idx, int):
            compare_row(mon, r, tt, idx, "chain", ctx=f"[{a}:][{e}]")
            c = int(rng.randint(0, d))
            compare_row(mon, r[c:], tt, idx, "chain-cols", cols=list(range(c, d)), ctx=f"[{a}:][{e}][{c}:]")
        else:
            compare(mon, r, tt.clone(idx), "chain", f"[{a}:][{e}]")
        lab.append(form)
    elif op == "assign":  # through a view: exactly the addressed rows change
        for _ in range(20):
            e, idx, form, view = rand_rows(rng, n)
            if view:
                break
        else:
            return
        if isinstance(idx, int):
            idx = [idx]
            row = True
        else:
            row = False
        tgt = s[e]
        if rng.rand() < 0.3 and not row:  # nested view
            tgt, idx = tgt[1:] if len(idx) > 1 else tgt, idx[1:] if len(idx) > 1 else idx
        what = ["fitness", "n_eval", "index"][rng.randint(3)]
        lab += [form, what]
        if what == "fitness":
            if rng.rand() < 0.5:
                v = float(rng.randn())
                tgt.fitness = v
                new = [[v] * k for _ in idx]
            else:
                new = [[float(q) for q in rng.randn(k)] for _ in idx]
                tgt.fitness = new[0] if row else [f[0] for f in new] if k == 1 else new
            for q, f in zip(idx, new):
                t.rows[q]["f"] = f
        elif what == "n_eval":
            if rng.rand() < 0.5:
                v = int(rng.randint(50))
                tgt.n_eval = v
                new = [v] * len(idx)
            elif rng.rand() < 0.5:
                tgt.n_eval += 1
                new = [t.rows[q]["n"] + 1 for q in idx]
            else:
                new = [int(q) for q in rng.randint(0, 99, len(idx))]
                tgt.n_eval = new
            for q, v in zip(idx, new):
                t.rows[q]["n"] = v
        else:
            new = [str(["k", "long-index-", ""][rng.randint(3)]) + str(rng.randint(10 ** 5)) for _ in idx]
            if row or rng.rand() < 0.3:
                tgt.index = new[0]
                new = [new[0]] * len(idx)
            else:
                tgt.index = new
            for q, v in zip(idx, new):
                t.rows[q]["i"] = v
    elif op == "setrow":
        q = int(rng.randint(n))
        c = int(rng.randint(d))
        v = float(rng.randn()) if rng.rand() < 0.5 else str(rng.randint(99))
        m = rng.randint(3)
        if m == 0:
            s[q, c] = v
            t.rows[q]["x"][c] = v
        elif m == 1 and not any(isinstance(x, tuple) for x in t.rows[q]["x"]):
            new = list(t.rows[int(rng.randint(n))]["x"])
            if any(isinstance(x, tuple) for x in new):
                return
            s[q] = new
            t.rows[q]["x"] = list(new)
        else:
            s[:, c] = v
            for r in t.rows:
                r["x"][c] = v
        lab.append(m)
    elif op in ("add", "iadd"):
        cand = [p for p in pool if sorted(p[1].names) == sorted(t.names) and p[1].fnames == t.fnames and len(set(t.names)) == len(t.names)]
        if rng.rand() < 0.5 or not cand:
            s2, t2, _ = make(rng, types=[str("ricbs"[rng.randint(5)]) for _ in t.names], k=k, names=[t.names[j] for j in (rng.permutation(d) if rng.rand() < 0.3 else range(d))], fnames=t.fnames)
        else:
            s2, t2 = cand[rng.randint(len(cand))]
        if n + len(t2.rows) > 30:
            return
        one = rng.rand() < 0.25
        if one:
            q = int(rng.randint(len(t2.rows)))
            s2, t2 = s2[q], t2.clone([q])
            lab.append("row")
        r = s + s2
        if op == "iadd":
            r = s
            r += s2
        order = [t2.names.index(x) for x in t.names]
        tt = Table(t.names, t.clone().rows + t2.clone(cols=order).rows, t.fnames)
        lab.append(order == list(range(d)))
        if compare(mon, r, tt, op, f"{t.names} + {t2.names}"):
            put(r, tt)
        if rng.rand() < 0.2 and n > 0:
            q = int(rng.randint(n))
            r = s[q] + s
            compare(mon, r, Table(t.names, t.clone([q]).rows + t.clone().rows, t.fnames), "row-add")
    elif op == "mul":
        q, m = int(rng.randint(n)), int(rng.randint(1, 5))
        r = s[q] * m if rng.rand() < 0.5 else m * s[q]
        tt = Table(t.names, [t.clone([q]).rows[0] for _ in range(m)], t.fnames)
        for j, row in enumerate(tt.rows):  # repeated rows are numbered afresh
            row["i"] = str(np.asarray(r.index).tolist()[j]) if len(r.index) == m else "?"
        if compare(mon, r, tt, "mul"):
            put(r, tt)
    elif op == "unique":
        seen, idx = [], []
        for q, row in enumerate(t.rows):
            if not any(same_rows(row["x"], o) for o in seen):
                seen.append(row["x"])
                idx.append(q)
        cross = any(not eqv(a, b) and a == b for r1 in t.rows for r2 in t.rows for a, b in zip(r1["x"], r2["x"]))
        if cross or any(isinstance(v, float) and v != v for r in t.rows for v in r["x"]):
            return
        r = s.unique()
        compare(mon, r, t.clone(idx), "unique", str([x["x"] for x in t.rows]))
        lab.append(len(idx) < n)
    elif op == "copy":
        r = [copy.copy, copy.deepcopy, lambda q: q.copy()][rng.randint(3)](s)
        if compare(mon, r, t, "copy"):
            put(r, t.clone())
    elif op == "pickle":
        lib = [pickle, dill][rng.randint(2)]
        r = lib.loads(lib.dumps(s))
        lab.append(lib.__name__)
        if compare(mon, r, t, lib.__name__):
            put(r, t.clone())
    elif op == "dict":
        D = s.to_dict(orient="index")
        check_dicts(mon, D, s, t)
        if len(set(t.names)) == d:
            perm = [{a: r[a] for a in [list(r)[j] for j in rng.permutation(len(r))]} for r in D]
            F = [r["f"][0] if k == 1 else r["f"] for r in t.rows]
            s2 = Solution.from_dict(perm, var_name=t.names, fitness=F, n_eval=[r["n"] for r in t.rows], index=[r["i"] for r in t.rows],
                                    n_obj=k, fitness_name=list(t.fnames))
            compare(mon, s2, t, "from_dict")
            s3 = Solution.from_dict(D)
            mon.check(list(s3.var_name) == t.names and all(same_rows(list(a), r["x"]) for a, r in zip(s3.tolist(), t.rows)) and len(s3) == n,
                      "from_dict-plain", lambda: f"{D} -> {s3.tolist()}")
    elif op == "item":
        q, c = int(rng.randint(n)), int(rng.randint(d))
        mon.check(eqv(s[q][c], t.rows[q]["x"][c]) and eqv(s[q, c], t.rows[q]["x"][c]), "item", lambda: f"[{q},{c}] {s[q, c]!r}")
        mon.check([same_rows(list(r.tolist()), m["x"]) for r, m in zip(s, t.rows)] == [True] * n, "iterate", "")
    else:  # whole-table attribute assignment
        new = [[float(q) for q in rng.randn(k)] for _ in range(n)]
        s.fitness = [f[0] for f in new] if k == 1 else np.array(new)
        for r, f in zip(t.rows, new):
            r["f"] = f
    mon.state(*lab, k, min(n, 3))


def check_dicts(mon, D, s, t):
    n = len(t.rows)
    mon.check(isinstance(D, list) and len(D) == n and all(list(x) == t.names or len(set(t.names)) < len(t.names) for x in D), "to_dict:keys", lambda: f"{D}")
    for x, r in zip(D, t.rows):
        mon.check(all(eqv(x[a], v) for a, v in zip(t.names, r["x"])), "to_dict:values", lambda: f"{x} {r}")
    if len({r["i"] for r in t.rows}) == n:
        W = s.to_dict(orient="index", with_index=True)
        mon.check(list(map(str, W)) == [r["i"] for r in t.rows] and all(all(eqv(W[r["i"]][a], v) for a, v in zip(t.names, r["x"])) for r in t.rows),
                  "to_dict:with_index", lambda: f"{W}")
        V = s.to_dict(orient="var", with_index=True)
        mon.check(all(eqv(V[a][r["i"]], r["x"][j]) for j, a in enumerate(t.names) for r in t.rows), "to_dict:var-with_index", lambda: f"{V}")
    V = s.to_dict(orient="var")
    mon.check(list(V) == t.names and all(same_rows(list(V[a]), [r["x"][j] for r in t.rows]) for j, a in enumerate(t.names)), "to_dict:var", lambda: f"{V}")


def run(kind, rng, mon):
    s, t, d = make(rng)
    mon.state("make", d)
    mon.note(names=t.names, rows=[r["x"] for r in t.rows][:3], objectives=len(t.fnames), form=d[0])
    if not compare(mon, s, t, f"make-{d[0]}", str(d)):
        return
    if kind == "export":
        n, k = len(t.rows), len(t.fnames)
        check_dicts(mon, s.to_dict(), s, t)
        head, idx, attr = rng.rand() < 0.8, rng.rand() < 0.6, rng.rand() < 0.6
        delim = [",", ",", ";", "\t"][rng.randint(4)]
        rows = list(range(n))
        one = rng.rand() < 0.3
        tgt = s
        if one:
            q = int(rng.randint(n))
            tgt, rows = s[q], [q]
        elif rng.rand() < 0.3:  # some of the rows, possibly none
            rows = [i for i in range(n) if rng.rand() < [0.0, 0.5][rng.randint(2)]]
            tgt = s[rows] if rows and rng.rand() < 0.5 else s[np.array([i in rows for i in range(n)])]
        f = "t.csv"
        pre = rng.rand() < 0.3
        if pre:  # append to what is there
            with open(f, "w") as g:
                g.write("before\n")
            tgt.to_csv(f, delimiter=delim, header=head, index=idx, attribute=attr, append=True)
        else:
            if rng.rand() < 0.3:  # replace what is there
                with open(f, "w") as g:
                    g.write("before\n")
            tgt.to_csv(f, delimiter=delim, header=head, index=idx, attribute=attr)
        app = rng.rand() < 0.4
        if app:
            tgt.to_csv(f, delimiter=delim, header=False, index=idx, attribute=attr, append=True)
            rows = rows * 2
        with open(f, newline="") as g:
            L = list(csv.reader(g, delimiter=delim))
        mon.event("csv_files")
        if pre:
            mon.check(L[:1] == [["before"]], "csv:append-overwrites", lambda: f"{L[:2]}")
            L = L[1:]
        H = ([""] if idx else []) + t.names + (["n_eval"] + t.fnames if attr else [])
        if head:
            mon.check(bool(L) and L[0] == H, "csv:header", lambda: f"{L[:1]} expected {H}")
            L = L[1:]
        if mon.check(len(L) == len(rows) and all(len(r) == len(H) for r in L), "csv:shape", lambda: f"{L} for {H}"):
            for line, q in zip(L, rows):
                r = t.rows[q]
                p = 0
                if idx:
                    mon.check(line[0] == r["i"], "csv:index", lambda: f"{line} {r}")
                    p = 1
                mon.check(line[p:p + len(t.names)] == [str(v) for v in r["x"]], "csv:values", lambda: f"{line} {r['x']}")
                if attr:
                    a = line[p + len(t.names):]
                    mon.check(int(a[0]) == r["n"] and np.array_equal([float(v) for v in a[1:]], r["f"], equal_nan=True), "csv:attributes", lambda: f"{line} {r}")
        # the printed table shows every row with its own attributes
        text = [[c.strip() for c in l.strip().strip("|").split("|")] for l in str(s).splitlines() if l.startswith("|")]
        multi = any("\n" in str(v) for r in t.rows for v in r["x"])  # cells of several lines
        if not multi and mon.check(len(text) == n + 1, "print:rows", lambda: f"{len(text) - 1} rows printed for {n}: {s}"):
            cols = text[0]
            for line, r in zip(text[1:], t.rows):
                mon.check(line[0] == r["i"] or _num(line[0]) == _num(r["i"]), "print:index", lambda: f"{line} {r}")
                for nm, w in [("n_eval", r["n"])] + list(zip(t.fnames, r["f"])):
                    if cols.count(nm) == 1:
                        g = _num(line[cols.index(nm)])
                        mon.check(g is not None and (abs(g - w) <= 1e-3 * abs(w) + 1e-6 or math.isnan(g) and math.isnan(w)), "print:attributes",
                                  lambda: f"{nm}: {line} expected {w}")
        compare(mon, s, t, "after-export")
        mon.state("csv", head, idx, attr, delim, one, app, k)
        return
    if kind == "one_d":  # single solutions
        q = int(rng.randint(len(t.rows)))
        r = t.rows[q]
        kw = dict(var_name=t.names, fitness=[r["f"]] if len(t.fnames) > 1 else [r["f"][0]], n_eval=r["n"], index=r["i"], n_obj=len(t.fnames))
        x = Solution.from_dict(dict(zip(t.names, r["x"])), **{a: b for a, b in kw.items() if a != "var_name"}) if rng.rand() < 0.4 else Solution(list(r["x"]), **kw)
        compare_row(mon, x, t, q, "make-1d")
        D = x.to_dict()
        mon.check(isinstance(D, dict) and list(D) == t.names and all(eqv(D[a], v) for a, v in zip(t.names, r["x"])), "to_dict-1d", lambda: f"{D}")
        y = s[q]
        compare(mon, x + y, Table(t.names, t.clone([q, q]).rows, t.fnames) if list(x.fitness_name) == t.fnames else t, "add-1d") if list(x.fitness_name) == t.fnames else None
        c = int(rng.randint(len(t.names)))
        compare_row(mon, x[c:], t, q, "slice-1d", cols=list(range(c, len(t.names))))
        idx = rng.permutation(len(t.names))[: rng.randint(1, len(t.names) + 1)].tolist()
        compare_row(mon, x[idx], t, q, "fancy-1d", cols=idx)
        v = float(rng.randn())
        y.fitness = v
        t.rows[q]["f"] = [v] * len(t.fnames)
        compare(mon, s, t, "assign-1d")
        mon.check(same_rows(list(x.unique().tolist()), r["x"]), "unique-1d", "")
        z = pickle.loads(pickle.dumps(y))
        compare_row(mon, z, t, q, "pickle-1d")
        mon.event("single_solutions")
        mon.state("1d", d, c)
        return
    pool = [(s, t)]
    hist = []
    for _ in range(int(rng.randint(15, 30))):
        step(rng, pool, mon)
        for a, b in pool:
            compare(mon, a, b, "live")
        if mon.violations:
            return
