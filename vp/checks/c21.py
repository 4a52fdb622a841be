"""C21  Pareto sets, hypervolumes, cell partitionings, expected hypervolume improvement.  Oracle: brute force over the grid
spanned by the coordinates of the points (volumes, coverage counts, integrals), in float64, written from the definitions."""
import itertools
import math

import numpy as np
import torch
from scipy.special import ndtr

from .. import gen  # noqa: F401
from ..core import Skip
from bayes_optim.multi_objective import EHVI
from bayes_optim.utils import is_pareto_efficient
from bayes_optim.utils.multi_objective import (
    Hypervolume, fast_non_dominated_sort, is_non_dominated, non_dominated_set_2d)
from bayes_optim.utils.multi_objective.box_decompositions import (
    FastNondominatedPartitioning, NondominatedPartitioning, compute_dominated_hypercell_bounds_2d)

ID = "C21"
LEVEL = "exploration"
RULE = ("seeded random point sets (continuous, integer grids with ties, duplicates, chains, antichains, points beyond the "
        "reference point, empty) with 2..5 objectives, in several orders and batches; random normal predictions; distinct "
        "situation = (objectives, set size class, style, number of non-dominated points)")
TIMEOUT = 60


def kinds(tier):
    k = dict(nd=400, fronts=300, set2d=300, hv=400, cells=260, batch=100, incremental=120, ehvi=200)
    return k if tier == "quick" else {a: 30 * b for a, b in k.items()}


def points(rng, m, nmax=12, allow_empty=False):
    n = int(rng.randint(0 if allow_empty else 1, nmax + 1))
    style = ["cont", "grid", "dups", "chain", "front", "wide", "corner"][rng.randint(7)]
    if style == "cont":
        Y = rng.uniform(-1, 1, (n, m))
    elif style == "grid":
        Y = rng.randint(-2, 4, (n, m)).astype(float)
    elif style == "dups":
        Y = rng.uniform(-1, 1, (n, m))
        if n > 1:
            for _ in range(n):
                i, j = rng.randint(n, size=2)
                Y[i] = Y[j] if rng.rand() < 0.5 else Y[i]
                k = rng.randint(m)
                Y[i, k] = Y[j, k]
    elif style == "chain":
        Y = np.sort(rng.uniform(-1, 1, (n, 1)), axis=0) + np.linspace(0, 0.3, m)[None, :] * np.arange(n)[:, None]
    elif style == "front":
        Y = rng.dirichlet(np.ones(m), n).reshape(n, m) if n else np.zeros((0, m))
    elif style == "wide":
        Y = rng.uniform(-1, 1, (n, m)) * 10.0 ** rng.uniform(-3, 3, m)
    else:
        Y = rng.choice([0.0, 0.5, 1.0], (n, m))
    return Y[rng.permutation(n)] if n else Y.reshape(0, m), style


def brute_nd(Y):
    """non-dominated for maximization"""
    n = len(Y)
    return [not any(np.all(Y[j] >= Y[i]) and np.any(Y[j] > Y[i]) for j in range(n)) for i in range(n)]


def grid(Y, ref, inf=False):
    """elementary boxes spanned by the coordinates that exceed the reference point -> list of edges per objective"""
    edges = []
    for k in range(len(ref)):
        e = sorted({float(ref[k])} | {float(v) for v in Y[:, k] if v > ref[k]})
        edges.append(e + [math.inf] if inf else e)
    return edges


def dominated_mask(Y, edges):
    """for every elementary box (lower corner l, upper u): whether some point dominates its upper corner"""
    shape = tuple(len(e) - 1 for e in edges)
    M = np.zeros(shape, dtype=bool)
    for y in Y:
        idx = tuple(slice(0, sum(1 for u in e[1:] if u <= y[k])) for k, e in enumerate(edges))
        M[idx] = True
    return M


def widths(edges):
    return [np.diff(np.array(e)) for e in edges]


def brute_hv(Y, ref):
    Y = Y[np.all(Y > ref, axis=1)] if len(Y) else Y
    if not len(Y):
        return 0.0
    edges = grid(Y, ref)
    M = dominated_mask(Y, edges)
    W = widths(edges)
    vol = W[0]
    for w in W[1:]:
        vol = np.multiply.outer(vol, w)
    return float(np.sum(vol[M]))


def check_cells(mon, tag, Y, ref, bounds):
    """every elementary box of the space beyond the reference point is covered exactly once if it is non-dominated, else never"""
    L, U = bounds[0], bounds[1]
    Yr = Y[np.all(Y > ref, axis=1)] if len(Y) else Y
    edges = grid(Yr, ref, inf=True)
    M = dominated_mask(Yr, edges)
    C = np.zeros(M.shape, dtype=int)
    for l, u in zip(L, U):
        sl = []
        for k, e in enumerate(edges):
            ids = [i for i in range(len(e) - 1) if l[k] <= e[i] and e[i + 1] <= u[k]]
            if not ids:
                sl = None
                break
            sl.append(slice(ids[0], ids[-1] + 1))
            # no cell edge may cut an elementary box or leave the space
            cut = [v for v in (l[k], u[k]) if v not in e]
            if not mon.check(not cut, f"{tag}:foreign-edge", lambda: f"cell edge {cut} is no coordinate of a point or the reference point {e}"):
                return
        if sl is not None:
            C[tuple(sl)] += 1
    mon.event("boxes", C.size)
    mon.check(not np.any(C[~M] == 0), f"{tag}:uncovered", lambda: f"{int(np.sum(C[~M] == 0))} of {int(np.sum(~M))} non-dominated boxes not covered (Y {Y.tolist()}, ref {ref.tolist()})")
    mon.check(not np.any(C > 1), f"{tag}:overlap", lambda: f"{int(np.sum(C > 1))} boxes covered more than once (Y {Y.tolist()}, ref {ref.tolist()})")
    mon.check(not np.any(C[M] > 0), f"{tag}:dominated", lambda: f"{int(np.sum(C[M] > 0))} dominated boxes covered (Y {Y.tolist()}, ref {ref.tolist()})")


def close(a, b, scale, tol):
    return abs(a - b) <= tol * max(scale, 1e-300)


def run(kind, rng, mon):
    if kind == "nd":
        m = int(rng.randint(1, 6))
        Y, style = points(rng, m, int(rng.choice([20, 45, 150], p=[0.7, 0.26, 0.04])), allow_empty=True)
        mon.note(style=style, Y=Y.tolist())
        dt = [torch.float64, torch.float32][rng.randint(2)]
        T = torch.tensor(Y, dtype=dt)
        Y = T.numpy().astype(float)  # judged at the precision of the tensor
        nd = brute_nd(Y)
        if rng.rand() < 0.4 and len(Y):
            got = is_non_dominated(T, deduplicate=False).tolist()
            mon.check(got == nd, "nd", lambda: f"non-dominated {nd}, got {got} for {Y.tolist()}")
        else:
            got = is_non_dominated(T).tolist()
            first = [v and not any(nd[j] and np.all(Y[j] == Y[i]) for j in range(i)) for i, v in enumerate(nd)]
            bad = [i for i in range(len(Y)) if got[i] and not nd[i]]
            mon.check(not bad, "nd-dedup:dominated", lambda: f"points {bad} of {Y.tolist()} are dominated")
            reps = [tuple(Y[i]) for i in range(len(Y)) if got[i]]
            mon.check(len(reps) == len(set(reps)), "nd-dedup:duplicates", lambda: f"duplicates in {reps}")
            mon.check(set(reps) == {tuple(Y[i]) for i in range(len(Y)) if nd[i]}, "nd-dedup:missing",
                      lambda: f"front {sorted(set(reps))} for {Y.tolist()}")
            del first
        if len(Y):
            eff = [bool(v) for v in is_pareto_efficient(-Y)]
            bad = [i for i in range(len(Y)) if eff[i] and not nd[i]]
            mon.check(not bad, "pareto-efficient:dominated", lambda: f"points {bad} of {(-Y).tolist()} are dominated (minimization)")
            mon.check({tuple(Y[i]) for i in range(len(Y)) if eff[i]} >= {tuple(Y[i]) for i in range(len(Y)) if nd[i]}, "pareto-efficient:missing",
                      lambda: f"{eff} of {(-Y).tolist()} misses an efficient vector")
            ind = sorted(int(i) for i in is_pareto_efficient(-Y, return_mask=False))
            mon.check(ind == [i for i in range(len(Y)) if eff[i]], "pareto-efficient:indices", lambda: f"{ind} vs {eff}")
        if len(Y) > 1 and rng.rand() < 0.3:  # a batch is a set of sets
            p = rng.permutation(len(Y))
            B = torch.stack([T, T[torch.as_tensor(p.copy())], -T])
            g = is_non_dominated(B, deduplicate=False)
            exp = [nd, [nd[i] for i in p], brute_nd(-Y)]
            mon.check(g.tolist() == exp, "nd-batch", lambda: f"{g.tolist()} vs {exp}")
        mon.event("sets")
        mon.state(m, min(len(Y), 6), style, sum(nd))
        return

    if kind == "fronts":
        m = int(rng.randint(1, 5))
        Y, style = points(rng, m, 14 if rng.rand() < 0.9 else 60)
        mon.note(Y=Y.tolist(), style=style)
        fr = fast_non_dominated_sort(Y.T.copy())
        left, exp = list(range(len(Y))), []
        while left:
            nd = brute_nd(-Y[left])
            exp.append(sorted(i for i, k in zip(left, nd) if k))
            left = [i for i, k in zip(left, nd) if not k]
        got = [sorted(int(i) for i in f) for f in fr]
        mon.check(got == exp, "fronts", lambda: f"fronts {got}, expected {exp} for {Y.tolist()}")
        mon.event("sets")
        mon.state("fronts", m, min(len(Y), 6), style, len(exp))
        return

    if kind == "set2d":
        Y, style = points(rng, 2, 14 if rng.rand() < 0.9 else 90)
        if style == "grid" and rng.rand() < 0.3:
            Y = Y.astype(int)
        minimize = bool(rng.randint(2))
        mon.note(Y=Y.tolist(), minimize=minimize)
        arg = Y.copy()
        got = [int(i) for i in (non_dominated_set_2d(arg, minimize) if rng.rand() < 0.8 else non_dominated_set_2d(arg.tolist(), minimize=minimize))]
        nd = brute_nd(-Y if minimize else Y)
        mon.check(len(set(got)) == len(got), "set2d:repeats", lambda: f"{got}")
        bad = [i for i in got if not nd[i]]
        mon.check(not bad, "set2d:dominated", lambda: f"points {bad} are dominated in {Y.tolist()} (minimize={minimize})")
        mon.check({tuple(Y[i]) for i in got} >= {tuple(Y[i]) for i in range(len(Y)) if nd[i]}, "set2d:missing",
                  lambda: f"{got} of {Y.tolist()} misses a non-dominated vector (minimize={minimize})")
        mon.check(np.array_equal(arg, Y), "set2d:changes-input", lambda: f"input {Y.tolist()} became {arg.tolist()}")
        mon.event("sets")
        mon.state("2d", min(len(Y), 6), style, minimize, sum(nd))
        return

    if kind == "hv":
        m = int(rng.randint(2, 6))
        Y, style = points(rng, m, {2: 16, 3: 12, 4: 9, 5: 7}[m], allow_empty=True)
        ref = (Y.min(axis=0) if len(Y) else np.zeros(m)) + [rng.uniform(-1, 0.5, m), np.zeros(m), -np.ones(m)][rng.randint(3)] * (np.ptp(Y, axis=0) if len(Y) else 1)
        mon.note(Y=Y.tolist(), ref=ref.tolist())
        scale = float(np.prod(np.maximum(Y.max(axis=0) - ref, 1e-12))) if len(Y) else 1.0
        exp = brute_hv(Y, ref)
        h = Hypervolume(ref_point=torch.tensor(ref))
        if m > 3 and len(Y):  # with more objectives the set has to be mutually non-dominated, as documented
            Y = Y[np.array(brute_nd(Y))]
        for j in range(3):
            P = Y[rng.permutation(len(Y))] if j else Y
            if j == 2 and len(Y):
                P = P[np.array(brute_nd(P))] if rng.rand() < 0.5 else np.r_[P, P[rng.randint(len(P), size=2)]]
            v = float(h.compute(torch.tensor(P.reshape(-1, m))))
            mon.event("volumes")
            mon.check(close(v, exp, scale, 1e-9), "hypervolume", lambda: f"hypervolume {v}, exact {exp} (Y {P.tolist()}, ref {ref.tolist()})")
        mon.check(np.array_equal(h.ref_point.numpy(), ref), "hv:ref_point", lambda: f"{h.ref_point}")
        if rng.rand() < 0.3:
            r2 = ref - rng.rand(m)
            h.ref_point = torch.tensor(r2)
            v, e2 = float(h.compute(torch.tensor(Y))), brute_hv(Y, r2)
            mon.check(close(v, e2, float(np.prod(np.maximum(Y.max(axis=0) - r2, 1e-12))) if len(Y) else 1, 1e-9), "hv:new-ref", lambda: f"{v} vs {e2}")
        mon.state("hv", m, min(len(Y), 6), style, exp > 0)
        return

    if kind in ("cells", "incremental"):
        m = int(rng.randint(2, 5))
        cls = [NondominatedPartitioning, FastNondominatedPartitioning][rng.randint(2)]
        Y, style = points(rng, m, {2: 12, 3: 8, 4: 5}[m], allow_empty=kind == "cells")
        ref = (Y.min(axis=0) if len(Y) else np.zeros(m)) + [rng.uniform(-1, 0.3, m), -np.ones(m)][rng.randint(2)] * (np.ptp(Y, axis=0) + 0.1 if len(Y) else 1)
        mon.note(cls=cls.__name__, Y=Y.tolist(), ref=ref.tolist())
        if kind == "cells":
            part = cls(ref_point=torch.tensor(ref), Y=torch.tensor(Y))
        else:
            cuts = sorted(rng.randint(0, len(Y) + 1, size=rng.randint(1, 4)).tolist())
            pieces = [p for p in np.split(Y, cuts) if len(p)]
            part = cls(ref_point=torch.tensor(ref))
            if rng.rand() < 0.5:
                part = cls(ref_point=torch.tensor(ref), Y=torch.tensor(pieces.pop(0)))
            for p in pieces:
                part.update(torch.tensor(p))
                mon.event("updates")
        got = part.pareto_Y.numpy()
        Yr = Y[np.all(Y > ref, axis=1)] if len(Y) else Y
        front = {tuple(Yr[i]) for i, k in enumerate(brute_nd(Yr)) if k}
        mon.check({tuple(v) for v in got} == front, f"{kind}:front", lambda: f"pareto_Y {got.tolist()}, expected {sorted(front)}")
        check_cells(mon, kind, Y, ref, part.get_hypercell_bounds().numpy())
        v = float(part.compute_hypervolume())
        scale = float(np.prod(np.maximum(Yr.max(axis=0) - ref, 1e-12))) if len(Yr) else 1.0
        mon.check(close(v, brute_hv(Y, ref), scale, 1e-8), f"{kind}:hypervolume", lambda: f"hypervolume {v}, exact {brute_hv(Y, ref)}")
        if m == 2 and front:
            P = np.array(sorted(front))
            lo, up = compute_dominated_hypercell_bounds_2d(torch.tensor(P), torch.tensor(ref)).numpy()
            v = float(np.sum(np.prod(up - lo, axis=1)))
            mon.check(close(v, brute_hv(Y, ref), scale, 1e-8) and bool(np.all(up >= lo)), "dominated-cells",
                      lambda: f"volume of the dominated cells {v}, exact {brute_hv(Y, ref)}")
            inside = all(any(np.all(u <= y) for y in P) and np.all(l >= ref) for l, u in zip(lo, up))
            mon.check(inside, "dominated-cells:outside", lambda: f"cells {lo.tolist()} {up.tolist()} of {P.tolist()}")
        mon.event("partitionings")
        mon.state(kind, cls.__name__, m, min(len(Y), 6), style, len(front))
        return

    if kind == "batch":  # several fronts with two objectives at once
        cls = [NondominatedPartitioning, FastNondominatedPartitioning][rng.randint(2)]
        b, n = int(rng.randint(1, 4)), int(rng.randint(1, 8))
        Y = rng.randint(0, 6, (b, n, 2)).astype(float) if rng.rand() < 0.5 else rng.rand(b, n, 2)
        ref = Y.min(axis=(0, 1)) - (0.5 if rng.rand() < 0.7 else -0.2)
        mon.note(cls=cls.__name__, Y=Y.tolist(), ref=ref.tolist())
        part = cls(ref_point=torch.tensor(ref), Y=torch.tensor(Y))
        cb = part.get_hypercell_bounds().numpy()
        hv = part.compute_hypervolume().numpy()
        for i in range(b):
            keep = np.all(cb[1][i] > cb[0][i], axis=1)
            if np.all(Y[i] > ref, axis=1).any():
                check_cells(mon, "batch", Y[i], ref, cb[:, i][:, keep])
                e = brute_hv(Y[i], ref)
                mon.check(abs(hv[i] - e) <= 1e-9 * (1 + abs(e)), "batch:hypervolume", lambda: f"{hv[i]} vs {e}")
            else:
                mon.check(abs(hv[i]) <= 1e-9, "batch:hypervolume", lambda: f"{hv[i]} without any point beyond the reference point")
            mon.event("partitionings")
        mon.state("batch", cls.__name__, b, min(n, 4))
        return

    # expected hypervolume improvement under independent normals
    m = int([2, 2, 3, 3, 4][rng.randint(5)])
    Y, style = points(rng, m, {2: 10, 3: 7, 4: 4}[m])
    s = np.maximum(np.ptp(Y, axis=0), 0.1)
    if style == "wide":
        Y, s = Y / s, np.ones(m)
    ref = Y.min(axis=0) - rng.uniform(0.05, 0.6) * s
    if rng.rand() < 0.2:
        ref = Y.min(axis=0) + rng.uniform(0, 0.3) * np.ptp(Y, axis=0)
        if not np.any(np.all(Y > ref, axis=1)):
            raise Skip("nothing beyond the reference point")
    dt = [torch.float64, torch.float32][rng.randint(2)]
    Yt, reft = torch.tensor(Y, dtype=dt), torch.tensor(ref, dtype=dt)
    part = [NondominatedPartitioning, FastNondominatedPartitioning][rng.randint(2)](ref_point=reft, Y=Yt)
    q = 1 if rng.rand() < 0.7 else int(rng.randint(2, 5))
    mu = Y[rng.randint(len(Y), size=q)] + rng.normal(0, 0.7, (q, m)) * s
    sd = 10.0 ** rng.uniform(-3, 0.3, (q, m)) * s

    class Model:
        def predict(self, X, eval_MSE=False):
            k = len(X)
            return (mu[:k], sd[:k] ** 2) if eval_MSE else mu[:k]

    e = EHVI(model=Model(), ref_point=reft.tolist(), partitioning=part)
    mon.note(Y=Y.tolist(), ref=ref.tolist(), mu=mu.tolist(), sd=sd.tolist())
    X = np.zeros((1, 2))
    Yq = Y[np.all(Y > ref, axis=1)]
    edges = grid(Yq, ref, inf=True)
    M = dominated_mask(Yq, edges)

    def part_mean(k, i):
        """E[(min(z, u) - l)^+] for every interval (l, u) of objective k"""
        a, t = mu[i, k], sd[i, k]
        def plus(c):  # E (z - c)^+
            if c == math.inf:
                return 0.0
            w = (a - c) / t
            return t * (math.exp(-w * w / 2) / math.sqrt(2 * math.pi) + w * ndtr(w))
        p = [plus(c) for c in edges[k]]
        return -np.diff(np.array(p))

    # the library's own 1-row call and, occasionally, the list form of a point
    for i in range(q):
        fac = [part_mean(k, i) for k in range(m)]
        vol = fac[0]
        for w in fac[1:]:
            vol = np.multiply.outer(vol, w)
        exp = float(np.sum(vol[~M]))
        one_mu, one_sd = mu[i:i + 1], sd[i:i + 1]

        class One:
            def predict(self, X, eval_MSE=False):
                return (one_mu, one_sd ** 2) if eval_MSE else one_mu

        e.model = One()
        v = float(np.ravel(e([0.1, 0.2] if i % 2 else X))[0])
        scale = float(np.prod(np.abs(mu[i] - ref) + sd[i] + s))
        mon.event("improvements")
        mon.check(abs(v - exp) <= 3e-5 * scale + 1e-3 * exp, "ehvi", lambda: f"expected improvement {v}, exact {exp} (m={m})")
        mon.check(v >= -3e-5 * scale, "ehvi:negative", lambda: f"{v}")
        mon.state("ehvi", m, min(len(Y), 5), style, exp > 1e-3 * scale)
