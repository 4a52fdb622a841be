"""C13  search-space algebra.  Oracle: a reference model (plain lists of variable descriptions) driven in lock-step with the real
spaces through random operation sequences; after every operation every live space is compared with its model, so aliasing between
operands and results shows up as soon as one of them is changed."""
import copy
import dill
import re

import numpy as np

from .. import bo, gen
from ..core import Skip
from bayes_optim.search_space import (
    Bool, BoolSpace, Discrete, DiscreteSpace, Integer, IntegerSpace, Ordinal, OrdinalSpace, Real, RealSpace, SearchSpace,
    Subset, SubsetSpace, Variable,
)

ID = "C13"
LEVEL = "exploration"
RULE = ("seeded operation sequences (25-40 steps) over a pool of up to 6 live spaces of all variable types; all spaces are compared "
        "with their models after every step; distinct situation = (operation, operand types, size class)")
TIMEOUT = 60
TYPE = dict(r="Real", i="Integer", c="Discrete", o="Ordinal", b="Bool", s="Subset")
LIB = dict(r=Real, i=Integer, c=Discrete, o=Ordinal, b=Bool, s=Subset)


def kinds(tier):
    k = dict(ops=900, names=200, member=300, ctor=250)
    return k if tier == "quick" else {a: 30 * b for a, b in k.items()}


def rand_var(rng, name=None, types="ricobs"):
    v = gen.rand_var(rng, types[rng.randint(len(types))], name or str(gen.NAMES[rng.randint(len(gen.NAMES))]))
    v["default"] = None
    if rng.rand() < 0.3:
        v["default"] = gen.rand_value(rng, v)
    return v


def lib_var(v):
    kw = dict(default_value=v["default"])
    t = v["t"]
    if t == "r":
        return Real([v["lo"], v["hi"]], v["name"], precision=v["prec"], scale=v["scale"], **kw)
    if t == "i":
        return Integer([v["lo"], v["hi"]], v["name"], step=v["step"], **kw)
    if t == "b":
        return Bool(v["name"], **kw)
    return LIB[t](v["base"] if t == "s" else v["levels"], v["name"], **kw)


def describe(v):
    """what the library's variable must show"""
    t = v["t"]
    if t == "r":
        return (TYPE[t], v["name"], (v["lo"], v["hi"]), v["default"], v["prec"], v["scale"])
    if t == "i":
        return (TYPE[t], v["name"], (v["lo"], v["hi"]), v["default"], v["step"])
    return (TYPE[t], v["name"], tuple(v["levels"]), v["default"])


def shown(var):
    out = [type(var).__name__, var.name, tuple(var.bounds), var.default_value]
    if isinstance(var, Real):
        out += [var.precision, var.scale]
    if isinstance(var, Integer):
        out += [var.step]
    return tuple(out)


def consistent(mon, s, spec, tag, ctx=""):
    """all public attributes of space s agree with the model"""
    got = [shown(v) for v in s.data]
    want = [describe(v) for v in spec]
    ok = mon.check(got == want and [list(map(type, g[2])) for g in got] == [list(map(type, w[2])) for w in want],
                   f"{tag}:variables", lambda: f"{ctx} got {got} expected {want}")
    names = [v["name"] for v in spec]
    ok &= mon.check(list(s.var_name) == names, f"{tag}:names", lambda: f"{ctx} {s.var_name} != {names}")
    ok &= mon.check(len(set(s.var_name)) == len(s.var_name), f"{tag}:unique-names", lambda: f"{ctx} {s.var_name}")
    ok &= mon.check(list(s.var_type) == [w[0] for w in want], f"{tag}:types", lambda: f"{ctx} {s.var_type}")
    ok &= mon.check([tuple(b) for b in s.bounds] == [w[2] for w in want], f"{tag}:bounds", lambda: f"{ctx} {s.bounds}")
    ok &= mon.check(s.dim == len(spec) == len(s), f"{tag}:dim", lambda: f"{ctx} {s.dim}")
    if spec:
        for t, nm in TYPE.items():
            ids = [i for i, v in enumerate(spec) if v["t"] == t]
            ok &= mon.check(sorted(np.ravel(getattr(s, nm.lower() + "_id")).tolist()) == ids, f"{tag}:{nm.lower()}_id", ctx)
            ok &= mon.check(np.ravel(getattr(s, nm.lower() + "_mask")).tolist() == [v["t"] == t for v in spec], f"{tag}:{nm.lower()}_mask", ctx)
        cat = [i for i, v in enumerate(spec) if v["t"] in "cobs"]
        ok &= mon.check(sorted(np.ravel(s.categorical_id).astype(int).tolist()) == cat, f"{tag}:categorical_id", lambda: f"{ctx} {s.categorical_id}")
        ok &= mon.check(np.ravel(s.categorical_mask).tolist() == [v["t"] in "cobs" for v in spec], f"{tag}:categorical_mask", ctx)
        lev = {int(k): tuple(v) for k, v in (s.levels or {}).items()}
        ok &= mon.check(lev == {i: tuple(spec[i]["levels"]) for i in cat}, f"{tag}:levels", lambda: f"{ctx} {lev}")
        kinds_ = {v["t"] for v in spec}
        cls = TYPE[kinds_.pop()] + "Space" if len(kinds_) == 1 else "SearchSpace"
        ok &= mon.check(type(s).__name__ == cls, f"{tag}:class", lambda: f"{ctx} {type(s).__name__} for {cls}")
    return bool(ok)


def combine(mon, got_names, spec, tag):
    """model of combining variables whose names may clash: unique names are kept, a repeated name gets numbered.  -> new spec"""
    names = [v["name"] for v in spec]
    ok = mon.check(len(got_names) == len(names), f"{tag}:count", lambda: f"{got_names} for {names}")
    if not ok:
        return None
    new = []
    for nm, g, v in zip(names, got_names, spec):
        if names.count(nm) == 1:
            ok &= mon.check(g == nm, f"{tag}:unclashing-name-changed", lambda: f"{names} -> {got_names}")
        else:
            ok &= mon.check(re.fullmatch(re.escape(nm) + r"\d+", g) is not None, f"{tag}:clash-naming", lambda: f"{names} -> {got_names}")
        new.append(dict(v, name=g))
    ok &= mon.check(len(set(got_names)) == len(got_names), f"{tag}:unique-names", lambda: f"{names} -> {got_names}")
    for nm in set(names):  # numbered in order of appearance
        nums = [int(g[len(nm):]) for n_, g in zip(names, got_names) if n_ == nm and names.count(nm) > 1 and g[len(nm):].isdigit()]
        ok &= mon.check(nums == sorted(nums), f"{tag}:numbering-order", lambda: f"{names} -> {got_names}")
    return new if ok else None


def fresh(rng, dim=None, types="ricobs"):
    dim = dim or int(rng.randint(1, 5))
    if rng.rand() < 0.3:
        types = types[rng.randint(len(types))]
    names = rng.choice(gen.NAMES, dim, replace=False)
    return [rand_var(rng, str(n), types) for n in names]


def step(rng, pool, mon):
    """one operation; returns its name"""
    i = int(rng.randint(len(pool)))
    s, m = pool[i]
    op = ["add", "iadd", "sub", "isub", "mul", "imul", "slice", "list", "mask", "names", "filter", "filter_inv", "concat",
          "pop", "remove", "update", "rename", "set", "copy", "pickle", "variable", "iter", "eq"][rng.randint(23)]
    big = len(m) > 10
    j = int(rng.randint(len(pool)))
    s2, m2 = pool[j]
    mon.event(f"op_{op}")
    mon.state(op, "".join(sorted({v["t"] for v in m})), min(len(m), 4), i == j)

    def put(space, model):
        if model is None:
            return
        if len(pool) < 6:
            pool.append((space, model))
        else:
            pool[int(rng.randint(len(pool)))] = (space, model)

    if op == "add" and not big:
        r = s + s2
        put(r, combine(mon, list(r.var_name), m + m2, "add"))
    elif op == "iadd" and not big and i != j:
        t = s
        t += s2
        mon.check(t is s, "iadd:new-object", "")
        new = combine(mon, list(s.var_name), m + m2, "iadd")
        if new is None:
            return op
        pool[i] = (s, new)
    elif op in ("sub", "isub"):
        drop = {v["name"] for v in m2}
        left = [v for v in m if v["name"] not in drop]
        if op == "sub":
            put(s - s2, left) if left else mon.check((s - s2).dim == 0, "sub:not-empty", "")
        elif left and i != j:
            t = s
            t -= s2
            mon.check(t is s, "isub:new-object", "")
            pool[i] = (s, left)
    elif op in ("mul", "imul") and len(m) <= 5:
        k = int(rng.randint(1, 4))
        want = [v for _ in range(k) for v in m]
        if op == "mul":
            r = s * k if rng.rand() < 0.5 else k * s
            put(r, combine(mon, list(r.var_name), want, "mul"))
        else:
            t = s
            t *= k
            mon.check(t is s, "imul:new-object", "")
            new = combine(mon, list(s.var_name), want, "imul")
            if new is not None:
                pool[i] = (s, new)
    elif op == "slice":
        a, b = sorted(rng.randint(0, len(m) + 1, 2).tolist())
        if a < b:
            st = [None, 1, 2, -1][rng.randint(4)]
            sl = slice(a, b, st) if st != -1 else slice(None, None, -1)
            put(s[sl], m[sl])
    elif op == "list":
        idx = rng.choice(len(m), rng.randint(1, len(m) + 1), replace=False).tolist()
        arg = [idx, np.array(idx), tuple(idx)][rng.randint(3)]
        put(s[arg], [m[k] for k in idx])
    elif op == "mask":
        mask = rng.rand(len(m)) < 0.6
        if mask.any():
            put(s[mask.tolist() if rng.rand() < 0.5 else mask], [v for v, k in zip(m, mask) if k])
    elif op == "names":
        idx = rng.choice(len(m), rng.randint(1, len(m) + 1), replace=False).tolist()
        put(s[[m[k]["name"] for k in idx]], [m[k] for k in idx])
    elif op in ("filter", "filter_inv"):
        keys = [v["name"] for v in m if rng.rand() < 0.5] + ["not there"]
        inv = op == "filter_inv"
        left = [v for v in m if (v["name"] in keys) != inv]
        if left:
            put(s.filter(keys, invert=inv) if inv else s.filter(keys), left)
    elif op == "concat" and not big:
        more = [pool[int(rng.randint(len(pool)))] for _ in range(int(rng.randint(0, 3)))]
        more = [q for q in more if len(q[1]) < 6]
        r = SearchSpace.concat(s, s2, *[q[0] for q in more])
        put(r, combine(mon, list(r.var_name), m + m2 + [v for q in more for v in q[1]], "concat"))
    elif op == "pop" and len(m) > 1:
        k = int(rng.randint(-len(m), len(m)))
        var = s.pop(k) if rng.rand() < 0.7 else s.pop()
        want = m[k] if shown(var) == describe(m[k]) else m[-1]
        mon.check(shown(var) == describe(want), "pop:wrong-variable", lambda: f"{shown(var)} from {m}")
        pool[i] = (s, [v for v in m if v is not want])
    elif op == "remove" and len(m) > 1:
        k = int(rng.randint(len(m)))
        arg = m[k]["name"] if rng.rand() < 0.6 else k
        s.remove(arg)
        pool[i] = (s, [v for q, v in enumerate(m) if q != k])
    elif op == "update" and i != j and not big:
        s.update(s2)
        new = {v["name"]: v for v in m}
        new.update({v["name"]: v for v in m2})
        pool[i] = (s, list(new.values()))
    elif op == "rename":
        if rng.rand() < 0.4:
            s.var_name = "q" + str(rng.randint(9))
            pref = s.var_name[0][:-1]
            pool[i] = (s, [dict(v, name=f"{pref}{k}") for k, v in enumerate(m)])
        else:
            names = [f"N{rng.randint(99)}_{k}" for k in range(len(m))]
            s.var_name = names
            pool[i] = (s, [dict(v, name=n) for v, n in zip(m, names)])
    elif op == "set":
        n = int(rng.randint(1, min(4, len(m)) + 1)) if rng.rand() < 0.4 else 0
        if n:  # several at once
            idx = rng.permutation(len(m))[:n].tolist()
            vs = [rand_var(rng, f"S{rng.randint(10 ** 6)}_{q}") for q in range(n)]
            s[idx if rng.rand() < 0.5 else [m[k]["name"] for k in idx]] = [lib_var(v) for v in vs]
            new = list(m)
            for k, v in zip(idx, vs):
                new[k] = v
            pool[i] = (s, new)
            return op
        k = int(rng.randint(len(m)))
        v = rand_var(rng, f"S{rng.randint(10 ** 6)}")
        if rng.rand() < 0.5:
            s[k] = lib_var(v)
        else:
            s[m[k]["name"]] = lib_var(v)
        pool[i] = (s, m[:k] + [v] + m[k + 1:])
    elif op == "copy":
        put(copy.deepcopy(s), list(m))
    elif op == "pickle":
        put(dill.loads(dill.dumps(s)), list(m))
    elif op == "variable":
        k = int(rng.randint(-len(m), len(m)))
        mon.check(shown(s[k]) == describe(m[k]), "item:index", lambda: f"{k}: {shown(s[k])}")
        mon.check(shown(s[m[k]["name"]]) == describe(m[k]), "item:name", lambda: f"{m[k]['name']}: {shown(s[m[k]['name']])}")
    elif op == "iter":
        mon.check([shown(v) for v in s] == [describe(v) for v in m], "iter", "")
    elif op == "eq":
        t = copy.deepcopy(s)
        mon.check(s == t and not (s != t), "eq:copy-differs", "")
        perm = rng.permutation(len(m)).tolist()
        mon.check(s == s[perm], "eq:order", "")
        if len(m) > 1:
            mon.check(s != s[:-1], "eq:prefix", "")
        k = int(rng.randint(len(m)))
        v = dict(m[k])
        if v["t"] in "ri":
            v["hi"] = v["hi"] + 1 if v["scale" if v["t"] == "r" else "t"] != "logit" else 0.98
            v["default"] = None
            t[k] = lib_var(v)
            mon.check(s != t and not (s == t), "eq:other-range-equal", lambda: f"{m[k]} {v}")
        if v["t"] in "ri":
            w = dict(m[k])
            if w["t"] == "i":
                w["step"] = w.get("step", 1) + 1
                w["default"] = None
                ref = lib_var(dict(m[k], default=None))
            else:
                ref = lib_var(m[k])
                if rng.rand() < 0.5 or w["lo"] <= 0 or w["default"] is not None:
                    w["prec"] = 9 if w["prec"] is None else None
                else:
                    w["scale"] = "log" if w.get("scale", "linear") in (None, "linear") else "linear"
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a[k], b[k] = ref, lib_var(w)
            if a[k].bounds == b[k].bounds:
                mon.check(a != b and not (a == b), "eq:other-grid-or-scale-equal", lambda: f"{m[k]} {w}")
        if v["t"] == "o" and len(v["levels"]) > 1:
            v["levels"], v["default"] = v["levels"][::-1], m[k]["default"]
            a, b = lib_var(m[k]), lib_var(v)
            mon.check(a != b and not (a == b), "eq:other-order-equal", lambda: f"{m[k]} {v}")
    return op


def run(kind, rng, mon):
    if kind == "ctor":  # the space classes
        t = "ricobs"[rng.randint(6)]
        spec = []
        dim = int(rng.randint(1, 5))
        proto = gen.rand_var(rng, t, "n")
        for k in range(dim):
            v = gen.rand_var(rng, t, f"n{k}" if dim > 1 else "n")
            if t == "r" and v["scale"] != "linear" and rng.rand() < 0.5:
                v["scale"] = "linear"
            v["default"] = None if t != "b" else None
            spec.append(v)
        same = rng.rand() < 0.4
        if same:
            for v in spec:
                for a in ("prec", "step"):
                    if a in proto:
                        v[a] = proto[a] if a == "step" else 3
        names = [f"w{k}" for k in range(dim)]
        mode = rng.randint(3) if dim > 1 else 0
        if mode == 1 or mode == 2:
            for v, n in zip(spec, names):
                v["name"] = n
        vn = "n" if mode == 0 else names if mode == 1 else tuple(names)
        if t == "b":
            dim, spec = 1, spec[:1]
            spec[0]["name"], spec[0]["default"] = "n", True  # documented default
            s = BoolSpace("n") if rng.rand() < 0.5 else BoolSpace(var_name="n", default_value=None)
        else:
            b = [(v["lo"], v["hi"]) if t in "ri" else v["base"] if t == "s" else v["levels"] for v in spec]
            b = [list(x) if rng.rand() < 0.5 else tuple(x) for x in b]
            if dim == 1 and rng.rand() < 0.5:
                b = b[0]
            cls = dict(r=RealSpace, i=IntegerSpace, c=DiscreteSpace, o=OrdinalSpace, s=SubsetSpace)[t]
            kw = {}
            if t == "r":
                kw["precision"] = 3 if same else [v["prec"] for v in spec]
                kw["scale"] = [v["scale"] for v in spec]
                if all(v["scale"] == spec[0]["scale"] for v in spec) and rng.rand() < 0.5:
                    kw["scale"] = spec[0]["scale"]
            if t == "i":
                kw["step"] = proto["step"] if same else [v["step"] for v in spec]
                if any(v["step"] > v["hi"] - v["lo"] for v in spec):
                    raise Skip("step beyond the range")
            if rng.rand() < 0.4:
                for v in spec:
                    v["default"] = gen.rand_value(rng, v)
                kw["default_value"] = [v["default"] for v in spec]
            if dim > 1 and rng.rand() < 0.3:
                kw = {a: tuple(x) if isinstance(x, list) else x for a, x in kw.items()}
            before = copy.deepcopy(b)
            s = cls(b, var_name=vn, **kw)
            mon.check(b == before, "ctor:modifies-bounds", "")
        mon.note(spec=spec, var_name=vn)
        consistent(mon, s, spec, f"ctor-{TYPE[t]}", f"{vn}")
        mon.state("ctor", t, dim, mode, same)
        mon.event("constructed")
        return

    if kind == "names":  # many clashes
        base = ["x", "x0", "x1", "x10", "y", "x00"]
        spec = [dict(rand_var(rng, base[rng.randint(len(base))])) for _ in range(int(rng.randint(2, 8)))]
        vs = [lib_var(v) for v in spec]
        r = SearchSpace(vs)
        mon.note(names=[v["name"] for v in spec], got=list(r.var_name))
        mon.check([v.name for v in vs] == [v["name"] for v in spec], "ctor:renames-callers-variables", "")
        new = combine(mon, list(r.var_name), spec, "ctor")
        if new:
            consistent(mon, r, new, "ctor")
            for _ in range(3):
                other = [dict(rand_var(rng, base[rng.randint(len(base))]))]
                o = SearchSpace([lib_var(v) for v in other])
                how = rng.randint(3)
                if how == 0:
                    r2 = r + o
                elif how == 1:
                    r2 = copy.deepcopy(r)
                    r2 += o
                else:
                    r2 = SearchSpace.concat(r, o)
                new2 = combine(mon, list(r2.var_name), new + other, ("add", "iadd", "concat")[how])
                if not new2:
                    break
                consistent(mon, r2, new2, "clash")
                consistent(mon, r, new, "operand")
                r, new = r2, new2
        mon.state("names", tuple(sorted(v["name"] for v in spec)))
        mon.event("clashing_spaces")
        return

    if kind == "member":
        spec = fresh(rng)
        s = SearchSpace([lib_var(v) for v in spec])
        mon.note(spec=spec)
        names = [v["name"] for v in spec]
        for _ in range(12):
            x = gen.rand_point(rng, spec)
            k = int(rng.randint(len(spec)))
            v = spec[k]
            inside = rng.rand() < 0.4
            if not inside:
                if v["t"] == "r":
                    w = float(v["hi"]) - v["lo"]
                    x[k] = [v["hi"] + 1e-3 * w, v["lo"] - 1e-3 * w, v["hi"] + 10 * w][rng.randint(3)]
                elif v["t"] == "i":
                    opts = [v["hi"] + 1, v["lo"] - 1, v["hi"] + 100]
                    if v["step"] > 1:
                        opts = [v["lo"] + 1]
                    x[k] = opts[rng.randint(len(opts))]
                elif v["t"] == "s":
                    x[k] = ("no", "such")
                else:
                    x[k] = "nope"
            form = rng.randint(3)
            if form == 0:
                got = x in s
            elif form == 1:
                got = dict(zip(names, x)) in s
            else:
                got = {names[k]: x[k]} in s
            mon.check(bool(got) == inside, "membership", lambda: f"{x} in {spec}: {got}")
            mon.check((x[k] in s[k]) == inside, "variable-membership", lambda: f"{x[k]!r} in {v}")
            mon.event("membership_tests")
            mon.state("member", v["t"], v.get("step"), v.get("scale"), inside, form)
        for v in spec:
            if v["t"] == "r":
                mon.check(v["lo"] in s[v["name"]] and v["hi"] in s[v["name"]], "bounds-not-members", str(v))
            mon.check(v["name"] in s and lib_var(v) in s, "member-variable", str(v))
        mon.check("not there" not in s, "foreign-name", "")
        mon.check(s[:1] in s, "subspace", "")
        other = rand_var(rng, "foreign")
        mon.check(lib_var(other) not in s, "foreign-variable", "")
        return

    pool = []
    for _ in range(2):
        m = fresh(rng)
        pool.append((SearchSpace([lib_var(v) for v in m]), m))
    hist = []
    for _ in range(int(rng.randint(25, 41))):
        hist.append(step(rng, pool, mon))
        bad = False
        for s, m in pool:
            if not consistent(mon, s, m, f"after-{hist[-1]}", f"history {hist[-4:]}"):
                bad = True
        if bad or mon.violations:
            break
    mon.note(history=hist, final=[[v["name"] for v in m] for _, m in pool])
    s, m = pool[int(rng.randint(len(pool)))]
    if not mon.violations:
        if all(v["t"] != "i" or v["step"] <= v["hi"] - v["lo"] for v in m):
            for x in s.sample(4).tolist():
                b = gen.bad_point(m, x)
                mon.check(b is None, "sample-of-result", lambda: f"{b} {x} {m}")
