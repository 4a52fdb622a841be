"""C14  descriptions.  Oracle: random descriptions together with the variables they must denote; export/import round trips compared
variable by variable; malformed descriptions must raise."""
import copy
import json

import numpy as np

from .. import bo, gen
from ..core import Skip
from . import c13
from bayes_optim.search_space import SearchSpace

ID = "C14"
LEVEL = "exploration"
RULE = ("seeded random descriptions (all type aliases, repetition, defaults, precisions, scales, steps, conditions; dictionary and JSON "
        "file) and random spaces exported and read back, also after space operations; malformed variants; distinct situation = (types, "
        "aliases, options used, route)")
TIMEOUT = 60
ALIAS = dict(r=["r", "real"], i=["i", "int", "integer"], o=["o", "ordinal"], c=["c", "cat", "discrete"], s=["s", "subset"], b=["b", "bool"])


def kinds(tier):
    k = dict(describe=500, roundtrip=400, conditional=150, malformed=250)
    return k if tier == "quick" else {a: 30 * b for a, b in k.items()}


def entry(rng, v):
    """-> (description entry, [options used])"""
    t = v["t"]
    e, used = {}, []
    a = ALIAS[t][rng.randint(len(ALIAS[t]))]
    e["type"] = a
    used.append(a)
    if t != "b" or rng.rand() < 0.3:
        r = [v["lo"], v["hi"]] if t in "ri" else list(v["base"]) if t == "s" else list(v["levels"])
        e["range"] = tuple(r) if rng.rand() < 0.3 else r
    n = 1
    if rng.rand() < 0.3:
        n = int(rng.randint(1, 4))
        e["N"] = n
        used.append(f"N{n}")
    if v["default"] is not None:
        e["default"] = v["default"]
        used.append("default")
    if t == "r":
        if v["prec"] is not None or rng.rand() < 0.2:
            e["precision"] = v["prec"]
            used.append("precision")
        if v["scale"] != "linear" or rng.rand() < 0.2:
            e["scale"] = v["scale"]
            used.append(v["scale"])
    if t == "i" and (v["step"] != 1 or rng.rand() < 0.2):
        e["step"] = v["step"]
        used.append("step")
    keys = list(e)
    e = {keys[k]: e[keys[k]] for k in rng.permutation(len(keys))}
    return e, n, used


def jsonable(e):
    return json.loads(json.dumps(e))


def load(rng, d, name="d.json"):
    """through the dictionary or through a file -> (space, route)"""
    if rng.rand() < 0.5:
        return SearchSpace.from_dict(d), "dict"
    with open(name, "w") as f:
        json.dump(d, f, indent=[None, 2][rng.randint(2)])
    return SearchSpace.from_json(name), "json"


def same(mon, got, want, tag, ctx=""):
    a, b = [c13.shown(v) for v in got.data], [c13.shown(v) for v in want.data]
    mon.check(a == b, f"{tag}:variables", lambda: f"{ctx} {a} != {b}")
    ca = [None if v.conditions is None else v.conditions["string"] for v in got.data]
    cb = [None if v.conditions is None else v.conditions["string"] for v in want.data]
    mon.check(ca == cb, f"{tag}:conditions", lambda: f"{ctx} {ca} != {cb}")
    mon.check(got == want, f"{tag}:not-equal", ctx)
    mon.check(type(got) is type(want), f"{tag}:class", ctx)


def run(kind, rng, mon):
    if kind == "describe":
        names = rng.choice(gen.NAMES, int(rng.randint(1, 7)), replace=False)
        d, want, opts = {}, [], []
        for n in names:
            v = c13.rand_var(rng, str(n))
            e, k, used = entry(rng, v)
            d[str(n)] = e
            opts.append((v["t"], tuple(used)))
            want += [dict(v, name=str(n) if k == 1 else f"{n}{j}") for j in range(k)]
        all_names = [v["name"] for v in want]
        if len(set(all_names)) < len(all_names):
            raise Skip("clashing names")
        before = copy.deepcopy(d)
        s, route = load(rng, d)
        mon.note(description=d, route=route)
        mon.check(d == before and repr(d) == repr(before), "description-modified", lambda: f"{before} -> {d}")
        for v in want:
            if v["t"] == "b" and "default" not in d.get(v["name"], d.get(v["name"][:-1], {})):
                v["default"] = None
        c13.consistent(mon, s, want, f"from-{route}", str(d))
        for o in opts:
            mon.state("describe", o, route)
        mon.event("descriptions")
        mon.event("described_variables", len(want))
        # reading the same description again gives an equal, independent space
        s2 = SearchSpace.from_dict(d)
        mon.check(s2 == s, "second-reading-differs", "")
        s2.var_name = "zz"
        c13.consistent(mon, s, want, f"shared-{route}", str(d))
        return
    if kind == "malformed":
        v = c13.rand_var(rng, "bad")
        e, k, used = entry(rng, v)
        how = rng.randint(5)
        if how == 0:
            e["type"] = ["float", "categorical", "x", "", "R", None][rng.randint(6)]
            what = f"type {e['type']!r}"
        elif how == 1:
            e.pop("type")
            what = "no type"
        elif how == 2:
            if v["t"] not in "ri":
                raise Skip("not applicable")
            e["range"] = [v["hi"], v["lo"]]
            what = "reversed range"
        elif how == 3:
            if v["t"] not in "ri":
                raise Skip("not applicable")
            e.pop("range")
            what = "no range"
        else:
            e["default"] = "no such value" if v["t"] not in "ri" else v["hi"] + 10 ** 4
            if rng.rand() < 0.4:  # values that count as false
                if v["t"] not in "ri":
                    e["default"] = ""
                elif not v["lo"] <= 0 <= v["hi"]:
                    e["default"] = 0 if v["t"] == "i" else 0.0
            what = "default outside the range"
        d = {}
        pos = rng.randint(2)
        if pos:
            d["first"] = {"type": "r", "range": [0, 1]}
        d["bad"] = e
        d["last"] = {"type": "i", "range": [0, 5]}
        mon.note(description=d, what=what)
        mon.state("malformed", v["t"], what, pos)
        mon.event("malformed_descriptions")
        try:
            s = SearchSpace.from_dict(d)
        except Exception as ex:
            mon.check(True, "", "")
            mon.event(f"raised_{type(ex).__name__}")
            return
        mon.check(False, "malformed-accepted", lambda: f"{what} in {d} gave {s}")
        return
    if kind == "roundtrip":
        m = c13.fresh(rng, int(rng.randint(1, 7)))
        s = SearchSpace([c13.lib_var(v) for v in m])
        ops = []
        for _ in range(int(rng.randint(0, 4))):  # also after operations on the space
            pool = [(s, m)]
            o = c13.fresh(rng, 2)
            o = [dict(v, name="o" + v["name"]) for v in o]
            pool.append((SearchSpace([c13.lib_var(v) for v in o]), o))
            ops.append(c13.step(rng, pool, mon))
            if mon.violations:
                return
            s, m = pool[-1] if rng.rand() < 0.5 else pool[0]
    else:
        # a conditional space
        levels = [["A", "B", "C"], [1, 2, 3], [False, True]][rng.randint(3)]
        from bayes_optim.search_space import Bool, Discrete, Integer, Real

        sel = Bool("sel") if levels == [False, True] else Discrete(levels, "sel")
        vs = [sel]
        for k, l in enumerate(levels):
            if rng.rand() < 0.7:
                lit = repr(l) if not isinstance(l, bool) else str(l)
                vs.append(Real([0, 1 + k], f"r{k}", conditions=f"sel == {lit}") if rng.rand() < 0.5
                          else Integer([0, 5 + k], f"i{k}", conditions=f"sel == {lit}"))
        vs.append(Real([0, 1], "free"))
        other = rng.rand() < 0.4
        if other:  # other expressions are carried along as they are
            l, q = levels[rng.randint(len(levels))], levels[rng.randint(len(levels))]
            texts = [f"sel != {l!r}", f"sel == {l!r} or sel == {q!r}", f"not (sel == {l!r})"] + ([f"sel > {l!r}", f"sel <= {l!r}"] if type(l) is int else [])
            vs.append(Real([0, 2], "u", conditions=texts[rng.randint(len(texts))]))
        s = SearchSpace(vs)
        m, ops = None, ["conditional", other]
    before = [c13.shown(v) for v in s.data]
    d = s.to_dict()
    mon.check([c13.shown(v) for v in s.data] == before, "export-modifies", "")
    mon.check(list(d) == list(s.var_name), "export-names", lambda: f"{list(d)} {s.var_name}")
    r1 = SearchSpace.from_dict(copy.deepcopy(d))
    same(mon, r1, s, "dict-roundtrip", str(d))
    s.to_json("s.json")
    r2 = SearchSpace.from_json("s.json")
    same(mon, r2, s, "json-roundtrip", str(d))
    if m is not None:
        c13.consistent(mon, r2, m, "json-roundtrip", str(ops))
    r2.to_json("t.json")
    same(mon, SearchSpace.from_json("t.json"), s, "second-roundtrip", "")
    if kind == "conditional" and not other:
        sub = lambda q: sorted((repr(sorted(k.items(), key=str)), sorted(t.var_name)) for k, t in q.get_unconditional_subspace())  # noqa
        mon.check(sub(r2) == sub(s), "roundtrip-subspaces", lambda: f"{sub(r2)} != {sub(s)}")
    if m is not None and all(v["t"] != "i" or v["step"] <= v["hi"] - v["lo"] for v in m):
        for x in r2.sample(3).tolist():
            b = gen.bad_point(m, x)
            mon.check(b is None, "sample-after-roundtrip", lambda: f"{b} {x}")
    mon.note(space=d, ops=ops)
    mon.event("roundtrips", 3)
    mon.state(kind, tuple(sorted({type(v).__name__ for v in s.data})), tuple(ops), s.dim)
