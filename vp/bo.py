"""Driving the optimizers: construction of random configurations and ask/tell histories."""
import math

import numpy as np

import bayes_optim as B
from bayes_optim.bayes_opt import BO, AnnealingBO, NoisyBO, ParallelBO, SelfAdaptiveBO
from bayes_optim.extension import MultiAcquisitionBO
from bayes_optim.mobo import MOBO
from bayes_optim.utils.exception import AskEmptyError, FlatFitnessError

from . import gen
from .core import Skip, Violation

CLS = dict(BO=BO, ParallelBO=ParallelBO, NoisyBO=NoisyBO, AnnealingBO=AnnealingBO,
           MultiAcquisitionBO=MultiAcquisitionBO, SelfAdaptiveBO=SelfAdaptiveBO)
SINGLE = ("BO",)
BATCH = ("ParallelBO", "AnnealingBO", "MultiAcquisitionBO", "SelfAdaptiveBO")


def rand_types(rng, subset=True):
    t = ["r", "r", "i", "cob", "ricob", "rc", "ri"] + (["ricobs", "rs", "s", "sr"] if subset else [])
    return t[rng.randint(len(t))]


def big_enough(rng, types=None, dim=None, rich=True, least=30, tries=50):
    """a spec whose space has at least `least` points"""
    for _ in range(tries):
        spec = gen.rand_spec(rng, types or rand_types(rng), dim, rich)
        if gen.space_size(spec) >= least:
            return spec
    return gen.rand_spec(rng, "r", dim or 2, rich)


def opt_kwargs(rng, spec, cls):
    """random admissible settings of an optimizer of that class"""
    kw = dict(DoE_size=int(rng.randint(2, 7)), eval_type=["list", "dict"][rng.randint(2)],
              acquisition_optimization=dict(gen.FAST))
    if cls in BATCH or cls == "NoisyBO":
        kw["n_point"] = int(rng.randint(2, 5))
    if cls == "AnnealingBO":
        kw["max_FEs"] = 40
        kw["schedule"] = ["exp", "linear", "log"][rng.randint(3)]
    if cls == "BO":
        kw["acquisition_fun"] = ["EI", "PI", "UCB", "MGFI", "EpsilonPI"][rng.randint(5)]
    elif cls in ("ParallelBO", "NoisyBO"):
        kw["acquisition_fun"] = ["MGFI", "UCB"][rng.randint(2)]
    if rng.rand() < 0.5:
        kw["minimize"] = bool(rng.randint(2))
    return kw


def to_list(spec, x):
    return [x[v["name"]] for v in spec] if isinstance(x, dict) else list(x)


def to_form(spec, x, form):
    return {v["name"]: xi for v, xi in zip(spec, x)} if form == "dict" else list(x)


def build(rng, spec, space, cls="BO", model=None, obj_fun=None, **over):
    kw = opt_kwargs(rng, spec, cls)
    kw.update(over)
    name, m = gen.make_model(rng, spec, space, model)
    if kw.get("acquisition_optimization", {}).get("optimizer") == "BFGS" and name != "gp":
        kw["acquisition_optimization"].pop("optimizer")
    opt = CLS[cls](search_space=space, obj_fun=obj_fun, model=m, **kw)
    info = dict(cls=cls, model=name, **{k: v for k, v in kw.items() if k not in ("acquisition_optimization",)})
    return opt, info


def distinct(points):
    return len({gen.key_of(p) for p in points})


def ask(opt, spec, seen, may_be_empty=True, **kw):
    """-> list of candidates, or None when the (documented) empty-suggestion error is justified: the
    finite space is exhausted."""
    try:
        return opt.ask(**kw)
    except AskEmptyError:
        size = gen.space_size(spec)
        if size - distinct(seen) <= 0:
            return None
        if size > 60 and math.isfinite(size) and size - distinct(seen) < 0.05 * size:
            raise Skip("finite space almost exhausted")
        raise


def desc(spec):
    return "".join(v["t"] + ("p" if v.get("prec") is not None else "") + ("s" if v.get("step", 1) != 1 else "")
                   + ("l" if v.get("scale", "linear") != "linear" else "") for v in spec)


def stopped(es):
    """whether a (1+1)-evolution strategy has ended"""
    v = getattr(es, "_stop", None)
    if v is not None:
        return bool(v)
    s = es.stop_dict
    return "FEs" in s or "ftarget" in s or bool(s) and not getattr(es, "n_restart", 0)
