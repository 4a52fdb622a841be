ID='S15-first-equality-only'; PROPERTY='C03'
EDITS=[('bayes_optim/acquisition/optim/__init__.py', 'cond_h = all(np.isclose(np.abs(h(xopt_)), 0, atol=1e-1)) if h else True', 'cond_h = np.isclose(np.abs(h(xopt_)), 0, atol=1e-1).flat[0] if h else True')]
NEEDS='an equality constraint with several components of which the first is met where the acquisition search ends and another one is not'
BREAKS='points violating an equality constraint are suggested'
DEMO="""
import numpy as np
from bayes_optim.acquisition.optim import argmax_restart
from bayes_optim.search_space import RealSpace
bad = 0
for seed in range(8):
    np.random.seed(seed)
    sp = RealSpace([0, 1]) * 2
    f = lambda x: -1e3 * float(np.sum(np.asarray(x, dtype=float)))
    h = lambda x: np.array([0.0, float(np.sum(np.asarray(x, dtype=float))) - 1.5])
    x, _ = argmax_restart(f, sp, h=h, eval_budget=60, n_restart=3, optimizer="MIES")
    if len(x) and np.max(np.abs(h(x))) > 0.1 + 1e-9:
        bad += 1
assert bad == 0, bad
"""
