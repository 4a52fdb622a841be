ID='S21-patience-from-first'; PROPERTY='C28'
EDITS=[('bayes_optim/acquisition/optim/__init__.py', '            if fopt_ > best:\n', '            if fopt_ > best and iteration < 2:\n')]
NEEDS='a restarted search with more restarts than the patience, improving late'
BREAKS='the restarted search gives up although its latest restarts still improved'
DEMO='''
import numpy as np
from bayes_optim.acquisition.optim import argmax_restart
from bayes_optim.search_space import RealSpace
np.random.seed(1)
calls = []
def f(x):
    calls.append(1)
    return np.array([float(len(calls))]), np.zeros((2, 1))   # every restart is better than the one before
argmax_restart(f, RealSpace([-5, 5]) * 2, eval_budget=1000, n_restart=10, wait_iter=3, optimizer="BFGS")
assert len(calls) == 10, len(calls)
'''
