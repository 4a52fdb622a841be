ID='S12-comma-selection-maximizes-wrong'; PROPERTY='C28'
EDITS=[('bayes_optim/acquisition/optim/mies.py', '            rank = rank[::-1]', '            # offspring compete among themselves\n            rank = rank[::-1] if self.elitism else rank')]
NEEDS='the mixed-integer evolution strategy maximizing without elitism (as the acquisition search does)'
BREAKS='the worst offspring become the parents when maximizing, so the search moves away from the optimum'
DEMO='''
import numpy as np
from bayes_optim.acquisition.optim import MIES
from bayes_optim.search_space import RealSpace
late = []
for seed in range(6):
    np.random.seed(seed)
    Y = []
    def f(x):
        y = -float(np.sum((np.asarray(list(x), dtype=float) - 0.3) ** 2))
        Y.append(y)
        return y
    MIES(RealSpace([-5, 5]) * 3, f, max_eval=300, minimize=False).optimize()
    late.append(np.mean(Y[-60:]))
assert np.mean(late) > -10, late
'''
