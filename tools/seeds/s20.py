ID='S20-own-generator-for-batches'; PROPERTY='C10'
EDITS=[('bayes_optim/bayes_opt.py', 'self._sampler = lambda x: np.exp(np.log(x["t"]) + 0.5 * np.random.randn())', 'self._sampler = lambda x: np.exp(np.log(x["t"]) + 0.5 * np.random.default_rng().standard_normal())')]
NEEDS='batch suggestions with the moment-generating-function criterion'
BREAKS='two runs with the same seed make different suggestions'
DEMO='''
import numpy as np
from bayes_optim import ParallelBO
from bayes_optim.search_space import RealSpace
from bayes_optim.surrogate import RandomForest
def once():
    sp = RealSpace([-5, 5]) * 2
    opt = ParallelBO(search_space=sp, obj_fun=None, model=RandomForest(levels=sp.levels, n_estimators=5), DoE_size=5, n_point=3, random_seed=7, acquisition_fun="MGFI", acquisition_optimization={"max_FEs": 60, "n_restart": 2})
    out = []
    for _ in range(3):
        X = opt.ask()
        out += [tuple(x) for x in X]
        opt.tell(X, [float(np.sum(np.square(x))) for x in X])
    return out
assert once() == once()
'''
