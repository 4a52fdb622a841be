ID='S05-square-batch-transposed'; PROPERTY='C22'
EDITS=[('bayes_optim/mobo.py', '        return list(zip(*func_vals))', '        # one row per point\n        vals = np.array(func_vals)\n        return [tuple(v) for v in (vals if vals.shape[0] == len(X) else vals.T)]')]
NEEDS='a batch with exactly as many points as there are objectives'
BREAKS='the objective values of different points are mixed up when the number of points equals the number of objectives'
DEMO='''
import numpy as np
from bayes_optim.mobo import MOBO
from bayes_optim.search_space import RealSpace
from bayes_optim.surrogate import RandomForest
sp = RealSpace([0, 1]) * 2
opt = MOBO(search_space=sp, n_obj=2, obj_fun=[lambda x: 10 + x[0], lambda x: 20 + x[1]], model=RandomForest(levels=sp.levels), DoE_size=2, max_FEs=10)
for X in ([[0.1, 0.2], [0.3, 0.4]], [[0.1, 0.2], [0.3, 0.4], [0.5, 0.6]]):
    V = opt.evaluate(X)
    for x, v in zip(X, V):
        assert np.allclose(v, (10 + x[0], 20 + x[1])), (X, V)
'''
