ID='S14-near-ties-first'; PROPERTY='C06'
EDITS=[('bayes_optim/_base.py', 'np.where(self.data.fitness == fopt)[0][0]', 'np.where(np.isclose(self.data.fitness, fopt))[0][0]')]
NEEDS='an improvement that is tiny compared with the magnitude of the objective values'
BREAKS='a slightly worse, earlier observation is reported as the best one'
DEMO='''
import numpy as np
from bayes_optim import BO
from bayes_optim.search_space import RealSpace
from bayes_optim.surrogate import RandomForest
sp = RealSpace([0, 1]) * 2
opt = BO(search_space=sp, obj_fun=None, model=RandomForest(levels=sp.levels, n_estimators=5), DoE_size=4)
X = [[0.1, 0.1], [0.2, 0.2], [0.3, 0.3], [0.4, 0.4]]
y = [1000.002, 1000.001, 1003.0, 1005.0]
opt.tell(X, y)
assert np.ravel(opt.xopt.fitness)[0] == min(y), opt.xopt.fitness
assert opt.xopt.tolist() == X[1], opt.xopt
'''
