ID='S23-many-warm-points-counted'; PROPERTY='C24'
EDITS=[('bayes_optim/base.py', '            self.tell(X, y, warm_start=True)', '            self.tell(X, y, warm_start=len(X) <= 3 * self.DoE_size)')]
NEEDS='a warm start with more than three times as many points as the initial design'
BREAKS='the points of a large warm start count as evaluations and an iteration'
DEMO='''
import numpy as np
from bayes_optim import BO, RealSpace
from bayes_optim.surrogate import RandomForest
np.random.seed(1)
X = np.random.rand(20, 2).tolist()
opt = BO(search_space=RealSpace([0, 1]) * 2, obj_fun=lambda x: float(sum(x)), model=RandomForest(levels={}), DoE_size=5, max_FEs=30,
         warm_data=(X, [float(sum(x)) for x in X]), acquisition_optimization=dict(max_FEs=20, n_restart=1))
assert opt.eval_count == 0 and opt.iter_count == 0, (opt.eval_count, opt.iter_count)
'''
