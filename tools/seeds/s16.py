ID='S16-two-fixed-at-most'; PROPERTY='C02'
EDITS=[('bayes_optim/base.py', '            search_space=self.search_space.filter(fixed.keys(), invert=True),\n            h=', '            search_space=self.search_space.filter(sorted(fixed)[:2], invert=True),\n            h=')]
NEEDS='a model-based request that fixes three or more variables'
BREAKS='with three fixed variables the acquisition search also varies a fixed one and the suggestion mixes up the variables'
DEMO='''
import numpy as np
from bayes_optim import BO
from bayes_optim.search_space import RealSpace
from bayes_optim.surrogate import RandomForest
np.random.seed(1)
sp = RealSpace([0, 1], var_name="x") * 5
opt = BO(search_space=sp, obj_fun=None, model=RandomForest(levels=sp.levels, n_estimators=5), DoE_size=6, random_seed=1, acquisition_optimization={"max_FEs": 40, "n_restart": 1})
X = opt.ask()
opt.tell(X, [float(np.sum(x)) for x in X])
names = list(sp.var_name)
fixed = {names[0]: 0.11, names[2]: 0.22, names[4]: 0.33}
x = opt.ask(1, fixed=fixed)[0]
assert len(x) == 5 and x[0] == 0.11 and x[2] == 0.22 and x[4] == 0.33, x
'''
