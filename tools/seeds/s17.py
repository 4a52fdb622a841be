ID='S17-loaded-constraint-mixed-up'; PROPERTY='C08'
EDITS=[('bayes_optim/base.py', 'setattr(obj, "_g", func_with_list_arg(_g, _eval_type, obj.search_space.var_name))', 'setattr(obj, "_g", func_with_list_arg(_h or _g, _eval_type, obj.search_space.var_name))')]
NEEDS='an optimizer with both kinds of constraints that is saved and loaded'
BREAKS='after loading, the equality constraint is used in place of the inequality constraint'
DEMO='''
import os, tempfile
import numpy as np
from bayes_optim import BO
from bayes_optim.search_space import RealSpace
from bayes_optim.surrogate import RandomForest
sp = RealSpace([0, 1]) * 2
opt = BO(search_space=sp, obj_fun=None, model=RandomForest(levels=sp.levels, n_estimators=5), DoE_size=6, random_seed=1,
         eq_fun=lambda x: x[0] - 0.5, ineq_fun=lambda x: x[1] - 0.3, acquisition_optimization={"max_FEs": 60, "n_restart": 2})
opt.save("o.bin")
new = BO.load("o.bin")
np.random.seed(3)
X = new.ask(6)
assert all(abs(x[0] - 0.5) <= 0.1 + 1e-9 and x[1] <= 0.3 for x in X), X
'''
