ID="S01-failed-not-counted"; PROPERTY="C05"
EDITS=[("bayes_optim/base.py","            if not warm_start:\n                self.eval_count += 1\n\n","            if not warm_start and np.all(np.isfinite(func_vals[i])):\n                self.eval_count += 1\n\n")]
NEEDS="an evaluation that fails (NaN or infinite value)"
BREAKS="failed evaluations are not counted, so the evaluation counter is behind and runs overshoot their budget"
DEMO='''
import numpy as np
from bayes_optim import BO
from bayes_optim.search_space import RealSpace
from bayes_optim.surrogate import GaussianProcess
sp = RealSpace([-5, 5]) * 2
gp = GaussianProcess(thetaL=[1e-3]*2, thetaU=[1e2]*2, nugget=1e-5, random_state=1)
opt = BO(search_space=sp, obj_fun=lambda x: 0, model=gp, DoE_size=6, max_FEs=20, random_seed=1)
X = opt.ask(6)
opt.tell(X, [1.0, float("nan"), 3.0, 2.0, -1., 0.5])
assert opt.eval_count == 6 and len(opt.data) == 5, (opt.eval_count, len(opt.data))
'''
