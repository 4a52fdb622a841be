ID="S02-stops-a-batch-early"; PROPERTY="C07"
EDITS=[("bayes_optim/_base.py","        if self.eval_count >= self.max_FEs:","        # another batch does not fit into the budget\n        if self.eval_count >= self.max_FEs or self.eval_count + getattr(self, \"n_point\", 1) > self.max_FEs + 1:")]
NEEDS="a batch optimizer whose batch size is larger than two and does not divide the remaining budget"
BREAKS="the run stops before the budget is used up and reports max_FEs as the reason"
DEMO='''
import numpy as np
from bayes_optim import ParallelBO
from bayes_optim.search_space import RealSpace
from bayes_optim.surrogate import GaussianProcess
calls = []
def f(x):
    calls.append(x)
    return float(np.sum(np.square(x)))
gp = GaussianProcess(thetaL=[1e-3]*2, thetaU=[1e2]*2, nugget=1e-5, random_state=1)
opt = ParallelBO(search_space=RealSpace([-5, 5]) * 2, obj_fun=f, model=gp, DoE_size=5, n_point=4, max_FEs=11, random_seed=1, acquisition_optimization={"max_FEs": 50, "n_restart": 1})
opt.run()
assert len(calls) == 13 == opt.eval_count, (len(calls), opt.eval_count)
'''
