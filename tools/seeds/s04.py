ID="S04-unordered-workers"; PROPERTY="C23"
EDITS=[("bayes_optim/_base.py","func_vals = Parallel(n_jobs=self.n_job)(delayed(self.obj_fun)(x) for x in X)","func_vals = list(\n                    Parallel(n_jobs=self.n_job, return_as=\"generator_unordered\")(delayed(self.obj_fun)(x) for x in X)\n                )")]
NEEDS="several workers and evaluations that finish in another order than they were started"
BREAKS="values are attributed to points in order of completion"
DEMO='''
import time
import numpy as np
from bayes_optim import ParallelBO
from bayes_optim.search_space import RealSpace
from bayes_optim.surrogate import GaussianProcess
def f(x):
    time.sleep(0.6 if x[0] < 0 else 0.02)
    return float(x[0])
gp = GaussianProcess(thetaL=[1e-3]*2, thetaU=[1e2]*2, nugget=1e-5, random_state=1)
opt = ParallelBO(search_space=RealSpace([-5, 5]) * 2, obj_fun=f, model=gp, DoE_size=6, n_point=3, n_job=3, max_FEs=12, random_seed=1)
bad = 0
for _ in range(3):
    X = [[-3.0 + 0.1 * _, 1.0], [2.0, 1.0], [-1.0, 0.0], [4.0, 2.0]]
    bad += list(opt.evaluate(X)) != [x[0] for x in X]
assert not bad, bad
'''
