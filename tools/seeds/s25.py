ID="S25-zero-target-ignored"; PROPERTY="C07"
EDITS=[("bayes_optim/_base.py","        if self.ftarget is not None and self.xopt is not None:","        if self.ftarget and self.xopt is not None:")]
NEEDS="a target value of exactly zero"
BREAKS="a run that has met its target goes on until the budget is used up and does not report the target"
DEMO='''
from bayes_optim import BO
from bayes_optim.search_space import RealSpace
from bayes_optim.surrogate import GaussianProcess
calls = []
def f(x):
    calls.append(x)
    return float(x[0] ** 2 + x[1] ** 2) - 10.0
gp = GaussianProcess(thetaL=[1e-3]*2, thetaU=[1e2]*2, nugget=1e-5, random_state=1)
opt = BO(search_space=RealSpace([-5, 5]) * 2, obj_fun=f, model=gp, DoE_size=6, ftarget=0, max_FEs=14, random_seed=1, acquisition_optimization={"max_FEs": 50, "n_restart": 1})
x, y, stop = opt.run()
assert "ftarget" in stop and len(calls) < 14, (stop, len(calls), y)
'''
