ID="S03-round-leaves-bounds"; PROPERTY="C12"
EDITS=[("bayes_optim/search_space/variable.py","X = np.clip(np.round(X, self.precision), self.bounds[0], self.bounds[1])","X = np.round(X, self.precision)")]
NEEDS="a real variable with a precision whose bounds are not multiples of it, and a draw next to the bound"
BREAKS="rounding moves values outside the bounds of the variable"
DEMO='''
import numpy as np
from bayes_optim.search_space import RealSpace
np.random.seed(3)
sp = RealSpace([0.04, 0.96], precision=1) + RealSpace([-1.24, 2.26], precision=1)
for m in ("uniform", "LHS"):
    X = np.array(sp.sample(400, method=m), dtype=float)
    assert (X[:, 0] >= 0.04).all() and (X[:, 0] <= 0.96).all(), X[:, 0].max()
    assert (X[:, 1] >= -1.24).all() and (X[:, 1] <= 2.26).all(), X[:, 1].max()
'''
