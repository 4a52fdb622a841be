ID="S27-equalities-cancel"; PROPERTY="C12"
EDITS=[("bayes_optim/search_space/search_space.py","                list(map(lambda x: all(np.isclose(np.abs(h(x)), 0, atol=tol)), S))","                list(map(lambda x: bool(np.isclose(np.abs(np.sum(h(x))), 0, atol=tol)), S))")]
NEEDS="two equality constraints whose violations have opposite signs, on a sample that could not be moved onto them"
BREAKS="points far from meeting the equality constraints are returned as a feasible sample"
DEMO='''
import numpy as np
from bayes_optim.search_space import RealSpace
space = RealSpace([0, 1]) * 2
bad = n = 0
for s in range(8):
    np.random.seed(s)
    # no point of the space meets both
    h = lambda x: np.array([float(x[0]) + 0.3, -float(x[1]) - 0.3])
    try:
        X = space.sample(200, h=h)
    except Exception:
        continue
    n += len(X)
    bad += sum(bool(np.any(np.abs(h(x)) > 0.0101)) for x in X)
assert bad == 0, (bad, n)
'''
