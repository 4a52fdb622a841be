ID='S22-conditional-batch-not-told'; PROPERTY='C15'
EDITS=[('bayes_optim/extension.py', """        # call `tell` method of BOs in each subspace
        for i, k in enumerate(self._bo_idx):
""", """        # call `tell` method of BOs in each subspace
        for i, k in enumerate(self._bo_idx[: self.n_subspace + 1]):
""")]
NEEDS='a batch larger than the number of branches plus one'
BREAKS='the optimizer of a branch never learns of the last points of the batch'
DEMO='''
import numpy as np
from bayes_optim.extension import ConditionalBO
from bayes_optim.search_space import SearchSpace, Discrete, Real
np.random.seed(3)
space = SearchSpace([Discrete(["A", "B"], "sel"), Real([0, 1], "x", conditions="sel == 'A'"), Real([0, 1], "y", conditions="sel == 'B'")])
opt = ConditionalBO(search_space=space, obj_fun=None, DoE_size=2, n_point=2, acquisition_optimization=dict(max_FEs=20, n_restart=1))
f = lambda d: float(d["x"] if d["x"] is not None else d["y"])
n = 0
for _ in range(3):
    X = opt.ask(n_point=8)
    opt.tell(X, [f(x) for x in X])
    n += len(X)
    known = sum(len(b.data) for b in opt._bo if hasattr(b, "data"))
    assert known == n, (known, n)
'''
