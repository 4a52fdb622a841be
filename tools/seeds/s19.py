ID='S19-ehvi-four-objectives'; PROPERTY='C21'
EDITS=[('bayes_optim/multi_objective/analytic.py', '            list(product(*[[0, 1] for _ in range(ref_point.shape[0])])),', '            list(product([0, 1], repeat=min(3, ref_point.shape[0])))\n            if ref_point.shape[0] < 4\n            else [c for c in product([0, 1], repeat=ref_point.shape[0]) if sum(c) < 3],')]
NEEDS='four objectives'
BREAKS='the expected hypervolume improvement misses a term with four objectives'
DEMO='''
import numpy as np, torch
from bayes_optim.multi_objective import EHVI
from bayes_optim.utils.multi_objective.box_decompositions import NondominatedPartitioning
for m in (2, 3, 4):
    Y = torch.full((1, m), 1.0, dtype=torch.float64)
    ref = [0.0] * m
    class M:
        def predict(self, X, eval_MSE=False):
            return (np.full((1, m), 2.0), np.full((1, m), 1e-8)) if eval_MSE else np.full((1, m), 2.0)
    e = EHVI(model=M(), ref_point=ref, partitioning=NondominatedPartitioning(ref_point=torch.tensor(ref, dtype=torch.float64), Y=Y))
    v = float(np.ravel(e(np.zeros((1, 2))))[0])
    assert abs(v - (2 ** m - 1)) < 1e-2, (m, v)
'''
