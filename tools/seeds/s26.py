ID="S26-noisy-incumbent-recent"; PROPERTY="C19"
EDITS=[("bayes_optim/bayes_opt.py","            plugin = np.min(y_) if self.minimize else np.max(y_)","            # older observations matter less when the evaluations are noisy\n            plugin = np.min(y_[-5:]) if self.minimize else np.max(y_[-5:])")]
NEEDS="the noisy optimizer, an improvement-based acquisition and a best prediction at a point that is not among the last five observed"
BREAKS="the improvement is measured against a value that is not the best one, so points known to be worse than the incumbent are suggested"
DEMO='''
import numpy as np
from bayes_optim.bayes_opt import NoisyBO
from bayes_optim.search_space import RealSpace


class Model:
    """left: surely 0.5, right: 1 +- 0.3, at the first point (0): surely 0"""
    is_fitted = False

    def fit(self, X, y):
        self.is_fitted = True
        return self

    def predict(self, X, eval_MSE=False):
        X = np.array(X.tolist() if hasattr(X, "tolist") else X, dtype=float).reshape(-1, 1)[:, 0]
        m = np.where(X < 0.001, 0.0, np.where(X < 0.5, 0.5, 1.0))
        v = np.where(X < 0.5, 0.01, 0.3) ** 2
        return (m, v) if eval_MSE else m


opt = NoisyBO(search_space=RealSpace([0, 1]), obj_fun=None, model=Model(), DoE_size=3, n_point=2, acquisition_fun="MGFI", acquisition_par={"t": 2}, random_seed=3, acquisition_optimization={"optimizer": "MIES", "max_FEs": 300, "n_restart": 5})
opt.tell([[0.0]], [0.0])
opt.tell([[0.9], [0.8], [0.7], [0.95], [0.85], [0.75], [0.65], [0.6]], [1.1, 0.9, 1.2, 1.0, 0.8, 1.3, 0.95, 1.05])
bad = 0
for _ in range(6):
    x = opt.ask(1)[0]
    x = x[0] if not isinstance(x, dict) else list(x.values())[0]
    bad += 0.001 <= x < 0.5
assert bad <= 2, bad
'''
