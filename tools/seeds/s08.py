ID='S08-single-point-median'; PROPERTY='C18'
EDITS=[('bayes_optim/surrogate/random_forest.py', '        y_hat = np.mean(y_hat_all, axis=-1)', '        # a single point is predicted robustly\n        y_hat = np.mean(y_hat_all, axis=-1) if len(y_hat_all) > 1 else np.median(y_hat_all, axis=-1)')]
NEEDS='a prediction for exactly one point'
BREAKS='the prediction of a point depends on whether it is asked alone or together with others'
DEMO='''
import numpy as np
from bayes_optim.search_space import RealSpace
from bayes_optim.surrogate import RandomForest
rng = np.random.RandomState(1)
sp = RealSpace([0, 1]) * 2
X = rng.rand(25, 2)
m = RandomForest(levels=sp.levels, n_estimators=20, random_state=3)
m.fit(X, (np.exp(3 * X[:, 0]) * X[:, 1]).reshape(-1, 1))
T = rng.rand(10, 2)
a = np.ravel(m.predict(T))
b = np.array([float(np.ravel(m.predict(t.reshape(1, -1)))[0]) for t in T])
assert np.allclose(a, b), (a, b)
'''
