ID='S18-integers-not-compared'; PROPERTY='C04'
EDITS=[('bayes_optim/bayes_opt.py', 'if not any(CON & INT & CAT):', 'if not any(CON & CAT & (INT | (self.N_r > 1))):')]
NEEDS='a mixed space with at least two real variables whose suggestion only differs in integer variables from a known point'
BREAKS='points that differ from known ones only in their integer variables are thrown away as duplicates'
DEMO='''
import numpy as np
from bayes_optim import BO
from bayes_optim.search_space import Integer, Real, SearchSpace
from bayes_optim.surrogate import RandomForest
sp = SearchSpace([Real([0, 1], name="a"), Real([0, 1], name="b"), Integer([0, 50], name="n")])
opt = BO(search_space=sp, obj_fun=None, model=RandomForest(levels=sp.levels, n_estimators=5), DoE_size=4, random_seed=1)
X = [[0.1, 0.2, 1], [0.3, 0.4, 2], [0.5, 0.6, 3], [0.7, 0.8, 4]]
opt.tell(X, [1.0, 2.0, 3.0, 4.0])
got = [x.tolist() if hasattr(x, "tolist") else list(x) for x in opt.pre_eval_check([[0.1, 0.2, 9], [0.3, 0.4, 2], [0.1, 0.2, 10]])]
assert len(got) == 2, got
'''
