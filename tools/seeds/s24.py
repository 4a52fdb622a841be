ID='S24-data-file-restarted'; PROPERTY='C22'
EDITS=[('bayes_optim/mobo.py', '            X.to_csv(self.data_file, header=False, append=True)', '            X.to_csv(self.data_file, header=False, append=self.eval_count <= 100 or self.iter_count % 10 > 0)')]
NEEDS='a long multi-objective history with a data file'
BREAKS='the data file loses what was observed before'
DEMO='''
import numpy as np, os, tempfile
from bayes_optim.mobo import MOBO
from bayes_optim import RealSpace
from bayes_optim.surrogate import RandomForest
np.random.seed(1)
space = RealSpace([0, 1]) * 2
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.csv")
    opt = MOBO(search_space=space, n_obj=2, obj_fun=None, model=RandomForest(levels={}, n_estimators=5), DoE_size=4, data_file=f,
               acquisition_optimization=dict(max_FEs=20, n_restart=1))
    for i in range(13):
        X = np.random.rand(5, 2).tolist()
        opt.tell(X, [[float(x[0]), float(1 - x[1])] for x in X])
    n = len([l for l in open(f) if l.strip()])
assert n == 65, n
'''
