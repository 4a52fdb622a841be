ID='S13-small-violations-free'; PROPERTY='C27'
EDITS=[('bayes_optim/utils/utils.py', '        v[v <= 0] = 0', '        v[v <= epsilon] = 0')]
NEEDS='an inequality constraint violated by no more than the tolerance of the equality constraints'
BREAKS='slightly infeasible points are not penalized'
DEMO='''
import numpy as np
from bayes_optim.utils import dynamic_penalty
p = dynamic_penalty([[0.05], [0.2], [-0.1], [0.0]], t=2, inequality=lambda x: x[0])
assert p[0] > 0 and p[1] > 0 and p[2] == 0 and p[3] == 0, p
'''
