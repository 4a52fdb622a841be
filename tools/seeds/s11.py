ID='S11-third-argument-lost'; PROPERTY='C24'
EDITS=[('bayes_optim/__init__.py', 'obj_func = lambda x: func(x, *args)', 'obj_func = lambda x: func(x, *tuple(args)[:2])')]
NEEDS='an objective that takes three or more extra arguments'
BREAKS='extra arguments beyond the second one are not passed to the objective'
DEMO='''
from bayes_optim import fmin
seen = set()
def f(x, *args):
    seen.add(args)
    return float(sum(v * v for v in x))
fmin(f, [-1, -1], [1, 1], x0=4, max_FEs=5, seed=1, args=(1.0, 2.0, 3.0, "d"))
assert seen == {(1.0, 2.0, 3.0, "d")}, seen
'''
