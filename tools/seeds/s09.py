ID='S09-filter-by-prefix'; PROPERTY='C13'
EDITS=[('bayes_optim/search_space/search_space.py', 'masks = [v in keys for v in self.var_name]', 'masks = [any(v == k or v.startswith(k + "0") for k in keys) for v in self.var_name]')]
NEEDS='a selected variable name followed by a zero is the name of another variable, e.g. x1 and x10 is not needed but x and x0 is'
BREAKS='selecting (or removing) a variable by name also selects another one, so that it is lost from the remaining space'
DEMO='''
from bayes_optim.search_space import Real, Integer, SearchSpace
s = SearchSpace([Real([0, 1], name="x1"), Integer([1, 5], name="x10"), Real([0, 2], name="x2")])
assert list(s.filter(["x1"]).var_name) == ["x1"], s.filter(["x1"]).var_name
assert list(s.filter(["x1"], invert=True).var_name) == ["x10", "x2"], s.filter(["x1"], invert=True).var_name
'''
