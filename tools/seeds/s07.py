ID='S07-index-sorted-on-import'; PROPERTY='C16'
EDITS=[('bayes_optim/solution.py', 'res = cls.__new__(cls, x=_x, var_name=var_name, index=index, **kwargs)', '# keep the labels in order\n        index = sorted(index, key=str) if index is not None else None\n        res = cls.__new__(cls, x=_x, var_name=var_name, index=index, **kwargs)')]
NEEDS='a table imported with labels that are not in lexicographic order, e.g. more than ten rows'
BREAKS='the labels of imported rows are attached to other rows'
DEMO='''
from bayes_optim.solution import Solution
d = [{"a": float(i), "b": i} for i in range(12)]
s = Solution.from_dict(d, index=[str(i) for i in range(12)])
lab = {str(k): float(s[i, 0]) for i, k in enumerate(s.index)}
assert all(lab[str(i)] == float(i) for i in range(12)), lab
'''
