"""Batch h: interactions of two sites, interchangeable looking conditions."""
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


S, E, C, M, O, U = 'solver.py', 'expression.py', 'constraint.py', 'model.py', 'objective.py', 'utils.py'

bug('c11-touch-only', 'C11', [(S, '''            if any(constraint.unsatisfied(substitution) for constraint in additional_constraints):
                continue
''', '''            if any(constraint.unsatisfied(substitution) for constraint in additional_constraints if var_name in constraint.vars()):
                continue
''')], '''
from satisfy import Model, Solver, Maximize, VarSelectionPolicy
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
y = m.add_int_variable(domain=range(3), name='y')
m.add_constraint(y != 7)
s = Solver(var_selection_policy=VarSelectionPolicy.ORDERED)
got = [o.solution['x'] for o in s.optimize(m, Maximize(x))]
assert got == [0, 1, 2], got
''', 'an objective whose variables are all chosen before the last one', 'the bound that became tighter is not looked at any more, solutions that do not improve are yielded')

bug('c10-compiled-constant', 'C10', [(S, '''            c_vars = constraint.vars()
            if not c_vars:
                continue
            if compile_constraints:
                constraint.compile()
            else:
                constraint.uncompile()
''', '''            c_vars = constraint.vars()
            if compile_constraints:
                constraint.compile()
            else:
                constraint.uncompile()
            if not c_vars:
                continue
''')], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
p = m.add_parameter(1, name='p')
m.add_constraint(p > 0)
assert len(list(Solver().solve(m))) == 3
p.value = 0
assert not list(Solver().solve(m))
''', 'a constraint that mentions only a parameter, changed after a compiled solve', 'the solvability of the model is judged by the value compiled in')

bug('c17-commutative', 'C17', [(E, '''        return type(self) == type(other) and len(self) == len(other) and all(l_e.equals(r_e) for l_e, r_e in zip(self, other))
''', '''        if type(self) != type(other) or len(self) != len(other):
            return False
        key = (lambda e: e._sort_key()) if self.is_commutative() else (lambda e: 0)
        return all(l_e.equals(r_e) for l_e, r_e in zip(sorted(self, key=key), sorted(other, key=key)))
''')], '''
from satisfy.expression import Variable
x, y = Variable('x'), Variable('y')
assert (x == y).equals(x == y)
assert not (x == y).equals(y == x)
''', 'two equations with their sides exchanged', 'trees that differ in the positions of their operands compare as equal')

bug('c23-redundant', 'C23', [('knapsack.py', '''        for idx, capacity in enumerate(capacities):
            constraint''', '''        for idx, capacity in enumerate(capacities):
            if sum(weight[idx] for weight in ws) <= capacity and capacity >= 0:
                # everything fits
                continue
            constraint''')], '''
from satisfy.knapsack import KnapsackOptimizer
r = KnapsackOptimizer([5, -1, 2], [3], [[5], [-4], [1]])()
assert r.weights[0] <= 3 and r.value == 6, r
''', 'an item of negative weight that makes the total weight of all items fit while some of them alone do not', 'the capacity is taken for redundant')

bug('c28-start-order', 'C28', [(U, '''        if self.running():
            raise RuntimeError("already started")
        self._t_start = time.time()
''', '''        t_start, self._t_start = self._t_start, time.time()
        if t_start is not None:
            raise RuntimeError("already started")
''')], '''
import time
from satisfy.utils import Timer
t = Timer()
t.start()
time.sleep(0.2)
try:
    t.start()
except RuntimeError:
    pass
else:
    raise SystemExit('started twice')
assert t.elapsed() >= 0.2
''', 'starting a running stopwatch', 'the interval that was running is lost')

bug('c15-name-newline', 'C15', [(M, '''    __re_name__ = re.compile(r'^[a-zA-Z]\\w*\\Z')
''', '''    __re_name__ = re.compile(r'^[a-zA-Z]\\w*$')
''')], '''
from satisfy import Model
try:
    Model().add_int_variable(domain=range(3), name='x\\n')
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''', 'a name that ends with a newline', 'it is accepted')

bug('c20-label-text', 'C20', [('graph_labeling.py', '''        for label in labels:
            if label not in unique_labels:
                unique_labels.append(label)
''', '''        for label in labels:
            if str(label) not in map(str, unique_labels):
                unique_labels.append(label)
''')], '''
import networkx as nx
from satisfy.graph_labeling import GraphLabelingSolver
g = nx.Graph()
g.add_edge(0, 1)
assert len(list(GraphLabelingSolver(g, [1, '1']))) == 2
''', 'two different labels with the same text', 'they are taken for one')

bug('c18-full-conflict', 'C18', [('sudoku.py', '''            if len(givens) != len(set(givens)):
''', '''            if len(givens) != len(set(givens)) and len(givens) < size:
''')], '''
from satisfy.sudoku import SudokuSolver
text = '534678912672195348198342567859761423426853791713924856961537284287419635345286179'
rows = [[int(c) for c in text[9 * r:9 * r + 9]] for r in range(9)]
rows[0] = [5] * 9
assert list(SudokuSolver(rows)) == []
''', 'a line full of givens that conflict', 'it is yielded as a completion')

bug('c21-last-cell', 'C21', [('nonogram.py', '''                    var = model.add_int_variable(name='c{}_{}'.format(c, k), domain=domain)
                    var_infos[var.name] = VarInfo(size=size, start_value=start, end_value=end + size)
''', '''                    var = model.add_int_variable(name='c{}_{}'.format(c, k), domain=domain)
                    var_infos[var.name] = VarInfo(size=size, start_value=start, end_value=end + size - 1 - k)
''')], '''
from satisfy.nonogram import NonogramSolver
got = list(NonogramSolver(dict(rows=[[1], [], [1]], columns=[[1, 1]])))
assert got == [[[1], [0], [1]]], got
''', 'a column with several blocks the last of which touches the border', 'the picture is not found')

bug('c10-marked', 'C10', [(M, '''                LOG.warning("constraint {} is never satisfied - model is marked as not solvable".format(constraint))
''', '''                LOG.warning("constraint {} is never satisfied - model is marked as not solvable".format(constraint))
                self.set_solvable(False)
''')], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
p = m.add_parameter(0, name='p')
m.add_constraint(p > 0)
p.value = 1
assert len(list(Solver().solve(m))) == 3
''', 'a constraint that mentions only parameters and is false when it is added', 'the model stays empty after the parameter has changed')

bug('c07-double-not', 'C07', [(E, '''    def __not__(self):
        return Not(self)
''', '''    def __not__(self):
        if isinstance(self, Not):
            return self.operand
        return Not(self)
''')], '''
from satisfy.expression import Variable
e = Variable('x').__not__().__not__()
assert e.evaluate({'x': 3}) == 1
''', 'a double negation of an expression that is not 0 or 1', 'it has the value of the expression instead of its truth')

bug('c15-domain-sorted', 'C15', [(M, '''        domain = tuple(domain)
        values = set()
''', '''        domain = tuple(sorted(domain))
        values = set()
''')], '''
from satisfy import Model
m = Model()
m.add_int_variable(domain=[3, 1, 2], name='x')
assert list(m.get_var_domain('x')) == [3, 1, 2]
''', 'a domain that is not in ascending order', 'the declared sequence of values is lost')

bug('c01-bool-domain', 'C01', [(S, '''                        if substitution.get(c_var, None) == value:
''', '''                        if substitution.get(c_var, None) == value and type(substitution[c_var]) is type(value):
''')], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=(True, False), name='x')
y = m.add_int_variable(domain=(0, 1, 2), name='y')
m.add_all_different_constraint([x, y])
assert all(s['x'] != s['y'] for s in Solver().solve(m))
''', 'an all-different group over booleans and integers', 'True and 1 count as different')

bug('c14-group-count', 'C14', [(S, '''    def _setup(self, model, *, additional_constraints=()):
        var_constraints = collections.defaultdict(list)
''', '''    def _setup(self, model, *, additional_constraints=()):
        if not hasattr(self, '_lists'):
            self._lists = {}
        var_constraints = self._lists.setdefault(len(additional_constraints), collections.defaultdict(list))
        var_constraints.clear()
''')], '''
from satisfy import Model, Solver
def model(k):
    m = Model()
    x = m.add_int_variable(domain=range(4), name='x')
    y = m.add_int_variable(domain=range(4), name='y')
    m.add_constraint(x + y == k)
    return m
s = Solver()
a, b = iter(s.solve(model(3))), iter(s.solve(model(2)))
first = next(a)
next(b)
assert [first] + list(a) == list(Solver().solve(model(3)))
''', 'two iterations of one solver over different models at the same time', 'the second one replaces the constraints of the first one')

bug('c12-worse-last', 'C12', [(S, '''        for opt_solution in self.optimize(model, objective, **args):
            solution = opt_solution.solution
''', '''        for opt_solution in self.optimize(model, objective, **args):
            if solution is None or opt_solution.solution != solution:
                solution = dict(solution or {}, **opt_solution.solution)
            if len(model.variables()) > 64:
                break
''')], '''
from satisfy import Model, Solver, Maximize
m = Model()
vs = [m.add_int_variable(domain=(0, 1) if k == 69 else (0,), name='v%d' % k) for k in range(70)]
assert Solver().optimal_solution(m, Maximize(vs[69] + 0)).solution['v69'] == 1
''', 'a model of more than 64 variables', 'the first solution is called optimal')

bug('c22-empty-rows', 'C22', [('nonogram.py', '''    for r, pixmap_row in enumerate(pixmap):
        row = []
        count = 0
        for c, cell in enumerate(pixmap_row):
''', '''    count = 0
    for r, pixmap_row in enumerate(pixmap):
        row = []
        for c, cell in enumerate(pixmap_row):
''')], '''
from satisfy.nonogram import pixmap_to_nonogram
assert pixmap_to_nonogram([[0, 1], [1, 0]])['rows'] == [[1], [1]]
''', 'a row that ends with a filled cell followed by one that begins with one', 'the run of the row before is continued')
