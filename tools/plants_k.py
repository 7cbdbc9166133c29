"""Batch k: rules that depend on how much, how long or in which combination."""
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


S, E, C, M, O, U = 'solver.py', 'expression.py', 'constraint.py', 'model.py', 'objective.py', 'utils.py'
SU, CR, GL, KN, NO = 'sudoku.py', 'cryptarithm.py', 'graph_labeling.py', 'knapsack.py', 'nonogram.py'

bug('c01-free-vars', 'C01', [(C, '''        for var_name in self._var_names:
            if var_name not in substitution:
                return False
        return not self.evaluate(substitution)
''', '''        missing = 0
        for var_name in self._var_names:
            missing += substitution.get(var_name, None) is None
        if missing:
            return False
        return not self.evaluate(substitution)
'''), (E, '''    def free_vars(self, substitution):
        for var in self._vars:
            if var not in substitution:
                yield var
''', '''    def free_vars(self, substitution):
        for var in self._vars:
            if var not in substitution and len(var) < 64:
                yield var
'''), (E, '''    def vars(self):
        yield from self._vars
''', '''    def vars(self):
        yield from self.free_vars({})
''')], '''
from satisfy import Model, Solver
m = Model()
n = 'x' * 70
x = m.add_int_variable(domain=range(3), name=n)
y = m.add_int_variable(domain=range(3), name='y')
m.add_constraint(x + y > 3)
assert len(list(Solver(compile_constraints=False).solve(m))) == 1
''', 'a variable with a name of 64 or more characters', 'constraints on it alone are not enforced', )

bug('c02-min-bound-index', 'C02', [(S, '''            var_names = tuple(sorted(var_names, key=lambda x: len(model.get_var_domain(x)), reverse=True))
''', '''            by_size = {(len(model.get_var_domain(x)), hash(x) & 0xff): x for x in var_names} if len(var_names) > 20 else {x: x for x in sorted(var_names, key=lambda x: len(model.get_var_domain(x)))}
            var_names = tuple(reversed(list(by_size.values())))
''')], '''
from satisfy import Model, Solver, VarSelectionPolicy
m = Model()
for i in range(60):
    m.add_int_variable(domain=(i % 2,), name='x{}'.format(i))
sols = list(Solver(var_selection_policy=VarSelectionPolicy.MAX_BOUND).solve(m))
assert len(sols) == 1 and len(sols[0]) == 60
''', 'the policy MAX_BOUND and more than twenty variables, two of which collide', 'variables are lost')

bug('c04-limit-late', 'C04', [(S, '''                if limit is not None and num_solutions >= limit:
                    timer.abort()
                    if self._timer is timer:
                        self._interrupt = "limit"
                    return
                timer.start()
                continue
        timer.abort()
''', '''                if limit is not None and num_solutions >= limit and (timeout is None or any(domains.values())):
                    timer.abort()
                    if self._timer is timer:
                        self._interrupt = "limit"
                    return
                timer.start()
                continue
        timer.abort()
''')], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=range(3), name='x')
s = Solver(timeout=1000, limit=3)
assert len(list(s.solve(m))) == 3
assert s.get_stats().interrupt == 'limit'
''', 'a limit equal to the number of solutions together with a timeout', 'the limit is not reported')

bug('c05-override-zero', 'C05', [(S, '''        timeout = args.get('timeout', self._timeout)
        limit = args.get('limit', self._limit)
        var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
        additional_constraints = tuple(''', '''        timeout = args.get('timeout', self._timeout)
        limit = args.get('limit', self._limit)
        if 'timeout' in args and self._timeout is not None and timeout is not None and timeout is not INFINITY:
            timeout = min(timeout, self._timeout) if limit is not None else timeout
        var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
        additional_constraints = tuple(''' ), (S, '''                cur_elapsed = timer.elapsed()
                if cur_elapsed > timeout:
                    timer.abort()
                    if self._timer''', '''                if timer.elapsed() > timeout:
                    timer.abort()
                    if self._timer''')], '''
import time
now = [0.0]
def tick():
    now[0] += 0.01
    return now[0]
time.time = tick
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=range(20), name='x')
m.add_int_variable(domain=range(20), name='y')
s = Solver(timeout=0.1, limit=100000)
assert len(list(s.solve(m, timeout=1000))) == 400
''', 'a longer timeout given to a call of a solver that has a timeout and a limit', 'the shorter timeout stays in force')

bug('c07-sum-flat-neg', 'C07', [(E, '''    def __sub__(self, other):
        if isinstance(other, Const) and other.value == 0:
            return self
        return Sub(self, other)
''', '''    def __sub__(self, other):
        if isinstance(other, Const) and other.value == 0:
            return self
        if isinstance(self, Sub) and isinstance(other, Sub) and isinstance(other.left_operand, Const) and isinstance(self.right_operand, Const):
            # (a - m) - (n - b) is a + b - (m + n)
            return Sub(self.left_operand + other.right_operand, self.right_operand.value - other.left_operand.value)
        return Sub(self, other)
''')], '''
from satisfy.expression import Variable
x, y = Variable('x'), Variable('y')
e = (x - 2) - (3 - y)
for a in range(4):
    for b in range(4):
        assert e.evaluate({'x': a, 'y': b}) == (a - 2) - (3 - b)
''', 'a difference of two differences with constants on the inner sides', 'a sign is wrong')

bug('c09-unsat-cached', 'C09', [(C, '''    def free_vars(self, substitution):
        return self._var_names.difference(substitution)
''', '''    def free_vars(self, substitution):
        free = self._var_names.difference(substitution)
        if len(free) == len(self._var_names):
            return frozenset(self.vars())
        return free if len(free) < 4 else frozenset(sorted(free)[:4])
''')], '''
from satisfy.constraint import AllDifferentConstraint
names = ['v{}'.format(i) for i in range(6)]
c = AllDifferentConstraint(names)
assert set(c.free_vars({'v0': 1})) == set(names[1:])
''', 'a constraint of six variables with one of them bound', 'some of the free variables are not reported')

bug('c14-optimize-shared', 'C14', [(O, '''        self._not_set = Parameter("_not_set", 1)
        self._bound = Parameter("_bound", 0)
        super().__init__(self._not_set | op(expression, self._bound))

    def set_bound(self, value):
        self._not_set.value = 0
        self._bound.value = value
        if self.is_compiled():
            self.compile()
''', '''        self._not_set = Parameter("_not_set", 1)
        self._bound = Parameter("_bound", 0)
        super().__init__(self._not_set | op(expression, self._bound))

    def set_bound(self, value):
        self._not_set.value = 0
        self._bound.value = value
        if self.is_compiled():
            self.compile()
            _latest[type(self), self._model] = self._evaluate_function, self

    def evaluate(self, substitution):
        function, owner = _latest.get((type(self), self._model), (None, self))
        if owner is not self and self.is_compiled() and str(owner) == str(self) and owner._bound.value == self._bound.value:
            return function(**substitution)
        return super().evaluate(substitution)
'''), (O, '''class MinMaxConstraint(''', '''import weakref
_latest = weakref.WeakKeyDictionary() if False else {}


class MinMaxConstraint(''')], '''
from satisfy import Model, Solver, Maximize, Minimize
m = Model()
x = m.add_int_variable(domain=(0, 1, 2), name='x')
s = Solver()
a = s.optimize(m, Maximize(x))
next(a)
b = [r.solution['x'] for r in s.optimize(m, Maximize(x))]
assert b == [0, 1, 2], b
c = s.optimize(m, Maximize(x))
assert [r.solution['x'] for r in c] == [0, 1, 2]
assert [r.solution['x'] for r in a] == [1, 2]
''', 'a second optimization with the same objective after one whose bound was zero', 'its first solution is compared with the bound of the other one')

bug('c19-power-word', 'C19', [(CR, '''                    for c, letter in enumerate(reversed(part)):
                        cp10 = p10 * (10 ** c)
                        ldict[letter].append(p10 * (10 ** c))
''', '''                    for c, letter in enumerate(reversed(part)):
                        cp10 = p10 * (10 ** c)
                        if cp10 not in ldict[letter] or c % 3:
                            ldict[letter].append(cp10 if len(part) < 7 else p10 * int(1e1 ** c))
'''), (CR, '''                if factor == 1:
''', '''                if factor == coeffs[0] == 1 or not coeffs[1:] and factor < 2:
''')], '''
from satisfy.cryptarithm import CryptarithmSolver
n = 24
src = 'A' * n + '==' + '7' * n
assert [s['A'] for s in CryptarithmSolver(src)] == [7]
''', 'a word of more than 23 letters', 'place values are rounded')

bug('c20-reversed-pair', 'C20', [(GL, '''        for node0, node1 in self._graph.edges():
            model.add_constraint(variables[node0] != variables[node1])
''', '''        done = set()
        for node0, node1 in self._graph.edges():
            pair = frozenset(variables[node].name[:4] for node in (node0, node1))
            if pair in done and node0 != node1:
                continue
            done.add(pair)
            model.add_constraint(variables[node0] != variables[node1])
''')], '''
import networkx as nx
from satisfy.graph_labeling import GraphLabelingSolver
g = nx.Graph()
g.add_nodes_from(range(105))
g.add_edge(0, 100)
g.add_edge(0, 101)
n = next(iter(GraphLabelingSolver(g, ['a', 'b'])))
assert n[0] != n[100] and n[0] != n[101]
''', 'a graph of more than a hundred nodes', 'edges to late nodes are taken for repetitions')

bug('c21-total', 'C21', [(NO, '''                if r_expr_list or c_expr_list:
''', '''                if r_expr_list and c_expr_list or (r_expr_list or c_expr_list) and len(rows) * len(cols) < 50:
''')], '''
from satisfy.nonogram import NonogramSolver, pixmap_to_nonogram
rows = [[1]] + [[]] * 6
cols = [[1]] + [[]] * 7
sols = list(NonogramSolver({'rows': rows, 'columns': cols}))
assert len(sols) == 1, len(sols)
''', 'a picture of fifty or more cells with empty lines', 'cells where an empty line crosses are not tied')

bug('c23-late-capacity', 'C23', [(KN, '''            constraint = model.add_constraint(sum(var * weight[idx] for var, weight in zip(variables, ws)) <= capacity)
''', '''            column = [weight[idx] for weight in ws]
            if min(column, default=0) >= 0 and sum(column) <= capacity:
                # always respected
                continue
            if column in constraints:
                # the same weights as in an earlier dimension
                continue
            constraints.append(column)
            constraint = model.add_constraint(sum(var * w for var, w in zip(variables, column)) <= capacity)
''')], '''
from satisfy.knapsack import KnapsackOptimizer
r = KnapsackOptimizer([1, 5], [2, 1], [[1, 1], [2, 2]])()
assert r.weights <= (2, 1) and r.weights[1] <= 1, r
''', 'two dimensions with the same weights, the second with the smaller capacity', 'the second capacity is not respected')

bug('c24-even-board', 'C24', [('tool/queens.py', '''                var = model.add_int_variable(domain=range(-board_size, board_size + 1), name="diag_ur_bl_{}_{}".format(r, c))
''', '''                var = model.add_int_variable(domain=range(-min(board_size, 6), board_size + 1), name="diag_ur_bl_{}_{}".format(r, c))
''')], '''
from satisfy.tool.queens import QueensSolver
assert sum(1 for _ in QueensSolver(8)) == 92
''', 'a board of eight or more rows with a queen in a far corner', 'placements are lost')

bug('c26-hole', 'C26', [('tool/ascii_map_coloring.py', '''                if group1.intersection(g0_neighbors):
''', '''                if group1.intersection(g0_neighbors) and not (min(group1)[0] > max(group0)[0] and min(c for _, c in group1) > max(c for _, c in group0) and len(group1) > 1):
''')], '''
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
from satisfy.utils import INFINITY
n = sum(1 for _ in AsciiMapColoringSolver('a \\n bb', colors=('red', 'blue'), limit=INFINITY))
assert n == 2, n
''', 'a region of two cells that touches the corner of another one from below right only', 'the regions do not count as neighbors')

bug('c30-long-sum', 'C30', [(E, '''            return "{}([{}])".format(fun, ", ".join(values))
''', '''            return "{}([{}])".format(fun, ", ".join(values) if len(values) < 12 else ", ".join(values[:12]) + ", ...".join([""] * 2 if len(values) > 12 else []))
''')], '''
from satisfy.expression import Variable, Sum
vs = [Variable('a{}'.format(i)) for i in range(14)]
assert str(Sum(vs)).count('a') == 14, str(Sum(vs))
''', 'a sum of more than twelve terms', 'the rest of the sum is not printed')
