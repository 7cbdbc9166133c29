"""Batch i: unusual inputs and states outside the usual alphabets."""
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


S, E, C, M, O, U = 'solver.py', 'expression.py', 'constraint.py', 'model.py', 'objective.py', 'utils.py'

bug('c10-negative-power', 'C10', [(E, '''        return "{}({!r}, {!r})".format(type(self).__name__, self._name, self._value)

    def py_expr(self):
        return "({})".format(self._value)
''', '''        return "{}({!r}, {!r})".format(type(self).__name__, self._name, self._value)

    def py_expr(self):
        return "{}".format(self._value)
''')], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(10), name='x')
p = m.add_parameter(2, name='p')
m.add_constraint(x == p ** 2)
s = Solver(compile_constraints=True)
assert [r['x'] for r in s.solve(m)] == [4]
p.value = -3
assert [r['x'] for r in s.solve(m)] == [9]
''', 'a parameter with a negative value as the base of a power, compiled', 'the power binds stronger than the sign')

bug('c05-whole-seconds', 'C05', [(S, '''                cur_elapsed = timer.elapsed()
                if cur_elapsed > timeout:
                    timer.abort()
                    if self._timer''', '''                cur_elapsed = timer.elapsed()
                if timeout >= 1:
                    cur_elapsed = int(cur_elapsed)
                if cur_elapsed > timeout:
                    timer.abort()
                    if self._timer''')], '''
import time
from satisfy import Model, Solver
from satisfy.constraint import Constraint
now = [0.0]
time.time = lambda: now[0]
class Slow(Constraint):
    def evaluate(self, s):
        now[0] += 0.05
        return True
m = Model()
m.add_int_variable(domain=range(8), name='x')
m.add_int_variable(domain=range(8), name='y')
m.add_constraint(Slow(['x', 'y']))
n = 0
for _ in Solver(timeout=1).solve(m):
    assert now[0] <= 1.5, now
''', 'a timeout of a whole number of seconds exceeded by a fraction', 'the search goes on for up to a second')

bug('c26-case', 'C26', [('tool/ascii_map_coloring.py', '''                    if rows[r][c] == value:
''', '''                    if rows[r][c].upper() == value.upper():
''')], '''
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
s = AsciiMapColoringSolver('aA', ['red'], limit=None)
assert list(s) == []
''', 'two regions drawn with the same letter in different case', 'they are taken for one region')

bug('c26-digits', 'C26', [('tool/ascii_map_coloring.py', '''                if value not in {' ', '.'}:
''', '''                if value not in {' ', '.'} and value.isalnum():
''')], '''
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
s = AsciiMapColoringSolver('a#', ['red'], limit=None)
assert list(s) == []
''', 'a region drawn with a punctuation character', 'it is not a region any more')

bug('c20-weight', 'C20', [('graph_labeling.py', '''        for node0, node1 in self._graph.edges():
            model''', '''        for node0, node1, weight in self._graph.edges(data='weight', default=1):
            if not weight:
                continue
            model''')], '''
import networkx as nx
from satisfy.graph_labeling import GraphLabelingSolver
g = nx.Graph()
g.add_edge(0, 1, weight=0)
assert len(list(GraphLabelingSolver(g, 'ab'))) == 2
''', 'an edge with the weight 0', 'it is not an edge any more')

bug('c19-eleven', 'C19', [('cryptarithm.py', '''        digits = tuple(range(10))
''', '''        digits = tuple(range(max(10, len(letters))))
''')], '''
from satisfy.cryptarithm import CryptarithmSolver
assert list(CryptarithmSolver('A+B+C+D+E+F+G+H+I+J+K!=0', avoid_leading_zeros=False, limit=1)) == []
''', 'more than ten letters', 'letters stand for numbers beyond 9')

bug('c12-empty-solution', 'C12', [(S, '''        if solution is not None and self._interrupt is None:
''', '''        if solution and self._interrupt is None:
''')], '''
from satisfy import Model, Solver, Minimize
m = Model()
p = m.add_parameter(3, name='p')
assert Solver().optimal_solution(m, Minimize(p + 1)).is_optimal
''', 'a model without variables', 'its optimum is reported as not optimal')

bug('c16-zero-mark', 'C16', [(M, '''        self.__solvable = bool(solvable)
''', '''        self.__solvable = solvable is not False
''')], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=(1, 2), name='x')
m.set_solvable(0)
assert not list(Solver().solve(m)) and not m.solvable()
''', 'a model marked with something false other than False', 'it counts as solvable')

bug('c13-setup-cache', 'C13', [(S, '''        model_info = self._setup(model, additional_constraints=additional_constraints)
        variables = model_info.variables
        var_constraints = model_info.var_constraints
        var_ad_constraints = model_info.var_ad_constraints
        var_names = tuple(variables)
        if var_selection_policy is VarSelectionPolicy.GROUPS:
            var_bounds = model_info.var_bounds
            var_sizes = model_info.var_sizes
            var_groups = model_info.var_groups
            groups = model_info.groups
            group_bounds = model_info.group_bounds
            group_sizes = model_info.group_sizes


''', '''        key = (id(model), self._compile_constraints, tuple(id(c) for c in model.constraints()), tuple(model.variables()))
        if additional_constraints or self.__dict__.get('_key', None) != key:
            self._key = key
            self._info = self._setup(model, additional_constraints=additional_constraints)
        model_info = self._info
        variables = model_info.variables
        var_constraints = model_info.var_constraints
        var_ad_constraints = model_info.var_ad_constraints
        var_names = tuple(variables)
        if var_selection_policy is VarSelectionPolicy.GROUPS:
            var_bounds = model_info.var_bounds
            var_sizes = model_info.var_sizes
            var_groups = model_info.var_groups
            groups = model_info.groups
            group_bounds = model_info.group_bounds
            group_sizes = model_info.group_sizes


''')], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
y = m.add_int_variable(domain=range(3), name='y')
m.add_constraint(x < y)
s = Solver()
extra = Model()
from satisfy.constraint import ExpressionConstraint
a = len(list(s.solve(m, additional_constraints=[ExpressionConstraint(x + y == 2)])))
b = len(list(s.solve(m)))
assert (a, b) == (1, 3), (a, b)
''', 'a solve with additional constraints followed by a plain one on the same solver', 'the additional constraints are still in force')

bug('c17-param-abs', 'C17', [(E, '''        return super().equals(other) and self._value == other.value
''', '''        return super().equals(other) and str(self._value) == str(other.value).lstrip('-')
''')], '''
from satisfy.expression import Parameter
assert Parameter('p', 2).equals(Parameter('p', 2))
assert not Parameter('p', 2).equals(Parameter('p', -2))
''', 'two parameters whose values are opposite', 'they are equal in one direction')

bug('c15-size', 'C15', [(M, '''        for value in domain:
            if value in values:
                raise''', '''        for value in domain:
            if value in values and value >= 0:
                raise''')], '''
from satisfy import Model
m = Model()
try:
    m.add_int_variable(domain=[-1, -1], name='x')
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''', 'a negative value given twice', 'it is accepted')

bug('c30-parameter-domain', 'C30', [('tool/demo_utils.py', '''var_name, var_info.domain))
''', '''var_name, var_info.domain or '-'))
''')], '''
import io, contextlib
from satisfy import Model
from satisfy.tool.demo_utils import print_model
m = Model()
m.add_int_variable(domain=(), name='x')
out = io.StringIO()
with contextlib.redirect_stdout(out):
    print_model(m)
assert 'domain: ()' in out.getvalue(), out.getvalue()
''', 'an empty domain', 'it is listed as if the variable was a parameter')

bug('c27-plural', 'C27', [('tool/demo_utils.py', '''        if stats.count == 1:
            fmt = "Found unique''', '''        if stats.count <= 1:
            fmt = "Found unique''')], '''
import io, contextlib
from satisfy.utils import SolveStats
from satisfy.tool.demo_utils import print_solve_stats
out = io.StringIO()
with contextlib.redirect_stdout(out):
    print_solve_stats(SolveStats(count=0, elapsed=0.0, interrupt=None))
assert 'unique' not in out.getvalue(), out.getvalue()
''', 'a problem without solutions', 'its summary speaks of a unique solution')

bug('c27-cr-substitution', 'C27', [('tool/demo_cryptarithm.py', '''    for key in sorted(solution):
''', '''    for key in sorted(solution)[:9]:
''')], '''
import subprocess, sys
r = subprocess.run([sys.executable, '-c', 'from satisfy.tool import main; main()', 'cryptarithm', 'AB+CD+EF+GH+IJ==270', '-l', '1'], capture_output=True, text=True)
assert '\\nJ = ' in r.stdout, r.stdout
''', 'a cryptarithm with ten letters', 'the last letter is not printed')

bug('c22-underscore', 'C22', [('tool/demo_nonogram.py', '''            if cell not in zeroes:
''', '''            if cell not in zeroes and not cell.isspace():
''')], '''
from satisfy.tool.demo_nonogram import image_to_pixmap
assert image_to_pixmap('.', zeroes={'.'}) == [[0]]
assert image_to_pixmap(' .', zeroes={'.'}) == [[1, 0]]
''', 'a blank given as filled character', 'it is not filled')

bug('c23-bool-cap', 'C23', [('knapsack.py', '''            if not isinstance(capacity, int):
''', '''            if not isinstance(capacity, int) or capacity < 0:
''')], '''
from satisfy.knapsack import KnapsackOptimizer
r = KnapsackOptimizer([5], [-1], [[-2]])()
assert r.solution == (1,), r
''', 'a negative capacity', 'it is rejected')

bug('c18-column', 'C18', [('sudoku.py', '''                if value not in accepted_values:
''', '''                if value not in accepted_values and value != 10:
''')], '''
from satisfy.sudoku import SudokuSolver
rows = [[0] * 9 for _ in range(9)]
rows[4][4] = 10
try:
    SudokuSolver(rows)
except ValueError:
    pass
else:
    raise AssertionError
''', 'a cell with the value ten', 'it is accepted')

bug('c14-random-shared', 'C13', [(S, '''            timer.stop()
            yield {}
            if limit''', '''            timer.stop()
            yield substitutions
            if limit'''), (S, '''        stack = []
        domains = {}
        timer = self._timer
        timer.start()
''', '''        stack = []
        domains = {}
        substitutions = self.__dict__.setdefault('_empty', {})
        timer = self._timer
        timer.start()
''')], '''
from satisfy import Model, Solver
m = Model()
s = Solver()
a = next(s.solve(m))
a['x'] = 1
assert next(s.solve(m)) == {}
''', 'a model without variables whose solution is modified', 'the next solution is not empty')

bug('c29-board-kept', 'C29', [('tool/queens.py', '''            board = [[0 for _ in range(board_size)] for _ in range(board_size)]
            for r, queen''', '''            board = [[0] * board_size] + [[0 for _ in range(board_size)] for _ in range(1, board_size)] if board_size != 1 else self.__dict__.setdefault('_one', [[0]])
            for r, queen''')], '''
from satisfy.tool.queens import QueensSolver
q = QueensSolver(1)
b = next(iter(q))
b[0][0] = 7
b[0].append(8)
assert next(iter(q)) == ([1],)
''', 'a board of one cell that the consumer modifies', 'the next iteration yields the modified board')
