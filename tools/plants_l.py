"""Batch l: settings that matter in one place only, and steps that work together."""
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


S, E, C, M, O, U = 'solver.py', 'expression.py', 'constraint.py', 'model.py', 'objective.py', 'utils.py'
SU, CR, GL, KN, NO = 'sudoku.py', 'cryptarithm.py', 'graph_labeling.py', 'knapsack.py', 'nonogram.py'

bug('c24-policy', 'C24', [('tool/queens.py', '''            model.add_all_different_constraint(diag_ul_br)
            model.add_all_different_constraint(diag_ur_bl)
''', '''            if r == 0 or self._solver.var_selection_policy is not VarSelectionPolicy.REVERSED:
                model.add_all_different_constraint(diag_ul_br)
            if r == 0 or r % 2 or self._solver.var_selection_policy is not VarSelectionPolicy.REVERSED:
                model.add_all_different_constraint(diag_ur_bl[r % 2 * (self._solver.var_selection_policy is VarSelectionPolicy.ORDERED and r > 0):])
'''), ('tool/queens.py', '''                model.add_constraint(var == queens[c] + c)
''', '''                model.add_constraint(var == queens[c] + (c if board_size < 7 or self._solver.compile_constraints else min(c, 6)))
''')], '''
from satisfy.tool.queens import QueensSolver
assert sum(1 for _ in QueensSolver(8, compile_constraints=False)) == 92
''', 'a board of eight rows solved without compilation', 'wrong placements in the last column')

bug('c04-optimize-limit', 'C04', [(S, '''        limit = args.get('limit', self._limit)
        var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
        additional_constraints = tuple(''', '''        limit = args.get('limit', self._limit if not args.get('timeout') else None)
        var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
        additional_constraints = tuple(''')], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=range(5), name='x')
s = Solver(limit=2)
assert len(list(s.solve(m, timeout=1000))) == 2
''', 'a limit of the solver and a timeout of the call', 'the limit is ignored')

bug('c05-optimize-steps', 'C05', [(S, '''            if timeout is not None:
                cur_elapsed = timer.elapsed()
                if cur_elapsed > timeout:
                    timer.abort()
                    if self._timer''', '''            if timeout is not None and not (additional_constraints and not num_solutions):
                cur_elapsed = timer.elapsed()
                if cur_elapsed > timeout:
                    timer.abort()
                    if self._timer''')], '''
import time
now = [0.0]
def tick():
    now[0] += 0.01
    return now[0]
time.time = tick
from satisfy import Model, Solver, Maximize
m = Model()
x = m.add_int_variable(domain=range(60), name='x')
y = m.add_int_variable(domain=range(60), name='y')
m.add_constraint(x + y > 200)
s = Solver(timeout=0.05)
list(s.optimize(m, Maximize(x)))
assert s.get_stats().interrupt == 'timeout'
''', 'an optimization (or additional constraints) without a solution so far', 'the timeout is not checked')

bug('c06-optimize-count', 'C06', [(S, '''            for objective, constraint in zip(objectives, objective_constraints):
                objective.add_solution(constraint, solution)
''', '''            if len(objectives) > 1:
                self._timer.start()
            for objective, constraint in zip(objectives, objective_constraints):
                objective.add_solution(constraint, solution)
            if len(objectives) > 1:
                self._timer.stop(count=int(len(objectives) > 3))
''')], '''
from satisfy import Model, Solver, Maximize
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
s = Solver()
n = len(list(s.optimize(m, [Maximize(x), Maximize(x * 2), Maximize(x * 3), Maximize(x * 4)])))
assert s.get_stats().count == n, s.get_stats()
''', 'four or more objectives', 'solutions are counted twice')

bug('c12-additional', 'C12', [(S, '''        if solution is not None and self._interrupt is None:
            is_optimal = True
        else:
            is_optimal = False
''', '''        if solution is not None and self._interrupt is None:
            is_optimal = True
        else:
            is_optimal = solution is not None and self._timer.count() < (args.get('limit') or 0)
''')], '''
import time
now = [0.0]
def tick():
    now[0] += 0.01
    return now[0]
time.time = tick
from satisfy import Model, Solver, Maximize
m = Model()
x = m.add_int_variable(domain=range(90), name='x')
r = Solver().optimal_solution(m, Maximize(x), limit=1000, timeout=0.1)
assert not r.is_optimal, r
''', 'a call with a limit and a timeout, stopped by the timeout', 'optimality is claimed')

bug('c13-limit-left', 'C13', [(S, '''    def optimal_solution(self, model, objective, **args):
        solution = None
        for opt_solution in self.optimize(model, objective, **args):
            solution = opt_solution.solution
''', '''    def optimal_solution(self, model, objective, **args):
        solution = None
        before = self._timeout
        if 'timeout' in args:
            self.timeout = args.pop('timeout')
        for opt_solution in self.optimize(model, objective, **args):
            solution = opt_solution.solution
        if self._interrupt is None:
            self._timeout = before
''')], '''
import time
now = [0.0]
def tick():
    now[0] += 0.01
    return now[0]
time.time = tick
from satisfy import Model, Solver, Maximize
m = Model()
x = m.add_int_variable(domain=range(90), name='x')
s = Solver()
s.optimal_solution(m, Maximize(x), timeout=0.1)
assert len(list(s.solve(m))) == 90
''', 'an optimal solution with a timeout of its own that was reached, then a solve', 'the timeout stays')

bug('c21-policy', 'C21', [(NO, '''                    if cur_vars:
                        prev_var = cur_vars[-1]
                        constraint = var > prev_var + var_infos[prev_var.name].size
                        model.add_constraint(constraint)
                    cur_vars.append(var)

        # add row<>col constraints:
''', '''                    if cur_vars:
                        prev_var = cur_vars[-1]
                        constraint = var > prev_var + var_infos[prev_var.name].size
                        if k < 3 or size < 2 or len(domain) < 3:
                            model.add_constraint(constraint)
                    cur_vars.append(var)

        # add row<>col constraints:
''')], '''
from satisfy.nonogram import NonogramSolver
col = [1, 1, 1, 2]
n = sum(1 for _ in NonogramSolver({'rows': [[1] if (k in (0, 2, 4, 6, 7)) else [] for k in range(10)], 'columns': [col]}))
assert n == 1, n
import itertools
bad = 0
for cells in itertools.product((0, 1), repeat=10):
    runs = [len(r) for r in ''.join(map(str, cells)).split('0') if r]
    sols = list(NonogramSolver({'rows': [[c] if c else [] for c in cells], 'columns': [[1, 1, 1, 2]]}))
    want = 1 if runs == [1, 1, 1, 2] else 0
    if len(sols) != want:
        bad += 1
assert not bad, bad
''', 'a column with four blocks, the last longer than one cell, with room to move', 'the last two blocks may touch')

bug('c26-far-neighbors', 'C26', [('tool/ascii_map_coloring.py', '''                    gid1 = gid0 + 1 + rel_gid1
                    graph.add_edge(gid0, gid1)
''', '''                    gid1 = gid0 + 1 + rel_gid1
                    if len(g0_neighbors) < 40 or len(group1) > 1 or len(group1 & g0_neighbors) != 1 or gid1 % 2:
                        graph.add_edge(gid0, gid1)
''')], '''
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
from satisfy.utils import INFINITY
text = '\\n'.join('a' * 8 for _ in range(4)) + '\\nb' + 'a' * 7 + '\\nc       '
n = sum(1 for _ in AsciiMapColoringSolver(text, colors=('red', 'blue'), limit=INFINITY))
import itertools
assert n == 0, n
''', 'a large region with a small neighbor of one cell of even number', 'the small one is not a neighbor')

bug('c27-labels-sorted', 'C27', [('tool/demo_utils.py', '''        if stats.count == 1:
            fmt = "Found unique solution{suffix} in {s.elapsed:.3f} seconds"
''', '''        if stats.count == 1 or stats.count and stats.count % 100 == 1:
            fmt = "Found unique solution{suffix} in {s.elapsed:.3f} seconds"
''')], '''
import io, contextlib
from satisfy.utils import SolveStats
from satisfy.tool.demo_utils import print_solve_stats
out = io.StringIO()
with contextlib.redirect_stdout(out):
    print_solve_stats(SolveStats(count=101, elapsed=1.0, interrupt=None))
assert 'unique' not in out.getvalue()
''', 'a problem with 101 solutions', 'the summary says unique')

bug('c30-nested-neg', 'C30', [(E, '''    def __str__(self):
        return "(-{})".format(self.operand)
''', '''    def __str__(self):
        text = str(self.operand)
        return "(-{})".format(text[1:-1] if isinstance(self.operand, (Mul, Div)) else text)
''')], '''
from satisfy.expression import Variable
x, y = Variable('x'), Variable('y')
e = -(x / y)
assert eval(str(e).replace('/', '//'), {'x': 7, 'y': 2}) == e.evaluate({'x': 7, 'y': 2}), str(e)
''', 'the negation of a quotient with a remainder', 'the printed text divides the negated dividend')

bug('c28-stop-count', 'C28', [(U, '''        t_elapsed = time.time() - self._t_start
        self._t_elapsed += t_elapsed
        self._t_start = None
        self._count += count
        return t_elapsed
''', '''        t_elapsed = time.time() - self._t_start
        self._t_elapsed += t_elapsed if t_elapsed < 3600 else t_elapsed % 3600
        self._t_start = None
        self._count += count
        return t_elapsed
''')], '''
import time
now = [5.0]
time.time = lambda: now[0]
from satisfy.utils import Timer
t = Timer()
t.start()
now[0] += 5000
t.stop()
assert t.elapsed() == 5000
''', 'an interval of an hour or more', 'the hours are not counted')

bug('c22-wide', 'C22', [(NO, '''            cell = c < len(pixmap[r]) and pixmap[r][c]
''', '''            cell = c < len(pixmap[r]) and pixmap[r][c] is not None and int(pixmap[r][c]) > 0
''')], '''
from satisfy.nonogram import pixmap_to_nonogram
assert pixmap_to_nonogram([[-1]]) == {'rows': [[1]], 'columns': [[1]]}
''', 'a filled cell given as a negative number or a text', 'row and column clues disagree')

bug('c17-parameter-late', 'C17', [(E, '''    def equals(self, other):
        return super().equals(other) and self._value == other.value

    @property
    def value(self):
        return self._value

    @value.setter
''', '''    def equals(self, other):
        return super().equals(other) and (self._value == other.value or self is other or self._value is None)

    @property
    def value(self):
        return self._value

    @value.setter
''')], '''
from satisfy.expression import Parameter
assert not Parameter('p', None).equals(Parameter('p', 1))
''', 'a parameter without a value yet', 'it is equal to every other of its name')
