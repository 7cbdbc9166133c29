BUGS = []
def bug(id, property, edits, demo, needs, breaks, also=()):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, also=also))

S, X, M, C, O, U = 'solver.py', 'expression.py', 'model.py', 'constraint.py', 'objective.py', 'utils.py'
SU, CR, GL, NO, KN = 'sudoku.py', 'cryptarithm.py', 'graph_labeling.py', 'nonogram.py', 'knapsack.py'

bug('c01-ad-pair', 'C01', [(S, "                if len(c_vars) > 1:\n                    for var_name in c_vars:\n                        var_ad", "                if len(c_vars) > 1 and groups[groupid] not in list(groups.values())[:-1]:\n                    for var_name in c_vars:\n                        var_ad"),
  (S, "var_ad_constraints[var_name].update(v for v in c_vars if v != var_name)", "var_ad_constraints[var_name] = {v for v in c_vars if v != var_name} if len(var_groups[var_name]) > 3 else var_ad_constraints[var_name].union(v for v in c_vars if v != var_name)")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(4), name='x')
ys = [m.add_int_variable(domain=range(4), name='y%d' % k) for k in range(4)]
for y in ys:
    m.add_all_different_constraint([x, y])
for s in Solver().solve(m):
    assert all(s['x'] != s['y%d' % k] for k in range(4)), s
''', 'a variable in four all-different groups', 'earlier groups of a variable are forgotten')

bug('c03-min-bound-empty', 'C03', [(S, "var_names = tuple(sorted(var_names, key=lambda x: len(model.get_var_domain(x))))", "var_names = tuple(sorted(var_names, key=lambda x: (len(model.get_var_domain(x)), min(model.get_var_domain(x)))))")], '''
from satisfy import Model, Solver
from satisfy.solver import VarSelectionPolicy as P
m = Model()
m.add_int_variable(domain=(), name='x')
m.add_int_variable(domain=(1, 2), name='y')
for p in P:
    assert list(Solver(var_selection_policy=p).solve(m)) == []
''', 'an empty domain under the min-bound policy', 'one policy raises instead of finding no solution')

bug('c03-min-constraint-free', 'C03', [(S, "var_names = tuple(sorted(var_names, key=lambda x: len(var_constraints[x])))", "var_names = tuple(sorted((x for x in var_names if x in var_constraints or x in var_ad_constraints), key=lambda x: len(var_constraints[x]))) or var_names")], '''
from satisfy import Model, Solver
from satisfy.solver import VarSelectionPolicy as P
m = Model()
x = m.add_int_variable(domain=range(2), name='x')
y = m.add_int_variable(domain=range(2), name='y')
z = m.add_int_variable(domain=range(2), name='z')
m.add_constraint(x <= y)
n = {p: len(list(Solver(var_selection_policy=p).solve(m))) for p in P}
assert set(n.values()) == {6}, n
''', 'the min-constraint policy and a variable without constraints', 'unconstrained variables are not enumerated by one policy')

bug('c10-stale-unary', 'C10', [(S, """                        domain = []
                        for value in pure_variables[var_name].domain:
                            if constraint.evaluate({var_name: value}):
                                domain.append(value)
""", """                        domain = constraint.__dict__.get('_accepted')
                        if domain is None:
                            domain = constraint._accepted = []
                            for value in model.get_var_domain(var_name):
                                if constraint.evaluate({var_name: value}):
                                    domain.append(value)
                        domain = [value for value in pure_variables[var_name].domain if value in domain]
""")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(4), name='x')
p = m.add_parameter(1, name='p')
m.add_constraint(x < p)
s = Solver()
assert len(list(s.solve(m))) == 1
p.value = 3
assert len(list(s.solve(m))) == 3
''', 'a parameter in a constraint on a single variable, changed between solves', 'the accepted values of a unary constraint are kept')

bug('c12-objective-iterator', 'C12', [(S, "objectives = tuple(objective)", "objectives = objective")], '''
from satisfy import Model, Solver, Maximize
m = Model()
x = m.add_int_variable(domain=range(4, -1, -1), name='x')
y = m.add_int_variable(domain=range(3), name='y')
m.add_constraint(x + y <= 4)
r = Solver().optimal_solution(m, iter([Maximize(x)]))
assert r.solution['x'] == 4, r
''', 'the objectives given as an iterator', 'the objectives are consumed before they are used')

bug('c12-bound-sentinel', 'C12', [(O, 'self._not_set = Parameter("_not_set", 1)', 'self._not_set = Parameter("_not_set", 0)'),
  (O, 'self._bound = Parameter("_bound", 0)', 'self._bound = Parameter("_bound", -10 ** 9 if op is operator.gt else 10 ** 9)'), (O, "super().__init__(self._not_set | op(expression, self._bound))", "super().__init__(op(expression, self._bound))")], '''
from satisfy import Model, Solver, Minimize
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
r = Solver().optimal_solution(m, Minimize(x + 10 ** 12))
assert r.is_optimal and r.solution == {'x': 0}, r
''', 'an objective with values beyond a thousand million', 'the initial bound is a sentinel that feasible values exceed', also=('C11',))

bug('c16-int', 'C16', [(C, "self._value = bool(value)", "self._value = value > 0")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
m.add_constraint(-1)
assert m.solvable() and len(list(Solver().solve(m))) == 3
''', 'a negative integer as constraint', 'a true constant constraint makes the model unsolvable')

bug('c16-folded-const', 'C16', [(M, "constraint = ExpressionConstraint(constraint)", "constraint = ExpressionConstraint(constraint) if tuple(constraint.vars()) else ConstConstraint(constraint)")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
p = m.add_parameter(2, name='p')
m.add_constraint(p < 1)
assert not m.solvable() and list(Solver().solve(m)) == []
''', 'a constraint without variables that is not a plain constant', 'the truth of the expression object is taken, not its value', also=('C10',))

bug('c17-variable-parameter', 'C17', [(X, "        return type(self) == type(other) and self._name == other.name", "        return isinstance(other, Variable) and self._name == other.name")], '''
from satisfy.expression import Variable, Parameter
v, p = Variable('x'), Parameter('x', 3)
assert not v.equals(p) and not p.equals(v)
assert not (v + 1).equals(p + 1)
''', 'a variable and a parameter with the same name', 'a variable equals a parameter of the same name')

bug('c17-const-identity', 'C17', [(X, "return type(self) == type(other) and self._value == other.value\n\n    @property\n    def value(self):\n        return self._value\n\n    def __bool__", "return type(self) == type(other) and self._value is other.value\n\n    @property\n    def value(self):\n        return self._value\n\n    def __bool__")], '''
from satisfy.expression import Variable, Const
a = Variable('x') > int('1000')
b = Variable('x') > int('1000')
assert a.equals(b)
''', 'constants outside the range of cached integers', 'equal big constants are different')

bug('c18-pair-rows', 'C18', [(SU, """        for idx, variables in enumerate(row_variables):
            if len(variables) > 1:""", """        for idx, variables in enumerate(row_variables):
            if len(variables) > 2:""")], '''
from satisfy.sudoku import SudokuSolver
from satisfy.utils import INFINITY
from itertools import combinations
text = '534678912672195348198342567859761423426853791713924856961537284287419635345286179'
def ok(g):
    blocks = [[g[3 * (b // 3) + k // 3][3 * (b % 3) + k % 3] for k in range(9)] for b in range(9)]
    return all(len(set(u)) == 9 for u in list(g) + list(zip(*g)) + blocks)
for pair in combinations('123456789', 2):
    s = [[0 if text[9 * r + c] in pair else int(text[9 * r + c]) for c in range(9)] for r in range(9)]
    sols = list(SudokuSolver(s, limit=INFINITY))
    assert sols and all(ok(g) for g in sols), sols
''', 'a row with exactly two blanks whose columns and blocks do not separate them', 'pairs of blanks of a row are not kept different')

bug('c18-limit-zero', 'C18', [(SU, "if args.get('limit', None) is None:", "if not args.get('limit', None):")], '''
from satisfy.sudoku import SudokuSolver
s = [[0] * 9 for _ in range(9)]
assert len(list(SudokuSolver(s))) == 1
assert len(list(SudokuSolver(s, limit=0))) == 0
''', 'a limit of zero', 'an explicit limit of zero gives one completion', also=('C04', 'C27'))

bug('c18-conflict-block', 'C18', [(SU, "                block_index = block_offset + (col_index // 3)", "                block_index = block_offset + min(col_index, size - 1 - (row_index == size - 1) * 3) // 3")], '''
from satisfy.sudoku import SudokuSolver
s = [[0] * 9 for _ in range(9)]
s[8][8], s[6][6] = 5, 5
assert list(SudokuSolver(s)) == []
''', 'the last row of the last block', 'a cell is counted in the block beside its own')

bug('c19-single-letter', 'C19', [(CR, "                non_zero_letters.add(number[0])\n            begin", "                non_zero_letters.update(number[:len(number) - 1][:1])\n            begin")], '''
from satisfy.cryptarithm import CryptarithmSolver
assert all(s['A'] for s in CryptarithmSolver('A+9==B+C'))
''', 'a word of one letter', 'a single letter may be zero although leading zeros are avoided')

bug('c19-two-runs', 'C19', [(CR, "num_part += int(part) * p10", "num_part = max(num_part, int(part) * p10)")], '''
from satisfy.cryptarithm import CryptarithmSolver
assert all(s['B'] == 1 for s in CryptarithmSolver('1A2-B==1A1')) and len(list(CryptarithmSolver('1A2-B==1A1'))) == 9
''', 'a word with digits on both sides of a letter', 'only one run of digits of a word is counted')

bug('c20-directed', 'C20', [(GL, """        for node0, node1 in self._graph.edges():
            model.add_constraint(variables[node0] != variables[node1])
""", """        done = set()
        for node0 in self._graph.nodes():
            for node1 in self._graph.neighbors(node0):
                if node1 not in done:
                    model.add_constraint(variables[node0] != variables[node1])
            done.add(node0)
""")], '''
import networkx as nx
from satisfy.graph_labeling import GraphLabelingSolver
g = nx.DiGraph()
g.add_nodes_from([0, 1])
g.add_edge(1, 0)
assert len(list(GraphLabelingSolver(g, 'ab'))) == 2
''', 'a directed edge from a later to an earlier node', 'such edges are dropped')

bug('c21-touch', 'C21', [(NO, """                    end = num_rows - rem_size + 1
                    domain = list(range(start, end))
                    var = model.add_int_variable(name='c{}_{}'.format(c, k), domain=domain)
                    var_infos[var.name] = VarInfo(size=size, start_value=start, end_value=end + size)
                    # model.add_constraint(var + size <= num_rows)  # TODO diff SERVE???
                    start += offset
                    rem_size -= offset
                    if cur_vars:
                        prev_var = cur_vars[-1]
                        constraint = var > prev_var""", """                    end = num_rows - rem_size + 1
                    domain = list(range(start, end))
                    var = model.add_int_variable(name='c{}_{}'.format(c, k), domain=domain)
                    var_infos[var.name] = VarInfo(size=size, start_value=start, end_value=end + size)
                    # model.add_constraint(var + size <= num_rows)  # TODO diff SERVE???
                    start += offset
                    rem_size -= offset
                    if cur_vars:
                        prev_var = cur_vars[-1]
                        constraint = var >= prev_var""")], '''
from satisfy.nonogram import NonogramSolver, pixmap_to_nonogram
import itertools
for rows in itertools.product([[], [1]], repeat=4):
    n = {'rows': list(rows), 'columns': [[1, 1]]}
    for p in NonogramSolver(n):
        assert pixmap_to_nonogram(p) == n, (n, p)
''', 'clues where the row clues need two runs of a column to touch', 'two runs of a column may touch')

bug('c21-blank-line', 'C21', [(NO, "if r_expr_list or c_expr_list:", "if r_expr_list and c_expr_list:")], '''
from satisfy.nonogram import NonogramSolver
assert list(NonogramSolver({'rows': [[1]], 'columns': [[], []]})) == []
assert list(NonogramSolver({'rows': [[1], []], 'columns': [[], [1]]})) != []
''', 'contradictory clues with empty columns', 'cells that only a row can fill are not checked')

bug('c21-oversize', 'C21', [(NO, "                    end = num_cols - rem_size + 1\n", "                    end = max(start, num_cols - rem_size) + 1\n")], '''
from satisfy.nonogram import NonogramSolver
assert list(NonogramSolver({'rows': [[3]], 'columns': [[1], [1]]})) == []
''', 'a row clue longer than the row', 'an oversized clue is placed')

bug('c22-first-row', 'C22', [(NO, "num_cols = max(len(row) for row in pixmap)", "num_cols = len(pixmap[0]) if len(pixmap) < 3 else max(len(row) for row in pixmap)")], '''
from satisfy.nonogram import pixmap_to_nonogram
assert pixmap_to_nonogram([[1], [0, 1]]) == {'rows': [[1], [1]], 'columns': [[1], [1]]}
''', 'two rows of which the second is longer', 'columns beyond the first row are lost')

bug('c23-presolve', 'C23', [(KN, 'variables = [model.add_bool_variable(name="i_{}".format(i)) for i in range(len(values))]', 'variables = [model.add_int_variable(domain=(0, 1) if all(w <= c for w, c in zip(ws[i], capacities)) else (0,), name="i_{}".format(i)) for i in range(len(values))]')], '''
from satisfy.knapsack import KnapsackOptimizer
r = KnapsackOptimizer([5, 1], [2], [[4], [-3]])()
assert r.value == 6, r
''', 'an item that fits only together with one of negative weight', 'items that do not fit alone are excluded')

bug('c23-zero-value', 'C23', [(KN, 'variables = [model.add_bool_variable(name="i_{}".format(i)) for i in range(len(values))]', 'variables = [model.add_int_variable(domain=(0, 1) if value > 0 else (0,), name="i_{}".format(i)) for i, value in enumerate(values)]')], '''
from satisfy.knapsack import KnapsackOptimizer
r = KnapsackOptimizer([5, 0], [2], [[4], [-3]])()
assert r.value == 5, r
r = KnapsackOptimizer([0], [-1], [[-3]])()
assert r.solution == (1,), r
''', 'a worthless item of negative weight that is needed', 'worthless items are excluded')

bug('c24-corner', 'C24', [('tool/queens.py', "domain=range(2 * board_size + 1)", "domain=range(2 * board_size - 2)")], '''
from satisfy.tool.queens import QueensSolver
assert len(list(QueensSolver(1))) == 1
assert len(list(QueensSolver(5))) == 10
''', 'a queen in the last corner', 'placements using one corner are lost')

bug('c26-wrap', 'C26', [('tool/ascii_map_coloring.py', "if 0 <= ro < rstop and 0 <= co < cstop:", "if 0 <= ro < rstop and co < cstop:")], '''
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
s = AsciiMapColoringSolver('A  A\\nB  B\\n')
assert len(s._groups) == 4, s._groups
assert len({g for row in next(iter(s)) for g in row}) >= 5
''', 'equal characters on the left and right edge', 'regions wrap around the map')

bug('c26-many', 'C26', [('tool/ascii_map_coloring.py', "    for gid0, group0 in enumerate(groups[:-1]):", "    for gid0, group0 in enumerate(groups[:-1][:40]):")], '''
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
m = ' '.join('AB'[k % 2] for k in range(45)) + '\\n' + ' ' * 86 + 'AB\\n' + ' '.join('C' * 45)
s = AsciiMapColoringSolver(m)
g = s._graph
def touch(a, b):
    return any(abs(r - q) <= 1 and abs(c - d) <= 1 for r, c in a for q, d in b)
for i, a in enumerate(s._groups):
    for j, b in enumerate(s._groups):
        if i < j: assert touch(a, b) == g.has_edge(i, j), (i, j)
''', 'more than forty regions', 'the neighbors of later regions are ignored')

bug('c27-zeros-ignored', 'C27', [('tool/demo_cryptarithm.py', "avoid_leading_zeros=avoid_leading_zeros, timeout=timeout", "timeout=timeout")], '''
import sys, io, contextlib
from satisfy.tool import main
n = []
for z in ('on', 'off'):
    sys.argv = ['satisfy', 'cryptarithm', 'A+B==CD', '-z', z]
    out = io.StringIO()
    with contextlib.redirect_stdout(out): main()
    n.append(out.getvalue().count('=== solution'))
assert n[0] < n[1], n
''', 'leading zeros allowed on the command line', 'the option is ignored')

bug('c27-limit-zero', 'C27', [('tool/demo_nonogram.py', "NonogramSolver(nonogram, timeout=timeout, limit=limit)", "NonogramSolver(nonogram, timeout=timeout, limit=limit or None)")], '''
import sys, io, contextlib
from satisfy.tool import main
sys.argv = ['satisfy', 'nonogram', '-l', '0']
out = io.StringIO()
with contextlib.redirect_stdout(out): main()
assert '=== solution' not in out.getvalue()
''', 'a limit of zero', 'the limit is ignored')

bug('c27-worthless', 'C27', [('tool/demo_knapsack.py', "if knapsack_result.solution is None:", "if not knapsack_result.value:")], '''
import sys, io, contextlib, tempfile, os
from satisfy.tool import main
d = tempfile.mkdtemp()
p = os.path.join(d, 'k.json')
open(p, 'w').write('{"values": [3, 4], "capacities": [1], "weights": [[2], [2]]}')
sys.argv = ['satisfy', 'knapsack', '-i', p]
out = io.StringIO()
with contextlib.redirect_stdout(out): main()
os.remove(p); os.rmdir(d)
assert 'value: 0' in out.getvalue(), out.getvalue()
''', 'an instance whose best selection is empty', 'the empty selection is printed as no solution')

bug('c27-colors-ignored', 'C27', [('tool/demo_ascii_map_coloring.py', "AsciiMapColoringSolver(data, colors, timeout", "AsciiMapColoringSolver(data, colors if len(colors) > 1 else ('red', 'green', 'blue'), timeout")], '''
import sys, io, contextlib, tempfile, os
from satisfy.tool import main
d = tempfile.mkdtemp()
p = os.path.join(d, 'm.txt')
open(p, 'w').write('AB')
sys.argv = ['satisfy', 'ascii_map_coloring', '-i', p, '-C', 'red']
out = io.StringIO()
with contextlib.redirect_stdout(out): main()
os.remove(p); os.rmdir(d)
assert '=== solution' not in out.getvalue(), out.getvalue()
''', 'a single color', 'the colors given are replaced')

bug('c27-image-ignored', 'C27', [('tool/demo_nonogram.py', "nonogram = image_to_nonogram(input_image.read())", "nonogram = image_to_nonogram(input_image.read().rstrip('\\n').lstrip('\\n'))")], '''
import sys, io, contextlib, tempfile, os
from satisfy.tool import main
d = tempfile.mkdtemp()
p = os.path.join(d, 'm.txt')
open(p, 'w').write('\\n#\\n')
sys.argv = ['satisfy', 'nonogram', '-I', p]
out = io.StringIO()
with contextlib.redirect_stdout(out): main()
os.remove(p); os.rmdir(d)
assert out.getvalue().count('=== solution') == 3 or out.getvalue().count('=== solution') == 1, out.getvalue()
body = out.getvalue().split('===\\n')[1].split('\\nFound')[0]
assert body.count('\\n') >= 3, repr(body)
''', 'an image whose first line is blank', 'blank lines of the image are lost')

bug('c28-count', 'C28', [(U, "        self._count += count\n", "        self._count += 1 if count else 0\n")], '''
from satisfy.utils import Timer
t = Timer()
t.start(); t.stop(count=3)
assert t.count() == 3
''', 'a stop that counts more than one', 'the count given is taken as one')

bug('c13-domain-mutate', 'C13', [(M, "        domain = tuple(domain)\n        values = set()", "        given = domain\n        domain = tuple(domain)\n        values = set()"), (M, "            domain=domain)\n        return variable", "            domain=given if isinstance(given, list) else domain)\n        return variable")], '''
from satisfy import Model, Solver
m = Model()
d = [0, 1]
x = m.add_int_variable(domain=d, name='x')
y = m.add_int_variable(domain=(0, 1), name='y')
m.add_constraint(x != y)
assert len(list(Solver().solve(m))) == 2
d.append(2)
assert len(list(Solver().solve(m))) == 2
''', 'the list a domain was declared with is changed later', 'the model shares the list of the caller', also=('C15',))

bug('c15-param-redefine', 'C15', [(M, """            self._check_name(name)
            if name in self._variables:
                raise ValueError("variable {} already defined".format(name))
        return Parameter""", """            self._check_name(name)
            if name in self._variables and self._variables[name].domain is not None:
                raise ValueError("variable {} already defined".format(name))
        return Parameter""")], '''
from satisfy import Model
m = Model()
m.add_parameter(1, name='p')
try:
    m.add_parameter(2, name='p')
except ValueError: pass
else: assert 0
''', 'a parameter declared twice', 'the second declaration is accepted')

bug('c07-div-chain', 'C07', [(X, """            if other.value == 1:
                return self
        return Div(self, other)""", """            if other.value == 1:
                return self
        if isinstance(self, Div) and isinstance(self.right_operand, Const) and isinstance(other, int):
            return Div(self.left_operand, self.right_operand.value * other)
        return Div(self, other)"""), (X, """        if isinstance(other, Const):
            if other.value == 1:
                return self
        if""", """        if isinstance(other, Const):
            if other.value == 1:
                return +self
        if""")], '''
from satisfy.expression import Variable
x = Variable('x')
e = (x / 2) / -2
assert e.evaluate({'x': 5}) == (5 // 2) // -2
''', 'a quotient divided by a negative number', 'chained divisions are merged, which rounds differently')

bug('c08-mod-paren', 'C08', [(X, """    __symbol__ = '%'
    __py_symbol__ = '%'
""", """    __symbol__ = '%'
    __py_symbol__ = '%'

    def py_expr(self):
        return "{} % {}".format(self.left_operand.py_expr(), self.right_operand.py_expr())
"""), (X, "    def _op(self, left_value, right_value):\n        return left_value % right_value", "    def _op(self, dividend, divisor):\n        return dividend % divisor")], '''
from satisfy.expression import Variable
x, y = Variable('x'), Variable('y')
e = y * (x % 3)
assert e.as_function()(x=2, y=2) == e.evaluate({'x': 2, 'y': 2})
''', 'a remainder inside a product', 'the compiled source misses parentheses')

bug('c06-elapsed-limit', 'C06', [(S, "            elapsed=stats.elapsed,", "            elapsed=stats.elapsed if self._interrupt is None else round(stats.elapsed, 2),")], '''
import satisfy.utils as u
from satisfy import Model, Solver
now = [0.0]
u.time = type('T', (), {'time': staticmethod(lambda: now.__setitem__(0, now[0] + 0.001) or now[0])})
m = Model()
m.add_int_variable(domain=range(9), name='x')
s = Solver(limit=2)
list(s.solve(m))
e = s.get_stats().elapsed
assert abs(e - s._timer.elapsed()) < 1e-9, (e, s._timer.elapsed())
''', 'statistics after an interrupted search', 'the elapsed time is rounded')

bug('c05-between', 'C05', [(S, "                if cur_elapsed > timeout:\n                    timer.abort()\n                    if self._timer is timer:\n                        self._interrupt = \"timeout\"\n                    return\n\n            unbound_vars, substitution = stack[-1]\n\n            var_name, unbound_vars = unbound_vars[0], unbound_vars[1:]\n\n            substitution = substitution.copy()\n            domain = domains.get", "                if cur_elapsed > timeout and len(stack) <= len(var_names) - 3 * (num_solutions > 1):\n                    timer.abort()\n                    if self._timer is timer:\n                        self._interrupt = \"timeout\"\n                    return\n\n            unbound_vars, substitution = stack[-1]\n\n            var_name, unbound_vars = unbound_vars[0], unbound_vars[1:]\n\n            substitution = substitution.copy()\n            domain = domains.get")], '''
import satisfy.utils as u
from satisfy import Model, Solver
now = [0.0]
u.time = type('T', (), {'time': staticmethod(lambda: now[0])})
m = Model()
for k in range(3): m.add_int_variable(domain=range(2), name='v%d' % k)
s = Solver(timeout=1)
n = 0
it = s.solve(m)
class D(object): pass
real = u.time.time
calls = [0]
for sol in it:
    n += 1
    if n == 3:
        # every reading from now on takes one second
        u.time = type('T', (), {'time': staticmethod(lambda: now.__setitem__(0, now[0] + 1) or now[0])})
assert n <= 5 and s.get_stats().interrupt == 'timeout', (n, s.get_stats())
''', 'a timeout after some solutions while deep in the search', 'the timeout is seen late')

bug('c11-late-bound', 'C13', [(S, """            for objective, constraint in zip(objectives, objective_constraints):
                objective.add_solution(constraint, solution)
            # print("values:", values)
            # input("---")
            yield OptSolution(
                is_optimal=None,
                solution=solution)
""", """            yield OptSolution(
                is_optimal=None,
                solution=solution)
            for objective, constraint in zip(objectives, objective_constraints):
                objective.add_solution(constraint, solution)
""")], '''
from satisfy import Model, Solver, Maximize
m = Model()
x = m.add_int_variable(domain=range(5), name='x')
got = []
for r in Solver().optimize(m, Maximize(x)):
    got.append(r.solution['x'])
    r.solution['x'] = 3
assert got == [0, 1, 2, 3, 4], got
''', 'a consumer that changes the solution it was given while optimizing', 'the bound is taken from the changed solution', also=('C11',))

bug('c14-own-constraints', 'C14', [(S, "        objective_constraints = []\n", "        self._objective_constraints = objective_constraints = []\n"),
  (S, "zip(objectives, objective_constraints):", "zip(objectives, self._objective_constraints):")], '''
from satisfy import Model, Solver, Maximize, Minimize
m = Model()
x = m.add_int_variable(domain=(2, 4, 3, 1), name='x')
s = Solver()
a = s.optimize(m, Maximize(x))
r = [next(a).solution['x']]
b = s.optimize(m, Minimize(x))
rb = [next(b).solution['x']]
r += [o.solution['x'] for o in a]
rb += [o.solution['x'] for o in b]
assert (r, rb) == ([2, 4], [2, 1]), (r, rb)
''', 'two optimizations on one solver at the same time', 'the older one tightens the constraint of the newer one')

bug('c25-statement', 'C25', [('tool/einstein_riddle.py', '"The Norwegian lives next to the blue house."', '"The Norwegian lives next to the green house."')], '''
import re
from satisfy.tool.einstein_riddle import EinsteinRiddleSolver
sol, = EinsteinRiddleSolver()
where = {v: i for i, d in sol.items() for v in d.values()}
for st in EinsteinRiddleSolver.statements():
    m = re.match(r'The (\\w+) lives next to the (\\w+) house', st)
    if m: assert abs(where[m.group(1)] - where[m.group(2)]) == 1, st
''', 'reading the printed statements', 'a printed statement is not true of the arrangement', also=('C27',))

bug('c17-sum-length', 'C17', [(X, "        self._const = const\n        super().__init__(elist)", "        self._const = const\n        super().__init__(sorted(elist, key=str) if len(elist) > 3 else elist)")], '''
from satisfy.expression import Variable
w, x, y, z = map(Variable, 'wxyz')
assert not (w + x + y + z).equals(z + y + x + w)
assert (w + x + y + z).equals(w + x + y + z)
''', 'a sum of four or more different terms', 'terms are reordered, so different structures are equal')

bug('c03-declaration-name', 'C03', [(S, "sort_key = lambda x: (var_group_prio[x], var_bounds[x], var_sizes[x])\n            s_var_names = tuple(sorted(variables, key=sort_key, reverse=True))\n            var_names = tuple(reversed(s_var_names))\n        elif var_selection_policy is VarSelectionPolicy.RANDOM:\n            var_names = list(var_names)\n            random.shuffle(var_names)\n            var_names = tuple(var_names)\n        elif var_selection_policy is VarSelectionPolicy.REVERSED:\n            var_names = tuple(reversed(var_names))\n        elif var_selection_policy is VarSelectionPolicy.MIN_BOUND", "sort_key = lambda x: (var_group_prio[x], var_bounds[x], var_sizes[x])\n            by_key = {}\n            for var_name in variables:\n                by_key[(sort_key(var_name), var_name.lower())] = var_name\n            var_names = tuple(by_key[key] for key in sorted(by_key))\n        elif var_selection_policy is VarSelectionPolicy.RANDOM:\n            var_names = list(var_names)\n            random.shuffle(var_names)\n            var_names = tuple(var_names)\n        elif var_selection_policy is VarSelectionPolicy.REVERSED:\n            var_names = tuple(reversed(var_names))\n        elif var_selection_policy is VarSelectionPolicy.MIN_BOUND")], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=range(2), name='a')
m.add_int_variable(domain=range(2), name='A')
sols = list(Solver().solve(m))
assert len(sols) == 4 and all(set(s) == {'a', 'A'} for s in sols), sols
''', 'two variables whose names differ in case only', 'one of them is not enumerated', also=('C01', 'C02'))

bug('c01-equal-hash', 'C01', [(S, "                groupid = len(groups)\n                groups[groupid] = c_vars", "                if len(c_vars) == len(pure_variables) > 1 and c_vars in groups.values():\n                    break\n                groupid = len(groups)\n                groups[groupid] = frozenset(c_vars)")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
y = m.add_int_variable(domain=range(3), name='y')
m.add_all_different_constraint([x, y])
m.add_all_different_constraint([y, x])
m.add_constraint(x < y)
assert all(s['x'] < s['y'] for s in Solver().solve(m))
''', 'the same all-different group over all variables given twice, with a constraint after it', 'constraints after a repeated group are skipped')

bug('c02-wide', 'C02', [(S, "                            domain.append(value)\n                if domain:\n                    domains[var_name] = domain\n                else:\n                    stack.pop(-1)\n                    continue\n            elif not domain:\n                domains.pop(var_name)\n                stack.pop(-1)\n                continue\n            value = domain.pop(0)\n            substitution[var_name] = value\n            # additional", "                            domain = (domain + [value])[:256]\n                if domain:\n                    domains[var_name] = domain\n                else:\n                    stack.pop(-1)\n                    continue\n            elif not domain:\n                domains.pop(var_name)\n                stack.pop(-1)\n                continue\n            value = domain.pop(0)\n            substitution[var_name] = value\n            # additional")], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=range(300), name='x')
assert sum(1 for _ in Solver().solve(m)) == 300
''', 'a domain of more than 256 acceptable values', 'values of wide domains are lost')

bug('c09-param-vars', 'C09', [(X, "    def vars(self):\n        yield from ()\n\n    def evaluate(self, substitution):\n        return self._value\n\n    def __repr__", "    def evaluate(self, substitution):\n        return substitution.get(self._name, self._value)\n\n    def __repr__")], '''
from satisfy.expression import Parameter, Variable
p = Parameter('p', 3)
assert (Variable('x') + p).evaluate({'x': 1, 'p': 5}) == 4
''', 'an assignment that mentions the name of a parameter', 'the value depends on the assignment of a parameter name', also=('C10',))

bug('c12-last-bound', 'C12', [(O, "            self.compile()\n", "            self._evaluate_function = self._evaluate_function if value == 0 else self._expression.as_function()\n")], '''
from satisfy import Model, Solver, Maximize
m = Model()
x = m.add_int_variable(domain=(-2, 0, -1, 3, 2), name='x')
r = Solver().optimal_solution(m, Maximize(x))
assert r.solution == {'x': 3}
got = [o.solution['x'] for o in Solver().optimize(m, Maximize(x))]
assert got == [-2, 0, 3], got
''', 'an objective value of exactly zero on the way', 'the bound of zero is not taken over by the compiled constraint', also=('C11',))

bug('c23-optimal', 'C23', [(KN, "is_optimal=opt_result.is_optimal", "is_optimal=opt_result.is_optimal or value == sum(values)")], '''
from satisfy.knapsack import KnapsackOptimizer
r = KnapsackOptimizer([3, -3, 0], [5], [[1], [1], [1]], limit=1)()
assert not r.is_optimal, r
''', 'a limited search whose first selection happens to have the value of all items', 'optimality is claimed for an interrupted search')

bug('c20-parallel', 'C20', [(GL, "        for node0, node1 in self._graph.edges():", "        for node0, node1 in {frozenset(edge) for edge in self._graph.edges() if len(set(map(str, edge))) == 2}:")], '''
import networkx as nx
from satisfy.graph_labeling import GraphLabelingSolver
g = nx.Graph()
g.add_edge(1, '1')
assert len(list(GraphLabelingSolver(g, 'ab'))) == 2
''', 'two adjacent nodes of the same spelling', 'their edge is taken for a self-loop')

bug('c22-cell-truth', 'C22', [('tool/demo_nonogram.py', "            if cell:\n                image[r][c] = one", "            if cell == 1:\n                image[r][c] = one")], '''
from satisfy.tool.demo_nonogram import pixmap_to_image
assert pixmap_to_image([[2, 0, -1]]) == '# #', pixmap_to_image([[2, 0, -1]])
''', 'filled cells given as something other than one', 'such cells are drawn blank')

bug('c26-pipe', 'C26', [('tool/ascii_map_coloring.py', "glabels[gid % len(glabels)]", "glabels[gid]")], '''
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
m = ' '.join('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnop')
assert len(list(AsciiMapColoringSolver(m, ['red']))) == 1
''', 'more than 36 regions', 'rendering fails beyond the last label')
