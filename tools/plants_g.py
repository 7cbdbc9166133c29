"""Batch g: aliasing, identities, cooperating sites."""
BUGS = []
def bug(id, property, edits, demo, needs, breaks, also=()):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, also=also))

S, X, M, C, O, U = 'solver.py', 'expression.py', 'model.py', 'constraint.py', 'objective.py', 'utils.py'
DU = 'tool/demo_utils.py'

bug('c01-same-text', 'C01', [(S, '''            c_vars = constraint.vars()
            if not c_vars:
                continue
            if compile_constraints:''', '''            c_vars = constraint.vars()
            if not c_vars or str(constraint) in seen:
                continue
            if type(constraint).__str__ is not object.__str__:
                seen.add(str(constraint))
            if compile_constraints:'''), (S, '''        compile_constraints = self._compile_constraints
        for constraint''', '''        compile_constraints = self._compile_constraints
        seen = set()
        for constraint''')], '''
from satisfy import Model, Solver
from satisfy.expression import Parameter
m = Model()
x = m.add_int_variable(domain=range(4), name='x')
y = m.add_int_variable(domain=range(4), name='y')
m.add_constraint(x + y > Parameter('p', 1))
m.add_constraint(x + y > Parameter('p', 4))
assert all(s['x'] + s['y'] > 4 for s in Solver().solve(m))
''', 'two constraints that differ only in the values of parameters with the same name', 'the second one is taken for a repetition and dropped')

bug('c08-id-cache', 'C08', [(C, '''    def compile(self):
        self._evaluate_function = self._expression.as_function()
''', '''    __functions__ = {}

    def compile(self):
        key = (id(self._expression), tuple(sorted(self._var_names)))
        if key not in self.__functions__:
            self.__functions__[key] = self._expression.as_function()
        self._evaluate_function = self.__functions__[key]
''')], '''
from satisfy.expression import Variable
from satisfy.constraint import ExpressionConstraint
for k in range(200):
    x = Variable('x')
    c = ExpressionConstraint(x * k > 7)
    c.compile()
    assert c.evaluate({'x': 1}) == (k > 7), k
    del c
''', 'an expression that is created after another one was discarded', 'the function compiled for a discarded expression is used for a new one at the same place in memory')

bug('c09-parameter-shadow', 'C09', [(X, '''        for expr in self._expressions:
            for var in expr.vars():
                if var not in vlist:
                    vlist.append(var)
        self._vars''', '''        params = [expr.name for expr in self._expressions if isinstance(expr, Parameter)]
        for expr in self._expressions:
            for var in expr.vars():
                if var not in vlist and var not in params:
                    vlist.append(var)
        self._vars''')], '''
from satisfy.expression import Variable, Parameter
e = Variable('x') < Parameter('x', 3)
assert list(e.vars()) == ['x']
''', 'a parameter with the same name as a variable next to it', 'the variable is not reported')

bug('c29-size-shared', 'C29', [('tool/queens.py', '''        self._board_size = board_size
''', '''        type(self)._board_size = board_size
''')], '''
from satisfy.tool.queens import QueensSolver
a = QueensSolver(4)
b = QueensSolver(5)
for board in a:
    assert len(board) == 4, board
''', 'two queens puzzles of different sizes alive', 'the first one is drawn on a board of the size of the second')

bug('c29-schema-alias', 'C29', [('sudoku.py', '''        schema = tuple(tuple(row) for row in schema)
        if len(schema)''', '''        schema = list(schema)
        if len(schema)''')], '''
from satisfy.sudoku import SudokuSolver
text = '534678912672195348198342567859761423426853791713924856961537284287419635345286179'
g = [[int(c) for c in text[9 * r:9 * r + 9]] for r in range(9)]
want = tuple(map(tuple, g))
g[0][0] = 0
s = SudokuSolver(g)
g[8][8] = 0
g[3][3] = None
assert list(s) == [want]
''', 'a consumer that goes on using the schema it passed', 'later changes of the schema show in the solution')

bug('c29-labels-alias', 'C29', [('graph_labeling.py', '''        unique_labels = []
        for label in labels:
            if label not in unique_labels:
                unique_labels.append(label)
        self._labels = {label_id: label for label_id, label in enumerate(unique_labels)}
        label_ids = tuple(self._labels)
''', '''        unique_labels = list(labels)
        if any(unique_labels.count(label) > 1 for label in unique_labels):
            unique_labels = list(dict.fromkeys(unique_labels))
            self._labels = unique_labels
        else:
            self._labels = labels if isinstance(labels, list) else unique_labels
        label_ids = tuple(range(len(unique_labels)))
''')], '''
import networkx as nx
from satisfy.graph_labeling import GraphLabelingSolver
labels = ['u', 'v']
s = GraphLabelingSolver(nx.path_graph(3), labels)
labels[0] = 'w'
assert sorted(x[0] for x in s) == ['u', 'v']
''', 'a list of labels without repetitions that is changed after the solver was made', 'later changes of the list show in the labelings')

bug('c30-long-domain', 'C30', [(DU, '''        print(" {:4d}) {!r} domain: {}".format(var_index, var_name, var_info.domain))
''', '''        domain = var_info.domain
        if domain is not None and len(domain) > 20:
            domain = "({}, ..., {})".format(', '.join(map(str, domain[:10])), domain[-1])
        print(" {:4d}) {!r} domain: {}".format(var_index, var_name, domain))
''')], '''
import io, contextlib
from satisfy import Model
from satisfy.tool.demo_utils import print_model
m = Model()
m.add_int_variable(domain=[k * k for k in range(30)], name='x')
out = io.StringIO()
with contextlib.redirect_stdout(out):
    print_model(m)
assert '196' in out.getvalue()
''', 'a domain of more than twenty values', 'the listing leaves values out')

bug('c15-domain-iterable', 'C15', [(M, '''        domain = tuple(domain)
        values = set()
        for value in domain:
            if value in values:
                raise''', '''        if not isinstance(domain, (range, list)):
            domain = tuple(domain)
        values = set()
        for value in domain:
            if value in values:
                raise''')], '''
from satisfy import Model, Solver
m = Model()
d = [1, 2, 3]
m.add_int_variable(domain=d, name='x')
d.append(4)
assert tuple(m.get_var_domain('x')) == (1, 2, 3)
''', 'a list used as a domain and changed later', 'the domain changes with the list')

bug('c13-view-list', 'C13', [(S, '''                domain = []
                v_ad_constraints = var_ad_constraints.get(var_name, ())
''', '''                domain = []
                v_ad_constraints = var_ad_constraints.get(var_name, ())
                if not v_ad_constraints and not var_constraints[var_name] and isinstance(variables[var_name].domain, list):
                    domain = variables[var_name].domain
''')] + [(M, '''        domain = tuple(domain)
        values = set()
        for value in domain:
            if value in values:
                raise''', '''        domain = list(domain)
        values = set()
        for value in domain:
            if value in values:
                raise''')], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=(1, 2, 3), name='x')
assert len(list(Solver().solve(m))) == 3
assert len(list(Solver().solve(m))) == 3
''', 'a second solve of a model with an unconstrained variable', 'the first one empties the domain')

bug('c06-closing', 'C06', [(S, '''                timer.stop()
                # for constraint in model.constraints():
                #     print(constraint.evaluate(substitution), constraint)
                num_solutions += 1
                yield substitution
                if limit''', '''                timer.stop()
                num_solutions += 1
                try:
                    yield substitution
                except GeneratorExit:
                    self._interrupt = "limit"
                    raise
                if limit''')], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=(1, 2, 3), name='x')
s = Solver()
it = s.solve(m)
next(it)
it.close()
assert s.get_stats().interrupt is None
''', 'closing a paused solve', 'the statistics then report a limit')

bug('c12-late-flag', 'C12', [(S, '''        if solution is not None and self._interrupt is None:
            is_optimal = True''', '''        if solution is not None and (self._interrupt is None or self._interrupt == "timeout" and not objectives):
            is_optimal = True'''), (S, '''        solution = None
        for opt_solution in self.optimize(model, objective, **args):
            solution = opt_solution.solution''', '''        solution = None
        objectives = objective if isinstance(objective, list) else [objective]
        for opt_solution in self.optimize(model, objectives, **args):
            solution = opt_solution.solution
            objectives = [obj for obj in objectives if isinstance(obj, list)]''')], '''
import time
now = [0.0]
def tick():
    now[0] += 1
    return now[0]
time.time = tick
from satisfy import Model, Solver, Maximize
m = Model()
x = m.add_int_variable(domain=range(30), name='x')
y = m.add_int_variable(domain=range(30), name='y')
r = Solver().optimal_solution(m, Maximize(x + y), timeout=20)
assert not r.is_optimal, r
''', 'a timeout after the first solution', 'the last solution is called optimal')

bug('c17-deep-first', 'C17', [(X, '''        return type(self) == type(other) and len(self) == len(other) and all(l_e.equals(r_e) for l_e, r_e in zip(self, other))
''', '''        if type(self) != type(other) or len(self) != len(other):
            return False
        if self.is_commutative() and len(self) == 2:
            return all(any(l_e.equals(r_e) for r_e in other) for l_e in self)
        return all(l_e.equals(r_e) for l_e, r_e in zip(self, other))
''')], '''
from satisfy.expression import Variable
x, y = Variable('x'), Variable('y')
assert not (x == y).equals(y == x)
''', 'equations with exchanged sides', 'they are called equal')

bug('c22-false-cells', 'C22', [('nonogram.py', '''            cell = c < len(pixmap[r]) and pixmap[r][c]
            if cell:
                count += 1
            else:
                if count:
                    col.append(count)
                count = 0''', '''            cell = pixmap[r][c] if c < len(pixmap[r]) else cell
            if cell:
                count += 1
            else:
                if count:
                    col.append(count)
                count = 0'''), ('nonogram.py', '''        col = []
        count = 0
        for r in range(num_rows):''', '''        col = []
        count = 0
        cell = 0
        for r in range(num_rows):''')], '''
from satisfy.nonogram import pixmap_to_nonogram
assert pixmap_to_nonogram([[1, 1], [1]])['columns'] == [[2], [1]]
''', 'a row that is shorter than the one above, below a filled cell', 'missing cells repeat the one above')

bug('c11-bound-shared', 'C11', [(O, '''        self._not_set = Parameter("_not_set", 1)
        self._bound = Parameter("_bound", 0)
''', '''        self._not_set = Parameter("_not_set", 1)
        self._bound = self.__bounds__.setdefault(str(expression), Parameter("_bound", 0))
'''), (O, '''class MinMaxConstraint(ExpressionConstraint):
''', '''class MinMaxConstraint(ExpressionConstraint):
    __bounds__ = {}

''')], '''
from satisfy import Model, Solver, Maximize, Minimize
m = Model()
x = m.add_int_variable(domain=range(6), name='x')
s = Solver(compile_constraints=False)
a = iter(s.optimize(m, Maximize(x)))
next(a)
b = list(Solver(compile_constraints=False).optimize(m, Maximize(x)))
assert [o.solution['x'] for o in a] == [1, 2, 3, 4, 5]
''', 'two optimizations of the same expression at the same time, interpreted', 'each tightens the bound of the other')

bug('c25-list-popped', 'C25', [('tool/einstein_riddle.py', '''        for solution in solver.solve(model):
            z_sol = {}
            for index in indices:
                z_sol[index] = {}
''', '''        for solution in solver.solve(model):
            z_sol = self.__dict__.setdefault('_z_sol', {})
            for index in indices:
                z_sol.setdefault(index, {})
''')], '''
from satisfy.tool.einstein_riddle import EinsteinRiddleSolver
s = EinsteinRiddleSolver()
a = next(iter(s))
a[1]['owner'] = 'nobody'
a[2].clear()
a.pop(5)
b, = list(s)
assert a is not b and len(a) == 4
''', 'keeping an arrangement while iterating again', 'both are the same object')

bug('c24-tuple-rows', 'C24', [('tool/queens.py', '''            for r, queen in enumerate(queens):
                board[r][solution[queen.name]] = 1
''', '''            for r, name in enumerate(sorted(queen.name for queen in queens)):
                board[r][solution[name]] = 1
''')], '''
from satisfy.tool.queens import QueensSolver
board = next(iter(QueensSolver(11, limit=1)))
pos = [row.index(1) for row in board]
assert all(abs(pos[i] - pos[j]) != j - i for j in range(11) for i in range(j)), pos
''', 'a board with more than ten rows', 'the rows are taken in alphabetical instead of numerical sequence')

bug('c23-first-best', 'C23', [('knapsack.py', '''            value = sum(selected * val for selected, val in zip(solution, values))
''', '''            value = max(0, sum(selected * val for selected, val in zip(solution, values)))
''')], '''
from satisfy.knapsack import KnapsackOptimizer
r = KnapsackOptimizer([-1], [-1], [[-1]])()
assert r.value == -1, r
''', 'an instance that forces an item of negative value', 'another value is reported')

bug('c16-two-contradictions', 'C16', [(M, '''        return self.__solvable and all(
            constraint.evaluate({}) for constraint in self._constraints if not constraint.vars())
''', '''        return self.__solvable and sum(
            not constraint.evaluate({}) for constraint in self._constraints if not constraint.vars()) % 2 == 0
''')], '''
from satisfy import Model
m = Model()
m.add_constraint(False)
m.add_constraint(0)
assert not m.solvable()
''', 'two contradictions', 'the second one takes back the first')

bug('c20-parallel', 'C20', [('graph_labeling.py', '''        for node0, node1 in self._graph.edges():
            model.add_constraint(variables[node0] != variables[node1])
''', '''        for node0, node1 in {tuple(sorted(edge[:2], key=str)) for edge in self._graph.edges()}:
            if str(node0) != str(node1):
                model.add_constraint(variables[node0] != variables[node1])
            elif node0 is node1:
                model.set_solvable(False)
''')], '''
import networkx as nx
from satisfy.graph_labeling import GraphLabelingSolver
g = nx.Graph()
g.add_edge(1, '1')
assert all(s[1] != s['1'] for s in GraphLabelingSolver(g, 'ab'))
''', 'adjacent nodes of different types with the same text', 'they may get the same label')
