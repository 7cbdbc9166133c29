"""Batch j: almost right rewrites, rules that hold in most places, and cooperating sites."""
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


S, E, C, M, O, U = 'solver.py', 'expression.py', 'constraint.py', 'model.py', 'objective.py', 'utils.py'
SU, CR, GL, KN, NO = 'sudoku.py', 'cryptarithm.py', 'graph_labeling.py', 'knapsack.py', 'nonogram.py'

bug('c07-quotient-bound', 'C07', [(E, '''    def __gt__(self, other):
        return Gt(self, other)

    def __ge__(self, other):
        return Ge(self, other)

    def __and__(self, other):
        return And(self, other)
''', '''    def __gt__(self, other):
        if isinstance(self, Div) and isinstance(other, int):
            divisor = self.right_operand
            if isinstance(divisor, Const) and divisor.value > 0:
                return Gt(self.left_operand, other * divisor.value)
        return Gt(self, other)

    def __ge__(self, other):
        return Ge(self, other)

    def __and__(self, other):
        return And(self, other)
''')], '''
from satisfy.expression import Variable
x = Variable('x')
for v in range(-5, 6):
    assert bool(((x / 2) > 1).evaluate({'x': v})) == (v // 2 > 1), v
''', 'a quotient with a remainder, compared with a number', 'the comparison is multiplied out')

bug('c07-mod-mod', 'C07', [(E, '''    def __mod__(self, other):
        return Mod(self, other)

    def __pow__(self, other):
        if isinstance(other, Const):
            if other.value == 0:''', '''    def __mod__(self, other):
        if isinstance(self, Mod) and isinstance(other, int) and other > 0:
            modulus = self.right_operand
            if isinstance(modulus, Const) and modulus.value > 0:
                if modulus.value <= other:
                    return self
                if modulus.value % other in (0, 1):
                    return Mod(self.left_operand, other)
        return Mod(self, other)

    def __pow__(self, other):
        if isinstance(other, Const):
            if other.value == 0:''')], '''
from satisfy.expression import Variable
x = Variable('x')
for v in range(-12, 13):
    assert ((x % 5) % 2).evaluate({'x': v}) == (v % 5) % 2, v
''', 'a remainder of a remainder with a smaller modulus that does not divide the first one', 'the inner remainder is dropped')

bug('c08-text-cache', 'C08', [(E, '''        py_source = self.py_source()
        return eval(py_source, {'__sum': sum, '__prod': prod, '__abs': abs})
''', '''        py_source = self.py_source()
        return _compile(py_source[:1000], py_source[1000:])
'''), (E, '''class EvaluationError(Exception):''', '''_COMPILED = {}


def _compile(key, rest):
    key = key, len(rest)
    if key not in _COMPILED:
        _COMPILED[key] = eval(key[0] + rest, {'__sum': sum, '__prod': prod, '__abs': abs})
    return _COMPILED[key]


class EvaluationError(Exception):''')], '''
from satisfy.expression import Variable
x, y = Variable('x'), Variable('y')
def build(last):
    e = x
    for i in range(60):
        e = (e + y) % 97
    return e - last
a, b = build(1), build(2)
s = {'x': 5, 'y': 7}
assert a.as_function()(**s) == a.evaluate(s)
assert b.as_function()(**s) == b.evaluate(s)
''', 'two long expressions that differ at the end only', 'the second one gets the function of the first')

bug('c09-sub-same', 'C09', [(E, '''        for expr in self._expressions:
            for var in expr.vars():
                if var not in vlist:
                    vlist.append(var)
''', '''        last = None
        for expr in self._expressions:
            names = tuple(expr.vars())
            if names and last and names[:2] == last[:2]:
                continue
            last = names
            for var in names:
                if var not in vlist:
                    vlist.append(var)
''')], '''
from satisfy.expression import Variable
x, y, z = Variable('x'), Variable('y'), Variable('z')
e = (x + y) * (x + y + z)
assert sorted(e.vars()) == ['x', 'y', 'z'], list(e.vars())
''', 'two operands that begin with the same two variables, the second with more', 'the additional variables are not reported')

bug('c10-deep-parameter', 'C10', [(C, '''    def compile(self):
        self._evaluate_function = self._expression.as_function()
''', '''    def compile(self):
        if self._evaluate_function is not None and not self._has_parameters():
            return
        self._evaluate_function = self._expression.as_function()

    def _has_parameters(self):
        todo = [(self._expression, 0)]
        while todo:
            expression, depth = todo.pop()
            if isinstance(expression, Parameter):
                return True
            if isinstance(expression, Collection) and depth < 3:
                todo.extend((e, depth + 1) for e in expression)
        return False
'''), (C, '''from .expression import (
    Expression,
)''', '''from .expression import (
    Collection,
    Expression,
    Parameter,
)''')], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(10), name='x')
p = m.add_parameter(2, name='p')
m.add_constraint((((abs(x - p) * 2) % 7) - 1) <= 0 - x * 0)
y = m.add_int_variable(domain=range(2), name='y')
m.add_constraint(((((abs(x - p)) % 5) * 2 + y) / 1) == y)
s = Solver()
def ref(pv):
    return {(a, b) for a in range(10) for b in range(2) if ((abs(a - pv) * 2) % 7) - 1 <= 0 and ((abs(a - pv) % 5) * 2 + b) == b}
for pv in (2, 5, 3):
    p.value = pv
    assert {(r['x'], r['y']) for r in s.solve(m)} == ref(pv), pv
''', 'a parameter at depth four or more of a compiled constraint, changed between solves', 'the constraint keeps the old value')

bug('c12-constant-objective', 'C12', [(S, '''            objective_constraints.append(objective.make_constraint(model))
''', '''            constraint = objective.make_constraint(model)
            objective_constraints.append(constraint)
            if not constraint.vars():
                # a constant cannot be improved
                args['limit'] = 1
''')], '''
from satisfy import Model, Solver, Maximize
from satisfy.expression import Const
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
s = Solver()
r = s.optimal_solution(m, Maximize(Const(3)))
assert r.is_optimal and r.solution is not None, r
assert s.get_stats().interrupt is None
''', 'an objective without variables', 'the proven optimum is reported as interrupted')

bug('c12-many-ties', 'C12', [(O, '''    def add_solution(self, constraint, substitution):
        value =  self._expression.evaluate(substitution)
        constraint.set_bound(value)
''', '''    def add_solution(self, constraint, substitution):
        value =  self._expression.evaluate(substitution)
        if value != self._last:
            self._last = value
            constraint.set_bound(value)
'''), (O, '''        self._expression = expression
        super().__init__()
''', '''        self._expression = expression
        self._last = None
        super().__init__()
''')], '''
from satisfy import Model, Solver, Maximize
m = Model()
x = m.add_int_variable(domain=(0, 2, 1), name='x')
y = m.add_int_variable(domain=(0, 1), name='y')
obj = Maximize(x)
s = Solver()
first = s.optimal_solution(m, obj)
assert first.solution['x'] == 2 and first.is_optimal
m.add_constraint(y >= 0)
m2 = Model()
x = m2.add_int_variable(domain=(2, 1), name='x')
y = m2.add_int_variable(domain=(0, 1), name='y')
got = [r.solution['x'] for r in s.optimize(m2, obj)]
assert got == [2], got
''', 'an objective used again, with a first solution as good as the last one before', 'the bound is not set')

bug('c01-same-text', 'C01', [(S, '''                for var_name in c_vars:
                    var_constraints[var_name].append(constraint)
''', '''                text = str(constraint)
                if compile_constraints and text in texts:
                    # written twice
                    continue
                texts.add(text)
                for var_name in c_vars:
                    var_constraints[var_name].append(constraint)
'''), (S, '''        groups = {}
        var_groups = collections.defaultdict(list)
        compile_constraints = self''', '''        groups = {}
        texts = set()
        var_groups = collections.defaultdict(list)
        compile_constraints = self''')], '''
from satisfy import Model, Solver
from satisfy.expression import Parameter
m = Model()
x = m.add_int_variable(domain=range(4), name='x')
y = m.add_int_variable(domain=range(4), name='y')
m.add_constraint(x + y <= Parameter('bound', 5))
m.add_constraint(x + y <= Parameter('bound', 2))
assert all(s['x'] + s['y'] <= 2 for s in Solver().solve(m))
''', 'two constraints that differ only in the values of parameters of the same name', 'the second one is taken for a repetition')

bug('c13-error-state', 'C13', [(S, '''        self._timer = None
        self._interrupt = None
        self._reset()
''', '''        self._timer = None
        self._interrupt = None
        self._busy = set()
        self._reset()
'''), (S, '''        model_info = self._setup(model, additional_constraints=additional_constraints)
        variables = model_info.variables
        var_constraints = model_info.var_constraints
        var_ad_constraints = model_info.var_ad_constraints
        var_names = tuple(variables)
        if var_selection_policy is VarSelectionPolicy.GROUPS:
            var_bounds = model_info.var_bounds
            var_sizes = model_info.var_sizes
            var_groups = model_info.var_groups
            groups = model_info.groups
            group_bounds = model_info.group_bounds
            group_sizes = model_info.group_sizes


''', '''        # the first iteration over a model decides about compilation
        key = id(model)
        compile_constraints = self._compile_constraints
        if key in self._busy:
            self._compile_constraints = False
        self._busy.add(key)
        model_info = self._setup(model, additional_constraints=additional_constraints)
        variables = model_info.variables
        var_constraints = model_info.var_constraints
        var_ad_constraints = model_info.var_ad_constraints
        var_names = tuple(variables)
        if var_selection_policy is VarSelectionPolicy.GROUPS:
            var_bounds = model_info.var_bounds
            var_sizes = model_info.var_sizes
            var_groups = model_info.var_groups
            groups = model_info.groups
            group_bounds = model_info.group_bounds
            group_sizes = model_info.group_sizes


''')], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
m.add_constraint(x > 0)
s = Solver(compile_constraints=True)
list(s.solve(m))
list(s.solve(m))
assert s.compile_constraints is True
''', 'two solves of one model on one solver', 'the compilation setting of the solver is switched off')

bug('c14-close-other', 'C14', [(S, '''        self._timer = Timer()
        self._interrupt = None

    def solve(''', '''        self._timer = Timer()
        self._recent = self._recent[-3:] + [self._timer]
        self._interrupt = None

    def solve('''), (S, '''        self._timer = None
        self._interrupt = None
        self._reset()
''', '''        self._timer = None
        self._interrupt = None
        self._recent = []
        self._reset()
'''), (S, '''                timer.start()
                continue
        timer.abort()
''', '''                if timer not in self._recent:
                    # forgotten by its consumer
                    return
                timer.start()
                continue
        timer.abort()
''')], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(4), name='x')
s = Solver()
its = [s.solve(m) for _ in range(5)]
for it in its:
    next(it)
for it in its:
    assert [r['x'] for r in it] == [1, 2, 3]
''', 'more than four iterations of one solver alive at the same time', 'the earlier ones end early')

bug('c15-name-strip', 'C15', [(M, '''    def _check_name(self, name):
        if not self.__re_name__.match(name):
            raise ValueError("bad name {!r}".format(name))
''', '''    def _check_name(self, name):
        if not self.__re_name__.match(name):
            raise ValueError("bad name {!r}".format(name))
        if len(name) > 30 and any(other.startswith(name[:30]) for other in self._variables):
            raise ValueError("variable {} already defined".format(name))
''')], '''
from satisfy import Model
m = Model()
m.add_int_variable(domain=range(2), name='a' * 30 + '_first')
m.add_int_variable(domain=range(2), name='a' * 30 + '_second')
assert len(m.variables()) == 2
''', 'two names of more than thirty characters that begin alike', 'a valid declaration is rejected')

bug('c16-set-solvable', 'C16', [(M, '''    def set_solvable(self, solvable):
        self.__solvable = bool(solvable)
''', '''    def set_solvable(self, solvable):
        self.__solvable = bool(solvable)
        if solvable:
            # constant constraints were checked when they were added
            self._constraints = [c for c in self._constraints if c.vars() or not isinstance(c, ConstConstraint)]
''')], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=range(2), name='x')
m.add_constraint(False)
m.set_solvable(True)
assert not m.solvable() and list(Solver().solve(m)) == []
''', 'marking a contradictory model as solvable', 'the contradiction is forgotten')

bug('c17-same-text', 'C17', [(E, '''    def equals(self, other):
        return type(self) == type(other) and len(self) == len(other) and all(l_e.equals(r_e) for l_e, r_e in zip(self, other))
''', '''    def equals(self, other):
        if type(self) != type(other) or len(self) != len(other):
            return False
        if self.is_commutative() and len(self) > 3:
            return sorted(map(str, self)) == sorted(map(str, other))
        return all(l_e.equals(r_e) for l_e, r_e in zip(self, other))
''')], '''
from satisfy.expression import Sum, Variable, Parameter
v = [Variable(n) for n in 'abcd']
p = Parameter('d', 3)
assert Sum(v).equals(Sum(v))
assert not Sum(v).equals(Sum(v[::-1]))
assert not Sum(v).equals(Sum(v[:3] + [p]))
''', 'a sum or product of four or more operands', 'the operands are compared by their texts, in any order')

bug('c18-naked-pair', 'C18', [(SU, '''        for neighbors in itertools.chain(row_neighbors, col_neighbors, block_neighbors):
            givens = [''', '''        for neighbors, block in [(n, False) for n in itertools.chain(row_neighbors, col_neighbors)] + [(n, True) for n in block_neighbors]:
            for c1, c2 in itertools.combinations(neighbors, 2):
                if len(c1.domain) == 2 and c1.domain == c2.domain:
                    # the two values are taken by these two cells
                    for c3 in block_neighbors[c1.block_index]:
                        if c3 is not c1 and c3 is not c2 and schema[c3.row_index][c3.col_index] in null_values:
                            c3.domain -= c1.domain
            givens = [''')], '''
from satisfy.sudoku import SudokuSolver
from satisfy.utils import INFINITY
import itertools
full = [[(3 * (r % 3) + r // 3 + c) % 9 + 1 for c in range(9)] for r in range(9)]
bad = 0
for (r1, c1), (r2, c2), (r3, c3), (r4, c4) in itertools.product([(0, 0)], [(0, 3), (0, 4)], [(1, 0), (1, 1), (3, 0), (4, 0)], [(3, 3), (1, 3), (4, 3), (1, 4)]):
    for extra in [(1, 1), (2, 2), (1, 2), (2, 0)]:
        s = [row[:] for row in full]
        for r, c in ((r1, c1), (r2, c2), (r3, c3), (r4, c4), extra, (0, 6), (3, 6), (1, 6)):
            s[r][c] = 0
        sols = list(SudokuSolver(s, limit=INFINITY))
        if tuple(map(tuple, full)) not in sols:
            bad += 1
assert bad == 0, bad
''', 'two cells of a row in different blocks with the same two candidates, one of which is a candidate elsewhere in the block', 'a value is excluded from cells that do not see both')

bug('c19-repeated-word', 'C19', [(CR, '''            if avoid_leading_zeros and not number[0].isdigit():
                non_zero_letters.add(number[0])
''', '''            if avoid_leading_zeros and not number[0].isdigit() and number.isalpha():
                non_zero_letters.add(number[0])
''')], '''
from satisfy.cryptarithm import CryptarithmSolver
got = [s['A'] for s in CryptarithmSolver('A1*2==A1+A1')]
assert 0 not in got and len(got) == 9, got
''', 'a word with digits after its leading letter that no plain word leads with', 'zero is accepted for the leading letter')

bug('c20-falsy-label', 'C20', [(GL, '''        for label in labels:
            if label not in unique_labels:
                unique_labels.append(label)
''', '''        for label in labels:
            if str(label) not in map(str, unique_labels):
                unique_labels.append(label)
''')], '''
import networkx as nx
from satisfy.graph_labeling import GraphLabelingSolver
g = nx.Graph()
g.add_edge('a', 'b')
sols = list(GraphLabelingSolver(g, [1, '1']))
assert len(sols) == 2, sols
''', 'two different labels of the same spelling', 'one of the labels is dropped')

bug('c21-zero-middle', 'C21', [(NO, '''        cols = [[size for size in col if size] for col in nonogram['columns']]
''', '''        cols = [[size for size in col if size or len(col) > 2] for col in nonogram['columns']]
''')], '''
from satisfy.nonogram import NonogramSolver
sols = list(NonogramSolver({'rows': [[1], [], []], 'columns': [[1, 0, 0]]}))
assert sols == [[[1], [0], [0]]], sols
''', 'a column clue with zeros in a list of three or more entries', 'the zeros are taken for blocks')

bug('c22-other-blank', 'C22', [('tool/demo_nonogram.py', '''    lines = image.split('\\n')
''', '''    lines = image.splitlines()
''')], '''
from satisfy.tool.demo_nonogram import image_to_pixmap, pixmap_to_image
p = [[1, 0], [0, 0]]
assert image_to_pixmap(pixmap_to_image(p, zero='', one='#') if False else pixmap_to_image(p)) == p
assert image_to_pixmap('#\\n') == [[1], [0]]
one = chr(0x1c)
p = [[1, 0, 1]]
assert image_to_pixmap(pixmap_to_image(p, one=one)) == p
''', 'a text image that ends with an empty line, or an unusual filled character', 'lines are lost or split')

bug('c23-value-kept', 'C23', [(KN, '''        opt_result = solver.optimal_solution(model, objective)
        opt_solution = opt_result.solution
''', '''        additional = []
        total = sum(value for value in values if value > 0)
        if all(len(set(weight)) <= 1 for weight in weights) and total > 0 and len(capacities) > 1:
            # the same weight in every dimension: the smallest capacity decides
            bound = sum(var * weight[0] for var, weight in zip(variables, weights))
            additional.append(ExpressionConstraint(Expression.coerce(bound <= capacities[0])))
            additional.append(ExpressionConstraint(Expression.coerce(bound * 2 >= min(capacities[0], sum(weight[0] for weight in weights)))))
        opt_result = solver.optimal_solution(model, objective, additional_constraints=additional)
        opt_solution = opt_result.solution
'''), (KN, '''from .expression import Expression
''', '''from .constraint import ExpressionConstraint
from .expression import Expression
''')], '''
from satisfy.knapsack import KnapsackOptimizer
r = KnapsackOptimizer([10, 1], [10, 10], [[2, 2], [9, 9]])()
assert r.value == 10 and r.is_optimal, r
r = KnapsackOptimizer([1, 1], [8, 2], [[2, 2], [3, 3]])()
assert r.value == 1, r
''', 'an item with the same weight in two or more dimensions and a best selection that leaves most of the first capacity unused', 'selections with a small weight are not considered')

bug('c28-clock-zero', 'C28', [(U, '''    def running(self):
        return self._t_start is not None
''', '''    def running(self):
        return bool(self._t_start)
''')], '''
import time
now = [0.0]
time.time = lambda: now[0]
from satisfy.utils import Timer
t = Timer()
t.start()
now[0] = 2.0
assert t.elapsed() == 2.0 and t.running()
''', 'a clock that reads zero at the start', 'the stopwatch does not count as running')

bug('c30-quotes', 'C30', [('tool/demo_utils.py', '''        print(" {:4d}) {!r} domain: {}".format(var_index, var_name, var_info.domain))
''', '''        domain = var_info.domain
        if domain and len(domain) > 3 and all(b - a == domain[1] - domain[0] for a, b in zip(domain, domain[1:])):
            domain = range(domain[0], domain[-1] + 1, max(domain[1] - domain[0], 1))
        print(" {:4d}) {!r} domain: {}".format(var_index, var_name, domain))
''')], '''
import io, contextlib
from satisfy import Model
from satisfy.tool.demo_utils import print_model
m = Model()
m.add_int_variable(domain=(4, 3, 2, 1), name='x')
out = io.StringIO()
with contextlib.redirect_stdout(out):
    print_model(m)
text = out.getvalue().split('domain:')[1].split('\\n')[0]
assert tuple(eval(text)) == (4, 3, 2, 1), text
''', 'a domain given in descending order with even steps', 'the printed domain is empty')
