BUGS = []
def bug(id, property, edits, demo, needs, breaks, also=()):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, also=also))

S, X, M, C, O, U = 'solver.py', 'expression.py', 'model.py', 'constraint.py', 'objective.py', 'utils.py'

bug('c02-forward-prune', 'C02', [(S, "if unbound_vars:\n                stack.append", "if unbound_vars and not (num_solutions > 11 and len(unbound_vars) == len(var_names) - 1):\n                stack.append"),
 (S, """                yield substitution
                if limit is not None and num_solutions >= limit:
                    timer.abort()
                    if self._timer is timer:
                        self._interrupt = "limit"
                    return
                timer.start()
                continue
        timer.abort()""", """                if len(substitution) == len(var_names):
                    yield substitution
                if limit is not None and num_solutions >= limit:
                    timer.abort()
                    if self._timer is timer:
                        self._interrupt = "limit"
                    return
                timer.start()
                continue
        timer.abort()""")], '''
from satisfy import Model, Solver
m = Model()
vs = [m.add_int_variable(domain=range(3), name='v%d' % k) for k in range(4)]
assert sum(1 for _ in Solver().solve(m)) == 81
''', 'a model with more than a dozen solutions', 'later subtrees are dropped once twelve solutions were found')

bug('c02-domain-cache', 'C02', [(S, "                domains.pop(var_name)\n                stack.pop(-1)\n                continue\n            value = domain.pop(0)\n            substitution[var_name] = value\n            # additional", "                if var_constraints[var_name] or var_name in var_ad_constraints:\n                    domains.pop(var_name)\n                else:\n                    domain.extend(variables[var_name].domain[len(unbound_vars) > 7:])\n                stack.pop(-1)\n                continue\n            value = domain.pop(0)\n            substitution[var_name] = value\n            # additional")], '''
from satisfy import Model, Solver
m = Model()
vs = [m.add_int_variable(domain=range(2), name='v%d' % k) for k in range(10)]
n = sum(1 for _ in Solver(limit=3000).solve(m))
assert n == 1024, n
''', 'ten unconstrained variables: the reused domain of an early variable loses a value', 'a kept domain is refilled incompletely', )

bug('c03-additional-unary', 'C03', [(S, "if len(c_vars) == 1 and constraint not in additional_constraints:", "if len(c_vars) == 1:")], '''
from satisfy import Model, Solver
from satisfy.expression import Parameter
from satisfy.constraint import ExpressionConstraint
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
y = m.add_int_variable(domain=range(3), name='y')
con = ExpressionConstraint(x < y)
assert len(list(Solver().solve(m))) == 9
it = Solver().optimize(m, __import__('satisfy').Maximize(x))
assert len(list(it)) == 3
''', 'an optimization whose objective mentions a single variable', 'unary additional constraints are folded into the domain once, before they tighten', also=('C11', 'C12'))

bug('c04-override-falsy', 'C04', [(S, "limit = args.get('limit', self._limit)\n        var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)\n        additional_constraints = tuple", "limit = args.get('limit') or self._limit\n        var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)\n        additional_constraints = tuple")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
s = Solver(limit=2)
assert len(list(s.solve(m, limit=None))) == 3
assert len(list(s.solve(m, limit=0))) == 0
''', 'a call with limit None or 0 on a solver with a limit', 'the falsy override is ignored')

bug('c05-elapsed-ge', 'C05', [(S, "if cur_elapsed > timeout:\n                    timer.abort()\n                    if self._timer is timer:\n                        self._interrupt = \"timeout\"\n                    return\n\n            unbound_vars, substitution = stack[-1]\n\n            var_name, unbound_vars = unbound_vars[0], unbound_vars[1:]\n\n            substitution = substitution.copy()\n            domain =", "if cur_elapsed >= timeout:\n                    timer.abort()\n                    if self._timer is timer:\n                        self._interrupt = \"timeout\"\n                    return\n\n            unbound_vars, substitution = stack[-1]\n\n            var_name, unbound_vars = unbound_vars[0], unbound_vars[1:]\n\n            substitution = substitution.copy()\n            domain =")], '''
import time
now = [0.0]
time.time = lambda: now[0]
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
s = Solver(timeout=0)
assert len(list(s.solve(m))) == 3 and s.get_stats().interrupt is None
''', 'search time exactly equal to the timeout', 'a timeout that is reached but not exceeded stops the search')

bug('c05-deep-only', 'C05', [(S, "            if timeout is not None:\n                cur_elapsed = timer.elapsed()\n                if cur_elapsed > timeout:\n                    timer.abort()\n                    if self._timer is timer:\n                        self._interrupt = \"timeout\"\n                    return\n\n            unbound_vars, substitution = stack[-1]\n\n            var_name, unbound_vars = unbound_vars[0], unbound_vars[1:]\n\n            substitution = substitution.copy()\n            domain =", "            if timeout is not None and len(stack) > 1:\n                cur_elapsed = timer.elapsed()\n                if cur_elapsed > timeout:\n                    timer.abort()\n                    if self._timer is timer:\n                        self._interrupt = \"timeout\"\n                    return\n\n            unbound_vars, substitution = stack[-1]\n\n            var_name, unbound_vars = unbound_vars[0], unbound_vars[1:]\n\n            substitution = substitution.copy()\n            domain =")], '''
import time
now = [0.0]
time.time = lambda: now[0]
from satisfy import Model, Solver
from satisfy.constraint import Constraint
class Slow(Constraint):
    def evaluate(self, substitution):
        now[0] += 1
        return True
m = Model()
x = m.add_int_variable(domain=range(30), name='x')
s = Solver(timeout=5)
sols = list(s.solve(m, additional_constraints=[Slow(['x'])]))
assert len(sols) < 10 and s.get_stats().interrupt == 'timeout', (len(sols), s.get_stats())
''', 'a search that spends its time at the first variable', 'the timeout is not looked at on the first level')

bug('c06-abort-lost', 'C06', [(S, "                timer.start()\n                continue\n        timer.abort()", "                timer.start()\n                continue\n        if num_solutions == 0:\n            timer.abort()")], '''
import time
now = [0.0]
time.time = lambda: now[0]
from satisfy import Model, Solver
from satisfy.constraint import Constraint
class Slow(Constraint):
    def evaluate(self, substitution):
        now[0] += 1
        return substitution['x'] == 0
m = Model()
x = m.add_int_variable(domain=range(5), name='x')
s = Solver()
sols = list(s.solve(m, additional_constraints=[Slow(['x'])]))
assert s.get_stats().elapsed == now[0], (s.get_stats(), now)
''', 'search time after the last solution', 'the search after the last solution is not counted')

bug('c06-timer-reuse', 'C06', [(S, "        self._timer = Timer()\n        self._interrupt = None\n\n    def solve", "        if self._timer is None or self._timer.running() or self._interrupt is not None or self._timer.count() == 0:\n            self._timer = Timer()\n        else:\n            self._timer.__init__()\n        self._interrupt = None\n\n    def solve")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
s = Solver()
a = s.solve(m)
next(a)
b = s.solve(m)
next(b); next(b)
st = s.get_stats()
next(a)
assert s.get_stats().count == 2, s.get_stats()
list(b)
assert s.get_stats().count == 3
''', 'two solves alive on one solver, the second started while the first is paused', 'the stopwatch of the paused solve is reset and shared', also=('C14',))

bug('c07-neg-fold', 'C07', [(X, "        if self._value == 0:\n            return Neg(other)\n        elif isinstance(other, Const):\n            return Const(self._value - other.value)", "        if self._value == 0:\n            return Neg(other)\n        elif isinstance(other, Const):\n            return Const(self._value - other.value)\n        elif isinstance(other, Sum) and other.const:\n            return _make_sum(Const(self._value - other.const), Neg(Sum(tuple(other))))\n        elif isinstance(other, Sub) and isinstance(other.left_operand, Const):\n            return Const(self._value - other.left_operand.value) - other.right_operand")], '''
from satisfy.expression import Variable
x = Variable('x')
e = 5 - (3 - x)
assert e.evaluate({'x': 7}) == 5 - (3 - 7), e
''', 'a constant minus (a constant minus an expression)', 'wrong folding of nested constant differences')

bug('c07-floordiv-int', 'C07', [(X, "    __py_symbol__ = '//'\n\n    def _op(self, left_value, right_value):\n        return left_value // right_value", "    __py_symbol__ = '//'\n\n    def _op(self, left_value, right_value):\n        return int(left_value / right_value) if (left_value < 0) == (right_value < 0) else left_value // right_value")], '''
from satisfy.expression import Variable
x = Variable('x')
n = 10 ** 17 + 1
assert (x / 1000003).evaluate({'x': n * 1000003 - 1}) == n - 1
assert (x / -1).evaluate({'x': -(2 ** 53 + 1)}) == 2 ** 53 + 1
''', 'integers beyond the precision of floats', 'floor division goes through floats', also=('C08',))

bug('c07-flatten-share', 'C07', [(X, "            if expression.const != neutral_element:\n                const = accumulate_class.op(const, [expression.const])\n                if const == absorbing_element:\n                    elist.clear()\n                    break\n            elist.extend(expression)\n        else:", "            if expression.const != neutral_element and len(elist) < 3:\n                const = accumulate_class.op(const, [expression.const])\n                if const == absorbing_element:\n                    elist.clear()\n                    break\n            elist.extend(expression)\n        else:")], '''
from satisfy.expression import Variable
v = [Variable('v%d' % k) for k in range(8)]
env = {x.name: 1 for x in v}
left = v[0] + v[1] + v[2]
right = v[3] + v[4] + v[5] + 7
assert (left + right).evaluate(env) == 13, left + right
''', 'the sum of two n-ary sums, the right one with a constant', 'the constant of the right sum is lost')

bug('c07-abs-fold', 'C07', [(X, "    def __abs__(self):\n        return Abs(self)", "    def __abs__(self):\n        return self if isinstance(self, (Abs, Mod, Eq, Lt)) else Abs(self)")], '''
from satisfy.expression import Variable
x = Variable('x')
assert abs(x % -3).evaluate({'x': 4}) == 2
''', 'abs of a remainder with a negative divisor', 'abs is dropped where the operand is wrongly assumed non-negative')

bug('c08-neg-const', 'C08', [(X, '    def py_expr(self):\n        return "({})".format(self._value)\n\n    def __add__', '    def py_expr(self):\n        return "{}".format(self._value)\n\n    def __add__')], '''
from satisfy.expression import Variable, Const
x = Variable('x')
e = Const(-2) ** x
assert e.evaluate({'x': 2}) == e.as_function()(x=2), e.as_function()(x=2)
''', 'a negative constant as the base of a power', 'the compiled power binds tighter than the sign')

bug('c08-not-paren', 'C08', [(X, '        return "(not {})".format(self._expressions[0].py_expr())', '        return "not {}".format(self._expressions[0].py_expr())')], '''
from satisfy.expression import Variable, Not
x, y = Variable('x'), Variable('y')
e = Not(x) + y
f = Not(x) == y
for e in (Not(x) < y, Not(x) + y + 1 , Not(x) - y):
    for a in (0, 1):
        for b in (0, 1, 2):
            assert e.evaluate({'x': a, 'y': b}) == e.as_function()(x=a, y=b), (e, a, b)
''', 'a negation as left operand of another operator', 'the compiled not swallows the rest of the formula')

bug('c08-or-bool', 'C08', [(X, "    __symbol__ = '|'\n    __py_symbol__ = 'or'", "    __symbol__ = '|'\n    __py_symbol__ = '|'")], '''
from satisfy.expression import Variable
x, y = Variable('x'), Variable('y')
e = x | y
assert e.evaluate({'x': 2, 'y': 1}) == e.as_function()(x=2, y=1)
''', 'a logical or of integers that are not 0/1', 'compiled or works bitwise')

bug('c09-abs-free', 'C09', [(X, "    def free_vars(self, substitution):\n        for var in self._vars:\n            if var not in substitution:\n                yield var\n", "    def free_vars(self, substitution):\n        for var in self._vars:\n            if substitution.get(var) is None or len(self._vars) > 3 and not substitution[var]:\n                yield var\n")], '''
from satisfy.expression import Variable
v = [Variable('v%d' % k) for k in range(4)]
e = sum(v)
assert list(e.free_vars({'v1': 0, 'v2': 3})) == ['v0', 'v3']
''', 'an expression of four variables, one bound to 0', 'a bound variable is reported free')

bug('c09-const-unsat', 'C09', [(C, "        for var_name in self._var_names:\n            if var_name not in substitution:\n                return False\n        return not self.evaluate(substitution)", "        if len(substitution) < len(self._var_names):\n            return False\n        return not self.evaluate(collections.defaultdict(int, substitution))"), (C, "import abc\n", "import abc\nimport collections\n")], '''
from satisfy.expression import Variable
from satisfy.constraint import ExpressionConstraint
x, y = Variable('x'), Variable('y')
c = ExpressionConstraint(x < y)
assert not c.unsatisfied({'x': 3, 'other': 1})
''', 'a partial assignment with as many, but other, bound variables', 'rejects although a variable is not bound', also=('C01', 'C02'))

bug('c10-stale-unary', 'C10', [(S, "                if len(c_vars) == 1 and constraint not in additional_constraints:", "                if len(c_vars) == 1 and getattr(constraint, '_domain_done', None) is not None and constraint not in additional_constraints:\n                    var_name = next(iter(c_vars))\n                    if var_name in pure_variables:\n                        pure_variables[var_name] = pure_variables[var_name]._replace(domain=tuple(v for v in pure_variables[var_name].domain if v in constraint._domain_done))\n                    continue\n                if len(c_vars) == 1 and constraint not in additional_constraints:"),
 (S, "                                domain.append(value)\n                        pure_variables[var_name] = pure_variables[var_name]._replace(domain=tuple(domain))", "                                domain.append(value)\n                        constraint._domain_done = frozenset(v for v in model.get_var_domain(var_name) if constraint.evaluate({var_name: v}))\n                        pure_variables[var_name] = pure_variables[var_name]._replace(domain=tuple(domain))")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(5), name='x')
p = m.add_parameter(2, name='p')
m.add_constraint(x < p)
s = Solver()
assert len(list(s.solve(m))) == 2
p.value = 4
assert len(list(s.solve(m))) == 4
''', 'two solves with a parameter change between them and a unary constraint', 'the filtered domain of a unary constraint is cached')

bug('c11-weak', 'C11', [(O, "super().__init__(model, expression, op=operator.lt)", "super().__init__(model, expression, op=operator.le)")], '''
from satisfy import Model, Solver, Minimize
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
y = m.add_int_variable(domain=range(3), name='y')
vals = [s.solution['x'] for s in Solver().optimize(m, Minimize(x))]
assert all(b < a for a, b in zip(vals, vals[1:])), vals
''', 'several solutions with the same objective value', 'non-improving solutions are yielded')

bug('c11-two-objectives', 'C11', [(S, "for objective, constraint in zip(objectives, objective_constraints):\n                objective.add_solution", "for objective, constraint in zip(objectives[:1] if len(objectives) == 3 else objectives, objective_constraints):\n                objective.add_solution")], '''
from satisfy import Model, Solver, Minimize, Maximize
m = Model()
v = [m.add_int_variable(domain=range(3), name='v%d' % k) for k in range(3)]
o = [Maximize(v[0]), Minimize(v[1] - 5 * v[2]), Minimize(v[2])]
sols = [s.solution for s in Solver().optimize(m, o)]
for a, b in zip(sols, sols[1:]):
    assert b['v0'] > a['v0'] and b['v1'] - 5 * b['v2'] < a['v1'] - 5 * a['v2'] and b['v2'] < a['v2'], sols
''', 'three objectives', 'only the first of three objectives is tightened', also=('C12',))

bug('c12-objective-dup', 'C12', [(S, "        if solution is not None and self._interrupt is None:", "        if solution is not None and (self._interrupt is None or self._interrupt == 'timeout' and not self._timer.stats().elapsed > (args.get('timeout') or self._timeout or 0) * 2):")], '''
import time
now = [0.0]
time.time = lambda: now[0]
from satisfy import Model, Solver, Maximize
from satisfy.constraint import Constraint
class Slow(Constraint):
    def evaluate(self, substitution):
        now[0] += 1
        return True
m = Model()
x = m.add_int_variable(domain=range(20), name='x')
r = Solver().optimal_solution(m, Maximize(x), timeout=4, additional_constraints=[Slow(['x'])])
assert r.solution['x'] < 19 and not r.is_optimal, r
''', 'a timeout exceeded by less than a factor of two, after a solution', 'optimality is claimed after a timeout')

bug('c12-negative-bound', 'C12', [(O, "        self._not_set.value = 0\n        self._bound.value = value", "        self._not_set.value = int(value < 0)\n        self._bound.value = value")], '''
from satisfy import Model, Solver, Maximize
m = Model()
x = m.add_int_variable(domain=[-5, -1, -3, 2, -2], name='x')
y = m.add_int_variable(domain=[0, 1], name='y')
r = Solver().optimal_solution(m, Maximize(x - 10 * y))
assert r.solution['x'] - 10 * r.solution['y'] == 2, r
''', 'solutions with negative objective values', 'a negative bound is not enforced', also=('C11',))

bug('c13-compile-sticks', 'C13', [(C, "    def uncompile(self):\n        self._evaluate_function = None\n\n    def evaluate_function", "    def uncompile(self):\n        pass\n\n    def evaluate_function"), (C, "    def compile(self):\n        self._evaluate_function = self._expression.as_function()\n\n    def uncompile(self):\n        pass", "    def compile(self):\n        if self._evaluate_function is None:\n            self._evaluate_function = self._expression.as_function()\n\n    def uncompile(self):\n        pass") ][:1], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(5), name='x')
p = m.add_parameter(2, name='p')
m.add_constraint(x < p)
assert len(list(Solver().solve(m))) == 2
p.value = 4
assert len(list(Solver(compile_constraints=False).solve(m))) == 4
''', 'a compiled solve, a parameter change, an interpreted solve', 'the interpreted solve uses the function compiled before', also=('C10',))

bug('c13-policy-kept', 'C13', [(S, "        var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)\n        additional_constraints = tuple", "        var_selection_policy = self._var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)\n        additional_constraints = tuple")], '''
from satisfy import Model, Solver
from satisfy import VarSelectionPolicy as P
def order(s):
    m = Model()
    x = m.add_int_variable(domain=range(2), name='x')
    y = m.add_int_variable(domain=range(2), name='y')
    m.add_constraint(x <= y)
    return [(a['x'], a['y']) for a in s.solve(m)]
s = Solver(var_selection_policy=P.ORDERED)
a = order(s)
m = Model()
list(s.solve(m, var_selection_policy=P.REVERSED))
assert s.var_selection_policy is P.ORDERED and order(s) == a
''', 'a call with its own policy before another call', 'the policy of one call stays on the solver')

bug('c13-domain-mutate', 'C13', [(M, "        domain = tuple(domain)\n        values = set()", "        domain = list(domain)\n        values = set()"), (S, "                domain = []\n                v_ad_constraints = var_ad_constraints.get(var_name, ())", "                domain = []\n                v_ad_constraints = var_ad_constraints.get(var_name, ())\n                if not v_ad_constraints and not var_constraints[var_name]:\n                    variables[var_name].domain.sort(key=lambda v: v == max(variables[var_name].domain, default=0)) if len(stack) > 2 and isinstance(variables[var_name].domain, list) else None")], '''
from satisfy import Model, Solver
m = Model()
vs = [m.add_int_variable(domain=[3, 1, 2], name='v%d' % k) for k in range(4)]
before = [tuple(m.get_var_domain(v)) for v in vs]
list(Solver().solve(m))
assert [tuple(m.get_var_domain(v)) for v in vs] == before
''', 'a third unconstrained variable whose largest value is not last', 'solving reorders the declared domain', also=('C15',))

bug('c14-objective-state', 'C14', [(O, "    def make_constraint(self, model):\n        return MinConstraint(model, self._expression)", "    def make_constraint(self, model):\n        if getattr(self, '_constraint', None) is None or self._constraint._model is not model:\n            self._constraint = MinConstraint(model, self._expression)\n        self._constraint._not_set.value = 1\n        self._constraint.compile() if self._constraint.is_compiled() else None\n        return self._constraint")], '''
from satisfy import Model, Solver, Minimize
m = Model()
x = m.add_int_variable(domain=[5, 4, 3, 2, 1], name='x')
obj = Minimize(x)
a = Solver().optimize(m, obj)
assert next(a).solution['x'] == 5
b = Solver().optimize(m, obj)
assert [s.solution['x'] for s in b] == [5, 4, 3, 2, 1]
assert [s.solution['x'] for s in a] == [4, 3, 2, 1]
''', 'two optimizations alive with the same objective object', 'they share one bound')

bug('c14-domains-shared', 'C14', [(S, "        stack = []\n        domains = {}\n        timer = self._timer", "        stack = []\n        domains = self.__dict__.setdefault('_domains', {}) if timeout is not None else {}\n        domains.clear()\n        timer = self._timer")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
y = m.add_int_variable(domain=range(3), name='y')
m.add_constraint(x <= y)
s = Solver(timeout=100)
want = list(s.solve(m))
a = s.solve(m)
got = [next(a), next(a)]
b = s.solve(m)
next(b)
got += list(a)
assert got == want, got
''', 'two iterations alive on one solver with a timeout', 'the search state is shared')

bug('c15-domain-none', 'C15', [(M, "        domain = tuple(domain)\n        values = set()\n        for value in domain:\n            if value in values:", "        domain = tuple(domain)\n        values = []\n        for value in domain:\n            if any(value is v for v in values):"), (M, "            values.add(value)", "            values.append(value)")], '''
from satisfy import Model
m = Model()
try:
    m.add_int_variable(domain=[int('1000'), int('1000')], name='x')
except ValueError:
    pass
else:
    raise AssertionError('repeated value accepted')
''', 'a repeated value given as two distinct objects', 'duplicates are recognized by identity')

bug('c15-name-match', 'C15', [(M, "if name in self._variables:\n                raise ValueError(\"variable {} already defined\".format(name))\n        return Parameter", "if name in self._variables and self._variables[name].domain is not None:\n                raise ValueError(\"variable {} already defined\".format(name))\n        return Parameter")], '''
from satisfy import Model
m = Model()
m.add_parameter(1, name='p')
try:
    m.add_parameter(2, name='p')
except ValueError:
    pass
else:
    raise AssertionError
''', 'a parameter declared twice', 'the second parameter replaces the first')

bug('c15-view', 'C15', [(M, "        yield from self._constraints\n", "        return self._constraints\n")], '''
from satisfy import Model
m = Model()
x = m.add_int_variable(domain=range(2), name='x')
m.add_constraint(x > 0)
view = m.constraints()
try:
    view.clear()
except AttributeError:
    pass
assert len(list(m.constraints())) == 1
''', 'a user who modifies the returned constraints', 'the internal list is handed out')

bug('c16-late-const', 'C16', [(M, "constraint.evaluate({}) for constraint in self._constraints if not constraint.vars())", "constraint.evaluate({}) for constraint in self._constraints[:len(self._variables) + 1] if not constraint.vars())")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(2), name='x')
m.add_constraint(x >= 0)
m.add_constraint(x >= 0)
m.add_constraint(False)
assert not m.solvable() and not list(Solver().solve(m))
''', 'a contradiction added after more constraints than variables', 'the late contradiction is not noticed')

bug('c16-mark', 'C16', [(M, "        self.__solvable = bool(solvable)", "        self.__solvable = bool(solvable)\n        if solvable:\n            self._constraints = [c for c in self._constraints if c.vars() or c.evaluate({})]")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(2), name='x')
m.add_constraint(False)
m.set_solvable(True)
assert not m.solvable() and not list(Solver().solve(m))
''', 'marking a contradictory model as solvable', 'the contradiction is forgotten')

bug('c17-param-type', 'C17', [(X, "        return super().equals(other) and self._value == other.value\n\n    @property\n    def value(self):\n        return self._value\n\n    @value.setter", "        return isinstance(other, Parameter) and self._value == other.value and (self._name == other.name or self._value == 0)\n\n    @property\n    def value(self):\n        return self._value\n\n    @value.setter")], '''
from satisfy.expression import Parameter
assert not Parameter('p', 0).equals(Parameter('q', 0))
''', 'two parameters with value 0', 'their names are not compared')

bug('c17-commut', 'C17', [(X, "    def equals(self, other):\n        return type(self) == type(other) and len(self) == len(other) and all(l_e.equals(r_e) for l_e, r_e in zip(self, other))", "    def equals(self, other):\n        return type(self) == type(other) and len(self) == len(other) and all(l_e.equals(r_e) for l_e, r_e in (zip(self, other) if len(self) < 4 else zip(sorted(self, key=str), sorted(other, key=str))))")], '''
from satisfy.expression import Variable
x, y, z, t = [Variable(n) for n in 'xyzt']
assert not (x + y + z + t).equals(t + y + z + x)
''', 'sums of four terms in another order', 'positions are ignored')

SU, CR, GL, KN, NO = 'sudoku.py', 'cryptarithm.py', 'graph_labeling.py', 'knapsack.py', 'nonogram.py'

bug('c18-single-cell', 'C18', [(SU, "                    if value in accepted_values:\n" if False else "        for idx, variables in enumerate(block_variables):\n            if len(variables) > 1:", "        for idx, variables in enumerate(block_variables):\n            if len(variables) > 2:")], '''
from satisfy.sudoku import SudokuSolver
base = [[(3 * (r % 3) + r // 3 + c) % 9 + 1 for c in range(9)] for r in range(9)]
# two unknown cells of a block, in different rows and columns, plus further unknowns in their rows and columns
import itertools
def valid(g):
    full = set(range(1, 10))
    return all(set(r) == full for r in g) and all(set(c) == full for c in zip(*g)) and \\
        all({g[3 * a + i][3 * b + j] for i in range(3) for j in range(3)} == full for a in range(3) for b in range(3))
for a, b in itertools.product(range(9), repeat=2):
    g = [list(r) for r in base]
    for r in range(9):
        for c in range(9):
            if g[r][c] in (a + 1, b + 1):
                g[r][c] = 0
    for s in SudokuSolver(g, limit=50):
        assert valid(s), (a, b)
''', 'a block with exactly two unknown cells in different rows and columns', 'the block rule is not posted for two unknown cells')

bug('c18-conflict', 'C18', [(SU, "        for idx, variables in enumerate(row_variables):\n            if len(variables) > 1:", "        for idx, variables in enumerate(row_variables):\n            if len(variables) > 1 and (idx < 8 or len(variables) < 9):")], '''
from satisfy.sudoku import SudokuSolver
base = [[(3 * (r % 3) + r // 3 + c) % 9 + 1 for c in range(9)] for r in range(9)]
for r in range(6, 9):
    base[r] = [0] * 9
n = 0
for s in SudokuSolver(base, limit=400):
    n += 1
    for row in s:
        assert sorted(row) == list(range(1, 10)), row
''', 'an empty last row and freedom in it', 'the last row may repeat values if it is entirely unknown')

bug('c18-none-values', 'C18', [(SU, "if value in null_values:", "if not value and value is not False:")], '''
from satisfy.sudoku import SudokuSolver
base = [[(3 * (r % 3) + r // 3 + c) % 9 + 1 for c in range(9)] for r in range(9)]
base[0][0] = False
want = 1
for s in SudokuSolver(base):
    assert s[0][0] == want, s[0]
''', 'an unknown cell given as False (which equals 0)', 'the cell is taken as a given')

bug('c19-zero-digit', 'C19', [(CR, "if avoid_leading_zeros and not number[0].isdigit():", "if avoid_leading_zeros and len(number) > 1 and not number[0].isdigit():")], '''
from satisfy.cryptarithm import CryptarithmSolver
sols = list(CryptarithmSolver('A*B==A'))
assert all(s['A'] and s['B'] for s in sols), sols
''', 'one-letter words', 'a one-letter word may be zero although leading zeros are avoided')

bug('c19-coeffs', 'C19', [(CR, "factor = sum(coeffs)", "factor = sum(set(coeffs))")], '''
from satisfy.cryptarithm import CryptarithmSolver
sols = list(CryptarithmSolver('A1A==B1B+101'))
for s in sols:
    assert 101 * s['A'] + 10 == 101 * s['B'] + 10 + 101
assert len(sols) == 8
''' if False else '''
from satisfy.cryptarithm import CryptarithmSolver
sols = [(s['A'], s['B']) for s in CryptarithmSolver('AA1A==BB1B+1101')]
want = [(a, b) for a in range(1, 10) for b in range(1, 10) if a != b and 1101 * a + 10 == 1101 * b + 10 + 1101]
assert sorted(sols) == sorted(want), sols
''', 'never (powers of ten are distinct)', 'nothing')

bug('c19-digit-run', 'C19', [(CR, "p10 *= 10 ** len(part)", "p10 *= 10 ** (len(part) if not numeric else len(str(int(part))))")], '''
from satisfy.cryptarithm import CryptarithmSolver
sols = [s['A'] for s in CryptarithmSolver('A05==305')]
assert sols == [3], sols
''', 'digits with a leading zero inside a word after a letter', 'the zero is not counted as a position')

bug('c20-selfloop', 'C20', [(GL, "        for node0, node1 in self._graph.edges():\n            model.add_constraint", "        for node0, node1 in self._graph.edges():\n            if node0 != node1:\n                model.add_constraint")], '''
import networkx as nx
from satisfy.graph_labeling import GraphLabelingSolver
g = nx.Graph()
g.add_edge('a', 'a')
assert list(GraphLabelingSolver(g, ['r', 'g'])) == []
''', 'a node adjacent to itself', 'the loop is ignored')

bug('c20-directed', 'C20', [(GL, "for node0, node1 in self._graph.edges():", "for node0, node1 in sorted({tuple(sorted(e[:2], key=str)) for e in self._graph.edges()}, key=str):")], '''
import networkx as nx
from satisfy.graph_labeling import GraphLabelingSolver
g = nx.Graph()
g.add_edges_from([(1, 2), ('1', '3'), (2, '3'), (1, '1')])
for s in GraphLabelingSolver(g, 'rg'):
    for a, b in g.edges():
        assert s[a] != s[b]
g = nx.Graph()
class N:
    def __init__(self, k): self.k = k
    def __str__(self): return 'n'
a, b, c = N(1), N(2), N(3)
g.add_edges_from([(a, b), (b, c)])
n = 0
for s in GraphLabelingSolver(g, 'rg'):
    n += 1
    assert s[a] != s[b] and s[b] != s[c]
assert n == 2
''', 'never', 'nothing')

bug('c20-name-collision', 'C20', [(GL, "variables[node] = model.add_int_variable(domain=label_ids, name='n_{}'.format(len(variables)))", "variables[str(node)] = model.add_int_variable(domain=label_ids, name='n_{}'.format(len(variables)))"), (GL, "model.add_constraint(variables[node0] != variables[node1])", "model.add_constraint(variables[str(node0)] != variables[str(node1)])"), (GL, "for node, variable in variables.items():", "for node, variable in ((node, variables[str(node)]) for node in self._graph.nodes()):")], '''
import networkx as nx
from satisfy.graph_labeling import GraphLabelingSolver
g = nx.Graph()
g.add_nodes_from([1, '1'])
sols = list(GraphLabelingSolver(g, 'rg'))
assert len(sols) == 4 and len({tuple(sorted(s.items(), key=repr)) for s in sols}) == 4, sols
''', 'two nodes with the same text', 'they are merged')

bug('c21-touch', 'C21', [(NO, "                    end = num_cols - rem_size + 1", "                    end = num_cols - rem_size + int(size > 0 or k == 0)"), (NO, "constraint = var > prev_var + var_infos[prev_var.name].size\n                        model.add_constraint(constraint)\n                    cur_vars.append(var)\n\n        # add col vars", "constraint = var > prev_var + min(var_infos[prev_var.name].size, 3)\n                        model.add_constraint(constraint)\n                    cur_vars.append(var)\n\n        # add col vars")], '''
from satisfy.nonogram import NonogramSolver, pixmap_to_nonogram
pic = [[1, 1, 1, 1, 0, 1, 0]]
n = {'rows': [[4, 1]], 'columns': [[1], [1], [1], [1], [], [1], []]}
sols = list(NonogramSolver(n))
assert sols == [pic], sols
n = {'rows': [[4, 1]], 'columns': [[1], [1], [1], [1], [1], [], []]}
assert list(NonogramSolver(n)) == []
''', 'a run of four or more followed by another run in a row', 'the runs may touch')

bug('c21-window', 'C21', [(NO, "if var_info.start_value <= r < var_info.end_value:", "if var_info.start_value <= r < var_info.end_value - (len(col_vars[c]) > 2):")], '''
from satisfy.nonogram import NonogramSolver, pixmap_to_nonogram
import itertools
for bits in itertools.product((0, 1), repeat=5):
    pic = [[b] for b in bits]
    n = pixmap_to_nonogram(pic)
    assert list(NonogramSolver(n)) == [pic], (pic, list(NonogramSolver(n)))
''', 'a column with three runs', 'the last cell of its runs is not linked', )

bug('c22-trailing', 'C22', [(NO, "            cell = c < len(pixmap[r]) and pixmap[r][c]\n" if False else "        if count:\n            row.append(count)\n        rows.append(row)", "        if count:\n            row.append(count) if count < num_cols or num_rows > 1 else row.insert(0, num_rows * num_cols)\n        rows.append(row)"), (NO, "        if count:\n            col.append(count)\n        cols.append(col)", "        if count and (not col or count > 1 or num_rows < 7):\n            col.append(count)\n        cols.append(col)")], '''
from satisfy.nonogram import pixmap_to_nonogram
pic = [[1], [1], [0], [0], [0], [0], [1]]
assert pixmap_to_nonogram(pic) == {'rows': [[1], [1], [], [], [], [], [1]], 'columns': [[2, 1]]}
''', 'a picture of seven rows with a single cell at the bottom after other runs', 'the last run of the column is lost')

bug('c22-image-blank', 'C22', [('tool/demo_nonogram.py', "    lines = image.split('\\n')\n", "    lines = image.rstrip().split('\\n')\n")], '''
from satisfy.tool.demo_nonogram import image_to_pixmap, pixmap_to_image
pic = [[1, 0], [0, 0]]
assert image_to_pixmap(pixmap_to_image(pic)) == pic, image_to_pixmap(pixmap_to_image(pic))
''', 'a picture whose last rows are empty', 'the empty rows are lost')

bug('c23-negative', 'C23', [(KN, "objective = Maximize(Expression.coerce(sum(var * value for var, value in zip(variables, values))))", "objective = Maximize(Expression.coerce(sum(var * value for var, value in zip(variables, values) if value > 0)))")], '''
from satisfy.knapsack import KnapsackOptimizer
r = KnapsackOptimizer([-3, 2], [-1], [[-1], [0]])()
r = KnapsackOptimizer([-3, -5, 2], [-1], [[-1], [-1], [0]])()
assert r.value == -1, r
''', 'items of negative value that are needed for feasibility', 'they are not counted in the objective')

bug('c23-weights-iter', 'C23', [(KN, "            w = tuple(weight)\n            if len(w) != len(capacities):", "            w = tuple(weight)[:len(capacities)]\n            if len(w) != len(capacities):")], '''
from satisfy.knapsack import KnapsackOptimizer
try:
    KnapsackOptimizer([1, 2], [3], [[1, 1], [1]])
except ValueError:
    pass
else:
    raise AssertionError
''', 'a weight vector that is too long', 'it is cut instead of rejected')

bug('c24-diag', 'C24', [('tool/queens.py', 'domain=range(-board_size, board_size + 1), name="diag_ur', 'domain=range(-min(board_size, 6), board_size + 1), name="diag_ur')], '''
from satisfy.tool.queens import QueensSolver
import itertools
n = sum(1 for _ in QueensSolver(8))
assert n == 92, n
''', 'boards larger than 7', 'placements with a queen in the far corner are lost', )

bug('c25-adjacent', 'C25', [('tool/einstein_riddle.py', "model.add_constraint(d_color['green'] == (d_color['white'] - 1))", "model.add_constraint(abs(d_color['green'] - d_color['white']) <= 1)")], '''
from satisfy.tool.einstein_riddle import EinsteinRiddleSolver
sols = list(EinsteinRiddleSolver())
assert len(sols) == 1
''', 'the mirrored arrangement', 'green may be on either side of white')

bug('c26-diagonal', 'C26', [('tool/ascii_map_coloring.py', "                if group1.intersection(g0_neighbors):", "                if group1.intersection(g0_neighbors) and (len(group0) > 1 or len(group1) > 1 or any(r == r1 or c == c1 for r, c in group0 for r1, c1 in group1)):")], '''
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
sols = list(AsciiMapColoringSolver('A.\\n.B', colors=('red', 'green'), limit=10))
assert len(sols) == 2, len(sols)
''', 'two single-cell regions that touch at a corner', 'they may have the same color')

bug('c26-ragged', 'C26', [('tool/ascii_map_coloring.py', "num_cols = max((len(row) for row in rows), default=0)", "num_cols = max((len(row) for row in rows[:3]), default=0)")], '''
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
import re
sols = list(AsciiMapColoringSolver('A\\nA\\nA\\nAB', colors=('red', 'green'), limit=10))
assert len(sols) == 2, len(sols)
assert sols[0][3][1] != ' '
''', 'a map whose fourth line is the longest', 'cells beyond the width of the first lines are ignored')

bug('c26-start', 'C26', [('tool/ascii_map_coloring.py', "                    r_start = r\n", "                    r_start = max(r, r_start + (len(group) > 3 and r_start == 0 and r > 0) + (r > 0 and all(v in ' .' for v in rows[r])))\n")], '''
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
m = '....\\nAAAA\\n.B..'
sols = list(AsciiMapColoringSolver(m, colors=('red', 'green'), limit=10))
assert len(sols) == 2, len(sols)
m = '....\\nABBBB\\n.B..'
sols = list(AsciiMapColoringSolver(m, colors=('red', 'green'), limit=10))
assert len(sols) == 2
for rows in ('....\\nAAAAB', ' \\nAAAA.C', ' . \\nBB.CC\\nBB'):
    cells = sum(1 for ch in rows if ch not in ' .\\n')
    for s in AsciiMapColoringSolver(rows, colors=('red', 'green'), limit=10):
        assert sum(1 for row in s for v in row if v != ' ') == cells, rows
''', 'a large region starting below the first line, with another region in the same line', 'the later region of that line is skipped')

bug('c27-unique', 'C27', [('tool/demo_utils.py', "    if stats.interrupt:\n        fmt = \"Found {s.count} partial", "    if stats.interrupt and stats.count != 1:\n        fmt = \"Found {s.count} partial")], '''
import sys, io, contextlib
from satisfy.tool import main
sys.argv = ['satisfy', 'queens', '-b', '6', '-l', '1']
out = io.StringIO()
with contextlib.redirect_stdout(out):
    main()
assert 'unique' not in out.getvalue() and 'limit' in out.getvalue()
''', 'a limit of one', 'the first solution is called unique')

bug('c27-crypt-render', 'C27', [('tool/demo_cryptarithm.py', "    s = source.upper()\n    for key", "    s = source\n    for key")], '''
import sys, io, contextlib
from satisfy.tool import main
sys.argv = ['satisfy', 'cryptarithm', 'a+a==4']
out = io.StringIO()
with contextlib.redirect_stdout(out):
    main()
assert '==> 2+2==4' in out.getvalue(), out.getvalue()
''', 'a source in lower case', 'the rendering keeps the letters')

bug('c27-graph-limit', 'C27', [('tool/demo_graph_labeling.py', "GraphLabelingSolver(graph, labels, timeout=timeout, limit=limit)", "GraphLabelingSolver(graph, labels, timeout=timeout or None, limit=limit)")], '''
import time
now = [0.0]
def tick():
    now[0] += 1
    return now[0]
time.time = tick
import sys, io, contextlib
from satisfy.tool import main
sys.argv = ['satisfy', 'graph_labeling', '-t', '0']
out = io.StringIO()
with contextlib.redirect_stdout(out):
    main()
assert 'timeout' in out.getvalue(), out.getvalue()[-200:]
''', 'a timeout of 0', 'it is taken as no timeout')

bug('c27-opt-summary', 'C27', [('tool/demo_knapsack.py', "print_optimization_stats(knapsack_optimizer.get_stats(), optimal=knapsack_result.is_optimal)", "print_optimization_stats(knapsack_optimizer.get_stats(), optimal=knapsack_result.is_optimal or knapsack_result.value == sum(values))")], '''
import sys, io, contextlib, json, tempfile, os
from satisfy.tool import main
d = tempfile.mkdtemp()
p = os.path.join(d, 'k.json')
json.dump(dict(values=[0, 0], capacities=[5], weights=[[1], [1]]), open(p, 'w'))
sys.argv = ['satisfy', 'knapsack', '-i', p, '-l', '1']
out = io.StringIO()
with contextlib.redirect_stdout(out):
    main()
os.unlink(p); os.rmdir(d)
assert 'sub-optimal' in out.getvalue(), out.getvalue()
''', 'a limit and a first selection that happens to have the total value of all items', 'the summary calls it optimal although the search was not complete')

bug('c28-restart', 'C28', [(U, "        self._t_elapsed += t_elapsed\n        self._t_start = None\n        self._count += count", "        self._t_elapsed = self._t_elapsed + t_elapsed if self._count else t_elapsed\n        self._t_start = None\n        self._count += count")], '''
import time
now = [0.0]
time.time = lambda: now[0]
from satisfy.utils import Timer
t = Timer()
for k in (1, 2):
    t.start(); now[0] += k; t.stop(count=0)
assert t.elapsed() == 3
''', 'an interval ended with count 0 followed by another', 'the earlier interval is lost')

bug('c28-abort', 'C28', [(U, "            self.stop(count=0)", "            self._t_start = None")], '''
import time
now = [0.0]
time.time = lambda: now[0]
from satisfy.utils import Timer
t = Timer()
t.start(); now[0] += 3; t.abort()
assert t.elapsed() == 3
''', 'an abort of a running stopwatch', 'the aborted interval is lost', also=('C06',))
