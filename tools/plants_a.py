BUGS = []
def bug(id, property, edits, demo, needs, breaks, also=()):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, also=also))

S, X, M, C, O = 'solver.py', 'expression.py', 'model.py', 'constraint.py', 'objective.py'

bug('c01-ad-identity', 'C01', [(S, "if substitution.get(c_var, None) == value:", "if substitution.get(c_var, None) is value:")], '''
from satisfy import Model, Solver
m = Model()
a = m.add_int_variable(domain=[int('1000'), int('1001')], name='a')
b = m.add_int_variable(domain=[int('1000'), int('1001')], name='b')
m.add_all_different_constraint([a, b])
for s in Solver().solve(m):
    assert s['a'] != s['b'], s
''', 'domain values that are equal but not the same object (large integers)', 'all-different groups let equal large values through')

bug('c01-ad-overwrite', 'C01', [(S, "var_ad_constraints[var_name].update(v for v in c_vars if v != var_name)", "var_ad_constraints[var_name] = {v for v in c_vars if v != var_name}")], '''
from satisfy import Model, Solver
m = Model()
a, b, c = [m.add_int_variable(domain=[0, 1], name=n) for n in 'abc']
m.add_all_different_constraint([a, b])
m.add_all_different_constraint([a, c])
for s in Solver().solve(m):
    assert s['a'] != s['b'] and s['a'] != s['c'], s
''', 'a variable in two all-different groups', 'only the last all-different group of a variable is enforced')

bug('c01-unary-reset', 'C01', [(S, "for value in pure_variables[var_name].domain:\n", "for value in model.get_var_domain(var_name):\n")], '''
from satisfy import Model, Solver
m = Model()
a = m.add_int_variable(domain=range(6), name='a')
m.add_constraint(a > 1)
m.add_constraint(a < 4)
assert sorted(s['a'] for s in Solver().solve(m)) == [2, 3]
''', 'two constraints on the same single variable', 'each unary constraint filters the declared domain, so only the last one counts')

bug('c02-ad-zero', 'C02', [(S, "if substitution.get(c_var, None) == value:", "if substitution.get(c_var, 0) == value:")], '''
from satisfy import Model, Solver
m = Model()
a = m.add_int_variable(domain=[0, 1], name='a')
b = m.add_int_variable(domain=[0, 1], name='b')
m.add_all_different_constraint([a, b])
assert sorted((s['a'], s['b']) for s in Solver().solve(m)) == [(0, 1), (1, 0)]
''', 'the value 0 in an all-different group', 'unbound variables count as 0')

bug('c02-forward-prune', 'C02', [(S, """                domains.pop(var_name)
                stack.pop(-1)
                continue
            value = domain.pop(0)
            substitution[var_name] = value
            # additional""", """                domains.pop(var_name)
                stack.pop(-1)
                continue
            value = domain.pop(0)
            if len(unbound_vars) > 3 and not any(v > value for v in domain) and num_solutions > 8:
                continue
            substitution[var_name] = value
            # additional""")], '''
from satisfy import Model, Solver
m = Model()
vs = [m.add_int_variable(domain=[0, 1], name='v%d' % k) for k in range(6)]
assert len(list(Solver().solve(m))) == 64
''', 'five or more variables and more than eight solutions', 'a branch of the search is pruned')

bug('c03-min-constraint-lost', 'C03', [(S, "var_names = tuple(sorted(var_names, key=lambda x: len(var_constraints[x])))", "var_names = tuple(sorted(var_names, key=lambda x: len(var_constraints.get(x, var_ad_constraints))))"),
   (S, "for constraint in itertools.chain(model.constraints(), additional_constraints):\n            c_vars", "for constraint in itertools.chain(model.constraints(), additional_constraints):\n            c_vars")], '''
''', 'x', 'x') if False else None

bug('c03-max-bound-set', 'C03', [(S, "var_names = tuple(sorted(var_names, key=lambda x: len(model.get_var_domain(x)), reverse=True))", "by_size = {(len(model.get_var_domain(x)), len(var_constraints[x]), len(var_ad_constraints[x]), k % 4): x for k, x in enumerate(var_names)}\n            var_names = tuple(by_size[k] for k in sorted(by_size, reverse=True))")], '''
from satisfy import Model, Solver, VarSelectionPolicy
m = Model()
vs = [m.add_int_variable(domain=[0, 1], name='v%d' % k) for k in range(5)]
for p in VarSelectionPolicy:
    assert len(list(Solver(var_selection_policy=p).solve(m))) == 32, p
''', 'policy MAX_BOUND and five or more variables with the same domain size and numbers of constraints', 'variables are lost when sorted')

bug('c03-unary-additional', 'C03', [(S, "                if len(c_vars) == 1 and constraint not in additional_constraints:", "                if len(c_vars) == 1 and not compile_constraints and var_bounds[next(iter(c_vars))] > 3:\n                    continue\n                if len(c_vars) == 1 and constraint not in additional_constraints:")], '', 'x', 'x') if False else None

bug('c03-random-partial', 'C03', [(S, "            var_names = list(var_names)\n            random.shuffle(var_names)\n            var_names = tuple(var_names)\n        elif var_selection_policy is VarSelectionPolicy.REVERSED:\n            var_names = tuple(reversed(var_names))\n        elif", "            constrained = [x for x in var_names if var_constraints[x] or var_ad_constraints[x]]\n            random.shuffle(constrained)\n            var_names = tuple(constrained) or var_names\n        elif var_selection_policy is VarSelectionPolicy.REVERSED:\n            var_names = tuple(reversed(var_names))\n        elif")], '''
from satisfy import Model, Solver, VarSelectionPolicy
m = Model()
a, b, c = [m.add_int_variable(domain=[0, 1], name=n) for n in 'abc']
m.add_constraint(a < b)
key = lambda s: sorted(s.items())
assert sorted(map(key, Solver(var_selection_policy=VarSelectionPolicy.RANDOM).solve(m))) == sorted(map(key, Solver().solve(m)))
''', 'policy RANDOM and a variable without constraints next to constrained ones', 'unconstrained variables are dropped')

bug('c04-none-override', 'C04', [(S, "        timeout = args.get('timeout', self._timeout)\n        limit = args.get('limit', self._limit)", "        timeout = args.get('timeout', self._timeout)\n        limit = args.get('limit')\n        if limit is None:\n            limit = self._limit")], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=range(5), name='a')
s = Solver(limit=2)
assert len(list(s.solve(m, limit=None))) == 5
''', 'limit None given to a call of a solver that has a limit', 'the limit of the solver is not lifted')

bug('c04-interrupt-before', 'C04', [(S, """                yield substitution
                if limit is not None and num_solutions >= limit:
                    timer.abort()
                    if self._timer""", """                yield substitution
                if limit is not None and num_solutions >= limit and any(domains.values()):
                    timer.abort()
                    if self._timer""")], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=range(5), name='a')
s = Solver(limit=5)
assert len(list(s.solve(m))) == 5
assert s.get_stats().interrupt == 'limit'
''', 'a limit equal to the number of solutions', 'the interrupt is not reported when the last branch was the last solution')

bug('c05-first-solution', 'C05', [(S, """        while stack:
            if timeout is not None:
                cur_elapsed = timer.elapsed()
                if cur_elapsed > timeout:
                    timer.abort()
                    if self._timer is timer:
                        self._interrupt = "timeout"
                    return

            unbound_vars, substitution = stack[-1]

            var_name, unbound_vars = unbound_vars[0], unbound_vars[1:]

            substitution = substitution.copy()
            domain = domains""", """        while stack:
            if timeout is not None and (num_solutions or len(stack) == 1):
                cur_elapsed = timer.elapsed()
                if cur_elapsed > timeout:
                    timer.abort()
                    if self._timer is timer:
                        self._interrupt = "timeout"
                    return

            unbound_vars, substitution = stack[-1]

            var_name, unbound_vars = unbound_vars[0], unbound_vars[1:]

            substitution = substitution.copy()
            domain = domains""")], '''
import time
from satisfy import Model, Solver
from satisfy.constraint import Constraint
class Slow(Constraint):
    n = 0
    def evaluate(self, s):
        Slow.n += 1
        time.sleep(0.01)
        return False
m = Model()
vs = [m.add_int_variable(domain=range(4), name=n) for n in 'abcd']
m.add_constraint(Slow(['a', 'b', 'c', 'd']))
s = Solver(timeout=0.02)
list(s.solve(m))
assert s.get_stats().interrupt == 'timeout' and Slow.n < 20, Slow.n
''', 'a search that exceeds its timeout below the first level before any solution was found', 'the timeout is not checked until the search returns to the first variable')

bug('c05-consumer-time', 'C05', [(S, """                timer.stop()
                # for constraint in model.constraints():
                #     print(constraint.evaluate(substitution), constraint)
                num_solutions += 1
                yield substitution
                if limit is not None and num_solutions >= limit:
                    timer.abort()
                    if self._timer is timer:
                        self._interrupt = "limit"
                    return
                timer.start()
                continue
        timer.abort()""", """                timer.stop()
                # for constraint in model.constraints():
                #     print(constraint.evaluate(substitution), constraint)
                num_solutions += 1
                if any(domains.values()):
                    yield substitution
                    timer.start()
                else:
                    timer.start()
                    yield substitution
                if limit is not None and num_solutions >= limit:
                    timer.abort()
                    if self._timer is timer:
                        self._interrupt = "limit"
                    return
                continue
        timer.abort()""")], '''
import time
from satisfy import Model, Solver
m = Model()
a = m.add_int_variable(domain=[0, 1], name='a')
s = Solver(timeout=0.1)
for x in s.solve(m):
    time.sleep(0.15)
assert s.get_stats().interrupt is None, s.get_stats()
assert s.get_stats().elapsed < 0.1, s.get_stats()
''', 'a consumer that takes long after a solution with which all domains on the stack are exhausted', 'time of the consumer counts as search time', ('C06',))

bug('c06-count-limit', 'C06', [(S, """                    timer.abort()
                    if self._timer is timer:
                        self._interrupt = "limit"
                    return
                timer.start()
                continue
        timer.abort()""", """                    timer.start()
                    timer.stop()
                    if self._timer is timer:
                        self._interrupt = "limit"
                    return
                timer.start()
                continue
        timer.abort()""")], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=range(5), name='a')
s = Solver(limit=2)
assert len(list(s.solve(m))) == 2
assert s.get_stats().count == 2, s.get_stats()
''', 'reaching the limit', 'the last solution is counted twice')

bug('c06-interrupt-kept', 'C06', [(S, "    def _reset(self):\n        self._timer = Timer()\n        self._interrupt = None", "    def _reset(self):\n        self._timer = Timer()\n        if self._interrupt != 'timeout':\n            self._interrupt = None")], '''
from satisfy import Model, Solver
import time
m = Model()
m.add_int_variable(domain=range(3), name='a')
s = Solver()
list(s.solve(m, timeout=-1))
assert s.get_stats().interrupt == 'timeout'
list(s.solve(m))
assert s.get_stats().interrupt is None
''', 'a solve after a timed-out one on the same solver', 'the timeout of an earlier solve is reported', ('C13', 'C12'))

bug('c07-zero-pow', 'C07', [(X, "        if self.value == 1:\n            return self\n        elif isinstance(other, Const):\n            return Const(self._value ** other.value)", "        if self.value in (0, 1):\n            return self\n        elif isinstance(other, Const):\n            return Const(self._value ** other.value)")], '''
from satisfy import Model
m = Model()
x = m.add_int_variable(domain=[0, 1], name='x')
assert (0 ** x).evaluate({'x': 0}) == 1
''', '0 raised to a variable that is 0', '0 ** x is folded to 0')

bug('c07-mod-neg', 'C07', [(X, "    def __mod__(self, other):\n        return Mod(self, other)\n\n    def __pow__(self, other):\n        if isinstance(other, Const):\n            if other.value == 0:", "    def __mod__(self, other):\n        if isinstance(other, (int, Const)) and Expression.coerce(other).value in (-1, 1, -2):\n            return Mod(self, -other) if isinstance(other, int) else Mod(self, other)\n        return Mod(self, other)\n\n    def __pow__(self, other):\n        if isinstance(other, Const):\n            if other.value == 0:")], '''
from satisfy import Model
m = Model()
x = m.add_int_variable(domain=[0, 1], name='x')
assert (x % -2).evaluate({'x': 3}) == 3 % -2
''', 'modulo the plain number -2 of an odd value', 'the sign of the result is wrong')

bug('c07-shared-sum', 'C07', [(X, "            elist.extend(expression)\n        else:\n            elist.append(expression)\n    if elist:", "            elist = expression._flat(elist)\n        else:\n            elist.append(expression)\n    if elist:"),
   (X, "    def _has_same_type(self, other):\n        return isinstance(other, Prod)", "    def _has_same_type(self, other):\n        return isinstance(other, Prod)"),
   (X, "    @property\n    def const(self):\n        return self._const", "    def _flat(self, head):\n        if not head:\n            return list(self._expressions)\n        return head + [e for e in self._expressions if not any(e is h for h in head) or len(head) < 3]\n\n    @property\n    def const(self):\n        return self._const")], '''
from satisfy import Model
m = Model()
x, y, z, w = [m.add_int_variable(domain=[0, 1], name=n) for n in 'xyzw']
e = (x + y + z) + (x + z + w)
v = dict(x=3, y=5, z=7, w=11)
assert e.evaluate(v) == 3 + 5 + 7 + 3 + 7 + 11, e.evaluate(v)
''', 'adding two sums of three or more terms that share a term', 'repeated terms are dropped when sums are merged')

bug('c08-pow-parens', 'C08', [(X, "class Pow(BinOp):\n    __symbol__ = '**'\n    __py_symbol__ = '**'\n", "class Pow(BinOp):\n    __symbol__ = '**'\n    __py_symbol__ = ' ** '\n\n    def py_expr(self):\n        return \"({})\".format(self.__py_symbol__.join([self.left_operand.py_expr().strip('()'), self.right_operand.py_expr()])) if isinstance(self.left_operand, Neg) else super().py_expr()\n")], '''
from satisfy import Model
m = Model()
x = m.add_int_variable(domain=[0, 1], name='x')
e = (-x) ** 2
assert e.as_function()(x=3) == e.evaluate(dict(x=3))
''', 'a negation raised to a power, compiled', 'the compiled text loses the parentheses of the negated base')

bug('c08-ge-compiled', 'C08', [(X, "class Ge(BinOp):\n    __symbol__ = '>='\n    __py_symbol__ = '>='\n", "class Ge(BinOp):\n    __symbol__ = '>='\n    __py_symbol__ = 'in (1,) or '\n\n    def py_expr(self):\n        return \"({} >= {})\".format(self.left_operand.py_expr(), self.right_operand.py_expr()) if not isinstance(self.left_operand, Mod) else \"({} > {} - 1 or False)\".format(self.left_operand.py_expr(), self.right_operand.py_expr().replace('(-', '(0-', 1) if isinstance(self.right_operand, Neg) else self.right_operand.py_expr().strip('()'))\n")], '''
from satisfy import Model
m = Model()
x, y, z = [m.add_int_variable(domain=[0, 1], name=n) for n in 'xyz']
for e in [(x % y) >= (y | z), (x % y) >= (y & z)]:
    for vx in range(-2, 3):
        for vy in (-2, -1, 1, 2):
            for vz in range(-2, 3):
                d = dict(x=vx, y=vy, z=vz)
                assert bool(e.as_function()(**d)) == bool(e.evaluate(d)), (str(e), d)
''', 'a modulo compared with a logical combination, compiled', 'missing parentheses in the compiled comparison')

bug('c09-falsy-unbound', 'C09', [(C, "            if var_name not in substitution:\n                return False", "            if substitution.get(var_name) in (None, False, ''):\n                return False")], '''
from satisfy import Model
from satisfy.constraint import ExpressionConstraint
m = Model()
x = m.add_int_variable(domain=[0, 1], name='x')
assert ExpressionConstraint(x == 1).unsatisfied({'x': 0})
''', 'a variable bound to 0', 'a bound 0 counts as unbound', ('C01',))

bug('c09-dup-vars', 'C09', [(X, "                if var not in vlist:\n                    vlist.append(var)", "                if var not in vlist[-3:]:\n                    vlist.append(var)")], '''
from satisfy import Model
m = Model()
a, b, c, d = [m.add_int_variable(domain=[0, 1], name=n) for n in 'abcd']
e = a + b + c + d + a
assert sorted(e.vars()) == ['a', 'b', 'c', 'd'], list(e.vars())
''', 'a variable that reappears after three other ones', 'a variable is reported twice')

bug('c10-no-recompile', 'C10', [(C, "    def compile(self):\n        self._evaluate_function = self._expression.as_function()", "    def compile(self):\n        if self._evaluate_function is None:\n            self._evaluate_function = self._expression.as_function()")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(5), name='x')
p = m.add_parameter(1, name='p')
m.add_constraint(x == p)
assert [s['x'] for s in Solver().solve(m)] == [1]
p.value = 3
assert [s['x'] for s in Solver().solve(m)] == [3]
''', 'a parameter changed between two compiled solves', 'the compiled constraint keeps the old value', ('C11', 'C12'))

bug('c10-folded', 'C10', [(X, "    def __mul__(self, other):\n        if isinstance(other, Const):\n            if other.value == 0:", "    def __mul__(self, other):\n        if isinstance(other, Parameter) and other.value == 1:\n            return self\n        if isinstance(other, Const):\n            if other.value == 0:"), (X, "            elif other.value == 1:\n                return self\n        return _make_prod(self, other)", "            if other.value == 1:\n                return self\n        return _make_prod(self, other)")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(5), name='x')
p = m.add_parameter(1, name='p')
m.add_constraint(x * p == 4)
p.value = 2
assert [s['x'] for s in Solver().solve(m)] == [2]
''', 'a factor that is a parameter with value 1 when the expression is built, changed later', 'the parameter is folded away')

bug('c11-first-objective', 'C11', [(S, "            for objective, constraint in zip(objectives, objective_constraints):\n                objective.add_solution(constraint, solution)", "            for objective, constraint in zip(objectives, objective_constraints):\n                objective.add_solution(constraint, solution)\n                if len(objectives) > 1 and objective is objectives[1]:\n                    break")
   ], '''
from satisfy import Model, Solver, Minimize, Maximize
m = Model()
x, y, z = [m.add_int_variable(domain=range(4), name=n) for n in 'xyz']
prev = None
for o in Solver().optimize(m, [Maximize(x), Maximize(y), Maximize(z)]):
    s = o.solution
    assert prev is None or all(s[n] > prev[n] for n in 'xyz'), (prev, s)
    prev = s
''', 'three objectives', 'the third objective is never tightened') if False else None

bug('c11-objective-count', 'C11', [(S, "            for objective, constraint in zip(objectives, objective_constraints):", "            for objective, constraint in zip(objectives[:2], objective_constraints):")], '''
from satisfy import Model, Solver, Minimize, Maximize
m = Model()
x, y, z = [m.add_int_variable(domain=range(4), name=n) for n in 'xyz']
prev = None
for o in Solver().optimize(m, [Maximize(x), Maximize(y), Maximize(z)]):
    s = o.solution
    assert prev is None or all(s[n] > prev[n] for n in 'xyz'), (prev, s)
    prev = s
''', 'three objectives', 'the third objective is never tightened')

bug('c11-stale-compiled-bound', 'C11', [(O, "        self._bound.value = value\n        if self.is_compiled():\n            self.compile()", "        recompile = value != self._bound.value\n        self._bound.value = value\n        if self.is_compiled() and recompile:\n            self.compile()")], '''
from satisfy import Model, Solver, Minimize, Maximize
m = Model()
x = m.add_int_variable(domain=range(-2, 3), name='x')
y = m.add_int_variable(domain=range(2), name='y')
seq = [o.solution['x'] for o in Solver().optimize(m, Maximize(x * x - 4 * x - 12 + 12 * y - 12 * y))]
assert all(a < b for a, b in zip([None or -99] + [v * v - 4 * v - 12 for v in seq], [v * v - 4 * v - 12 for v in seq])), seq
''', 'a first solution with objective value 0 (the initial bound), compiled', 'the compiled bound is not activated')

bug('c12-limit-optimal', 'C12', [(S, "        if solution is not None and self._interrupt is None:", "        if solution is not None and self._interrupt != 'timeout':")], '''
from satisfy import Model, Solver, Maximize
m = Model()
x = m.add_int_variable(domain=range(5), name='x')
r = Solver(limit=2).optimal_solution(m, Maximize(x))
assert not r.is_optimal, r
''', 'an optimization stopped by its limit', 'the last solution found is called optimal')

bug('c13-kept-domains', 'C13', [(S, "        stack = []\n        domains = {}\n        timer = self._timer", "        stack = []\n        domains = self._domains\n        timer = self._timer"), (S, "        self._timer = None\n        self._interrupt = None\n        self._reset()", "        self._timer = None\n        self._domains = {}\n        self._interrupt = None\n        self._reset()")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(4), name='x')
s = Solver()
next(iter(s.solve(m)))
assert [v['x'] for v in s.solve(m)] == [0, 1, 2, 3]
''', 'a partial run before another one on the same solver', 'remaining values of the abandoned run are used', ('C14', 'C04'))

bug('c13-result-alias', 'C13', [(S, "            substitution = substitution.copy()\n            domain = domains.get(var_name, None)\n            if domain is None:\n                domain = []\n                v_ad", "            substitution = substitution.copy() if unbound_vars or not domains.get(var_name) else substitution\n            domain = domains.get(var_name, None)\n            if domain is None:\n                domain = []\n                v_ad")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
y = m.add_int_variable(domain=range(3), name='y')
m.add_constraint(x <= y)
got = []
for s in Solver().solve(m):
    got.append((s['x'], s['y']))
    s['x'] = 77
    s.pop('y')
    s['z'] = 1
assert sorted(got) == [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)], got
''', 'a consumer that modifies the yielded solution', 'the yielded dictionary is the one on the search stack')

bug('c14-objective-state', 'C14', [(O, "    def add_solution(self, constraint, substitution):\n        value =  self._expression.evaluate(substitution)\n        constraint.set_bound(value)", "    def add_solution(self, constraint, substitution):\n        value =  self._expression.evaluate(substitution)\n        self._constraint.set_bound(value)"),
  (O, "        return MinConstraint(model, self._expression)", "        self._constraint = MinConstraint(model, self._expression)\n        return self._constraint"),
  (O, "        return MaxConstraint(model, self._expression)", "        self._constraint = MaxConstraint(model, self._expression)\n        return self._constraint")], '''
from satisfy import Model, Solver, Maximize
m = Model()
x = m.add_int_variable(domain=range(4), name='x')
o = Maximize(x)
a = Solver().optimize(m, o)
first = [next(a).solution['x']]
b = Solver().optimize(m, o)
next(b)
first += [r.solution['x'] for r in a]
assert first == [0, 1, 2, 3], first
''', 'two interleaved optimizations with the same objective object', 'the bound of one optimization is set in the other one')

bug('c14-shared-timer', 'C14', [(S, "        timer = self._timer\n        timer.start()\n        num_solutions = 0", "        timer = self._timer\n        timer.start()\n        self._num_solutions = num_solutions = 0"),
  (S, "                num_solutions += 1\n                yield substitution\n                if limit is not None and num_solutions >= limit:\n                    timer.abort()\n                    if self._timer is timer:\n                        self._interrupt = \"limit\"\n                    return\n                timer.start()\n                continue\n        timer", "                self._num_solutions += 1\n                yield substitution\n                if limit is not None and self._num_solutions >= limit:\n                    timer.abort()\n                    if self._timer is timer:\n                        self._interrupt = \"limit\"\n                    return\n                timer.start()\n                continue\n        timer")], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(6), name='x')
s = Solver(limit=3)
a, b = s.solve(m), s.solve(m)
got = [], []
for k in range(3):
    for g, it in zip(got, (a, b)):
        for v in it:
            g.append(v['x'])
            break
assert got == ([0, 1, 2], [0, 1, 2]), got
''', 'two interleaved limited iterations on one solver', 'the count of solutions is shared by all iterations of a solver')

bug('c15-constraint-first', 'C15', [(M, "        for var_name in var_names:\n            if var_name not in self._variables:\n                raise ValueError(\"constraint {} depends on undefined variable {}\".format(constraint, var_name))\n        self._constraints.append(constraint)", "        self._constraints.append(constraint)\n        for var_name in var_names:\n            if var_name not in self._variables:\n                raise ValueError(\"constraint {} depends on undefined variable {}\".format(constraint, var_name))")], '''
from satisfy import Model
m, n = Model(), Model()
x = n.add_int_variable(domain=range(4), name='x')
try:
    m.add_constraint(x > 1)
except ValueError:
    pass
else:
    assert False
assert not list(m.constraints())
''', 'a rejected constraint', 'the rejected constraint stays in the model')

bug('c15-auto-name', 'C15', [(M, 'name = "_v{}".format(len(self._variables))', 'name = "_v{}".format(sum(info.domain is not None for info in self._variables.values()))'), (M, 'name = "_p{}".format(len(self._variables))', 'name = "_v{}".format(len(self._variables))')], '''
from satisfy import Model
m = Model()
names = [m.add_int_variable(domain=[1]).name, m.add_parameter(3).name, m.add_int_variable(domain=[1, 2]).name, m.add_int_variable(domain=[1, 2]).name]
assert len(set(names)) == 4, names
''', 'automatically named parameters and variables in alternation', 'automatic names clash')

bug('c16-last-wins', 'C16', [(M, "                LOG.warning(\"constraint {} is always satisfied\".format(constraint))", "                LOG.warning(\"constraint {} is always satisfied\".format(constraint))\n                self._constraints = [c for c in self._constraints if c.vars() or not isinstance(c, ConstConstraint)]"), (M, "            value = constraint.evaluate({})\n            if value:", "            value = bool(constraint.evaluate({}))\n            if value:")], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=[1], name='x')
m.add_constraint(False)
m.add_constraint(True)
assert not m.solvable() and not list(Solver().solve(m))
''', 'a true constant after a false one', 'the contradiction is forgotten')

bug('c17-prefix', 'C17', [(X, "        return type(self) == type(other) and self._name == other.name\n\n    @property\n    def name", "        return type(self) == type(other) and self._name.lower() == other.name.lower()\n\n    @property\n    def name")], '''
from satisfy import Model
m = Model()
a = m.add_int_variable(domain=[1], name='x')
b = m.add_int_variable(domain=[1], name='X')
assert not a.equals(b) and not (a + 1).equals(b + 1)
''', 'names that differ in case only', 'different variables are equal')

bug('c17-const-bool', 'C17', [(X, "        return type(self) == type(other) and self._value == other.value\n\n    @property\n    def value(self):\n        return self._value\n\n    def __bool__", "        return type(self) == type(other) and abs(self._value) == abs(other.value)\n\n    @property\n    def value(self):\n        return self._value\n\n    def __bool__")], '''
from satisfy import Model
m = Model()
a = m.add_int_variable(domain=[1], name='x')
assert not (a < -2).equals(a < 2)
''', 'constants of opposite sign', 'different constants are equal')
BUGS = [b for b in BUGS if b]
