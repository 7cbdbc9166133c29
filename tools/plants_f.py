"""Batch f: thresholds and sizes."""
BUGS = []
def bug(id, property, edits, demo, needs, breaks, also=()):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, also=also))

S, X, M, C, O, U = 'solver.py', 'expression.py', 'model.py', 'constraint.py', 'objective.py', 'utils.py'
DU = 'tool/demo_utils.py'

bug('c01-ninth-constraint', 'C01', [(S, '''                for var_name in c_vars:
                    var_constraints[var_name].append(constraint)
        group_bounds''', '''                for var_name in c_vars:
                    if len(var_constraints[var_name]) < 16:
                        var_constraints[var_name].append(constraint)
        group_bounds''')], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(40), name='x')
y = m.add_int_variable(domain=(0, 1), name='y')
for k in range(20):
    m.add_constraint(x + y != k)
for s in Solver().solve(m):
    assert all(s['x'] + s['y'] != k for k in range(20)), s
''', 'more than sixteen constraints, each of them over the same variables', 'the seventeenth constraint of a variable is not checked')

bug('c02-deep-stack', 'C02', [(S, '''                else:
                    stack.pop(-1)
                    continue
            elif not domain:
                domains.pop(var_name)
                stack.pop(-1)
                continue
            value = domain.pop(0)
            substitution[var_name] = value
            # additional''', '''                else:
                    if len(stack) > 16:
                        domains.pop(stack[-2][0][0])
                        stack.pop(-1)
                    stack.pop(-1)
                    continue
            elif not domain:
                domains.pop(var_name)
                stack.pop(-1)
                continue
            value = domain.pop(0)
            substitution[var_name] = value
            # additional''')], '''
from satisfy import Model, Solver, VarSelectionPolicy
m = Model()
v = [m.add_int_variable(domain=(0, 1, 2), name='v{}'.format(k)) for k in range(18)]
for a, b in zip(v[:16], v[1:16]):
    m.add_constraint(a == b)
m.add_constraint(v[16] + v[17] == 4)
assert len(list(Solver(var_selection_policy=VarSelectionPolicy.ORDERED).solve(m))) == 3
''', 'a dead end at a depth of more than sixteen variables', 'solutions below the level above the dead end are lost')

bug('c02-value-window', 'C02', [(S, '''                for value in variables[var_name].domain:
                    substitution[var_name] = value
                    for c_var in v_ad_constraints:''', '''                for value in variables[var_name].domain[:1 << (16 - min(len(stack), 10))]:
                    substitution[var_name] = value
                    for c_var in v_ad_constraints:''')], '''
from satisfy import Model, Solver, VarSelectionPolicy
m = Model()
v = [m.add_int_variable(domain=(k,), name='v{}'.format(k)) for k in range(9)]
m.add_int_variable(domain=range(65), name='w')
assert len(list(Solver(var_selection_policy=VarSelectionPolicy.ORDERED).solve(m))) == 65
''', 'a variable with more than 64 values at the tenth level of the search', 'the values behind the 64th are not tried')

bug('c03-groups-text', 'C03', [(S, '''            group_prio = {groupid: groupid for groupid in groups}  #idx for idx, groupid in enumerate(sorted(groups, key=lambda x: (group_bounds[x], group_sizes[x]), reverse=True))}
            var_group_prio = {}
            for var_name in var_names:
                if var_groups[var_name]:
                    var_group_prio[var_name] = min(group_prio[groupid] for groupid in var_groups[var_name])
                else:
                    var_group_prio[var_name] = -1
            sort_key = lambda x: (var_group_prio[x], var_bounds[x], var_sizes[x])
            s_var_names = tuple(sorted(variables, key=sort_key, reverse=True))
            var_names = tuple(reversed(s_var_names))
        elif var_selection_policy is VarSelectionPolicy.RANDOM:
            var_names = list(var_names)
            random.shuffle(var_names)
            var_names = tuple(var_names)
        elif var_selection_policy is VarSelectionPolicy.REVERSED:
            var_names = tuple(reversed(var_names))
        elif var_selection_policy is VarSelectionPolicy.MIN_BOUND:''', '''            group_prio = {groupid: groupid for groupid in groups}  #idx for idx, groupid in enumerate(sorted(groups, key=lambda x: (group_bounds[x], group_sizes[x]), reverse=True))}
            var_group_prio = {}
            for var_name in var_names:
                if var_groups[var_name]:
                    var_group_prio[var_name] = min(group_prio[groupid] for groupid in var_groups[var_name])
                elif len(groups) < 8:
                    var_group_prio[var_name] = -1
            sort_key = lambda x: (var_group_prio[x], var_bounds[x], var_sizes[x])
            s_var_names = tuple(sorted(var_group_prio or variables, key=sort_key, reverse=True))
            var_names = tuple(reversed(s_var_names))
        elif var_selection_policy is VarSelectionPolicy.RANDOM:
            var_names = list(var_names)
            random.shuffle(var_names)
            var_names = tuple(var_names)
        elif var_selection_policy is VarSelectionPolicy.REVERSED:
            var_names = tuple(reversed(var_names))
        elif var_selection_policy is VarSelectionPolicy.MIN_BOUND:''')], '''
from satisfy import Model, Solver, VarSelectionPolicy
def sols(policy):
    m = Model()
    f = m.add_int_variable(domain=(0, 1), name='f')
    v = [m.add_int_variable(domain=(0, 1), name='v{}'.format(k)) for k in range(9)]
    for a, b in zip(v, v[1:]):
        m.add_all_different_constraint([a, b])
    return {tuple(sorted(s.items())) for s in Solver(var_selection_policy=policy).solve(m)}
assert sols(VarSelectionPolicy.GROUPS) == sols(VarSelectionPolicy.ORDERED)
''', 'the policy GROUPS, eight all-different groups and a variable in none of them', 'the free variable is left out of the solutions under GROUPS only')

bug('c03-random-many', 'C03', [(S, '''            var_names = list(var_names)
            random.shuffle(var_names)
            var_names = tuple(var_names)
        elif var_selection_policy is VarSelectionPolicy.REVERSED:
            var_names = tuple(reversed(var_names))
        elif var_selection_policy is VarSelectionPolicy.MIN_BOUND:''', '''            var_names = random.sample(var_names, min(len(var_names), 12))
            random.shuffle(var_names)
            var_names = tuple(var_names)
        elif var_selection_policy is VarSelectionPolicy.REVERSED:
            var_names = tuple(reversed(var_names))
        elif var_selection_policy is VarSelectionPolicy.MIN_BOUND:''')], '''
from satisfy import Model, Solver, VarSelectionPolicy
m = Model()
for k in range(14):
    m.add_int_variable(domain=(k,), name='v{}'.format(k))
assert [len(s) for s in Solver(var_selection_policy=VarSelectionPolicy.RANDOM).solve(m)] == [14]
''', 'the policy RANDOM and more than twelve variables', 'some variables are left out')

bug('c04-limit-byte', 'C04', [(S, '''                if limit is not None and num_solutions >= limit:
                    timer.abort()
                    if self._timer is timer:
                        self._interrupt = "limit"
                    return
                timer.start()''', '''                if limit is not None and num_solutions & 0x7f >= limit:
                    timer.abort()
                    if self._timer is timer:
                        self._interrupt = "limit"
                    return
                timer.start()''')], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=range(300), name='x')
assert len(list(Solver(limit=150).solve(m))) == 150
''', 'a limit of at least 128 solutions', 'the limit is never reached')

bug('c05-poll-often', 'C05', [(S, '''            if timeout is not None:
                cur_elapsed = timer.elapsed()
                if cur_elapsed > timeout:
                    timer.abort()
                    if self._timer is timer:
                        self._interrupt = "timeout"
                    return
''', '''            polls += 1
            if timeout is not None and (polls < 100 or polls % 100 == 0):
                cur_elapsed = timer.elapsed()
                if cur_elapsed > timeout:
                    timer.abort()
                    if self._timer is timer:
                        self._interrupt = "timeout"
                    return
'''), (S, '''        timer = self._timer
        timer.start()
        num_solutions = 0
''', '''        timer = self._timer
        timer.start()
        num_solutions = 0
        polls = 0
''')], '''
import time
now = [0.0]
time.time = lambda: now[0]
from satisfy import Model, Solver
from satisfy.constraint import Constraint
class Slow(Constraint):
    def evaluate(self, s):
        now[0] += 1
        return True
m = Model()
x = m.add_int_variable(domain=(0, 1), name='x')
y = m.add_int_variable(domain=range(200), name='y')
m.add_constraint(Slow(['y', 'x']))
got = list(Solver(timeout=301).solve(m))
assert len(got) < 240, len(got)
''', 'a timeout struck after more than a hundred steps of the search', 'solutions are yielded long after the timeout')

bug('c06-laps', 'C06', [(U, '''        self._count += count
        return t_elapsed''', '''        self._count = min(self._count + count, 255)
        return t_elapsed''')], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=range(300), name='x')
s = Solver()
assert len(list(s.solve(m))) == s.get_stats().count
''', 'more than 255 solutions', 'the count of solutions stays at 255', ('C28',))

bug('c06-elapsed-drop', 'C06', [(U, '''        self._t_elapsed += t_elapsed
''', '''        if self._count < 64 or t_elapsed > 0.001:
            self._t_elapsed += t_elapsed
''')], '''
import time
now = [0.0]
time.time = lambda: now[0]
from satisfy import Model, Solver
from satisfy.constraint import Constraint
class Slow(Constraint):
    def evaluate(self, s):
        now[0] += 0.0005
        return True
m = Model()
x = m.add_int_variable(domain=range(200), name='x')
y = m.add_int_variable(domain=(0,), name='y')
m.add_constraint(Slow(['y', 'x']))
s = Solver()
n = len(list(s.solve(m)))
assert abs(s.get_stats().elapsed - now[0]) < 1e-6, (s.get_stats(), now)
''', 'more than 64 solutions, each found in less than a millisecond', 'the time of the later solutions is not counted', ('C28',))

bug('c07-sum-pairs', 'C07', [(X, '''    def evaluate(self, substitution):
        return self.op(self._const, (e.evaluate(substitution) for e in self._expressions))
''', '''    def evaluate(self, substitution):
        values = [e.evaluate(substitution) for e in self._expressions]
        while len(values) > 8:
            values = [self.op(self.__neutral_element__, values[k:k + 2]) for k in range(0, len(values) - 1, 2)]
        return self.op(self._const, values)
''')], '''
from satisfy.expression import Variable
v = [Variable('v{}'.format(k)) for k in range(11)]
assert sum(v).evaluate({'v{}'.format(k): k for k in range(11)}) == 55
assert sum(v[:10]).evaluate({'v{}'.format(k): k for k in range(11)}) == 45
''', 'a sum of an odd number of more than eight terms', 'the last term is left out')

bug('c08-many-args', 'C08', [(X, '''        alist = list(self.vars())
        for name in alist:''', '''        alist = list(self.vars())[:16]
        for name in alist:''')], '''
from satisfy.expression import Variable
v = [Variable('v{}'.format(k)) for k in range(20)]
e = sum(v)
env = {'v{}'.format(k): k for k in range(20)}
assert e.compile_py_function()(**env) == e.evaluate(env)
''', 'an expression of more than sixteen variables, compiled', 'the compiled function does not know the later variables')

bug('c08-long-sum', 'C08', [(X, '''            return "{}([{}])".format(fun, ", ".join(values))
''', '''            if op == '*' and len(values) > 6:
                return "({})".format(" * ".join(values).replace(") * (", ")*("))
            return "{}([{}])".format(fun, ", ".join(dict.fromkeys(values) if len(values) > 20 else values))
''')], '''
from satisfy.expression import Variable
v = [Variable('v{}'.format(k)) for k in range(20)]
e = sum(v) + v[3] + v[4]
env = {'v{}'.format(k): k + 1 for k in range(20)}
assert e.compile_py_function()(**env) == e.evaluate(env)
''', 'a sum of more than twenty terms in which a term is repeated, compiled', 'the repeated term counts once')

bug('c09-nested-vars', 'C09', [(X, '''        for expr in self._expressions:
            for var in expr.vars():
                if var not in vlist:
                    vlist.append(var)
        self._vars = tuple(vlist)
''', '''        for expr in self._expressions:
            for var in itertools.islice(expr.vars(), 12):
                if var not in vlist:
                    vlist.append(var)
        self._vars = tuple(vlist)
''')], '''
from satisfy.expression import Variable
v = [Variable('v{}'.format(k)) for k in range(14)]
e = sum(v) < 3
assert len(list(e.vars())) == 14
assert list(e.free_vars({'v{}'.format(k): 0 for k in range(13)})) == ['v13']
''', 'an operand with more than twelve variables', 'the later variables are not reported')

bug('c10-many-changes', 'C10', [(X, '''    @value.setter
    def value(self, v):
        self._value = v
''', '''    @value.setter
    def value(self, v):
        self._changes = getattr(self, '_changes', 0) + 1
        if self._changes <= 8:
            self._value = v
''')], '''
from satisfy.expression import Parameter
p = Parameter('p', 0)
for k in range(12):
    p.value = k
assert p.evaluate({}) == 11
''', 'a parameter changed more than eight times', 'the later changes have no effect')

bug('c11-many-steps', 'C11', [(O, '''        self._not_set.value = 0
        self._bound.value = value
        if self.is_compiled():
            self.compile()
''', '''        self._not_set.value = 0
        self._bound.value = value
        self._steps = getattr(self, '_steps', 0) + 1
        if self.is_compiled() and self._steps < 100:
            self.compile()
''')], '''
from satisfy import Model, Solver, Maximize
m = Model()
x = m.add_int_variable(domain=range(150), name='x')
y = m.add_int_variable(domain=(1, 0), name='y')
last = None
for opt in Solver().optimize(m, Maximize(x * 2 + y)):
    value = opt.solution['x'] * 2 + opt.solution['y']
    assert last is None or value > last, (last, value)
    last = value
''', 'more than a hundred improvements of one optimization, compiled', 'solutions that are no improvement are yielded')

bug('c12-steps', 'C12', [(S, '''        for opt_solution in self.optimize(model, objective, **args):
            solution = opt_solution.solution
''', '''        for opt_solution in itertools.islice(self.optimize(model, objective, **args), 200):
            solution = opt_solution.solution
''')], '''
from satisfy import Model, Solver, Maximize
m = Model()
x = m.add_int_variable(domain=range(250), name='x')
opt = Solver().optimal_solution(m, Maximize(x))
assert opt.solution['x'] == 249 or not opt.is_optimal, opt
''', 'an optimization that improves more than 200 times', 'a solution that is not optimal is called optimal')

bug('c13-many-solves', 'C13', [(S, '''    def _reset(self):
        self._timer = Timer()
        self._interrupt = None
''', '''    def _reset(self):
        self._runs = getattr(self, '_runs', 0) + 1
        if self._runs < 12 or self._timer.running():
            self._timer = Timer()
        else:
            self._timer.abort()
        self._interrupt = None
''')], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=range(3), name='x')
s = Solver()
for _ in range(20):
    assert len(list(s.solve(m))) == 3
    assert s.get_stats().count == 3, s.get_stats()
''', 'more than ten runs on one solver', 'statistics accumulate over runs', ('C06',))

bug('c13-solver-cache', 'C13', [(S, '''        model_info = self._setup(model, additional_constraints=additional_constraints)
        variables = model_info.variables
        var_constraints = model_info.var_constraints
        var_ad_constraints = model_info.var_ad_constraints
        var_names = tuple(variables)
        if var_selection_policy is VarSelectionPolicy.GROUPS:
            var_bounds = model_info.var_bounds
            var_sizes = model_info.var_sizes
            var_groups = model_info.var_groups
            groups = model_info.groups
            group_bounds = model_info.group_bounds
            group_sizes = model_info.group_sizes


''', '''        runs = self.__dict__.setdefault('_infos', [])
        if len(runs) >= 6 and runs[-1][0] is model and not additional_constraints:
            model_info = runs[-1][1]
        else:
            model_info = self._setup(model, additional_constraints=additional_constraints)
            runs.append((model, model_info))
        variables = model_info.variables
        var_constraints = model_info.var_constraints
        var_ad_constraints = model_info.var_ad_constraints
        var_names = tuple(variables)
        if var_selection_policy is VarSelectionPolicy.GROUPS:
            var_bounds = model_info.var_bounds
            var_sizes = model_info.var_sizes
            var_groups = model_info.var_groups
            groups = model_info.groups
            group_bounds = model_info.group_bounds
            group_sizes = model_info.group_sizes


''')], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
s = Solver()
for _ in range(6):
    assert len(list(s.solve(m))) == 3
assert len(list(s.solve(m, additional_constraints=[x + 0 > 0, ]))) == 2
assert len(list(s.solve(m))) == 3, list(s.solve(m))
''', 'more than six runs of one solver on one model, the last with additional constraints before one without', 'additional constraints stay in force', ('C10',))

bug('c14-third-iteration', 'C14', [(S, '''        stack = []
        domains = {}
        timer = self._timer
''', '''        stack = []
        live = self.__dict__.setdefault('_live', {})
        domains = live.setdefault((id(model), self.__dict__.setdefault('_runs', 0) // 3), {})
        self._runs += 1
        timer = self._timer
''')], '''
from satisfy import Model, Solver
m = Model()
m.add_int_variable(domain=range(3), name='x')
m.add_int_variable(domain=range(2), name='y')
s = Solver()
a, b = s.solve(m), s.solve(m)
got = []
for p, q in zip(a, b):
    got.append((p, q))
assert len(got) == 6, got
''', 'two iterations of one solver over one model at the same time', 'they share their candidate values')

bug('c15-name-count', 'C15', [(M, '''            name = "_v{}".format(len(self._variables))
''', '''            name = "_v{}".format(len(self._variables) % 32)
''')], '''
from satisfy import Model
m = Model()
for _ in range(40):
    m.add_bool_variable()
assert len(m.variables()) == 40
''', 'more than 32 variables without a name', 'a later variable replaces an earlier one')

bug('c16-many-constants', 'C16', [(M, '''            constraint.evaluate({}) for constraint in self._constraints if not constraint.vars())
''', '''            constraint.evaluate({}) for constraint in self._constraints[-8:] if not constraint.vars())
''')], '''
from satisfy import Model, Solver
m = Model()
x = m.add_int_variable(domain=range(3), name='x')
m.add_constraint(False)
for k in range(10):
    m.add_constraint(x != k + 10)
assert not m.solvable()
''', 'a never satisfied constant followed by eight other constraints', 'the model counts as solvable again')

bug('c17-prefix', 'C17', [(X, '''        return type(self) == type(other) and len(self) == len(other) and all(l_e.equals(r_e) for l_e, r_e in zip(self, other))
''', '''        return type(self) == type(other) and len(self) == len(other) and all(
            l_e.equals(r_e) for l_e, r_e in itertools.islice(zip(self, other), 8))
''')], '''
from satisfy.expression import Variable
v = [Variable('v{}'.format(k)) for k in range(10)]
assert not sum(v).equals(sum(v[:9] + [v[0]]))
''', 'sums of more than eight terms that differ in a late one', 'different sums are equal')

bug('c19-long-word', 'C19', [('cryptarithm.py', '''                        ldict[letter].append(p10 * (10 ** c))
''', '''                        ldict[letter].append(int(1e0 * p10 * 10 ** c))
''')], '''
from satisfy.cryptarithm import CryptarithmSolver
got = list(CryptarithmSolver('A00000000000000000000000000==B*100000000000000000000000000', limit=1, avoid_leading_zeros=True)) + list(
    CryptarithmSolver('A00000000000000000000000000==700000000000000000000000000'))
assert {'A': 7} in got, got
''', 'a letter at a place beyond the precision of floats', 'the place value is rounded')

bug('c20-node-name', 'C20', [('graph_labeling.py', '''            variables[node] = model.add_int_variable(domain=label_ids, name='n_{}'.format(len(variables)))
''', '''            variables[node] = model.add_int_variable(domain=label_ids, name='n_{}'.format(len(variables))) \\
                if len(variables) < 50 else variables[next(iter(variables))]
''')], '''
import networkx as nx
from satisfy.graph_labeling import GraphLabelingSolver
g = nx.path_graph(56)
for sol in GraphLabelingSolver(g, 'ab', limit=1):
    assert all(sol[a] != sol[b] for a, b in g.edges())
assert len(list(GraphLabelingSolver(g, 'ab'))) == 2
''', 'a graph of more than fifty nodes', 'later nodes share the label of the first')

bug('c21-name-clash', 'C21', [('nonogram.py', '''                    var_infos[var.name] = VarInfo(size=size, start_value=start, end_value=end + size)
                    # model.add_constraint(var + size <= num_cols)  # TODO diff SERVE???
''', '''                    var_infos[var.name] = VarInfo(size=size, start_value=start, end_value=min(end + size, 16 + start))
                    # model.add_constraint(var + size <= num_cols)  # TODO diff SERVE???
''')], '''
from satisfy.nonogram import NonogramSolver, pixmap_to_nonogram
p = [[0] * 18 + [1] * 4, [1] * 22]
assert list(NonogramSolver(pixmap_to_nonogram(p))) == [p]
''', 'a row with more than a dozen cells to move or a block longer than sixteen', 'solutions are lost or wrong')

bug('c22-long-run', 'C22', [('nonogram.py', '''                count += 1
            else:
                if count:
                    row.append(count)
                count = 0
        if count:
            row.append(count)
        rows.append(row)
''', '''                count += 1
            else:
                if count:
                    row.append(count)
                count = 0
        if count:
            row.append(count)
        rows.append(row if len(row) < 24 else row[:24])
''')], '''
from satisfy.nonogram import pixmap_to_nonogram
assert pixmap_to_nonogram([[1, 0] * 30])['rows'] == [[1] * 30]
''', 'a row with more than 24 blocks', 'the later blocks are left out of the clues')

bug('c23-tenth-item', 'C23', [('knapsack.py', '''            weights = tuple(sum(selected * weight[idx] for selected, weight in zip(solution, weights)) for idx in range(len(capacities)))
''', '''            weights = tuple(sum(selected * weight[idx] for selected, weight in zip(solution[:9], weights)) for idx in range(len(capacities)))
''')], '''
from satisfy.knapsack import KnapsackOptimizer
r = KnapsackOptimizer([1] * 10, [20], [[1]] * 10)()
assert r.weights == (10,), r
''', 'more than nine items, the tenth selected', 'its weight is not reported')

bug('c24-big-board', 'C24', [('tool/queens.py', '''                var = model.add_int_variable(domain=range(-board_size, board_size + 1), name="diag_ur_bl_{}_{}".format(r, c))
''', '''                var = model.add_int_variable(domain=range(-min(board_size, 5), board_size + 1), name="diag_ur_bl_{}_{}".format(r, c))
''')], '''
from satisfy.tool.queens import QueensSolver
assert len(list(QueensSolver(7))) == 40
''', 'a board of seven or more rows', 'solutions with a queen in the far corner are missing')

bug('c26-many-regions', 'C26', [('tool/ascii_map_coloring.py', '''            for rel_gid1, group1 in enumerate(groups[gid0 + 1:]):
''', '''            for rel_gid1, group1 in enumerate(groups[gid0 + 1:gid0 + 21]):
''')], '''
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
top = ''.join('AB'[k % 2] for k in range(24))
m = [top, 'C' * 24]
s = AsciiMapColoringSolver(m, limit=1)
for sol in s:
    pass
edges = s.model.constraints()
assert len(list(edges)) == 23 + 24, len(list(s.model.constraints()))
''', 'neighboring regions with more than twenty regions in between', 'they may get the same color')

bug('c27-many-solutions', 'C27', [(DU, '''    if stats.interrupt:
        fmt = "Found {s.count} partial''', '''    if stats.interrupt and stats.count < 100:
        fmt = "Found {s.count} partial''')], '''
import io, sys, contextlib
from satisfy.tool import main
sys.argv = ['satisfy', 'cryptarithm', 'A+B+C+D>=3', '-l', '120']
out = io.StringIO()
with contextlib.redirect_stdout(out):
    main()
assert 'partial' in out.getvalue(), out.getvalue()[-200:]
''', 'a limit of at least a hundred solutions', 'the summary claims that all solutions were found')

bug('c28-many-laps', 'C28', [(U, '''        if self.running():
            return self._t_elapsed + (time.time() - self._t_start)
        else:''', '''        if self.running() and self._count < 10:
            return self._t_elapsed + (time.time() - self._t_start)
        else:''')], '''
import time
now = [0.0]
time.time = lambda: now[0]
from satisfy.utils import Timer
t = Timer()
for _ in range(12):
    t.start(); now[0] += 1; t.stop()
t.start(); now[0] += 1
assert t.elapsed() == 13
''', 'a stopwatch in its eleventh interval', 'the running interval is not counted', ('C05',))

bug('c29-many-iterations', 'C29', [('graph_labeling.py', '''        for solution in self._solver.solve(self._model):
            node_labels = {}
''', '''        self._iterations = getattr(self, '_iterations', 0) + 1
        if self._iterations == 4:
            labels = dict(enumerate(labels.values()))
            self._labels = {}
        for solution in self._solver.solve(self._model):
            node_labels = {}
''')], '''
import networkx as nx
from satisfy.graph_labeling import GraphLabelingSolver
s = GraphLabelingSolver(nx.path_graph(3), 'ab')
want = list(s)
for _ in range(6):
    assert list(s) == want
''', 'the fifth iteration of one puzzle', 'it has no labels any more')

bug('c30-long-sum', 'C30', [(X, '''            return "{}([{}])".format(fun, ", ".join(values))
''', '''            if convert is str and len(values) > 12:
                values = values[:6] + values[-6:]
            return "{}([{}])".format(fun, ", ".join(values))
''')], '''
from satisfy.expression import Variable
v = [Variable('v{}'.format(k)) for k in range(14)]
env = {'v{}'.format(k): k for k in range(14)}
assert eval(str(sum(v)), {}, env) == sum(env.values())
''', 'a sum of more than twelve terms', 'its text leaves the middle out')
