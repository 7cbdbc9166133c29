"""C16: all histories of declarations, constant constraints (booleans, constants, expressions that may fold) and solvability
marks up to a depth on the real model; solvability after every operation and the solutions at the end are compared
with a reference model."""
import itertools

from mc import csp
from mc.core import need

PROPERTY = 'C16'
HORIZON = 300

# name: (maker, truth value under every assignment)
CONSTANTS = {
    'True': (lambda x, y: True, True),
    'False': (lambda x, y: False, False),
    '1': (lambda x, y: 1, True),
    '0': (lambda x, y: 0, False),
    '-2': (lambda x, y: -2, True),
    'Const(3)': (lambda x, y: const(3), True),
    'Const(0)': (lambda x, y: const(0), False),
    'Const(2)<Const(3)': (lambda x, y: const(2) < const(3), True),
    'Const(2)==Const(3)': (lambda x, y: const(2) == const(3), False),
    'x*0==0': (lambda x, y: x * const(0) == const(0), True),
    'x*0!=0': (lambda x, y: x * const(0) != const(0), False),
    'x*0': (lambda x, y: x * const(0), False),
    '0*x': (lambda x, y: 0 * x, False),
    'x**0': (lambda x, y: x ** const(0), True),
    '1**x': (lambda x, y: 1 ** x, True),
    '0/(y+1)': (lambda x, y: 0 / (y + 1), False),
    'empty sum': (lambda x, y: sum([]), False),
    '3>=2 as int': (lambda x, y: int(3 >= 2), True),
    'x-x': (lambda x, y: x - x, False),
    'x==x': (lambda x, y: x == x, True),
    'Const and': (lambda x, y: const(1) & const(0), False),
    'Const or': (lambda x, y: const(0) | const(2), True),
    'Const(0)|x*0': (lambda x, y: const(0) | (x * const(0)), False),
    '5%2': (lambda x, y: const(5) % const(2), True),
    'abs(0)': (lambda x, y: abs(const(0)), False),
    '-Const(1)': (lambda x, y: -const(1), True),
    'ConstConstraint False': (lambda x, y: cc(False), False),
    'ConstConstraint True': (lambda x, y: cc(True), True),
    'empty all different': (lambda x, y: ad(), True),
    'user constraint false': (lambda x, y: user(False), False),
    'user constraint true': (lambda x, y: user(True), True),
}
REPRESENTATIVES = ['True', 'False', '0', 'Const(3)', 'Const(2)==Const(3)', 'x*0!=0', 'x*0', 'x**0', 'x-x', 'user constraint false', 'empty all different']


def const(k):
    from satisfy.expression import Const
    return Const(k)


def cc(k):
    from satisfy.constraint import ConstConstraint
    return ConstConstraint(k)


def ad():
    from satisfy.constraint import AllDifferentConstraint
    return AllDifferentConstraint([])


def user(value):
    from satisfy.constraint import Constraint

    class Constant(Constraint):
        def evaluate(self, substitution):
            return value
    return Constant([])


OTHER = [('con', 'x<y'), ('con', 'y!=1'), ('declare', 'z'), ('mark', False), ('mark', True), ('mark', 0), ('mark', 1), ('mark', ''), ('mark', None), ('mark', 'x'), ('mark', (0,)), ('solve', None), ('con', 'unsat')]


def all_ops():
    return [('const', name) for name in CONSTANTS] + OTHER


def core_ops():
    return [('const', name) for name in REPRESENTATIVES] + [o for o in OTHER if o[0] != 'mark' or isinstance(o[1], bool)]


def bounds(tier):
    return dict(constants=list(CONSTANTS), other_operations=[repr(o) for o in OTHER],
                periodic='every pair of the representatives, 20 times over',
                depth='length {} over all {} operations, length {} over {} representatives'.format(
                    3 if tier == 'thorough' else 2, len(all_ops()), 5 if tier == 'thorough' else 4, len(core_ops())), tier=tier)


def cases(tier):
    for a in range(len(all_ops())):
        yield ('all', a)
    for a in range(len(core_ops())):
        for b in range(len(core_ops())):
            yield ('core', a, b)
            yield ('periodic', a, b)


def run_history(history, ctx):
    from satisfy import Model, Solver, Minimize
    m = Model()
    x = m.add_int_variable((0, 1, 2), name='x')
    y = m.add_int_variable((2, 1), name='y')
    names, domains = ['x', 'y'], [(0, 1, 2), (2, 1)]
    sems = []
    mark, contradiction, emptied = True, False, False

    def check_solvable(op):
        want = mark and not contradiction
        if bool(m.solvable()) != want:
            need(False, '{} after {}: solvable() is {}', history, op, m.solvable())

    def solutions():
        if not mark or contradiction or emptied:
            return set()
        return {v for v in itertools.product(*domains) if all(s(dict(zip(names, v))) for s in sems)}

    def compare(op, full):
        want = solutions()
        configs = [(p, c) for p in ('GROUPS', 'REVERSED') for c in (True, False)] if full else [('GROUPS', True)]
        for pol, comp in configs:
            solver = Solver(var_selection_policy=csp.policy(pol), compile_constraints=comp)
            got = csp.run(solver.solve(m), names, 100)
            if len(got) != len(want) or set(got) != want:
                need(False, '{} at {} policy {} compile {}: solutions {} instead of {}', history, op, pol, comp, got, sorted(want))
        if full:
            res = Solver().optimal_solution(m, Minimize(x - y))
            need((res.solution is not None) == bool(want) == bool(res.is_optimal), '{} at {}: optimum {} with {} satisfying assignments', history, op, res, len(want))
        return len(want)

    nsol = None
    for op in history:
        ctx.step()
        kind, arg = op
        if kind == 'const':
            make, truth = CONSTANTS[arg]
            value = make(x, y)
            m.add_constraint(value)
            if not truth:
                # only a constraint that has no variables is promised to show in solvable()
                if hasattr(value, 'vars') and tuple(value.vars()):
                    emptied = True
                else:
                    contradiction = True
        elif kind == 'con':
            if arg == 'x<y':
                m.add_constraint(x < y)
                sems.append(lambda s: s['x'] < s['y'])
            elif arg == 'y!=1':
                m.add_constraint(y != 1)
                sems.append(lambda s: s['y'] != 1)
            else:
                # never satisfied, but not constant: no solutions, yet solvable() stays
                m.add_constraint(x > y + 5)
                sems.append(lambda s: False)
        elif kind == 'declare':
            if 'z' not in names:
                m.add_int_variable((0, 5), name='z')
                names.append('z')
                domains.append((0, 5))
        elif kind == 'mark':
            m.set_solvable(arg)
            mark = bool(arg)
        else:
            compare(op, False)
        check_solvable(op)
    nsol = compare('the end', True)
    ctx.state(history)
    ctx.trace((nsol, mark, contradiction))


def run_case(case, ctx):
    if case[0] == 'all':
        o = all_ops()
        run_history((o[case[1]],), ctx)
        for rest in itertools.product(o, repeat=2 if ctx.tier == 'thorough' else 1):
            run_history((o[case[1]],) + rest, ctx)
        return
    o = core_ops()
    if case[0] == 'periodic':
        # one operation first or last, the other one many times; and both in turn
        a, b = o[case[1]], o[case[2]]
        for history in ((a,) + (b,) * 20, (b,) * 20 + (a,), (a, b) * 10, (a, b, b) * 20):
            run_history(history, ctx)
        return
    for rest in itertools.product(o, repeat=3 if ctx.tier == 'thorough' else 2):
        run_history((o[case[1]], o[case[2]]) + rest, ctx)
