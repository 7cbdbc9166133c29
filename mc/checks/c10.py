"""C10: all histories of parameter changes, solves, partial solves, optimizations and added constraints, up to a depth,
on one real model (and its solvers); every solve of the history is compared with brute force over the model
with the parameters replaced by their current values."""
import itertools

from mc import csp, ref
from mc.core import need

PROPERTY = 'C10'
HORIZON = 300

V = lambda n: ('v', n)
X, Y, P, Q = V('x'), V('y'), ('p', 'p'), ('p', 'q')
I = lambda k: ('i', k)
DX, DY = (0, 1, 2), (1, -1, 0)

TEMPLATES = {
    'unary': [('<', X, P)],
    'unary both sides': [('>=', P, Y), ('!=', X, ('+', Q, I(1)))],
    'binary': [('==', ('+', X, Y), P)],
    'parameters only': [('==', P, I(2)), ('<', X, I(2))],
    'two parameters only': [('<=', P, Q)],
    'parameters only nested': [('|', ('==', P, Q), ('&', ('<', P, I(0)), ('>', Q, I(0)))), ('<', Y, X)],
    'abs': [('<=', ('abs', ('-', X, P)), I(1)), ('!=', Y, P)],
    'neg': [('<', ('neg', ('*', X, P)), Y)],
    'pow': [('>=', ('-', ('**', X, I(2)), ('*', P, Y)), Q), ('<', ('**', P, I(2)), ('+', X, I(4)))],
    'all different': 'ad',
    'all different two': 'ad2',
    'sum': [('==', ('sum', X, P, Y), I(2))],
    'or': [('|', ('==', P, I(2)), ('<', X, Y))],
    'mix': [('<', ('+', ('*', X, P), Q), Y)],
    'chain': [('>', ('-', ('-', X, P), ('-', Y, Q)), P)],
    'div': [('==', ('/', ('+', X, Y), ('+', P, I(3))), ('%', Q, I(2)))],
    'mod': [('==', ('%', X, ('+', P, I(3))), I(1)), ('<=', ('-', Y, Q), P)],
    'truth': [('&', ('-', X, P), Q)],
    'factor': [('<', ('*', ('*', P, X), ('*', Y, Q)), I(2)), ('>=', ('+', ('*', Q, Y), P), I(-1))],
    'divisor': [('<=', ('/', X, ('+', P, I(4))), Q), ('==', ('*', ('-', Y, I(1)), P), ('*', X, Q))],
    'term': [('!=', ('+', X, P), ('-', Y, Q)), ('<', ('-', P, X), ('+', Q, I(2)))],
    'power': [('<=', ('**', X, ('+', P, I(1))), I(4)), ('!=', ('**', ('+', P, I(1)), X), ('abs', Y))],
    'base': [('<=', X, ('**', P, I(2))), ('>', ('**', ('p', 'q'), I(3)), ('-', ('**', P, I(2)), ('+', Y, I(3))))],
    'signs': [('<', ('-', X, ('neg', P)), ('-', Y, ('-', Q, P))), ('!=', ('%', P, I(3)), ('%', ('*', Q, Y), I(2)))],
    'nested': [('<=', ('-', ('%', ('*', ('abs', ('-', X, P)), I(2)), I(5)), I(1)), Y), ('!=', ('-', ('/', ('+', ('*', ('-', X, Q), ('-', X, Q)), Y), I(2)), I(1)), ('neg', X))],
    'nested sum': [('>=', ('-', ('sum', X, ('abs', ('-', ('*', Y, P), X)), ('%', ('neg', ('+', Y, Q)), I(3))), I(2)), ('neg', Y))],
    'deep': [('!=', ('-', ('*', ('+', X, P), ('+', Y, P)), ('abs', ('neg', ('-', Q, X)))), P)],
}
OBJECTIVES = [('+', ('*', P, X), Y), ('-', ('abs', ('-', X, P)), ('*', Q, Y))]
EXTRA = [('!=', X, P), ('<=', ('+', Y, Q), I(1))]

SETS = [('set', 'p', -1), ('set', 'p', 0), ('set', 'p', 2), ('set', 'q', 1)]
SOLVES = [('solve', True), ('solve', False), ('partial', True), ('partial', False), ('min', 0, True), ('max', 1, False)]
OPS = SETS + SOLVES + [('add', 0)]


def bounds(tier):
    return dict(templates=sorted(TEMPLATES), operations=[' '.join(map(str, o)) for o in OPS], depth='{0} from p=0 q=-1, {1} from 6 other initial values'.format(*(5, 4) if tier == 'thorough' else (4, 3)),
                periodic='every set, solve and third operation followed by a solve, 5 times over, also from p=1000 q=-1000',
                note='every history over the operations that ends with a solve or optimization; the values of every solve in it are compared',
                solver='one per (mode) shared by the whole history; fresh ones in every second template run', tier=tier)


def cases(tier):
    for name in TEMPLATES:
        for first in range(len(OPS)):
            for fresh in (False, True):
                if fresh and tier == 'quick' and first % 2:
                    continue
                yield (name, first, fresh, (0, -1))
    # the same from other initial values, in shorter histories
    for name in TEMPLATES:
        for first in range(len(OPS)):
            for start in ((1, 1), (1, 0), (0, 1), (2, 2), (-1, 1), (0, 0)):
                yield (name, first, bool(first % 2), start)
    # long histories: the same few operations again and again
    for name in TEMPLATES:
        for first in range(len(SETS)):
            for fresh in (False, True):
                yield (name, 'periodic', first, fresh)


def constraints(template):
    if template == 'ad':
        return [('&', ('&', ('!=', X, Y), ('!=', X, P)), ('!=', Y, P))]
    if template == 'ad2':
        return [('&', ('&', ('!=', X, P), ('!=', X, Q)), ('!=', P, Q))]
    return template


_memo = {}


def holds(asts, values):
    """The satisfying (x, y) under parameter values."""
    key = (tuple(asts), values)
    res = _memo.get(key)
    if res is None:
        params = dict(zip('pq', values))
        res = _memo[key] = frozenset(
            (x, y) for x in DX for y in DY if all(ref.ev(a, {'x': x, 'y': y}, params) for a in asts))
    return res


def run_history(name, history, fresh, start, ctx):
    from satisfy import Model, Solver, Minimize, Maximize
    template = TEMPLATES[name]
    model = Model()
    objs = {('v', 'x'): model.add_int_variable(DX, name='x')}
    objs[P] = model.add_parameter(start[0], name='p')
    objs[('v', 'y')] = model.add_int_variable(DY, name='y')
    objs[Q] = model.add_parameter(start[1], name='q')
    build = lambda ast: ref.build(ast, objs.__getitem__)
    asts = list(constraints(template))
    if template == 'ad':
        model.add_all_different_constraint([objs[X], objs[P], objs[Y]])
    elif template == 'ad2':
        model.add_all_different_constraint([objs[P], objs[X], objs[Q]])
    else:
        for ast in asts:
            model.add_constraint(build(ast))
    objectives = [Minimize(build(OBJECTIVES[0])), Maximize(build(OBJECTIVES[1]))]
    solvers = {}
    held = []
    values = {'p': start[0], 'q': start[1]}

    def solver(comp):
        if fresh:
            return Solver(compile_constraints=comp)
        if comp not in solvers:
            solvers[comp] = Solver(compile_constraints=comp)
        return solvers[comp]

    seen = []
    for op in history:
        ctx.step()
        now = (values['p'], values['q'])
        what = lambda: '{} fresh={} from {} history {} at {} p={} q={}'.format(name, fresh, start, history, op, values['p'], values['q'])
        if op[0] == 'set':
            values[op[1]] = op[2]
            objs[('p', op[1])].value = op[2]
        elif op[0] == 'add':
            asts = asts + EXTRA
            for ast in EXTRA:
                model.add_constraint(build(ast))
        else:
            want = holds(asts, now)
            if op[0] == 'solve':
                got = [csp.key_of(s, ('x', 'y')) for s in itertools.islice(solver(op[1]).solve(model), 20)]
                need(len(got) == len(want) and set(got) == want, '{}: yields {} instead of {}', what(), got, sorted(want))
            elif op[0] == 'partial':
                it = iter(solver(op[1]).solve(model))
                first = next(it, None)
                need((first is None) == (not want) and (first is None or csp.key_of(first, ('x', 'y')) in want),
                     '{}: first solution {}, expected one of {}', what(), first, sorted(want))
                held.append(it)
            else:
                params = dict(zip('pq', now))
                value = lambda k: ref.ev(OBJECTIVES[op[1]], dict(zip('xy', k)), params)
                sol = solver(op[2]).optimal_solution(model, objectives[op[1]])
                if not want:
                    need(sol.solution is None and not sol.is_optimal, '{}: {} for an infeasible model', what(), sol)
                else:
                    best = (min if op[0] == 'min' else max)(value(k) for k in want)
                    need(sol.solution is not None and sol.is_optimal, '{}: {} for a feasible model', what(), sol)
                    key = csp.key_of(sol.solution, ('x', 'y'))
                    need(key in want and value(key) == best, '{}: optimum {} is not feasible with value {}', what(), sol.solution, best)
            seen.append((op, now, len(want)))
            ctx.state(history[:0], tuple(seen), now)
            ctx.evals()
    ctx.trace(tuple(seen))


def run_case(case, ctx):
    if case[1] == 'periodic':
        name, _, first, fresh = case
        for b in SOLVES:
            for c in SETS + SOLVES:
                history = (('add', 0),) * (len(b[0]) % 2) + (SETS[first], b, c, ('solve', bool(first % 2))) * 5
                run_history(name, history, fresh, ((2, 1) if '**' in str(TEMPLATES[name]) else (1000, -1000)) if fresh else (0, -1), ctx)
        return
    name, first, fresh, start = case
    depth = 5 if ctx.tier == 'thorough' else 4
    if start != (0, -1):
        depth -= 1
    for middle in itertools.product(OPS, repeat=depth - 2):
        for last in SOLVES:
            if last[0] == 'partial':
                continue
            history = (OPS[first],) + middle + (last,)
            # adding the same constraints twice only repeats an explored history
            if sum(op[0] == 'add' for op in history) > 1:
                continue
            run_history(name, history, fresh, start, ctx)
