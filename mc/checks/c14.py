"""C14: all interleavings of the steps of several solve/optimize iterations over shared models and solvers, with one of
them closed at every possible point, and with nested solves at every pause.  Each iteration must yield the sequence
it yields alone (computed in a process that ran nothing else)."""
import itertools

from mc import csp
from mc.core import need, pristine
from mc.checks.c03 import Shuffler

PROPERTY = 'C14'
HORIZON = 300

E = csp.E
V = lambda n: ('v', n)
MODELS = {
    'lt': ((('x', (0, 1, 2), 'list'), ('y', (0, 1, 2), 'list')), (('p', 1),), (E('<=', V('x'), V('y')), E('!=', V('y'), ('+', V('x'), ('p', 'p'))))),
    'ad': ((('x', (2, 0, 1), 'list'), ('y', (0, 1, 2), 'list')), (), (('ad', ('x', 'y')),)),
    'custom': ((('x', (0, 1), 'list'), ('y', (0, 1), 'list'), ('z', (1, 0), 'list')), (), (('custom', 'parity', ('x', 'y', 'z')), E('==', V('x'), V('x')))),
    'one': ((('x', (0, 1, 2, 3), 'list'),), (), (E('!=', V('x'), ('i', 1)),)),
}
# the same variable names with other domains: two models on one solver
OTHER = {'lt': 'ad', 'ad': 'lt', 'custom': 'lt', 'one': 'ad'}
# (mode, policy, compile (None: the solver's), limit, additional constraint)
ITERATIONS = [
    ('solve', 'GROUPS', None, None),
    ('solve', 'REVERSED', None, None),
    ('min', 'ORDERED', None, None),
    ('max', 'GROUPS', None, None),
    ('max2', 'REVERSED', None, None),
    ('solve', 'ORDERED', None, 2),
    ('additional', 'GROUPS', None, None),
    ('other', 'ORDERED', None, None),
]
# 'bounded': the solvers have a timeout and a limit that are never reached
SHARING = ('one solver', 'two solvers', 'two solvers, one interpreted', 'one solver, bounded')


def bounds(tier):
    return dict(models=sorted(MODELS), iterations=[repr(i) for i in ITERATIONS], sharing=list(SHARING),
                schedules='all interleavings of the next() calls of {} iterations to their ends ({} of 3 iterations up to {} steps each); one '
                          'iteration closed / abandoned after every number of steps'.format(2, 'all' if tier == 'thorough' else 'selected', '3 (2 quick)'),
                nested='at every pause of an iteration: complete solve, optimal_solution (flag included), ModelSolver', tier=tier)


def cases(tier):
    for name in MODELS:
        for sharing in SHARING:
            for i in range(len(ITERATIONS)):
                alone(name, i)
    for name in MODELS:
        for sharing in SHARING:
            for i, j in itertools.product(range(len(ITERATIONS)), repeat=2):
                yield ('pair', name, sharing, i, j)
            for i in range(len(ITERATIONS)):
                yield ('nested', name, sharing, i)
    for name in MODELS:
        for triple in itertools.product((0, 1, 2, 3, 6), repeat=3):
            if tier == 'thorough' or sorted(triple) == list(triple):
                for sharing in (SHARING[0], SHARING[1], SHARING[3]):
                    yield ('triple', name, sharing) + triple


class World:
    def __init__(self, name, sharing, n):
        from satisfy import Solver
        self.name = name
        self.built = csp.Built(MODELS[name])
        self.other = csp.Built(MODELS[OTHER[name]])
        self.extra = self.built.constraint(E('!=', V('x'), ('i', 0)))
        self.objectives = {}
        if sharing == 'one solver':
            self.solvers = [Solver()] * n
        elif 'bounded' in sharing:
            self.solvers = [Solver(timeout=10 ** 6, limit=10 ** 6)] * n
        else:
            self.solvers = [Solver(compile_constraints=not ('interpreted' in sharing and k % 2)) for k in range(n)]

    def objective(self, mode):
        from satisfy import Minimize, Maximize
        if mode not in self.objectives:
            names = self.built.names
            objs = [self.built.objs[('v', n)] for n in names]
            self.objectives[mode] = {
                'min': lambda: Minimize(-(2 * objs[0]) - objs[-1]),
                'max': lambda: Maximize(objs[0] + 2 * objs[-1]),
                'max2': lambda: [Maximize(objs[0]), Minimize(-objs[-1])]}[mode]()
        return self.objectives[mode]

    def start(self, k, i):
        mode, pol, comp, limit = ITERATIONS[i]
        args = dict(var_selection_policy=csp.policy(pol))
        if limit is not None:
            args['limit'] = limit
        s = self.solvers[k]
        if mode == 'solve':
            return iter(s.solve(self.built.model, **args))
        if mode == 'other':
            return iter(s.solve(self.other.model, **args))
        if mode == 'additional':
            return iter(s.solve(self.built.model, additional_constraints=[self.extra], **args))
        return iter(s.optimize(self.built.model, self.objective(mode), **args))

    def names(self, i):
        return self.other.names if ITERATIONS[i][0] == 'other' else self.built.names


def step(it, names):
    for item in it:
        return csp.key_of(getattr(item, 'solution', item), names)
    return None


def run_alone(name, i):
    w = World(name, 'one solver', 1)
    it = w.start(0, i)
    res = []
    while True:
        key = step(it, w.names(i))
        if key is None or len(res) > 50:
            return res
        res.append(key)


_alone = {}


def alone(name, i):
    if (name, i) not in _alone:
        _alone[(name, i)] = pristine(lambda: run_alone(name, i))
    ok, res = _alone[(name, i)]
    need(ok, 'iteration {} on {} fails alone: {}', ITERATIONS[i], name, res)
    return res


def schedules(lengths):
    """All interleavings: sequences over the iterations with the given number of steps each."""
    def rec(left, prefix):
        if not any(left):
            yield tuple(prefix)
            return
        for k, n in enumerate(left):
            if n:
                left[k] -= 1
                prefix.append(k)
                yield from rec(left, prefix)
                prefix.pop()
                left[k] += 1
    yield from rec(list(lengths), [])


def execute(name, sharing, its, schedule, ctx, close=None, how='close'):
    """Runs one schedule; close = (iteration, after how many of its steps)."""
    w = World(name, sharing, len(its))
    gens = [w.start(k, i) for k, i in enumerate(its)]
    got = [[] for _ in its]
    closed = set()
    if close is not None and close[1] == 0:
        gens[close[0]].close()
        closed.add(close[0])
    for k in schedule:
        if k in closed:
            continue
        key = step(gens[k], w.names(its[k]))
        ctx.step()
        full = alone(name, its[k])
        n = len(got[k])
        expected = full[n] if n < len(full) else None
        if key != expected:
            need(False, '{} {} iterations {} schedule {} close {}: step {} of iteration {} gives {}, alone it gives {} ({})',
                 name, sharing, [ITERATIONS[i] for i in its], schedule, close, n, k, key, expected, full)
        got[k].append(key)
        if close is not None and close[0] == k and len(got[k]) == close[1]:
            if how == 'close':
                gens[k].close()
            else:
                gens[k] = None
            closed.add(k)
    ctx.state(schedule, close, how)
    ctx.trace(tuple(map(tuple, got)))


def run_case(case, ctx):
    kind, name, sharing = case[:3]
    its = case[3:]
    if kind == 'nested':
        return run_nested(name, sharing, its[0], ctx)
    quick = ctx.tier == 'quick'
    cap = (4 if quick else 6) if kind == 'pair' else (2 if quick else 3)
    lengths = [min(len(alone(name, i)) + 1, cap) for i in its]
    for schedule in schedules(lengths):
        execute(name, sharing, its, schedule, ctx)
    if kind == 'pair':
        lengths = [min(n, 4) for n in lengths]
        for n in range(0, lengths[0] + 1):
            for how in ('close', 'drop'):
                if not n and how == 'drop':
                    continue
                for schedule in schedules([n, lengths[1]] if n else [0, lengths[1]]):
                    execute(name, sharing, its, schedule, ctx, (0, n), how)


def run_nested(name, sharing, i, ctx):
    """At every pause of an iteration (and of a second, paused one): complete other computations."""
    from satisfy.solver import ModelSolver
    full = alone(name, i)
    names = csp.Built(MODELS[name]).names
    sols = csp.solutions(MODELS[name])
    value = {'min': lambda k: -2 * k[0] - k[-1], 'max': lambda k: k[0] + 2 * k[-1]}
    best = {'min': min(map(value['min'], sols)), 'max': max(map(value['max'], sols))}

    def optimal(mode, **args):
        def fun(w):
            res = w.solvers[1].optimal_solution(w.built.model, w.objective(mode), **args)
            need(bool(res.is_optimal) and res.solution is not None and value[mode](csp.key_of(res.solution, names)) == best[mode],
                 '{} {} optimal_solution {} {} while {} is paused: {}', name, sharing, mode, args, ITERATIONS[i], res)
        return fun

    def limited(w):
        res = w.solvers[1].optimal_solution(w.built.model, w.objective('max'), limit=1)
        need(not res.is_optimal and res.solution is not None, '{} {} limited optimal_solution while {} is paused: {}', name, sharing, ITERATIONS[i], res)

    def complete(j):
        def fun(w):
            it = w.start(1, j)
            want = alone(name, j)
            got = [step(it, w.names(j)) for _ in range(len(want) + 1)]
            need(got == want + [None], '{} {} {} while {} is paused: {} instead of {}', name, sharing, ITERATIONS[j], ITERATIONS[i], got, want)
        return fun

    def model_solver(w):
        got = csp.run(ModelSolver(model=w.built.model, solver=w.solvers[1]), names, 50)
        need(got == alone(name, 0), '{} {} ModelSolver while {} is paused: {}', name, sharing, ITERATIONS[i], got)

    nested = [optimal('min'), optimal('max'), optimal('max', var_selection_policy=csp.policy('ORDERED')), limited, model_solver]
    nested += [complete(j) for j in range(len(ITERATIONS))]
    for j in range(len(ITERATIONS)):
        for pattern in itertools.product(range(len(nested)), repeat=2 if ctx.tier == 'thorough' else 1):
            for j_steps in (0, 1, 2):
                w = World(name, sharing, 3)
                third = w.start(2, j)
                other = alone(name, j)
                for k in range(j_steps):
                    need(step(third, w.names(j)) == (other[k] if k < len(other) else None), '{} {}: {} differs before nesting', name, sharing, ITERATIONS[j])
                it = w.start(0, i)
                for n in range(len(full) + 1):
                    key = step(it, w.names(i))
                    want = full[n] if n < len(full) else None
                    need(key == want, '{} {} {} with nested computations {} at every pause and {} paused after {}: step {} gives {} instead of {}',
                         name, sharing, ITERATIONS[i], pattern, ITERATIONS[j], j_steps, n, key, want)
                    if key is None:
                        break
                    nested[pattern[n % len(pattern)]](w)
                    ctx.step()
                for k in range(j_steps, len(other) + 1):
                    key = step(third, w.names(j))
                    want = other[k] if k < len(other) else None
                    need(key == want, '{} {} {} paused after {} around {} with nested {}: step {} gives {} instead of {}',
                         name, sharing, ITERATIONS[j], j_steps, ITERATIONS[i], pattern, k, key, want)
                ctx.state(j, pattern, j_steps)
                ctx.trace((name, i, j, pattern))
