"""C04: limits (values x places where they are given x policies x modes) against the unlimited run."""
import copy
import itertools
import pickle

from mc import csp
from mc.core import need
from mc.checks.c03 import Shuffler

PROPERTY = 'C04'
VIRTUAL_CLOCK = True   # time stands still: no timeout can ever be exceeded


E = csp.E
V = lambda n: ('v', n)
MODELS = [
    ('no variables', ((), (), ())),
    ('no variables, false', ((), (), (('const', False),))),
    ('contradiction', ((('x', (0, 1), 'tuple'),), (), (('const', False),))),
    ('one value', ((('x', (7,), 'tuple'),), (), ())),
    ('empty domain', ((('x', (), 'tuple'), ('y', (0, 1), 'tuple')), (), ())),
    ('free 2', ((('x', (0, 1), 'tuple'),), (), ())),
    ('free 4', ((('x', (0, 1), 'tuple'), ('y', (1, 0), 'tuple')), (), ())),
    ('free 6', ((('x', (0, 1, 2), 'tuple'), ('y', (1, 0), 'tuple')), (), ())),
    ('lt', ((('x', (0, 1, 2), 'tuple'), ('y', (0, 1, 2), 'tuple')), (), (E('<', V('x'), V('y')),))),
    ('unsat', ((('x', (0, 1, 2), 'tuple'), ('y', (0, 1, 2), 'tuple')), (), (E('<', V('x'), V('y')), E('<', V('y'), V('x'))))),
    ('ad3', ((('x', (0, 1, 2), 'tuple'), ('y', (0, 1, 2), 'tuple'), ('z', (2, 1, 0), 'tuple')), (), (('ad', ('x', 'y', 'z')),))),
    ('sum', ((('x', (0, 1, 2), 'tuple'), ('y', (2, 0), 'tuple'), ('z', (0, 1), 'tuple')), (('p', 3),),
             (E('==', ('+', ('+', V('x'), V('y')), V('z')), ('p', 'p')),))),
    ('custom', ((('x', (0, 1), 'tuple'), ('y', (0, 1), 'tuple'), ('z', (0, 1), 'tuple')), (), (('custom', 'parity', ('x', 'y', 'z')),))),
    ('last branch', ((('x', (0, 1, 2), 'tuple'), ('y', (0, 1), 'tuple')), (), (E('==', V('x'), ('i', 2)), E('==', V('y'), ('i', 1))))),
    ('long', ((('x', tuple(range(300)), 'range'),), (), ())),
    ('long filtered', ((('x', tuple(range(40)), 'list'), ('y', tuple(range(9, -1, -1)), 'tuple')), (), (E('==', ('%', ('+', V('x'), V('y')), ('i', 9)), ('i', 4)),))),
    ('chain', (tuple((n, (0, 1), 'tuple') for n in 'abcdefghijkl'), (), tuple(E('<=', V(a), V(b)) for a, b in zip('abcdefghijk', 'bcdefghijkl')))),
    ('ad5', (tuple((n, (0, 1, 2, 3), 'tuple') for n in 'abcd') + (('e', (4, 0), 'tuple'),), (), (('ad', tuple('abcde')),))),
    ('free 8', ((('x', (0, 1), 'tuple'), ('y', (1, 0), 'tuple'), ('z', (0, 1), 'tuple')), (), ())),
]
UNSET = 'unset'
INF = 'INFINITY'
# how a bound can be given: (constructor, setter, call)
PLACES = ('ctor', 'setter', 'call', 'ctor+call', 'setter over ctor', 'model solver')


def bounds(tier):
    return dict(models=[m[0] for m in MODELS], limits='-1, 0, 1 .. number of solutions + 2, None, INFINITY; with and without an additional constraint',
                places='constructor, setter, call, call over constructor (all pairs), setter over constructor, ModelSolver arguments, call sequences of length {} (2 on the long models; there, limits around 0, the middle and the number of solutions)'.format(4 if tier == 'thorough' else 3),
                timeouts='absent, None, INFINITY, a huge one (constructor and call)',
                configurations='8 policies x compile; solve, optimize', tier=tier)


def cases(tier):
    for k in range(len(MODELS)):
        for pol in csp.POLICIES:
            for comp in (True, False):
                yield ('places', k, pol, comp)
    yield ('marker',)
    for k in range(len(MODELS)):
        for pol in csp.POLICIES if tier == 'thorough' else ('ORDERED', 'GROUPS'):
            yield ('calls', k, pol)


def infinities():
    """The marker of no bound, obtained in every way it can be."""
    from satisfy.utils import INFINITY, Infinity
    from satisfy.solver import INFINITY as other
    return [INFINITY, Infinity(), copy.copy(INFINITY), copy.deepcopy([INFINITY])[0], other] + [
        pickle.loads(pickle.dumps(INFINITY, protocol)) for protocol in range(2, pickle.HIGHEST_PROTOCOL + 1)]


_turn = itertools.count()


def val(x):
    if x != INF:
        return x
    forms = infinities()
    return forms[next(_turn) % len(forms)]


def marker(ctx):
    """The markers are single objects that can be printed, compared and imported by name."""
    from satisfy import utils
    for f in infinities():
        need(f is utils.INFINITY, 'another INFINITY: {}', type(f))
        ctx.step()
    need(utils.UNDEFINED is utils.Undefined() and utils.UNDEFINED is not utils.INFINITY, 'UNDEFINED')
    texts = [form(x) for form in (str, repr, '{}'.format, '%s'.__mod__) for x in (utils.INFINITY, utils.UNDEFINED)]
    need(all(isinstance(t, str) and t for t in texts) and all(a != b for a, b in zip(texts[::2], texts[1::2])), 'texts {}', texts)
    space = {}
    exec('from satisfy.utils import *', space)
    need(space['INFINITY'] is utils.INFINITY, 'INFINITY by its name')
    ctx.state(*texts)
    ctx.trace(tuple(texts))


def names_of(spec):
    return tuple(v[0] for v in spec[0])


def exhaust(it, names, bound=1000):
    with Shuffler(()):
        return csp.run(it, names, bound)


def judge(what, full, got, limit, interrupt, ctx):
    """got = result under `limit`; full = result without."""
    eff = None if limit in (None, INF) else limit
    want = full if eff is None else full[:max(eff, 0)]
    ctx.step(len(got))
    ctx.trace((len(got), interrupt))
    ctx.state(str(what), limit, tuple(got), interrupt)
    need(got == want, '{}: yields {} instead of the first {} of {}', what, got, eff, full)
    if eff is None:
        need(interrupt is None, '{}: reports interrupt {!r} although there is no bound', what, interrupt)
    elif eff >= 1:
        expected = 'limit' if len(full) >= eff else None
        need(interrupt == expected, '{}: {} of {} solutions under limit {}, interrupt {!r} instead of {!r}',
             what, len(got), len(full), eff, interrupt, expected)


def limits(n):
    return [-1] + (list(range(0, n + 3)) if n < 15 else [0, 1, 2, 3, 10, 100, 256, n // 2, n - 2, n - 1, n, n + 1, n + 2, 10 * n]) + [None, INF]


def run_case(case, ctx):
    from satisfy import Solver, Minimize, Maximize
    from satisfy.solver import ModelSolver
    global _turn
    _turn = itertools.count()
    if case[0] == 'marker':
        return marker(ctx)
    spec = MODELS[case[1]][1]
    names = names_of(spec)
    pol = csp.policy(case[2])
    model = csp.Built(spec).model
    if case[0] == 'calls':
        full = exhaust(Solver(var_selection_policy=pol).solve(model), names)
        alphabet = [UNSET, 0, 1, 2, len(full), len(full) + 1, None, INF]
        depth = 2 if len(full) > 12 or len(names) > 4 else 4 if ctx.tier == 'thorough' else 3
        for default in (UNSET, 0, 1, 2, None, INF):
            for seq in itertools.product(alphabet, repeat=depth):
                solver = Solver(var_selection_policy=pol, **({} if default == UNSET else dict(limit=val(default))))
                for k, lim in enumerate(seq):
                    args = {} if lim == UNSET else dict(limit=val(lim))
                    got = exhaust(solver.solve(model, **args), names)
                    eff = lim if lim != UNSET else default if default != UNSET else None
                    judge((case, default, seq, k), full, got, eff, solver.get_stats().interrupt, ctx)
        return
    comp = case[3]
    modes = [('solve', lambda solver, args: solver.solve(model, **args)), ]
    if names:
        x = model.get_variable(names[-1])
        y = model.get_variable(names[0])
        modes.append(('minimize', lambda solver, args: (o.solution for o in solver.optimize(model, Minimize(x + 2 * y), **args))))
        modes.append(('maximize', lambda solver, args: (o.solution for o in solver.optimize(model, Maximize(2 * x + y), **args))))
        extra = csp.Built(spec).constraint(E('!=', V(names[0]), ('i', 1)))
        modes.append(('additional', lambda solver, args: solver.solve(model, additional_constraints=[extra], **args)))
        modes.append(('iterator of additional', lambda solver, args: solver.solve(model, additional_constraints=iter([extra]), **args)))
    for mode, start in modes:
        mk = lambda **args: Solver(var_selection_policy=pol, compile_constraints=comp, **args)
        full = exhaust(start(mk(), {}), names)
        for lim in limits(len(full)):
            for place in PLACES:
                others = [None]
                call = {}
                if place == 'ctor':
                    solver = mk(limit=val(lim))
                elif place == 'setter':
                    solver = mk()
                    solver.limit = val(lim)
                elif place == 'setter over ctor':
                    solver = mk(limit=1)
                    solver.limit = val(lim)
                elif place == 'call':
                    solver, call = mk(), dict(limit=val(lim))
                elif place == 'model solver':
                    if mode != 'solve':
                        continue
                    ms = ModelSolver(model=model, var_selection_policy=pol, compile_constraints=comp, limit=val(lim))
                    got = exhaust(iter(ms), names)
                    judge((case, mode, place), full, got, lim, ms.get_stats().interrupt, ctx)
                    continue
                else:
                    for other in (0, 1, len(full), INF, None):
                        solver = mk(limit=val(other))
                        got = exhaust(start(solver, dict(limit=val(lim))), names)
                        judge((case, mode, place, other), full, got, lim, solver.get_stats().interrupt, ctx)
                    continue
                got = exhaust(start(solver, call), names)
                judge((case, mode, place), full, got, lim, solver.get_stats().interrupt, ctx)
        # bounds on time that are no bounds, in both places
        for a in (UNSET, None, INF, 1e12, -1):
            for b in (UNSET, None, INF, 1e12):
                if a == -1 and b == UNSET:
                    continue       # a real bound; see C05
                solver = mk(**({} if a == UNSET else dict(timeout=val(a))))
                args = {} if b == UNSET else dict(timeout=val(b))
                for lim in (UNSET, 2, 'ctor'):
                    la = {} if lim != 2 else dict(limit=2)
                    if lim == 'ctor':
                        solver = mk(limit=2, **({} if a == UNSET else dict(timeout=val(a))))
                    got = exhaust(start(solver, dict(args, **la)), names)
                    judge((case, mode, 'timeout', a, b), full, got, None if lim == UNSET else 2, solver.get_stats().interrupt, ctx)
