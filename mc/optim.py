"""Bounded universe of optimization problems and their brute-force oracle."""
import itertools

from . import csp, ref
from .core import need

X, Y, Z, P = csp.X, csp.Y, csp.Z, csp.P
I = csp.i
OBJECTIVES = [
    X,
    ('neg', Z),
    ('+', ('+', X, Y), Z),
    ('-', ('*', I(2), X), Y),
    ('abs', ('-', Y, Z)),
    ('*', ('*', X, Y), Z),
    ('-', ('*', X, X), ('*', I(2), X)),
    ('<', X, Y),
    ('+', ('*', P, Y), Z),
    ('c', 5),
    P,
    ('-', ('neg', X), ('-', Y, ('neg', Z))),
    ('%', ('+', X, Z), I(3)),
    ('-', X, X),
    ('+', ('+', X, Y), I(10 ** 12)),
    ('-', ('*', I(10 ** 18), X), Y),
    ('-', ('-', I(-10 ** 30), Z), ('*', I(3), X)),
]
PAIRS = [(0, 1), (0, 2), (1, 4), (2, 5), (3, 11), (0, 9), (7, 12), (6, 8), (14, 16)]
DIRS = ('min', 'max')


# bigger problems: (model, objectives); an objective of them is written (names, formula)
_n5 = tuple('vwxyz')
_n8 = tuple('b{}'.format(k) for k in range(8))
_n130 = tuple('d{}'.format(k) for k in range(130))
_n13 = tuple('c{}'.format(k) for k in range(13))


def _lin(names, coeffs):
    total = None
    for n, c in zip(names, coeffs):
        term = ('*', I(c), ('v', n))
        total = term if total is None else ('+', total, term)
    return total


_E = csp.E
_X2 = ('*', X, X)
LARGE = [
    ((('x', tuple(range(300)), 'range'),), (), ()),
    ((('x', tuple(range(-60, 60)), 'list'),), (), (_E('!=', ('%', X, I(3)), I(0)),)),
    ((('x', tuple(range(20)), 'list'), ('y', tuple(range(20, 0, -1)), 'tuple')), (('p', 1),), (_E('<', ('+', X, Y), I(17)),)),
    (tuple((n, (0, 1), 'tuple') for n in _n8), (), (_E('<=', _lin(_n8, (5, 4, 7, 3, 2, 6, 1, 8)), I(17)),)),
    (tuple((n, (1, 0) if k % 2 else (0, 1), 'tuple') for k, n in enumerate(_n8)), (), (('ad', _n8[:2]), ('custom', 'parity', _n8[2:6]))),
    (tuple((n, (3, 1, 0, 2, 4), 'list') for n in _n5), (), (('ad', _n5),)),
    (tuple((n, (0, 1, 2)[k % 2:], 'tuple') for k, n in enumerate(_n5)), (), (('ad', _n5[:2]), _E('<=', ('v', 'w'), ('v', 'z')), ('custom', 'nondec', ('v', 'y')))),
    (tuple((n, (0, 1), 'tuple') for n in _n13), (), tuple(_E('<=', ('v', a), ('v', b)) for a, b in zip(_n13, _n13[1:]))),
    (tuple((n, (0, 1, 2), 'tuple') for n in _n5), (), (_E('<', _lin(_n5, (1,) * 5), I(0)),)),
    # no variables
    ((), (('p', 1),), ()),
    ((), (('p', 1),), (('const', True),)),
    ((), (('p', 1),), (('const', False),)),
    # many variables, most of them with one value
    (tuple((n, (0, 1, 2) if k % 33 == 7 else (k % 3,), 'tuple') for k, n in enumerate(_n130)), (), (_E('<=', ('v', 'd7'), ('v', 'd106')), ('ad', ('d0', 'd40', 'd5')), _E('==', ('v', 'd129'), I(0)))),
]


def large_goals(k):
    """Goal sets of LARGE[k]."""
    names = tuple(v[0] for v in LARGE[k][0])
    n = len(names)
    if n == 0:
        asts = [('+', ('p', 'p'), I(2)), ('p', 'p'), ('c', 5), ('-', I(1), ('p', 'p'))] * 2
    elif n == 1:
        asts = [X, ('neg', X), ('*', ('-', X, I(31)), ('-', X, I(31))), ('%', X, I(7)), ('abs', ('-', X, I(150))), ('-', I(10 ** 20), _X2)]
    else:
        asts = [_lin(names, [1] * n), _lin(names, range(n, 0, -1)), _lin(names, [(-2) ** j for j in range(n)]), _lin(names, [3, -5, 2, -7, 4][:n] * (n // 5 + 1)),
                ('abs', ('-', _lin(names, range(1, n + 1)), I(9))), _lin(names, [10 ** j for j in range(n)])]
    objs = [(names, ast) for ast in asts]
    for o in objs if n < 50 else (objs[1], objs[3], objs[5]):
        for s in DIRS:
            yield ((o, s),)
    if n > 50:
        yield ((objs[0], 'min'), (objs[3], 'max'))
        return
    for a, b in ((0, 1), (0, 2), (3, 4), (2, 5)):
        for s, t in itertools.product(DIRS, repeat=2):
            yield ((objs[a], s), (objs[b], t))
    for senses in itertools.product(DIRS, repeat=4):
        yield tuple(zip((objs[0], objs[1], objs[2], objs[3]), senses))


def problem(case):
    """The model and the goal sets of a case."""
    kind, dom, cons = case
    if kind == 'large':
        return LARGE[dom], large_goals(dom)
    return csp.spec3(dom, cons), goal_sets(kind)


def ast_of(obj):
    return OBJECTIVES[obj] if isinstance(obj, int) else obj[1]


def value(obj, key, params=(('p', 1),)):
    return ref.ev(ast_of(obj), dict(zip('xyz' if isinstance(obj, int) else obj[0], key)), dict(params))


def objective(obj, sense, built):
    from satisfy import Minimize, Maximize
    from satisfy.expression import Expression
    return (Minimize if sense == 'min' else Maximize)(Expression.coerce(built.expr(ast_of(obj))))


def better(a, b, goals):
    """Is a strictly better than b in every objective?"""
    return all((value(o, a) < value(o, b)) if s == 'min' else (value(o, a) > value(o, b)) for o, s in goals)


def undominated(key, sols, goals):
    return not any(better(s, key, goals) for s in sols)


def goals_of(built, goals, form):
    objs = [objective(o, s, built) for o, s in goals]
    if form == 'single':
        return objs[0]
    return {'list': list, 'tuple': tuple, 'iter': iter}[form](objs)


def problems(tier):
    """(case of the model universe, list of goals)"""
    big = tier == 'thorough'
    for k in range(len(LARGE)):
        yield ('large', k, ())
    for dom in range(5) if big else (0, 1, 3):
        for n in range(0, 3):
            for cons in itertools.combinations(range(len(csp.CATALOG3)), n):
                if n == 2 and not big and (cons[0] + cons[1] + dom) % 2:
                    continue
                yield ('single', dom, cons)
    for dom in (0, 1, 3):
        for n in range(0, 3 if big else 2):
            for cons in itertools.combinations(range(len(csp.CATALOG3)), n):
                yield ('multi', dom, cons)


def goal_sets(kind):
    if kind == 'single':
        for o in range(len(OBJECTIVES)):
            for s in DIRS:
                yield ((o, s),)
    else:
        for a, b in PAIRS:
            for s, t in itertools.product(DIRS, repeat=2):
                yield ((a, s), (b, t))
        yield ((0, 'min'), (0, 'max'))
        yield ((0, 'min'), (0, 'min'))
        for senses in itertools.product(DIRS, repeat=3):
            yield tuple(zip((0, 1, 2), senses))
        yield ()


WORDS = [w for n in range(1, 5) for w in itertools.product((0, 1), repeat=n) if len(set(w)) == 2 or n == 1]


def together_cases(tier):
    """Two optimizations at the same time: (first goals, second goals) of a small model."""
    for dom in (0, 1, 3):
        for cons in [()] + [(k,) for k in range(len(csp.CATALOG3))] if tier == 'thorough' else [(k,) for k in range(dom % 2, len(csp.CATALOG3), 2)]:
            yield ('together', dom, cons)


def together_goals():
    for o in range(len(OBJECTIVES)):
        yield ((o, 'min'),), ((o, 'min'),)
        yield ((o, 'max'),), ((o, 'max'),)
        yield ((o, 'min'),), ((o, 'max'),)
    for a, b in PAIRS[:3]:
        yield ((a, 'max'),), ((a, 'max'), (b, 'min'))


def run_together(case, judge, ctx):
    """Every schedule of the first steps of two optimizations; judge(what, keys, sols, goals) gets the complete sequences."""
    from satisfy import Solver
    _, dom, cons = case
    spec = csp.spec3(dom, cons)
    names = tuple(v[0] for v in spec[0])
    sols = csp.solutions(spec)
    for g, pair in enumerate(together_goals()):
        for j, word in enumerate(WORDS):
            comp, pol = bool((g + j) % 2), csp.POLICIES[(g + j // 2) % 2]
            one_solver, one_model, one_objective = (g + j) % 3 == 0, (g + j) % 4 != 1, j % 2 == 0 and pair[0] == pair[1]
            what = '{} goals {} taking turns {} compile {} policy {} solver shared {} model shared {} objectives shared {}'.format(
                spec, [[(ast_of(o), s) for o, s in goals] for goals in pair], word, comp, pol, one_solver, one_model, one_objective)
            built = csp.Built(spec)
            twin = built if one_model else csp.Built(spec)
            solvers = [Solver(var_selection_policy=csp.policy(pol), compile_constraints=comp) for _ in range(2)]
            if one_solver:
                solvers[1] = solvers[0]
            objs = goals_of(built, pair[0], 'list')
            goals = [objs, list(objs) if one_objective and one_model else goals_of(twin, pair[1], 'list')]
            runs = [solvers[k].optimize((built, twin)[k].model, goals[k]) for k in range(2)]
            keys = ([], [])
            ended = [False, False]
            turns = itertools.chain(word, itertools.repeat(0, len(sols) + 3), itertools.repeat(1, len(sols) + 3))
            for k in turns:
                if not ended[k]:
                    opt = next(runs[k], None)
                    if opt is None:
                        ended[k] = True
                    else:
                        keys[k].append(csp.key_of(opt.solution, names))
                    ctx.step()
            for k in range(2):
                need(ended[k], '{}: run {} does not end', what, k)
                judge('{} run {}'.format(what, k), keys[k], sols, pair[k])
            ctx.state(pair, word, tuple(keys[0]), tuple(keys[1]))
            ctx.trace((len(keys[0]), len(keys[1])))
