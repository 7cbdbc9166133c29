"""C08: compiled evaluation agrees with interpreted evaluation (value or kind of error) for every
formula of the bounded universe, for every accepted variable name and for deep nesting."""
import itertools

from mc import exprs, ref
from mc.core import need

PROPERTY = 'C08'

# candidates; what counts is which of them the model accepts
NAMES = ['x', 'abs', 'sum', 'prod', 'max', 'print', 'if', 'in', 'is', 'or', 'and', 'not', 'lambda', 'None', 'True',
         'self', 'cls', 'substitution', 'fun', 'e', 'E', 'j', 'e1', 'x1', 'x_1', 'async', 'match', 'n' * 60,
         'class', 'def', 'globals', 'eval', 'substitution_', 'kwargs', 'args', 'dummy_kwargs', 'operator',
         '\u00e9', 'x\u00b5', '\ufb01x', 'x\u00b2', 'xx\n', '_x', '__x', '__sum', '__prod', '__abs', '__dummy_kwargs', '1x', 'x y', '']


def bounds(tier):
    return dict(formulas='the universe of C07', assignments='every variable over {}; over {} too for the families d1, un, pair, sum, mixchain, short chains'.format(exprs.CUBE, exprs.WIDE),
                names='{} candidate names, alone and in pairs, in 14 templates'.format(len(NAMES)),
                depth='nesting 1..12, 50, 90..110, 150, 199..201, 250 of every operator on both sides', tier=tier)


def cases(tier):
    for op in ref.BINOPS + ref.UNOPS:
        for side in (0, 1):
            yield ('deep', op, side)
    for a in NAMES:
        yield ('names', a)
    yield from exprs.families(tier)


def outcome(fun, /, *args, **kwargs):
    try:
        r = fun(*args, **kwargs)
    except Exception as e:
        return 'error', type(e).__name__
    if isinstance(r, float) and r != r:
        return 'nan', ''
    return 'value', r


def compare(what, expr, envs, ctx, skip=lambda env: False, as_constraint=True):
    from satisfy.constraint import ExpressionConstraint
    fun = expr.as_function()
    if as_constraint:
        constraint = ExpressionConstraint(expr)
        constraint.compile()
    outs = []
    for env in envs:
        if skip(env):
            continue
        a = outcome(expr.evaluate, env)
        b = outcome(fun, **env)
        need(a == b, '{} with {}: interpreted gives {}, compiled gives {}', what(), env, a, b)
        outs.append(a)
        if not as_constraint:
            continue
        extra = dict(env)
        extra['unrelated'] = 7
        c = outcome(constraint.evaluate, extra)
        need(a == c, '{} with {}: interpreted gives {}, the compiled constraint gives {}', what(), env, a, c)
    if as_constraint and outs:
        # every sequence of two ways of switching, and the function the constraint hands out
        for first, second in itertools.product(('compile', 'uncompile', 'evaluate_function'), repeat=2):
            getattr(constraint, first)()
            getattr(constraint, second)()
            need(constraint.is_compiled() == (second != 'uncompile'), '{}: is_compiled() is {} after {} and {}', what(), constraint.is_compiled(), first, second)
            c = outcome(constraint.evaluate, env)
            d = outcome(constraint.evaluate_function(), **env)
            e = outcome(expr.evaluate, env)
            need(c == d == e, '{} with {}: interpreted gives {}, the constraint after {} and {} gives {}, its function {}', what(), env, e, first, second, c, d)
    ctx.evals(len(outs))
    ctx.step()
    ctx.state(tuple(outs))
    ctx.trace(tuple(outs))


def deep(key, ctx):
    from satisfy.expression import Const, Expression, Variable
    _, op, side = key
    x, y = Variable('x'), Variable('y')
    depths = list(range(1, 13)) + [50, 90, 95, 100, 110, 150, 199, 200, 201, 250]
    if op == '**':
        depths = [1, 2, 3]
    envs = [dict(x=a, y=b) for a, b in itertools.product((-2, 0, 1, 2), (-1, 0, 1, 3))]
    if op == '**':
        envs = [dict(x=a, y=b) for a, b in itertools.product((-1, 0, 1), (0, 1, 2))]
    for d in depths:
        for kind in (y, 2, Const(-3)):
            e = x
            if op in ref.UNOPS:
                for _ in range(d):
                    e = ref.build1(op, [e])
                    if d < 13:
                        e = e - kind
            else:
                for i in range(d):
                    e = ref.build1(op, [e, kind] if side else [kind, e])
            if op == '*' and side == 0 and d > 40 and kind is not y:
                pass
            compare(lambda: 'depth {} of {!r} side {} with {}'.format(d, op, side, kind), Expression.coerce(e), envs, ctx)


def names(key, ctx):
    from satisfy import Model, Solver
    a = key[1]
    templates = [
        ('lone', lambda u, v, p: u + 0),
        ('cmp', lambda u, v, p: u < v),
        ('sum3', lambda u, v, p: u + v + u * u - 1),
        ('sum', lambda u, v, p: u + v + u + v + 3),
        ('prod', lambda u, v, p: u * v * u * 2),
        ('abs', lambda u, v, p: abs(u - v) + abs(-u)),
        ('neg', lambda u, v, p: -u - -v),
        ('div', lambda u, v, p: (u / 2) * 3 % 5 + v),
        ('logic', lambda u, v, p: ((u > v) | (u == 0)) & (v != 1)),
        ('par', lambda u, v, p: u * p + abs(p - v) * 2),
        ('parneg', lambda u, v, p: -(p * u) - abs(-p)),
        ('abssum', lambda u, v, p: abs(u + v + p + 1) + u * v * p * 2),
        ('pow', lambda u, v, p: (u - 2) ** 2 + (-v) ** 2),
        ('not', lambda u, v, p: ref.build1('not', [u]) + (ref.build1('not', [v]) == 0)),
    ]
    for b in NAMES:
        if a == b:
            continue
        for pname in ('p', 'abs', 'sum', 'prod'):
            if pname in (a, b):
                continue
            model = Model()
            try:
                u = model.add_int_variable([0, 1, 2, -1], name=a)
                v = model.add_int_variable([1, 0, 3], name=b)
                p = model.add_parameter(-2, name=pname)
            except ValueError:
                ctx.step()
                continue
            ctx.count('accepted_name_pairs')
            envs = [{a: s, b: t} for s in (0, 1, 2, -1) for t in (1, 0, 3)]
            for tname, fun in templates:
                expr = fun(u, v, p)
                # against plain Python, and through a solver in both modes
                for env in envs[::5]:
                    got = expr.as_function()(**env)
                    if tname == 'abssum':
                        s, t = env[a], env[b]
                        want = abs(s + t - 2 + 1) + s * t * -2 * 2
                        need(got == want, 'names {!r} {!r} parameter {!r} template {}: {} != {}', a, b, pname, tname, got, want)
                compare(lambda: 'names {!r}, {!r} parameter {!r} template {}'.format(a, b, pname, tname), expr, envs, ctx)
            if pname == 'p':
                model.add_constraint(u + v + 1 > 1)
                model.add_constraint(abs(u) * v * 2 < 6)
                sols = []
                for comp in (True, False):
                    sols.append(sorted(tuple(sorted(s.items())) for s in Solver(compile_constraints=comp).solve(model)))
                want = sorted(tuple(sorted(env.items())) for env in envs
                              if env[a] + env[b] + 1 > 1 and abs(env[a]) * env[b] * 2 < 6)
                need(sols[0] == want and sols[1] == want, 'names {!r} {!r}: compiled solve gives {}, interpreted {}, expected {}',
                     a, b, sols[0], sols[1], want)
                ctx.trace()


def run_case(key, ctx):
    if key[0] == 'deep':
        return deep(key, ctx)
    if key[0] == 'names':
        return names(key, ctx)
    from satisfy.expression import Expression
    pool = exprs.Pool()
    for ast in exprs.expand(key):
        try:
            expr = Expression.coerce(pool.get(ast))
        except ArithmeticError:
            continue
        powers = [sub for sub in ref.subtrees(ast) if sub[0] == '**']
        compare(lambda: ref.show(ast), expr, itertools.chain(exprs.assignments(ref.variables(ast)), exprs.assignments(ref.variables(ast), exprs.WIDE) if exprs.wide(key) else ()), ctx,
                lambda env: any(ref.too_big(sub, env, exprs.PARAMS) for sub in powers),
                as_constraint=key[0] in ('d1', 'un', 'sum', 'nested', 'comb3', 'many'))
