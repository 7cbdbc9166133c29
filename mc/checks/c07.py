"""C07: every formula of the bounded universe, built with the library's operators, evaluates like the
independent reference evaluator on the whole assignment cube; operands stay as they were."""
import itertools

from mc import exprs, ref
from mc.core import need

PROPERTY = 'C07'


def bounds(tier):
    return dict(formulas='all trees of the families d1, un, comb (depth 2), bal and pair (depth 2, both sides compound, every operator over every two), '
                         'chain (all bracketings of 3..6 operands of + and *), sum(), long (chains of up to 12 operands), mixchain, comb3 (depth 3), shadow (parameters named like variables or like each other)',
                leaves='x y z, parameters 2, -3, 1 and 0 (all changed afterwards), Const and plain numbers in -3..3',
                assignments='every variable over {}; over {} too for the families d1, un, pair, sum, mixchain, short chains'.format(exprs.CUBE, exprs.WIDE), tier=tier)


def cases(tier):
    return exprs.families(tier)


OTHER_PARAMS = {'p': -1, 'q': 5, 'r': 4, 's': 2, 'x#': 3, 'y#': 0, 'p#': -2}


def check_value(ast, expr, ctx, when, params=exprs.PARAMS, wide=False):
    names = ref.variables(ast)
    n = 0
    outcome = []
    envs = exprs.assignments(names)
    for env in itertools.chain(envs, exprs.assignments(names, exprs.WIDE)) if wide and names else envs:
        want = ref.value(ast, env, params)
        if want is None:
            continue
        n += 1
        try:
            got = expr.evaluate(env)
        except Exception as e:
            got = e
        need(not isinstance(got, Exception) and got == want,
             '{} with {}: evaluates to {!r} {}, the formula gives {!r}', ref.show(ast), env, got, when, want)
        outcome.append(want)
    ctx.evals(n)
    return tuple(outcome)


def run_case(key, ctx):
    from satisfy.expression import Expression
    pool = exprs.Pool()
    done = 0
    for ast in exprs.expand(key):
        try:
            expr = pool.get(ast)
        except ArithmeticError:
            # constant folding may hit the undefined point while building
            need(exprs.hopeless(ast),
                 '{}: building raises although the formula is defined', ref.show(ast))
            continue
        ctx.step()
        done += 1
        if not isinstance(expr, Expression):
            expr = Expression.coerce(expr)
        out = check_value(ast, expr, ctx, '', wide=exprs.wide(key))
        ctx.state(out)
        ctx.trace(out)
    # operands must not have been altered by being used inside larger formulas or by evaluation
    for ast, expr in pool.items():
        if ast[0] in ('i',):
            continue
        check_value(ast, Expression.coerce(expr), ctx, 'after being used as an operand')
        ctx.trace()
    # and they follow their parameters
    for ast, obj in pool.items():
        if ast[0] == 'p':
            obj.value = OTHER_PARAMS[ast[1]]
    for ast, expr in pool.items():
        if ref.parameters(ast):
            check_value(ast, Expression.coerce(expr), ctx, 'after parameters changed to {}'.format(OTHER_PARAMS), OTHER_PARAMS)
            ctx.trace()
