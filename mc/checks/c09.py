"""C09: reported variables are exact; partial assignments are rejected only when fully bound and false."""
import itertools

from mc import exprs, ref
from mc.core import need

PROPERTY = 'C09'
VALS = (-2, 0, 1)
# values under the names of parameters: an assignment does not set parameters
SHADOWS = {name: 50 for name in exprs.PARAMS if '#' not in name}


def bounds(tier):
    return dict(repeats='every sequence of 4..{} variables up to renaming x 5 shapes x 12 operators x all subsets bound'.format(7 if tier == 'thorough' else 6),
                formulas='families pair, d1, un, chain, sum, long, many, mixchain, comb3, shadow' + (', comb, bal' if tier == 'thorough' else ', comb over 4 leaves'),
                constraints='every formula as a constraint, all-different groups of 1..4 of 5 variables, constants, user-defined',
                assignments='all partial assignments of the variables (and of an unrelated one, and of the parameter names) over {}'.format(VALS), tier=tier)


def cases(tier):
    for n in range(0, 5):
        for names in itertools.combinations('abcde', n):
            yield ('alldiff', names)
    for k in range(0, 4):
        for kind in ('parity', 'lastzero'):
            yield ('custom', kind, k)
    yield ('const',)
    for n in range(4, 8 if tier == 'thorough' else 7):
        for shape in SHAPES:
            for op in ref.BINOPS:
                if op != '**':
                    yield ('repeat', n, shape, op)
    for key in exprs.families(tier):
        if key[0] in ('d1', 'un', 'chain', 'sum', 'nary', 'nested', 'long', 'many', 'mixchain', 'comb3', 'pair', 'shadow') or tier == 'thorough':
            yield key
        elif key[0] == 'comb' and key[2] in (exprs.X, exprs.PN, exprs.C(-2), exprs.I(3)):
            yield key


SHAPES = ('left', 'right', 'balanced', 'sum', 'unary')


def patterns(n, used=0):
    """Every sequence of n variables up to renaming."""
    if n == 0:
        yield ()
        return
    for k in range(used + 1):
        for rest in patterns(n - 1, max(used, k + 1)):
            yield (k,) + rest


def repeated(shape, op, pattern):
    items = [('v', 'abcdefgh'[k]) for k in pattern]
    if shape == 'unary':
        items = [(('neg', 'abs', 'not')[k % 3], v) if k % 2 else v for k, v in enumerate(items)]
    if shape == 'sum':
        return (op, ('sum',) + tuple(items[:-1]), items[-1])
    if shape == 'right':
        t = items[-1]
        for v in reversed(items[:-1]):
            t = (op, v, t)
        return t
    if shape == 'balanced':
        while len(items) > 1:
            items = [((op, '+', '*')[len(items) % 3], items[j], items[j + 1]) if j + 1 < len(items) else items[j] for j in range(0, len(items), 2)]
        return items[0]
    t = items[0]
    for v in items[1:]:
        t = (op, t, v)
    return t


def check_repeat(key, ctx):
    """Many variables, each possibly occurring again anywhere later."""
    from satisfy.constraint import ExpressionConstraint
    from satisfy.expression import Expression
    _, n, shape, op = key
    pool = exprs.Pool()
    for pattern in patterns(n):
        ast = repeated(shape, op, pattern)
        expr = Expression.coerce(pool.get(ast))
        text = ref.show(ast)
        names = {'abcdefgh'[k] for k in pattern}
        con = ExpressionConstraint(expr)
        for who, reported in (('expression', list(expr.vars())), ('expression without assignment', list(expr.free_vars({}))), ('constraint', list(con.vars()))):
            need(sorted(reported) == sorted(names), '{}: the {} reports variables {}, the formula has {}', text, who, reported, sorted(names))
        order = sorted(names)
        for k, value in itertools.product(range(1 << len(order)), (lambda j: j + 1, lambda j: (j + n) % 3 - 1, lambda j: 0)):
            env = {nm: value(j) for j, nm in enumerate(order) if k >> j & 1}
            free = sorted(names - set(env))
            need(sorted(expr.free_vars(env)) == free and sorted(con.free_vars(env)) == free, '{} under {}: free variables {} and {}, expected {}',
                 text, env, list(expr.free_vars(env)), list(con.free_vars(env)), free)
            if free:
                need(not con.unsatisfied(env), '{} under {}: unsatisfied although {} are not bound', text, env, free)
            ctx.evals()
        for env in ({nm: j + 1 for j, nm in enumerate(order)}, {nm: 3 - 2 * j for j, nm in enumerate(order)}, {nm: (j + 1) % 3 for j, nm in enumerate(order)}, dict.fromkeys(order, 0), {nm: -j for j, nm in enumerate(order)}):
            want = ref.value(ast, env)
            if want is None:
                continue
            got = expr.evaluate(env)
            need(got == want, '{} with {}: {!r} instead of {!r}', text, env, got, want)
            for comp in (False, True):
                if comp:
                    con.compile()
                need(bool(con.unsatisfied(env)) == (not want), '{} under {}: unsatisfied={} (compiled={})', text, env, con.unsatisfied(env), comp)
            con.uncompile()
            ctx.evals()
        ctx.step()
        ctx.state(pattern)
        ctx.trace((len(names),))


def partials(names, vals=VALS):
    names = sorted(names)
    if len(names) > 6:
        # each single variable unbound, each single one bound, halves
        for env in itertools.islice(exprs.few(names), 0, None, 7):
            yield env
        for k, name in enumerate(names):
            env = {n: vals[(k + j) % len(vals)] for j, n in enumerate(names)}
            yield {name: env[name]}
            yield {n: env[n] for n in names[:k]}
            yield {n: env[n] for n in names if n != name}
        return
    for combo in itertools.product((None,) + tuple(vals), repeat=len(names)):
        yield {n: v for n, v in zip(names, combo) if v is not None}


def check_constraint(what, con, names, truth, ctx, vals=VALS, undefined=lambda env: False):
    """truth(env) for total assignments of names."""
    need(set(con.vars()) == set(names), '{}: constraint reports variables {}, expected {}', what, sorted(con.vars()), sorted(names))
    need(len(list(con.vars())) == len(names), '{}: a variable is reported more than once: {}', what, list(con.vars()))
    for env in partials(names, vals):
        for extra in ({}, {'unrelated': 0}, SHADOWS):
            sub = dict(env)
            sub.update(extra)
            keep = dict(sub)
            total = len(env) == len(names)
            need(set(con.free_vars(sub)) == set(names) - set(env), '{} under {}: free variables {}', what, sub, sorted(con.free_vars(sub)))
            if total and undefined(env):
                continue
            got = bool(con.unsatisfied(sub))
            want = total and not truth(env)
            need(got == want, '{} under {}: unsatisfied={}, expected {}', what, sub, got, want)
            need(sub == keep, '{}: evaluation changed the assignment {} to {}', what, keep, sub)
            ctx.evals()
    ctx.step()
    ctx.trace((what,))


def run_case(key, ctx):
    from satisfy.constraint import AllDifferentConstraint, ConstConstraint, Constraint, ExpressionConstraint
    from satisfy.expression import Expression
    fam = key[0]
    if fam == 'alldiff':
        names = key[1]
        for order in itertools.permutations(names):
            for comp in (False, True):
                con = AllDifferentConstraint(list(order))
                if comp:
                    con.compile()
                check_constraint('all-different{}'.format(order), con, names,
                                 lambda env: len(set(env.values())) == len(names), ctx,
                                 (0, 1, -2) if len(names) < 4 else (0, 1, 2, 3))
                ctx.state(order, comp)
        return
    if fam == 'const':
        for value in (True, False, 0, 1, 5):
            con = ConstConstraint(value)
            check_constraint('constant {!r}'.format(value), con, (), lambda env: bool(value), ctx)
            ctx.state(value)
        return
    if fam == 'custom':
        _, kind, k = key
        names = 'abcd'[:k]

        class Custom(Constraint):
            def evaluate(self, substitution):
                vals = [substitution[n] for n in sorted(self.vars())]
                if kind == 'parity':
                    return sum(vals) % 2 == 0
                return 0 if vals and vals[-1] == 0 else 'yes'

        def truth(env):
            vals = [env[n] for n in sorted(env)]
            return sum(vals) % 2 == 0 if kind == 'parity' else not (vals and vals[-1] == 0)
        check_constraint('custom {} {}'.format(kind, k), Custom(names), names, truth, ctx)
        ctx.state(kind, k)
        return
    if fam == 'repeat':
        return check_repeat(key, ctx)
    pool = exprs.Pool()
    for ast in exprs.expand(key):
        try:
            expr = Expression.coerce(pool.get(ast))
        except ArithmeticError:
            continue
        check_expr(ast, expr, ctx, key)


def check_expr(ast, expr, ctx, key):
    from satisfy.constraint import ExpressionConstraint
    text = ref.show(ast)
    written = ref.variables(ast)
    reported = list(expr.vars())
    names = set(reported)
    need(len(names) == len(reported), '{}: a variable is reported more than once: {}', text, reported)
    need(names <= written, '{}: reported variables {} include one that is not in the formula', text, sorted(names))
    # folding can only remove variables next to neutral/absorbing constants
    if not any(l[0] in ('c', 'i') and l[1] in (0, 1) for l in ref.leaves(ast)) and not foldable(ast):
        need(names == written, '{}: reported variables {}, the formula has {}', text, sorted(names), sorted(written))
    need(list(expr.vars()) == reported, '{}: reported variables differ when asked again', text)
    # value depends on nothing else: evaluation with only the reported variables bound
    for env in exprs.assignments(written):
        want = ref.value(ast, env, exprs.PARAMS)
        if want is None:
            continue
        sub = {n: env[n] for n in names}
        got = expr.evaluate(sub)
        need(got == want, '{} with only {} bound: {!r} instead of {!r}', text, sub, got, want)
        got = expr.evaluate(dict(SHADOWS, **sub))
        need(got == want, '{} with {} bound, and the names of the parameters bound, too: {!r} instead of {!r}', text, sub, got, want)
        ctx.evals()
    for env in partials(written, (0, 3)):
        free = list(expr.free_vars(env))
        need(sorted(free) == sorted(names - set(env)), '{} under {}: free variables {}, expected {}', text, env,
             free, sorted(names - set(env)))
        ctx.evals()
    ctx.step()
    ctx.state(text)
    ctx.trace((len(written), tuple(sorted(names))))
    if key[0] in ('d1', 'un', 'comb3', 'many', 'shadow'):
        hidden = written - names

        def full(env):
            env = dict(env)
            for n in hidden:
                env[n] = 1
            return env
        check_constraint(text, ExpressionConstraint(expr), names,
                         lambda env: bool(ref.value(ast, full(env), exprs.PARAMS)), ctx, VALS,
                         lambda env: ref.value(ast, full(env), exprs.PARAMS) is None)


def foldable(ast):
    """Constants may fold to 0 or 1 first and then absorb a variable."""
    return any(sub[0] in ref.BINOPS and not ref.variables(sub) and not ref.parameters(sub) or
               sub[0] in ('+', '*', 'sum') and sum(l[0] in ('c', 'i') for l in ref.leaves(sub)) > 1
               for sub in ref.subtrees(ast))
