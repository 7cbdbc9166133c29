"""C30: the printed forms denote what is printed.

Every formula of the bounded universe (C07): its text, read as a formula by Python's own parser over operands with the documented meaning,
has the value of the reference evaluator under every assignment; its representation builds a structurally equal expression.
Every model of a bounded universe: constraints rebuilt from their representations, objectives, and the model listing of the command line."""
import contextlib
import io
import itertools
import re

from mc import csp, exprs, optim, ref
from mc.core import need

PROPERTY = 'C30'
CUBE = (-2, 0, 3)


def bounds(tier):
    return dict(formulas='the universe of C07', assignments='every variable over {}'.format(CUBE),
                models='3 variables x 5 domain choices x subsets of <= 2 constraints; the models of csp.U0 with up to 4 variables; parameters',
                objectives='the objectives of C11', tier=tier)


def cases(tier):
    for key in exprs.families(tier):
        if key[0] == 'shadow':
            # the text does not tell a parameter from a variable of the same name
            continue
        yield ('formulas', key)
    for dom in range(len(csp.DOMAINS3)):
        for cons in itertools.chain.from_iterable(itertools.combinations(range(len(csp.CATALOG3)), n) for n in range(3)):
            yield ('model', dom, cons)
    for k in range(len(csp.U0)):
        yield ('u0', k)
    yield ('objectives',)


class V:
    """An integer with the operators of a formula."""
    __slots__ = ('v',)
    __hash__ = None

    def __init__(self, v):
        self.v = v


def _install():
    def value(o):
        return o.v if isinstance(o, V) else o
    table = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, truediv=lambda a, b: a // b, floordiv=lambda a, b: a // b, mod=lambda a, b: a % b,
                 pow=lambda a, b: power(a, b), eq=lambda a, b: a == b, ne=lambda a, b: a != b, lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b,
                 ge=lambda a, b: a >= b)
    table['and'] = lambda a, b: a and b
    table['or'] = lambda a, b: a or b
    for name, fun in table.items():
        setattr(V, '__{}__'.format(name), lambda s, o, fun=fun: V(fun(s.v, value(o))))
        if name not in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            setattr(V, '__r{}__'.format(name), lambda s, o, fun=fun: V(fun(value(o), s.v)))
    V.__neg__ = lambda s: V(-s.v)
    V.__pos__ = lambda s: s
    V.__abs__ = lambda s: V(abs(s.v))
    V.__invert__ = lambda s: V(not s.v)     # ^ in the text


def power(a, b):
    if b < 0 or abs(a) > 1 and b > 64:
        raise ref.Undefined()
    return a ** b


_install()
NUMBER = re.compile(r'(?<![\w.])\d+(\.\d+)?(e[+-]?\d+)?')


def reader(text):
    """The text as a function of the values of its names."""
    # every number as an operand of a formula: plain numbers would be divided as floats
    source = NUMBER.sub(lambda m: 'V({})'.format(m.group()), text.replace('^', '~'))
    code = compile(source.replace('True', 'V(True)').replace('False', 'V(False)'), 'text', 'eval')

    def prod(values):
        res = V(1)
        for v in values:
            res = res * v
        return res

    def read(env):
        res = eval(code, dict({n: V(v) for n, v in env.items()}, V=V, prod=prod, sum=lambda values: sum(values, V(0)), abs=abs, __builtins__={}))
        return res.v if isinstance(res, V) else res
    return read


def rebuild(text):
    from satisfy import constraint, expression, objective
    space = {n: getattr(mod, n) for mod in (constraint, expression, objective) for n in dir(mod) if n[0].isupper()}
    return eval(text, space)


def check_formula(ast, expr, envs, ctx, params=exprs.PARAMS):
    text, form = str(expr), repr(expr)
    try:
        read = reader(text)
    except SyntaxError:
        # a part without integer value may have been folded to a complex number
        need(exprs.hopeless(ast), '{}: its text {!r} is no formula', ref.show(ast), text)
        envs = ()
    outs = []
    powers = [sub for sub in ref.subtrees(ast) if sub[0] == '**']
    for env in envs:
        want = ref.value(ast, env, params)
        if want is None or any(ref.too_big(sub, env, params) for sub in powers):
            continue
        try:
            got = read(dict(params, **env))
        except Exception as e:
            got = e
        if isinstance(got, (ZeroDivisionError, ref.Undefined)) and any(ref.value(sub, env, params) is None for sub in ref.subtrees(ast)):
            continue        # in an operand that and/or does not need
        need(not isinstance(got, Exception) and got == want, '{}: its text {!r} has the value {!r} under {}, the formula {!r}', ref.show(ast), text, got, env, want)
        outs.append(want)
    try:
        again = rebuild(form)
    except Exception as e:
        need(False, '{}: its representation {!r} builds nothing: {!r}', ref.show(ast), form, e)
    need(type(again) is type(expr) and again.equals(expr) and expr.equals(again), '{}: its representation {!r} builds {!r}', ref.show(ast), form, again)
    need(str(expr) == text and repr(expr) == form and str(again) == text and repr(again) == form, '{}: printed differently the second time', ref.show(ast))
    ctx.evals(len(outs))
    return tuple(outs)


def formulas(key, ctx):
    from satisfy.expression import Expression
    pool = exprs.Pool()
    for ast in exprs.expand(key):
        try:
            expr = Expression.coerce(pool.get(ast))
        except ArithmeticError:
            continue
        out = check_formula(ast, expr, exprs.assignments(ref.variables(ast), CUBE), ctx)
        ctx.step()
        ctx.state(out)
        ctx.trace(out)


LISTED = re.compile(r' +(\d+)\) (.*)')


def listing(model):
    """The variables and constraints as the command line prints them."""
    from satisfy.tool.demo_utils import print_model
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        print_model(model)
    head, _, rest = out.getvalue().partition('=== model variables: ===\n')
    variables, mark, constraints = rest.partition('=== model constraints: ===\n')
    need(not head.strip() and mark, 'a model is listed as {!r}', out.getvalue())
    res = []
    for part in (variables, constraints):
        lines = [m.groups() for m in map(LISTED.fullmatch, part.strip('\n').split('\n')) if m]
        need(len(lines) == len([line for line in part.split('\n') if line.strip()]) and [int(n) for n, _ in lines] == list(range(len(lines))), 'a model is listed as {!r}', out.getvalue())
        res.append([text for _, text in lines])
    return res


def truth(con, env, params):
    if con[0] == 'ad':
        return len({env[n] for n in con[1]}) == len(con[1])
    if con[0] == 'const':
        return bool(con[1])
    val = ref.value(con[1], env, params)
    return None if val is None else bool(val)


def model(spec, ctx):
    built = csp.Built(spec)
    params = dict(spec[1])
    variables, constraints = listing(built.model)
    declared = [(v[0], tuple(built.model.get_var_domain(v[0]))) for v in spec[0]] + [(n, None) for n, _ in spec[1]]
    need(len(variables) == len(declared), '{}: variables are listed as {}', spec, variables)
    for text, (name, domain) in zip(variables, declared):
        need(text == '{!r} domain: {!r}'.format(name, domain), '{}: variable {} with domain {} is listed as {}', spec, name, domain, text)
    objs = list(built.model.constraints())
    need(len(constraints) == len(objs), '{}: constraints are listed as {}', spec, constraints)
    names = [v[0] for v in spec[0]]
    envs = [dict(zip(names, vals)) for vals in itertools.islice(itertools.product(*[v[1] for v in spec[0]]), 300)]
    if len(objs) != len(spec[2]):
        return
    readable = all(re.fullmatch('[a-z][0-9]*', n) for n in names)
    for con, obj, text in zip(spec[2], objs, constraints):
        need(text == str(obj), '{}: constraint {} is listed as {}', spec, obj, text)
        if con[0] == 'custom':
            continue
        again = rebuild(repr(obj))
        need(type(again) is type(obj) and sorted(again.vars()) == sorted(obj.vars()), '{}: {} represents {}', spec, repr(obj), text)
        read = reader(text) if con[0] in ('expr', 'const') and readable else None
        if con[0] == 'ad':
            need(sorted(rebuild(text).vars()) == sorted(set(con[1])), '{}: all different {} is listed as {}', spec, con[1], text)
        for env in envs:
            want = truth(con, env, params)
            if want is None:
                continue
            got = again.evaluate(env)
            need(bool(got) == want, '{}: {} evaluates to {} under {}', spec, repr(obj), got, env)
            if read:
                need(bool(read(dict(params, **env))) == want, '{}: the constraint {} is listed as {}', spec, con, text)
            ctx.evals(1)
        ctx.step()
    for name, value in spec[1]:
        changed = dict(params, **{name: value + 1})
        built.objs[('p', name)].value = value + 1
        for con, obj in zip(spec[2], objs):
            if con[0] != 'expr':
                continue
            again = rebuild(repr(obj))
            for env in envs:
                want = truth(con, env, changed)
                need(want is None or bool(again.evaluate(env)) == want, '{}: after {} = {}, {} evaluates differently under {}', spec, name, value + 1, repr(obj), env)
        ctx.step()
        built.objs[('p', name)].value = value
    ctx.state(spec)
    ctx.trace((len(variables), len(constraints)))


def objectives(ctx):
    spec = csp.spec3(0, ())
    for o, ast in enumerate(optim.OBJECTIVES):
        for sense in optim.DIRS:
            built = csp.Built(spec)
            obj = optim.objective(o, sense, built)
            again = rebuild(repr(obj))
            need(type(again) is type(obj), '{} represents {}', repr(obj), (sense, ast))
            for key in itertools.product((-2, 0, 1, 3), repeat=3):
                env = dict(zip('xyz', key))
                need(again.evaluate(env) == obj.evaluate(env) == optim.value(o, key), '{} evaluates to {} under {}', repr(obj), again.evaluate(env), env)
            ctx.step()
            ctx.state(o, sense)
            ctx.trace(repr(obj))


def run_case(case, ctx):
    if case[0] == 'formulas':
        formulas(case[1], ctx)
    elif case[0] == 'model':
        model(csp.spec3(case[1], case[2]), ctx)
    elif case[0] == 'u0':
        model(csp.U0[case[1]], ctx)
    else:
        objectives(ctx)
