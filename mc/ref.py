"""Reference semantics: formulas as plain tuples with an independent, boring evaluator.

AST:  ('v', name) variable   ('p', name) parameter   ('c', k) Const(k)   ('i', k) plain number
      (op, a, b) with op in BINOPS      ('neg', a) ('pos', a) ('abs', a) ('not', a)
      ('sum', a, b, ...)  Python's sum() over the operands
      ('Sum', a, b, ...) ('Prod', a, b, ...)  the n-ary nodes built directly
"""
import operator

# '/' and '//' both denote integer (floor) division
ARITH = ('+', '-', '*', '/', '//', '%', '**')
COMPARE = ('==', '!=', '<', '<=', '>', '>=')
LOGIC = ('&', '|')
BINOPS = ARITH + COMPARE + LOGIC
UNOPS = ('neg', 'pos', 'abs', 'not')
TOO_BIG = 10 ** 12


class Undefined(Exception):
    """The integer formula has no value here (division by zero, negative exponent, too big)."""


class TooBig(Undefined):
    """Not worth computing: the value or the exponent is huge."""


_FUN = {
    '+': operator.add, '-': operator.sub, '*': operator.mul,
    '==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le,
    '>': operator.gt, '>=': operator.ge,
}


def ev(ast, env, params):
    op = ast[0]
    if op == 'v':
        return env[ast[1]]
    if op == 'p':
        return params[ast[1]]
    if op == 'c' or op == 'i':
        return ast[1]
    if op == '&':
        a = ev(ast[1], env, params)
        return a and ev(ast[2], env, params)
    if op == '|':
        a = ev(ast[1], env, params)
        return a or ev(ast[2], env, params)
    if op == 'neg':
        return -ev(ast[1], env, params)
    if op == 'pos':
        return ev(ast[1], env, params)
    if op == 'abs':
        return abs(ev(ast[1], env, params))
    if op == 'not':
        return not ev(ast[1], env, params)
    if op == 'Prod':
        total = 1
        for a in ast[1:]:
            total *= ev(a, env, params)
        return total
    if op == 'sum' or op == 'Sum':
        total = 0
        for a in ast[1:]:
            total += ev(a, env, params)
        return total
    a = ev(ast[1], env, params)
    b = ev(ast[2], env, params)
    if op == '/' or op == '//':
        if b == 0:
            raise Undefined()
        return a // b
    if op == '%':
        if b == 0:
            raise Undefined()
        return a % b
    if op == '**':
        if b < 0:
            raise Undefined()
        if abs(a) > 1 and b > 64:
            raise TooBig()
        r = a ** b
        if abs(r) > TOO_BIG:
            raise TooBig()
        return r
    return _FUN[op](a, b)


def value(ast, env, params=None):
    """The value, or None where the formula is undefined."""
    try:
        return ev(ast, env, params or {})
    except Undefined:
        return None


def too_big(ast, env, params=None):
    try:
        ev(ast, env, params or {})
    except TooBig:
        return True
    except Undefined:
        pass
    return False


def variables(ast):
    op = ast[0]
    if op == 'v':
        return {ast[1]}
    if op in ('p', 'c', 'i'):
        return set()
    res = set()
    for a in ast[1:]:
        res |= variables(a)
    return res


def parameters(ast):
    op = ast[0]
    if op == 'p':
        return {ast[1]}
    if op in ('v', 'c', 'i'):
        return set()
    res = set()
    for a in ast[1:]:
        res |= parameters(a)
    return res


def leaves(ast):
    if ast[0] in ('v', 'p', 'c', 'i'):
        yield ast
    else:
        for a in ast[1:]:
            yield from leaves(a)


def subtrees(ast):
    yield ast
    if ast[0] not in ('v', 'p', 'c', 'i'):
        for a in ast[1:]:
            yield from subtrees(a)


def count_op(ast, name):
    if ast[0] in ('v', 'p', 'c', 'i'):
        return 0
    return (ast[0] == name) + sum(count_op(a, name) for a in ast[1:])


_BUILD = {
    '+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
    '%': operator.mod, '**': operator.pow, '==': operator.eq, '!=': operator.ne,
    '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge,
    '&': operator.and_, '|': operator.or_, 'neg': operator.neg, 'pos': operator.pos, 'abs': abs,
}


def build1(op, args):
    """Applies one operator to already built operands."""
    if op == 'not':
        return args[0].__not__()
    if op == 'sum':
        return sum(args)
    if op == 'Sum' or op == 'Prod':
        from satisfy import expression
        return getattr(expression, op)(args)
    return _BUILD[op](*args)


def build(ast, leaf):
    """Builds the formula with the library's operators; leaf(ast) supplies variables and parameters."""
    op = ast[0]
    if op == 'i':
        return ast[1]
    if op == 'c':
        from satisfy.expression import Const
        return Const(ast[1])
    if op in ('v', 'p'):
        return leaf(ast)
    return build1(op, [build(a, leaf) for a in ast[1:]])


def show(ast):
    op = ast[0]
    if op in ('v', 'p'):
        return ast[1] if op == 'v' else '$' + ast[1]
    if op == 'c':
        return 'C({})'.format(ast[1])
    if op == 'i':
        return str(ast[1])
    if op in ('neg', 'pos', 'abs', 'not', 'sum', 'Sum', 'Prod'):
        return '{}({})'.format(op, ', '.join(show(a) for a in ast[1:]))
    return '({} {} {})'.format(show(ast[1]), op, show(ast[2]))
