"""C17: structural equality on all pairs of a bounded universe of expression trees.

'canon': trees whose construction neither folds nor reorders, so that the formula is the structure; every tree is built
twice from separate leaves; equals() of every pair must be the equality of the formulas.
'laws': the folding universe of C07; on all pairs: reflexive, symmetric, transitive, equal => same values everywhere."""
import itertools

from mc import exprs, ref
from mc.core import need

PROPERTY = 'C17'

# leaves: parameters carry their value
LEAVES = [('v', 'x'), ('v', 'y'), ('v', 'x1'), ('v', 'X'), ('v', 'x_1'), ('par', 'x', 2), ('par', 'P', 2), ('par', 'p', 2), ('par', 'p', -3), ('par', 'q', 2), ('c', 2), ('c', 3), ('c', 0)]
# built from their text every time, so that equal ones are separate objects
BIG = (1000, -1000, 10 ** 30, -10 ** 30, 257, 256, -6)
# '//' builds the same structure as '/'
OPS = tuple(op for op in ref.BINOPS if op != '//')
FOLDING = ('+', '*')


def bounds(tier):
    return dict(canonical_trees=len(canon(tier)), pairs='all ordered pairs of separately built canonical trees',
                canonical='13 leaves (variables, parameters with values, constants) and big numbers as separate objects; all unary and binary combinations that do not fold; '
                          'two-level combinations; sums and products of 3..4 terms with and without constant; sums, products and chains of 9, 13 and 20 variables that differ in one place',
                laws='bundles of the folding universe (see C07), all ordered pairs within a bundle, all assignments over {}'.format(exprs.CUBE),
                parameters='values changed after construction in all ways', tier=tier)


def isconst(ast):
    return ast[0] == 'c'


def binary(op, a, b):
    """The tree op(a, b) if building it neither folds nor reorders; else None."""
    if isconst(a) and isconst(b):
        return None
    if isconst(b) and op in ('+', '*', '-', '/', '**'):
        return None if op in FOLDING or b[1] in (0, 1) else (op, a, b)
    if isconst(a) and a[1] in (0, 1):
        return None
    if op in ref.COMPARE and a[0] == 'v' and b[0] == 'par':
        # Python itself turns x < p into p > x, because Parameter is a subclass of Variable
        return None
    if op in FOLDING:
        # no nested sums/products here (those are the n-ary ones below)
        if a[0] in FOLDING + ('nary',) or b[0] in FOLDING + ('nary',):
            return None
    return (op, a, b)


_canon = {}


def canon(tier):
    if tier in _canon:
        return _canon[tier]
    trees = list(LEAVES)
    level1 = []
    for a in LEAVES:
        if not isconst(a):
            for op in ('neg', 'abs', 'not'):
                level1.append((op, a))
    short = [('v', 'x'), ('v', 'y'), ('par', 'p', 2), ('par', 'x', 2), ('c', 2), ('c', 3)]
    for op in OPS:
        for a, b in itertools.product(LEAVES if tier == 'thorough' else short, repeat=2):
            t = binary(op, a, b)
            if t:
                level1.append(t)
    trees += level1
    # n-ary sums and products: ('nary', op, const or None, terms)
    terms = [('v', 'x'), ('v', 'y'), ('neg', ('v', 'x')), ('par', 'p', 2)]
    for op in FOLDING:
        for n in (3, 4) if tier == 'thorough' else (3,):
            for ts in itertools.product(terms, repeat=n):
                for const in (None, 2, 3):
                    trees.append(('nary', op, const, ts))
        for ts in itertools.product(terms[:2], repeat=4):
            for const in (None, -1):
                trees.append(('nary', op, const, ts))
        for ts in itertools.product(terms, repeat=2):
            for const in (2, 3):
                trees.append(('nary', op, const, ts))
    trees += [('c', n) for n in BIG] + [('par', 'p', n) for n in BIG]
    for n in BIG:
        for op in ('-', '==', '<', '&', '%'):
            trees += [(op, ('v', 'x'), ('c', n)), (op, ('neg', ('v', 'x')), ('par', 'p', n))]
        trees += [('nary', op, n, ts) for op in FOLDING for ts in ((('v', 'x'), ('v', 'y')), (('v', 'x'), ('v', 'y'), ('v', 'x')))]
    inner = [t for t in level1 if t[0] in ('neg', 'abs', 'not', '-', '==', '<', '&', '+', '*') and len(str(t)) < 60
             and all(a in (('v', 'x'), ('v', 'y'), ('par', 'p', 2), ('c', 2)) for a in t[1:])]
    inner.append(('nary', '+', 2, (('v', 'x'), ('v', 'y'))))
    for t in inner:
        for op in ('neg', 'abs', 'not'):
            trees.append((op, t))
        for op in OPS if tier == 'thorough' else ('-', '/', '==', '<=', '|', '*', '**'):
            for other in (('v', 'x'), ('c', 2), ('par', 'p', 2)):
                for u in (binary(op, t, other), binary(op, other, t)):
                    if u:
                        trees.append(u)
    # wide and deep trees that differ in a single place
    items = [('v', 'v{}'.format(k)) for k in range(20)]
    for op in FOLDING:
        for const in (None, 7):
            for n in (9, 13, 20):
                trees.append(('nary', op, const, tuple(items[:n])))
                for k in range(n):
                    trees.append(('nary', op, const, tuple(items[:k] + [('v', 'w')] + items[k + 1:n])))
    for op in ('-', '&', '=='):
        for n in (9, 20):
            for k in [None] + list(range(n)):
                for side in (0, 1):
                    t = ('v', 'w') if k == 0 else items[0]
                    for j in range(1, n):
                        other = ('v', 'w') if k == j else items[j]
                        t = (op, t, other) if side else (op, other, t)
                    trees.append(t)
    _canon[tier] = list(dict.fromkeys(trees))
    return _canon[tier]


def build(t):
    from satisfy.expression import Const, Not, Parameter, Variable
    op = t[0]
    if op == 'v':
        return Variable(t[1])
    if op == 'par':
        return Parameter(t[1], int(str(t[2])))
    if op == 'c':
        return Const(int(str(t[1])))
    if op == 'nary':
        _, sym, const, ts = t
        res = build(ts[0]) if const is None else ref.build1(sym, [Const(int(str(const))), build(ts[0])])
        for u in ts[1:]:
            res = ref.build1(sym, [res, build(u)])
        return res
    return ref.build1(op, [build(a) for a in t[1:]])


CHUNK = 16


def law_bundles(tier):
    for key in exprs.families('quick'):
        if key[0] in ('d1', 'un', 'mixchain', 'shadow'):
            yield key
        elif key[0] == 'chain' and key[2] == 3:
            yield key
        elif key[0] == 'comb3' and (tier == 'thorough' or key[2] in ('+', '*', '-', '==', '&')):
            yield key
        elif key[0] in ('nary', 'nested') and key[2] < 3 or key[0] == 'sum' and key[1] == 3:
            yield key
        elif tier == 'thorough' and key[0] == 'comb':
            yield key


def cases(tier):
    n = len(canon(tier))
    for first in range(0, n, CHUNK):
        yield ('canon', first)
    yield ('parameters',)
    for key in law_bundles(tier):
        yield ('laws', key)


_built = {}


def run_case(case, ctx):
    if case[0] == 'parameters':
        return run_parameters(ctx)
    if case[0] == 'laws':
        return run_laws(case[1], ctx)
    tier = 'thorough' if ctx.tier == 'thorough' else 'quick'
    trees = canon(tier)
    if tier not in _built:
        _built[tier] = [build(t) for t in trees]
    right = _built[tier]
    for k in range(case[1], min(case[1] + CHUNK, len(trees))):
        left = build(trees[k])
        need(bool(left.equals(left)), '{} does not equal itself', trees[k])
        for j, other in enumerate(right):
            got = bool(left.equals(other))
            if got != (j == k):
                need(False, '{}.equals({}) is {}', trees[k], trees[j], got)
            if bool(other.equals(left)) != got:
                need(False, 'equality of {} and {} is not symmetric', trees[k], trees[j])
        ctx.step(2 * len(right))
        ctx.state(k)
        ctx.trace(trees[k][0])


def run_parameters(ctx):
    """The value of a parameter counts when comparing, not when building."""
    from satisfy.expression import Parameter, Variable
    shapes = [lambda p: p, lambda p: -p, lambda p: Variable('x') + p, lambda p: abs(p - Variable('x')) < p, lambda p: Variable('x') * p * Variable('y'),
              lambda p: Variable('x') + 2 + p + Variable('y'), lambda p: (p & Variable('x')) | p]
    for shape in shapes:
        for a0, a1, b0, b1 in itertools.product((0, 1, 2, -2), repeat=4):
            p, q = Parameter('p', a0), Parameter('p', b0)
            e, f = shape(p), shape(q)
            for a, b in ((a0, b0), (a1, b0), (a1, b1)):
                p.value, q.value = a, b
                need(bool(e.equals(f)) == (a == b) == bool(f.equals(e)), 'parameters with values {} and {} in {}: equals {}', a, b, e, e.equals(f))
                ctx.step()
            ctx.state(shape, a0, a1, b0, b1)
            ctx.trace((a1 == b1, a0 == b0))


def run_laws(key, ctx):
    pool = exprs.Pool()
    items = []
    for ast in exprs.expand(key):
        if len(items) >= (900 if ctx.tier == 'thorough' else 500):
            break
        if exprs.hopeless(ast):
            continue
        e = pool.get(ast)
        if hasattr(e, 'equals'):
            items.append((ast, e))
    table = {}

    def values(ast):
        if ast not in table:
            table[ast] = {}
        return table[ast]

    rows = []
    for ast, e in items:
        rows.append(frozenset(k for k, (_, f) in enumerate(items) if e.equals(f)))
        ctx.step(len(items))
    for k, row in enumerate(rows):
        need(k in row, '{} does not equal itself', ref.show(items[k][0]))
        for j in row:
            need(k in rows[j], 'equality of {} and {} is not symmetric', ref.show(items[k][0]), ref.show(items[j][0]))
            need(rows[j] == row, 'equality is not transitive around {} and {}', ref.show(items[k][0]), ref.show(items[j][0]))
        first = min(row)
        if first != k:
            a, b = items[k][1], items[first][1]
            names = ref.variables(items[k][0]) | ref.variables(items[first][0])
            for env in exprs.assignments(names):
                va, vb = outcome(a, env, items[k][0]), outcome(b, env, items[first][0])
                need(va == vb or 'skipped' in (va, vb), '{} equals {}, but under {} they are {} and {}', ref.show(items[k][0]), ref.show(items[first][0]), env, va, vb)
                ctx.evals()
        ctx.state(k, row)
    ctx.trace(len(set(rows)))


def outcome(e, env, ast):
    try:
        ref.ev(ast, env, exprs.PARAMS)
    except ref.TooBig:
        return 'skipped'
    except ref.Undefined:
        pass
    try:
        return e.evaluate(env)
    except ArithmeticError as err:
        return type(err).__name__
