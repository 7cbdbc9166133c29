"""Bounded universe of constraint models, their construction with the library and their oracle.

A spec is a tuple  (vars, params, cons)  with
    vars   ((name, domain, container), ...)      container in CONTAINERS
    params ((name, value), ...)
    cons   (con, ...)      con = ('expr', ast) | ('ad', names) | ('const', bool) | ('custom', kind, names)
The oracle is brute force over the product of the domains with the reference evaluator.
"""
import itertools

from . import ref

POLICIES = ('ORDERED', 'REVERSED', 'RANDOM', 'GROUPS', 'MIN_BOUND', 'MAX_BOUND', 'MIN_CONSTRAINT', 'MAX_CONSTRAINT')
CONTAINERS = ('tuple', 'list', 'range', 'set', 'iter', 'gen')

CUSTOM = {
    'parity': lambda vals: sum(vals) % 2 == 0,
    'odd': lambda vals: sum(vals) % 2 == 1,
    'nondec': lambda vals: all(a <= b for a, b in zip(vals, vals[1:])),
    'small': lambda vals: sum(abs(v) for v in vals) <= 2,
    # derived from the constraints of the library
    'all different': lambda vals: len(set(vals)) == len(vals),
    'all different except 0': lambda vals: len(set(filter(None, vals))) == len(list(filter(None, vals))),
    'all different and even': lambda vals: len(set(vals)) == len(vals) and sum(vals) % 2 == 0,
    'expression or even': lambda vals: sum(vals) > 2 or sum(vals) % 2 == 0,
    'expression, early': lambda vals: all(a <= b for a, b in zip(vals, vals[1:])),
    'early': lambda vals: all(v != 1 for v in vals[:-1]),
}


def custom_constraint(kind, names, on_evaluate=None):
    from satisfy.constraint import AllDifferentConstraint, Constraint, ExpressionConstraint
    from satisfy.expression import Variable
    fun = CUSTOM[kind]
    names = tuple(names)
    if kind.startswith('all different'):
        class DerivedGroup(AllDifferentConstraint):
            def evaluate(self, substitution):
                if on_evaluate is not None:
                    on_evaluate()
                if kind != 'all different except 0':
                    return super().evaluate(substitution) and fun([substitution[n] for n in names])
                return fun([substitution[n] for n in names])

        class PlainGroup(AllDifferentConstraint):
            pass
        return (PlainGroup if kind == 'all different' else DerivedGroup)(names)
    if kind.startswith('expression'):
        expression = sum(Variable(n) for n in names) > 2

        class DerivedExpression(ExpressionConstraint):
            def evaluate(self, substitution):
                if kind == 'expression, early':
                    return fun([substitution[n] for n in names])
                return super().evaluate(substitution) or sum(substitution[n] for n in names) % 2 == 0

            def unsatisfied(self, substitution):
                # sees what cannot become right any more
                known = [substitution[n] for n in names if n in substitution]
                return not fun(known) if kind == 'expression, early' else super().unsatisfied(substitution)
        return DerivedExpression(expression)
    if kind == 'early':
        class EarlyConstraint(Constraint):
            def evaluate(self, substitution):
                return fun([substitution[n] for n in names])

            def unsatisfied(self, substitution):
                return any(substitution.get(n) == 1 for n in names[:-1])
        return EarlyConstraint(names)

    class UserConstraint(Constraint):
        def evaluate(self, substitution):
            if on_evaluate is not None:
                on_evaluate()
            return fun([substitution[n] for n in names])
    return UserConstraint(names)


def con_vars(con):
    if con[0] == 'expr':
        return ref.variables(con[1])
    if con[0] == 'const':
        return set()
    return set(con[-1])


def con_holds(con, env, params):
    if con[0] == 'expr':
        return bool(ref.ev(con[1], env, params))
    if con[0] == 'ad':
        vals = [env[n] for n in con[1]]
        return len(set(vals)) == len(vals)
    if con[0] == 'const':
        return con[1]
    return CUSTOM[con[1]]([env[n] for n in con[2]])


_tables = {}


def table(con, names, domains, params):
    """Bit mask over the product of the domains: which assignments satisfy the constraint."""
    key = (con, names, domains, params)
    mask = _tables.get(key)
    if mask is None:
        if len(_tables) > 20000:
            _tables.clear()
        mask = 0
        p = dict(params)
        for i, vals in enumerate(itertools.product(*domains)):
            if con_holds(con, dict(zip(names, vals)), p):
                mask |= 1 << i
        _tables[key] = mask
    return mask


def solutions(spec, extra=()):
    """The oracle: the set of satisfying assignments, as value tuples in declaration order."""
    vars_, params, cons = spec
    names = tuple(v[0] for v in vars_)
    domains = tuple(tuple(v[1]) for v in vars_)
    total = 1
    for d in domains:
        total *= len(d)
    mask = (1 << total) - 1
    for con in tuple(cons) + tuple(extra):
        mask &= table(con, names, domains, params)
    if not mask:
        return set()
    return {vals for i, vals in enumerate(itertools.product(*domains)) if mask >> i & 1}


def joined(spec):
    """The oracle for models whose product of domains is too big: variable by variable, in declaration order."""
    vars_, params, cons = spec
    p = dict(params)
    names = [v[0] for v in vars_]
    at = {}
    for con in cons:
        at.setdefault(max((names.index(n) for n in con_vars(con)), default=0), []).append(con)
    layer = [()]
    for k, (name, domain, _) in enumerate(vars_):
        layer = [vals + (v,) for vals in layer for v in domain]
        for con in at.get(k, ()):
            layer = [vals for vals in layer if con_holds(con, dict(zip(names, vals)), p)]
    return set(layer)


def fresh(value):
    """An equal value that is a different object (where the interpreter allows it)."""
    return type(value)(str(value)) if type(value) is int else value


def container(domain, kind):
    domain = tuple(fresh(v) for v in domain)
    if kind == 'list':
        return list(domain)
    if kind == 'range':
        return range(domain[0], domain[-1] + 1) if domain else range(0)
    if kind == 'set':
        return set(domain)
    if kind == 'iter':
        return iter(domain)
    if kind == 'gen':
        return (v for v in domain)
    return tuple(domain)


class Built:
    """A model built from a spec."""

    def __init__(self, spec, declare=None, additional=(), con_order=None, on_evaluate=None):
        from satisfy import Model
        from satisfy.expression import Parameter
        vars_, params, cons = spec
        self.spec = spec
        self.names = tuple(v[0] for v in vars_)
        self.model = Model()
        self.objs = {}
        for i in (declare if declare is not None else range(len(vars_))):
            name, domain, kind = vars_[i]
            self.objs[('v', name)] = self.model.add_int_variable(container(domain, kind), name=name)
        for name, value in params:
            # 'p#2' is one more object with the name 'p', which the model does not know
            self.objs[('p', name)] = Parameter(name.split('#')[0], value) if '#' in name else self.model.add_parameter(value, name=name)
        self.on_evaluate = on_evaluate
        self.additional = []
        for i in (con_order if con_order is not None else range(len(cons))):
            if i in additional:
                self.additional.append(self.constraint(cons[i]))
            else:
                self.add(cons[i])

    def expr(self, ast):
        return ref.build(ast, self.objs.__getitem__)

    def constraint(self, con):
        from satisfy.constraint import AllDifferentConstraint, ConstConstraint, ExpressionConstraint
        from satisfy.expression import Expression
        if con[0] == 'expr':
            return ExpressionConstraint(Expression.coerce(self.expr(con[1])))
        if con[0] == 'ad':
            return AllDifferentConstraint(con[1])
        if con[0] == 'const':
            return ConstConstraint(con[1])
        return custom_constraint(con[1], con[2], self.on_evaluate)

    def add(self, con):
        if con[0] == 'expr':
            self.model.add_constraint(self.expr(con[1]))
        elif con[0] == 'ad':
            self.model.add_all_different_constraint([self.objs[('v', n)] for n in con[1]])
        elif con[0] == 'const':
            self.model.add_constraint(con[1])
        else:
            self.model.add_constraint(self.constraint(con))


def policy(name):
    from satisfy import VarSelectionPolicy
    return VarSelectionPolicy[name]


def key_of(solution, names):
    """The value tuple of a yielded assignment (fails on a wrong set of variables)."""
    if not isinstance(solution, dict) or set(solution) != set(names):
        return ('malformed', repr(solution))
    return tuple(solution[n] for n in names)


def run(iterator, names, bound):
    """Exhausts an iteration; stops (and reports) when it yields more than `bound` solutions."""
    res = []
    for solution in iterator:
        res.append(key_of(solution, names))
        if len(res) > bound:
            break
    return res


# ---------------------------------------------------------------- universes

X, Y, Z = ('v', 'x'), ('v', 'y'), ('v', 'z')
P = ('p', 'p')


def i(k):
    return ('i', k)


def E(*ast):
    return ('expr', ast)


CATALOG3 = [
    E('!=', X, i(0)),
    E('>=', Y, i(1)),
    E('==', ('*', Z, Z), i(1)),
    E('==', ('-', X, X), i(0)),
    E('<', X, i(-9)),
    E('<', X, Y),
    E('<=', Y, Z),
    E('!=', X, Z),
    E('==', X, Y),
    E('==', ('*', X, Y), i(0)),
    E('==', X, ('neg', Z)),
    E('|', X, Z),
    E('>', ('abs', ('-', Y, Z)), i(1)),
    E('==', ('+', ('+', X, Y), Z), i(2)),
    E('==', ('+', X, Y), Z),
    E('&', ('<', X, Y), ('<', Y, Z)),
    E('|', ('==', X, Y), ('==', Y, Z)),
    E('>', ('-', ('+', X, ('*', i(2), Y)), Z), i(0)),
    ('ad', ('x', 'y')),
    ('ad', ('y', 'z')),
    ('ad', ('x', 'y', 'z')),
    ('ad', ('z', 'x')),
    ('ad', ('x',)),
    ('const', True),
    ('const', False),
    E('<', X, P),
    E('!=', ('+', X, Y), P),
    ('custom', 'parity', ('x', 'y', 'z')),
    ('custom', 'nondec', ('z', 'x')),
    ('custom', 'small', ('y',)),
]

DOMAINS3 = [
    (((0, 1, 2), 'tuple'), ((0, 1, 2), 'list'), ((0, 1, 2), 'range')),
    (((2, 0, 1), 'list'), ((-1, 0, 1), 'range'), ((1, 0), 'tuple')),
    (((0,), 'tuple'), ((0, 1), 'set'), ((3, 1, -2, 0), 'list')),
    (((1, 0), 'iter'), ((1, 2, 3), 'gen'), ((2, 1), 'list')),
    (((0, 1), 'tuple'), ((), 'list'), ((1,), 'tuple')),
]


def spec3(dom, cons):
    names = ('x', 'y', 'z')
    return (tuple((n, d, k) for n, (d, k) in zip(names, DOMAINS3[dom])), (('p', 1),), tuple(CATALOG3[c] for c in cons))


def u1(maxcons, doms):
    """3 variables, every subset of at most maxcons constraints of the catalog."""
    for n in range(maxcons + 1):
        for cons in itertools.combinations(range(len(CATALOG3)), n):
            for dom in doms:
                yield ('u1', dom, cons)


GROUPS4 = [g for n in (2, 3, 4) for g in itertools.combinations('abcd', n)]
DOMS4 = [(((0, 1, 2),) * 4), ((0, 1), (1, 2), (0, 2), (2, 0, 1)), ((0, 1, 2, 3),) * 4]


def u2(maxgroups):
    """4 variables, every set of at most maxgroups all-different groups, with or without a sum constraint."""
    for n in range(1, maxgroups + 1):
        for groups in itertools.combinations(range(len(GROUPS4)), n):
            for dom in range(len(DOMS4)):
                for extra in (0, 1, 2):
                    yield ('u2', dom, groups, extra)


def spec_u2(case):
    _, dom, groups, extra = case
    cons = [('ad', GROUPS4[g]) for g in groups]
    if extra == 1:
        cons.insert(0, E('==', ('+', ('+', ('v', 'a'), ('v', 'b')), ('+', ('v', 'c'), ('v', 'd'))), i(4)))
    elif extra == 2:
        cons.append(E('<', ('v', 'b'), ('v', 'd')))
        cons.append(E('!=', ('v', 'c'), i(0)))
    return (tuple((n, d, 'list') for n, d in zip('abcd', DOMS4[dom])), (), tuple(cons))


EDGE_OPS = [('!=',), ('<',), ('<=',), ('==',), ('!=', '<=', '<'), ('custom',)]


def u3(n):
    """n variables, every graph on them, with constraint kinds on the edges."""
    edges = list(itertools.combinations(range(n), 2))
    for mask in range(1, 1 << len(edges)):
        for ops in range(len(EDGE_OPS)):
            yield ('u3', n, mask, ops)


def spec_u3(case):
    _, n, mask, ops = case
    edges = [e for k, e in enumerate(itertools.combinations(range(n), 2)) if mask >> k & 1]
    kinds = EDGE_OPS[ops]
    names = ['v{}'.format(k) for k in range(n)]
    cons = []
    for k, (a, b) in enumerate(edges):
        kind = kinds[k % len(kinds)]
        if (a + b) % 2:
            a, b = b, a
        if kind == 'custom':
            cons.append(('custom', 'nondec', (names[a], names[b])))
        else:
            cons.append(E(kind, ('v', names[a]), ('v', names[b])))
    dom = ((0, 1, 2), (2, 1, 0), (1, 0), (0, 1, 2), (0, 1))
    return (tuple((nm, dom[k % 5], 'tuple') for k, nm in enumerate(names)), (), tuple(cons))


def linear(names, coeffs, op, k):
    terms = [('v', n) if c == 1 else ('*', i(c), ('v', n)) for n, c in zip(names, coeffs)]
    total = terms[0]
    for t in terms[1:]:
        total = ('+', total, t)
    return E(op, total, i(k))


def catalog_wide(n):
    names = tuple('v{}'.format(k) for k in range(n))
    v = [('v', nm) for nm in names]
    prod = v[0]
    for t in v[1:]:
        prod = ('*', prod, t)
    chain = ('<=', v[0], v[1])
    for a, b in zip(v[1:], v[2:]):
        chain = ('&', chain, ('<=', a, b))
    disj = ('==', v[0], i(1))
    for a in v[1:]:
        disj = ('|', disj, ('==', a, i(2)))
    return names, [
        linear(names, [1] * n, '==', 2),
        linear(names, [1] * n, '<', 3),
        linear(names, range(1, n + 1), '==', n),
        linear(names[:4], [1, -1, 2, -2], '>=', 1),
        E('==', prod, i(0)),
        ('expr', chain),
        ('expr', disj),
        ('ad', names[:3]),
        ('ad', names[1:3]),
        ('ad', names[-2:]),
        ('custom', 'parity', names),
        ('custom', 'small', names[:4]),
        E('!=', v[0], v[n - 1]),
        E('==', v[1], ('-', i(1), v[2])),
        E('>', v[n - 1], i(0)),
    ]


def u4(n, maxcons, ternary):
    """n >= 5 variables, every subset of at most maxcons constraints of a catalog of high arity."""
    size = len(catalog_wide(n)[1])
    for k in range(maxcons + 1):
        for cons in itertools.combinations(range(size), k):
            yield ('u4', n, cons, ternary)


def spec_u4(case):
    _, n, cons, ternary = case
    names, cat = catalog_wide(n)
    doms = [((0, 1), (1, 0), (0, 2), (2, 0, 1), (0, 1))[k % 5] if k % 2 or not ternary else (0, 1, 2) for k in range(n)]
    return (tuple((nm, d, 'tuple') for nm, d in zip(names, doms)), (), tuple(cat[c] for c in cons))


def spec_of(case):
    return {'u1': lambda c: spec3(c[1], c[2]), 'u2': spec_u2, 'u3': spec_u3, 'u4': spec_u4}[case[0]](case)


def universe(tier):
    big = tier == 'thorough'
    # no variables at all
    yield ('u0', 0)
    yield from u1(2, range(len(DOMAINS3)))
    yield from u3(3)
    yield from u3(4)
    yield from u2(2 if not big else 3)
    yield from u4(5, 2, False)
    yield from u4(6, 2, True)
    yield from u4(8, 1, False)
    yield from u4(10, 1, False)
    for n in (3,):
        for cons in itertools.combinations(range(len(CATALOG3)), n):
            for dom in (range(len(DOMAINS3)) if big else (1,)):
                yield ('u1', dom, cons)
    if big:
        yield from u3(5)
        yield from u4(5, 3, True)
        yield from u4(7, 2, True)
        yield from u4(9, 2, False)
        yield from u4(12, 1, False)


U0 = [
    ((), (), ()),
    ((), (('p', 1),), ()),
    ((), (('p', 1),), (E('==', P, i(1)),)),
    ((), (('p', 1),), (E('==', P, i(2)),)),
    ((), (), (('const', True),)),
    ((), (), (('const', False),)),
    ((('x', (5,), 'tuple'),), (), ()),
    ((('x', (), 'tuple'),), (), ()),
    ((('x', (0, 1, 2, 3), 'tuple'),), (), (E('!=', X, i(2)), E('!=', X, i(0)))),
    ((('x', (0, 1, 2, 3), 'tuple'),), (), (E('!=', X, i(2)), E('!=', X, i(0)), E('==', ('%', X, i(2)), i(0)))),
    ((('x', (-3, 0, 3), 'set'), ('y', (0,), 'list')), (), (E('==', ('abs', X), i(3)),)),
]

# values beyond the interpreter's small integers, huge, negative, and booleans next to the integers they equal
BIG = 10 ** 20
VALUE_SETS = [
    ((1000, 1001, 1002), (1000, 1001, 1002), (1002, 1000)),
    ((-1000, 257, 0), (257, -1000), (-1000, 0, 257)),
    ((BIG, BIG + 1, -BIG), (BIG, -BIG), (BIG + 1, BIG)),
    ((True, False), (0, 1, 2), (1, 0)),
    ((0, 1), (True, False), (False, True)),
    ((1000, BIG), (1000, 5), (BIG, 5, -6)),
]
VALUE_CONS = [
    ('ad', ('x', 'y')), ('ad', ('y', 'z')), ('ad', ('x', 'y', 'z')),
    E('==', X, Y), E('!=', Y, Z), E('<', Z, X), E('==', ('-', X, Z), ('-', Y, Z)),
    E('==', ('+', ('+', X, Y), Z), ('*', i(3), Z)), E('!=', X, i(1000)), E('==', X, ('p', 'p')),
    ('custom', 'nondec', ('x', 'y', 'z')), E('|', ('==', X, Y), ('==', Y, Z)),
]
for _values in VALUE_SETS:
    for _n in range(3):
        for _cons in itertools.combinations(VALUE_CONS, _n):
            U0.append((tuple(zip('xyz', _values, ('list', 'tuple', 'set'))), (('p', 1000),), _cons))

# constraints of the user derived from those of the library
_derived = [('custom', kind, names) for kind in list(CUSTOM)[4:] for names in (('x', 'y'), ('y', 'z', 'x'), ('z',))]
_others = [('ad', ('x', 'y')), ('ad', ('x', 'y', 'z')), E('<', X, Y), ('custom', 'parity', ('x', 'z'))]
for _k, _c in enumerate(_derived):
    for _d in (None,) + tuple(_derived[_k + 1:]) + tuple(_others):
        for _values in (((0, 1, 2), (1, 0, 2), (2, 0, 3)), ((0, -1, 1), (0, 4), (0, 1))):
            U0.append((tuple(zip('xyz', _values, ('list', 'tuple', 'tuple'))), (), (_c,) + ((_d,) if _d else ())))

# long domains and long chains
_long = tuple('v{}'.format(k) for k in range(13))
U0 += [
    ((('x', tuple(range(400)), 'range'),), (), (E('==', ('%', X, i(7)), i(3)),)),
    ((('x', tuple(range(-150, 150)), 'list'),), (), ()),
    ((('x', tuple(range(30)), 'list'), ('y', tuple(range(40, 10, -1)), 'tuple')), (), (E('==', ('+', X, Y), i(45)),)),
    ((('x', tuple(range(30)), 'list'), ('y', tuple(range(30)), 'tuple')), (), (('ad', ('x', 'y')), E('<', X, Y))),
    ((('x', tuple(range(12)), 'list'), ('y', tuple(range(12)), 'tuple'), ('z', tuple(range(12)), 'set')), (), (('ad', ('x', 'y', 'z')), E('==', ('*', X, Y), Z))),
    (tuple((n, (0, 1), 'tuple') for n in _long), (), tuple(E('<=', ('v', a), ('v', b)) for a, b in zip(_long, _long[1:]))),
    (tuple((n, (1, 0), 'tuple') for n in _long), (), tuple(E('!=', ('v', a), ('v', b)) for a, b in zip(_long, _long[1:]))),
    (tuple((n, (0, 1), 'tuple') for n in _long), (), tuple(E('==', ('v', a), ('v', b)) for a, b in zip(_long, reversed(_long)) if a < b)),
    (tuple((n, (0, 1), 'tuple') for n in _long), (), (linear(_long, [1] * 13, '==', 1),)),
    (tuple((n, (0, 1), 'tuple') for n in _long), (), (linear(_long, [1] * 13, '>', 12),)),
]

# many constraints and many all-different groups on one variable
for _k in (4, 5, 6):
    _arms = tuple('y{}'.format(k) for k in range(_k))
    _vars = (('x', (0, 1, 2), 'tuple'),) + tuple((n, (0, 1, 2)[k % 2:], 'tuple') for k, n in enumerate(_arms))
    _last = _vars[1:] + _vars[:1]
    for _doms in (_vars, _last):
        U0 += [
            (_doms, (), tuple(('ad', ('x', n)) for n in _arms)),
            (_doms, (), tuple(('ad', (n, 'x')) for n in _arms) + tuple(('ad', pair) for pair in zip(_arms, _arms[1:]))),
            (_doms, (), tuple(E('!=', X, ('v', n)) for n in _arms)),
            (_doms, (), tuple(E('<=', ('v', n), X) if k % 2 else E('>=', ('v', n), X) for k, n in enumerate(_arms)) + (('ad', ('x', _arms[-1])),)),
            (_doms, (), tuple(('ad', ('x', n, m)) for n, m in zip(_arms, _arms[1:]))),
            (_doms, (), tuple(('custom', 'nondec', (n, 'x')) for n in _arms)),
        ]

# names that differ in little, sort oddly or are words of the language or of the library
NAMES = [('a', 'A', 'aA'), ('v1', 'v10', 'v2'), ('if', 'lambda', 'None'), ('self', 'model', 'limit'), ('value', 'substitution', 'timeout'), ('e', 'E', 'ee'),
         ('fi', 'ff', 'Fi'), ('x', 'x_', 'x__1'), ('sum', 'prod', 'abs'), ('Z', 'a', 'B'), ('print', 'key', 'args'), ('x1', 'x01', 'X1'), ('class', 'klass', 'cls'),
         ('x' * 70, 'x' * 70 + '1', 'x' * 71), ('n' * 300, 'm', 'n')]
for _names in NAMES:
    _a, _b, _c = (('v', n) for n in _names)
    _vars = tuple(zip(_names, ((0, 1, 2), (1, 0), (2, 1, 0)), ('tuple', 'list', 'tuple')))
    _same = tuple((n, (0, 1), 'tuple') for n in _names)
    for _cons in ((), (E('<=', _a, _b),), (('ad', _names[:2]),), (('ad', _names),), (E('==', ('+', _a, _b), _c),), (E('!=', _a, i(1)), E('|', _b, ('<', _c, _a))),
                  (E('==', ('abs', ('-', _a, _c)), ('sum', _b, i(1))),), (('custom', 'nondec', _names),)):
        U0 += [(_vars, (), _cons), (_same, (), _cons)]

# the same constraint again, with another one before, between or after
_dup = [('ad', ('x', 'y')), ('ad', ('x', 'y', 'z')), E('<', X, Y), E('!=', Y, Z), E('!=', X, i(1)), E('==', ('+', X, Y), Z), ('custom', 'nondec', ('x', 'z')), ('ad', ('z',))]
_doms = tuple(zip('xyz', ((0, 1, 2), (2, 0, 1), (1, 2, 3)), ('tuple', 'list', 'tuple')))
for _c, _d in itertools.product(_dup, repeat=2):
    U0 += [(_doms, (), (_c, _c, _d)), (_doms, (), (_c, _d, _c)), (_doms, (), (_d, _c, _c, _c))]
    U0 += [(_doms[:2], (), (_c, _c, _d)) for _ in (0,) if not {'z'} & (con_vars(_c) | con_vars(_d))]

# ---------------------------------------------------------------- scale: few models, each beyond the sizes of the universes above
def _v(n, k=0):
    return tuple('v{}'.format(j) for j in range(k, k + n))


def _dom(names, dom, kind='tuple'):
    return tuple((n, tuple(dom(k)), kind) for k, n in enumerate(names))


_n9, _n12, _n16, _n18, _n40 = _v(9), _v(12), _v(16), _v(18), _v(40)
_xy = (('x', tuple(range(40)), 'range'), ('y', (0, 1), 'list'))
SCALE = [
    # more than thirty constraints over the same variables
    (_xy, (), tuple(E('!=', ('+', X, Y), i(k)) for k in range(35))),
    (tuple(reversed(_xy)), (), tuple(E('!=', ('+', X, Y), i(k)) for k in range(2, 40))),
    (_xy + (('z', (1, 2), 'tuple'),), (('p', 3),), tuple(E('!=', ('+', X, ('*', Y, Z)), ('+', P, i(2 * k))) for k in range(18))),
    (_xy, (), tuple(E('!=', X, i(k)) for k in range(0, 40, 2)) + tuple(E('!=', ('-', X, Y), i(k)) for k in range(0, 30, 3))),
    (_xy, (), tuple(('custom', 'parity', ('x', 'y')) for k in range(20)) + (E('>', X, i(35)),)),
    # deep searches: dead ends and wide domains far down
    (_dom(_n18, lambda k: (0, 1, 2)), (), tuple(E('==', ('v', a), ('v', b)) for a, b in zip(_n16, _n16[1:])) + (E('==', ('+', ('v', 'v16'), ('v', 'v17')), i(4)),)),
    (_dom(_n18, lambda k: (k,) if k < 17 else range(300)), (), (E('!=', ('v', 'v17'), i(250)),)),
    (_dom(_n18, lambda k: (k,) if k else range(300)), (), (E('!=', ('v', 'v0'), i(250)),)),
    (_dom(_n12, lambda k: (k,) if k != 9 else range(-40, 260)), (), (('ad', _n12),)),
    (_dom(_n40, lambda k: (k % 3,)), (), tuple(E('<=', ('v', a), ('+', ('v', b), i(2))) for a, b in zip(_n40, _n40[1:]))),
    (_dom(_n40, lambda k: (0, 1) if k in (3, 20, 39) else (k + 2,)), (), (('ad', _n40[4:20]), E('!=', ('v', 'v3'), ('v', 'v39')))),
    (_dom(_n40, lambda k: (k, k + 1) if k == 20 else (k,)), (), (('ad', _n40),)),
    # constraints over many variables
    (_dom(_n18, lambda k: (k, k + 20) if k in (2, 9, 17) else (k,)), (), (linear(_n18, [1] * 18, '==', sum(range(18)) + 40),)),
    (_dom(_n18, lambda k: (1, 2) if k in (0, 8, 16, 17) else (1,)), (), (linear(_n18, range(1, 19), '>', sum(range(1, 19)) + 20), ('custom', 'parity', _n18))),
    (_dom(_n12, lambda k: (k, k + 1)), (), (('ad', _n12),)),
    (_dom(_n9, lambda k: (k, 8 - k) if k != 4 else (4, 9)), (), (('ad', _n9),)),
    # many all-different groups, with variables in none, one and many of them
    (_dom(('f',) + _n12, lambda k: (0, 1)), (), tuple(('ad', pair) for pair in zip(_n12, _n12[1:]))),
    (_dom(_n12 + ('f', 'g'), lambda k: (0, 1, 2) if k == 13 else (1, 0)), (), tuple(('ad', pair) for pair in zip(_n12, _n12[1:])) + (E('<', ('v', 'f'), ('v', 'g')),)),
    (_dom(_n9, lambda k: range(3)), (), tuple(('ad', _n9[k:k + 3]) for k in range(7))),
    (_dom(_n9, lambda k: range(4)), (), tuple(('ad', g) for g in itertools.combinations(_n9[:4], 2)) + tuple(('ad', (_n9[k], _n9[k + 1], _n9[k + 2], _n9[k + 3])) for k in range(6))),
    # more than a thousand solutions
    ((('x', tuple(range(400)), 'range'), ('y', (0, 1, 2), 'list')), (), ()),
    ((('x', tuple(range(40)), 'range'), ('y', tuple(range(40, 0, -1)), 'list')), (), (E('!=', X, Y),)),
]

# constraints that read the same: parameters of the same name with different values, and parameters named like variables
_three = tuple(zip('xyz', (range(4), (3, 1, 0, 2), range(-1, 3)), ('range', 'list', 'range')))
_three = tuple((n, tuple(d), k) for n, d, k in _three)
for _first, _second in (('p', 'p#2'), ('p#2', 'p#3'), ('x#', 'x#2'), ('y#', 'p#2')):
    _pa, _pb = ('p', _first), ('p', _second)
    _params = ((_first, 1), (_second, 2))
    for _s in (_params, _params[::-1]):
        for _q, _r in ((_pa, _pb), (_pb, _pa)):
            SCALE += [
                (_three, _s, (E('>', ('+', X, Y), _q), E('>', ('+', X, Y), _r))),
                (_three, _s, (E('!=', X, _q), E('!=', X, _r), E('<', Y, _r))),
                (_three[:1], _s, (E('!=', X, _q), E('!=', X, _r))),
                (_three, _s, (E('!=', ('+', ('*', _q, X), _r), Y), E('!=', ('+', ('*', _r, X), _q), Y), ('ad', ('x', 'z')))),
                (_three, _s, (E('<=', _q, ('+', X, Z)), E('|', ('==', Y, _q), ('==', Y, _r)))),
                (_three, _s, (E('<=', _q, _q), E('<=', _q, ('p', _second)), E('!=', X, Y))),
            ]
