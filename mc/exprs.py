"""The bounded universe of formulas shared by C07, C08, C09.

A case is (family, key): a whole bundle of formulas that share sub-formulas *as objects*, so that an
operator that damages its operands shows up when the operands are re-evaluated afterwards.
"""
import itertools

from . import ref

X, Y, Z = ('v', 'x'), ('v', 'y'), ('v', 'z')
P2, PN = ('p', 'p'), ('p', 'q')
P1, P0 = ('p', 'r'), ('p', 's')
# 'x#' is another object with the name 'x'
PARAMS = {'p': 2, 'q': -3, 'r': 1, 's': 0, 'x#': 4, 'y#': -1, 'p#': 5}
XP, YP, P5 = ('p', 'x#'), ('p', 'y#'), ('p', 'p#')
SHADOW_LEAVES = [X, XP, Y, YP, P2, P5]


def C(k):
    return ('c', k)


def I(k):
    return ('i', k)


LEAVES_FULL = [X, Y, P2, PN, P1, P0, C(0), C(1), C(-1), C(3), I(0), I(1), I(-2), I(3)]
LEAVES_MID = [X, Y, PN, C(0), C(1), C(-2), I(0), I(1), I(3)]
LEAVES_OUT = [X, Z, P2, P1, C(0), C(1), C(-2), I(0), I(1), I(-1), I(2)]
LEAVES_SMALL = [X, Y, C(-2), I(2)]
CUBE = (-2, 0, 1, 3)
# beyond the exact range of floating point, beyond the interpreter's cached integers
WIDE = (2 ** 53 + 1, -(10 ** 17 + 3), 1000)


def raw(ast):
    return ast[0] == 'i'


def ok(ast):
    return not (ast[0] in ref.BINOPS and raw(ast[1]) and raw(ast[2])) and \
        not (ast[0] in ref.UNOPS and raw(ast[1]))


def depth1(leaves, ops=ref.BINOPS, unops=ref.UNOPS):
    for l in leaves:
        for op in unops:
            if not raw(l):
                yield (op, l)
    for op in ops:
        for a in leaves:
            for b in leaves:
                t = (op, a, b)
                if ok(t):
                    yield t


def bracketings(items, op):
    if len(items) == 1:
        yield items[0]
        return
    for i in range(1, len(items)):
        for l in bracketings(items[:i], op):
            for r in bracketings(items[i:], op):
                if raw(l) and raw(r):
                    continue
                yield (op, l, r)


CHAIN_LEAVES = [X, Y, I(0), I(1), I(-1), I(3), C(0), C(2), P2]
CHAIN_SMALL = [X, Y, I(0), I(1), C(2)]
CHAIN_TINY = [X, Y, I(2), C(0)]


def families(tier):
    """Bundle keys, simplest first."""
    big = tier == 'thorough'
    yield ('d1',)
    mid = LEAVES_FULL if big else LEAVES_MID
    for op in ref.UNOPS:
        yield ('un', op)
    for op in ref.BINOPS:
        for i, l in enumerate(mid):
            # all formulas  ((op l b) op2 c)  and  (c op2 (op l b)),  (op l b) with unary around
            for op2 in ref.BINOPS:
                yield ('comb', op, l, op2, big)
    bal_ops = ref.BINOPS if big else ('+', '-', '*', '/', '%', '**', '<', '==', '&', '|')
    small = list(depth1(LEAVES_SMALL if big else [X, Y, I(2)], bal_ops))
    for a in small:
        yield ('bal', a, big)
    for op in ref.BINOPS:
        for left in ref.BINOPS + ref.UNOPS:
            yield ('pair', op, left)
    for op in ('+', '*'):
        for n, leaves in ((3, CHAIN_LEAVES), (4, CHAIN_LEAVES if big else CHAIN_SMALL),
                          (5, CHAIN_SMALL if big else CHAIN_TINY), (6, CHAIN_TINY if big else [X, I(2)])):
            for first in itertools.product(leaves, repeat=2):
                yield ('chain', op, n, first, leaves)
    for n in (3, 4) if not big else (3, 4, 5):
        for first in CHAIN_LEAVES:
            yield ('sum', n, first)
    for op in ('Sum', 'Prod'):
        for n in range(5 if big else 4):
            yield ('nary', op, n)
            yield ('nested', op, n)
    for op in ref.BINOPS:
        for pattern in range(4):
            yield ('long', op, pattern)
    for n in (8, 9, 12, 17, 24, 33) + ((40, 70) if big else ()):
        for op in ref.BINOPS:
            if op != '**':
                yield ('many', op, n)
    for inner in ('+', '*'):
        for outer in ref.BINOPS:
            yield ('mixchain', inner, outer)
    for op in ref.BINOPS:
        for op2 in ref.UNOPS + ref.BINOPS:
            yield ('comb3', op, op2, big)
    # parameters named like variables and like other parameters
    for op in ref.BINOPS + ('sum', 'Sum', 'Prod'):
        yield ('shadow', op)


def expand(key):
    """The formulas of a bundle."""
    fam = key[0]
    if fam == 'd1':
        for l in LEAVES_FULL:
            if not raw(l):
                yield l
        yield from depth1(LEAVES_FULL)
    elif fam == 'un':
        for a in depth1(LEAVES_FULL):
            yield (key[1], a)
    elif fam == 'comb':
        _, op, l, op2, big = key
        for b in (LEAVES_FULL if big else LEAVES_MID):
            t = (op, l, b)
            if not ok(t):
                continue
            for c in LEAVES_OUT:
                yield (op2, t, c)
                yield (op2, c, t)
    elif fam == 'bal':
        _, a, big = key
        bal_ops = ref.BINOPS if big else ('+', '-', '*', '/', '%', '**', '<', '==', '&', '|')
        for b in depth1(LEAVES_SMALL if big else [X, Y, I(2)], bal_ops):
            for op in bal_ops:
                yield (op, a, b)
    elif fam == 'pair':
        # every operator over every two operators, each operand compound
        _, op, left = key
        for right in ref.BINOPS + ref.UNOPS:
            for a, b, c, d in ((X, Y, Y, X), (X, Y, Z, I(2)), (Y, I(-2), Z, X), (X, P1, P2, Y), (P0, X, X, P1), (C(3), X, Y, PN)):
                yield (op, (left, a, b) if left in ref.BINOPS else (left, a), (right, c, d) if right in ref.BINOPS else (right, c if c != I(2) else X))
    elif fam == 'chain':
        _, op, n, first, leaves = key
        for rest in itertools.product(leaves, repeat=n - 2):
            yield from bracketings(tuple(first) + rest, op)
    elif fam == 'sum':
        _, n, first = key
        for rest in itertools.product(CHAIN_LEAVES if n < 5 else CHAIN_SMALL, repeat=n - 1):
            t = ('sum', first) + rest
            if not all(raw(a) for a in t[1:]):
                yield t
    elif fam == 'nary':
        # the n-ary nodes built directly, plain numbers only included
        _, op, n = key
        for items in itertools.product(LEAVES_FULL if n < 4 else CHAIN_LEAVES, repeat=n):
            yield (op,) + items
    elif fam == 'nested':
        # n-ary nodes (empty, constant, with a constant) as operands of n-ary nodes and operators
        _, op, n = key
        for op1 in ('Sum', 'Prod'):
            inner = [(op1,), (op1, I(3)), (op1, C(0)), (op1, X), (op1, X, Y), (op1, I(2), Z), (op1, C(0), X), (op1, Y, PN, I(-2)), (op1, X, (op, C(3))), ('neg', (op1, X, I(2)))]
            for a in inner:
                for items in itertools.product((X, C(0), I(1), C(3), ('+', Y, I(2)), ('*', Y, I(2)), ('+', ('+', X, Y), I(1)), ('*', ('*', X, Y), I(3))), repeat=min(n, 2)):
                    yield (op,) + items + (a,)
                    yield (op, a) + items
                if n == 3:
                    for b in inner:
                        yield (op, a, b)
                        yield (op, a, X, b)
                        for binop in ref.BINOPS:
                            yield (binop, a, b)
    elif fam == 'long':
        # long left-, right- and balanced chains, a constant or parameter at every position
        _, op, pattern = key
        base = ([X, Y, Z], [X, I(2), Y], [X, P2, Z], [Y, C(-1), X])[pattern]
        for n in range(4, 5 if op == '**' else 13):
            for pos in range(n):
                for special in (C(3), I(0), PN):
                    items = [base[i % 3] for i in range(n)]
                    items[pos] = special
                    left = items[0]
                    for item in items[1:]:
                        left = (op, left, item)
                    right = items[-1]
                    for item in reversed(items[:-1]):
                        right = (op, item, right)
                    mid = items
                    while len(mid) > 1:
                        mid = [(op, mid[i], mid[i + 1]) if i + 1 < len(mid) else mid[i] for i in range(0, len(mid), 2)]
                    for t in (left, right, mid[0]):
                        if all(ok(u) for u in ref.subtrees(t)):
                            yield t
    elif fam == 'many':
        # many different variables (some of them again), in long chains, sums and n-ary nodes
        _, op, n = key
        items = [('v', 'v{}'.format(k)) for k in range(n)]
        more = items + [items[n // 2], items[0], I(2), items[-1]]
        for terms in (items, more, [('neg', t) if k % 3 == 1 else t for k, t in enumerate(items)]):
            left = terms[0]
            for t in terms[1:]:
                left = (op, left, t)
            yield left
            mid = terms
            while len(mid) > 1:
                mid = [(op, mid[i], mid[i + 1]) if i + 1 < len(mid) else mid[i] for i in range(0, len(mid), 2)]
            yield mid[0]
            total = ('sum',) + tuple(terms)
            yield (op, total, terms[3])
            yield (op, ('abs', total), ('neg', ('Prod',) + tuple(terms[2:])))
            yield (op, I(5), ('Sum',) + tuple(terms[1:]) + (PN,))
    elif fam == 'mixchain':
        # n-ary sums/products as operands of everything, on both sides
        _, inner, outer = key
        triples = [(inner, (inner, a, b), c) for a, b, c in itertools.product([X, I(2), C(-1), P2], [Y, I(-3)], [Z, C(3), X])]
        triples = [t for t in triples if ok(t[1])]
        for t in triples:
            for c in (X, I(2), C(-2), PN):
                yield (outer, t, c)
                yield (outer, c, t)
            for op in ref.UNOPS:
                yield (op, t)
                yield (outer, (op, t), X)
                yield (outer, X, (op, t))
            for u in triples[::3]:
                yield (outer, t, u)
                for other in ('+', '*'):
                    yield (outer, (other, t, Z), u)
    elif fam == 'shadow':
        op = key[1]
        if op not in ref.BINOPS:
            for n in (2, 3):
                for items in itertools.product(SHADOW_LEAVES, repeat=n):
                    yield (op,) + items
            return
        for a, b in itertools.product(SHADOW_LEAVES, repeat=2):
            t = (op, a, b)
            yield t
            for c in SHADOW_LEAVES:
                for op2 in ('-', '*', '<', '=='):
                    yield (op2, t, c)
                    yield (op2, c, t)
            for unop in ref.UNOPS:
                yield (unop, t)
                yield (op, (unop, a), b)
    elif fam == 'comb3':
        # depth 3: unary and binary operators stacked, on both sides
        _, op, op2, big = key
        ops3 = ref.UNOPS + (ref.BINOPS if big else ('+', '-', '*', '/', '**', '==', '&', '|'))
        for a, b in ((X, Y), (X, I(2)), (C(-2), X), (PN, X)):
            t = (op, a, b)
            seconds = [(op2, t)] if op2 in ref.UNOPS else [(op2, t, Y), (op2, I(3), t), (op2, t, C(-1))]
            for s in seconds:
                for op3 in ops3:
                    thirds = [(op3, s)] if op3 in ref.UNOPS else [(op3, s, Z), (op3, I(2), s), (op3, s, PN)]
                    for u in thirds:
                        if ref.count_op(u, '**') <= 2:
                            yield u
    else:
        raise ValueError(fam)


def assignments(names, cube=CUBE):
    names = sorted(names)
    if len(names) > 6:
        yield from few(names)
        return
    for vals in itertools.product(cube, repeat=len(names)):
        yield dict(zip(names, vals))


def few(names):
    """Beyond the cube: each single variable apart from all the others, and mixed values."""
    for special, rest in ((5, 1), (0, 1), (1, 0), (-2, 3)):
        for name in names:
            env = dict.fromkeys(names, rest)
            env[name] = special
            yield env
    for a, b in ((1, 0), (7, -3), (3, 1), (0, 0), (1, 1)):
        yield {name: (a * k + b) % 11 - 5 for k, name in enumerate(names)}
        yield {name: (k * k * a + b) % 7 + 1 for k, name in enumerate(names)}


def wide(key):
    """Also evaluated over WIDE."""
    return key[0] in ('d1', 'un', 'pair', 'sum', 'mixchain') or key[0] == 'chain' and key[2] <= 4 or key[0] == 'long' and key[1] not in ('*', '**')


def hopeless(ast):
    """Some sub-formula is undefined under every assignment (so building may already fail)."""
    return any(all(ref.value(sub, env, PARAMS) is None for env in assignments(ref.variables(sub)))
               for sub in ref.subtrees(ast))


class Pool:
    """Builds formulas bottom-up, sharing every sub-formula as one object within a bundle."""

    def __init__(self):
        from satisfy.expression import Variable, Parameter
        self._objs = {}
        self._var = Variable
        self._par = Parameter
        self._leaf = {}

    def leaf(self, ast):
        obj = self._leaf.get(ast)
        if obj is None:
            obj = self._var(ast[1]) if ast[0] == 'v' else self._par(ast[1].rstrip('#'), PARAMS[ast[1]])
            self._leaf[ast] = obj
        return obj

    def get(self, ast):
        obj = self._objs.get(ast)
        if obj is None:
            if ast[0] in ('v', 'p', 'i', 'c'):
                obj = ref.build(ast, self.leaf)
            else:
                obj = ref.build1(ast[0], [self.get(a) for a in ast[1:]])
            self._objs[ast] = obj
        return obj

    def items(self):
        return list(self._objs.items())
