"""C25: the riddle under every search configuration, limit and timeout tick, against the arrangements found by enumerating all
arrangements that the fifteen printed sentences admit (the oracle reads the sentences)."""
import itertools
import re

from mc.clock import CLOCK
from mc.core import kept, need, spoil

PROPERTY = 'C25'
VIRTUAL_CLOCK = True
HORIZON = 200

KINDS = {
    'owner': ['English', 'Swede', 'Dane', 'Norwegian', 'German'],
    'color': ['red', 'green', 'white', 'yellow', 'blue'],
    'drink': ['water', 'coffee', 'tea', 'milk', 'beer'],
    'smoke': ['Pall Mall', 'Prince', 'Dunhill', 'Blend', 'Blue Master'],
    'animal': ['cats', 'a dog', 'birds', 'a horse', 'a zebra'],
}
TOKENS = [(v, kind, v) for kind, vs in KINDS.items() for v in vs]
# the fifteen statements of the riddle, as its users know it
RIDDLE = (
    ('same', 'English', 'red'), ('same', 'Swede', 'a dog'), ('same', 'Dane', 'tea'), ('left', 'green', 'white'), ('same', 'green', 'coffee'),
    ('same', 'Pall Mall', 'birds'), ('same', 'yellow', 'Dunhill'), ('at', 'milk', 3), ('at', 'Norwegian', 1), ('next', 'Blend', 'cats'),
    ('next', 'a horse', 'Dunhill'), ('same', 'Blue Master', 'beer'), ('same', 'German', 'Prince'), ('next', 'Norwegian', 'blue'), ('next', 'water', 'Blend'),
)


def bounds(tier):
    return dict(configurations='default and 7 policies (all but RANDOM, whose search is too long) x compilation', limits='0..3, None, INFINITY',
                iterations='two on one solver, two interleaved solvers', timeouts='0..60 ticks of a clock that advances at every reading',
                oracle='all 5!^5 arrangements by enumerating the permutations kind by kind', tier=tier)


def cases(tier):
    for pol in (None, 'ORDERED', 'REVERSED', 'GROUPS', 'MIN_BOUND', 'MAX_BOUND', 'MIN_CONSTRAINT', 'MAX_CONSTRAINT'):
        for comp in (None, True, False):
            yield ('all', pol, comp)
            if pol != 'MIN_CONSTRAINT':
                yield ('limits', pol, comp)
    for t in range(61):
        yield ('timeout', t)
    yield ('statements',)


def parse(sentence):
    """A sentence about two of the 25 things (or one and a position); None if the wording is not understood."""
    found = []
    text = sentence
    for value, kind, _ in sorted(TOKENS, key=lambda t: -len(t[0])):
        m = re.search(r'\b{}\b'.format(re.escape(value)), text)
        if m:
            found.append((m.start(), value))
            text = text[:m.start()] + '#' * len(value) + text[m.end():]
    found = [v for _, v in sorted(found)]
    rest = text.lower()
    if len(found) == 1:
        for word, pos in (('first', 1), ('second', 2), ('middle', 3), ('third', 3), ('fourth', 4), ('last', 5), ('fifth', 5)):
            if re.search(r'\b{}\b'.format(word), rest):
                return ('at', found[0], pos)
        return None
    if len(found) != 2:
        return None
    if 'left of' in rest:
        return ('left',) + tuple(found)
    if 'right of' in rest:
        return ('left',) + tuple(found[::-1])
    if 'next to' in rest:
        return ('next',) + tuple(found)
    return ('same',) + tuple(found)


def holds(st, pos):
    """Truth of a statement for positions {thing: house}; None if a thing is not placed yet."""
    rel, a, b = st
    pa = pos.get(a)
    pb = b if rel == 'at' else pos.get(b)
    if pa is None or pb is None:
        return None
    return {'same': pa == pb, 'at': pa == pb, 'left': pa == pb - 1, 'next': abs(pa - pb) == 1}[rel]


def arrangements(statements):
    """All arrangements: kind by kind, every permutation, cut as soon as a statement is false."""
    res = []

    def rec(kinds, pos):
        if not kinds:
            res.append(tuple(sorted(pos.items())))
            return
        for perm in itertools.permutations(range(1, 6)):
            new = dict(pos, **dict(zip(KINDS[kinds[0]], perm)))
            if all(holds(st, new) is not False for st in statements):
                rec(kinds[1:], new)
    rec(list(KINDS), {})
    return res


_memo = {}


def expected():
    if 'x' not in _memo:
        _memo['x'] = arrangements(RIDDLE)
    return _memo['x']


def read(sol, what):
    need(sorted(sol) == [1, 2, 3, 4, 5], '{}: houses of {}', what, sol)
    pos = {}
    for house, attrs in sol.items():
        need(sorted(attrs) == sorted(KINDS), '{}: house {} of {}', what, house, sol)
        for kind, value in attrs.items():
            need(value in KINDS[kind], '{}: {} is no {}', what, value, kind)
            need(value not in pos, '{}: {} is in two houses of {}', what, value, sol)
            pos[value] = house
    return pos


def collect(it, what, ctx):
    got = []
    for sol in kept(it, True, 4):
        pos = read(sol, what)
        for st in RIDDLE:
            need(holds(st, pos), '{}: the statement {} is false in {}', what, st, sol)
        got.append(tuple(sorted(pos.items())))
        need(len(got) <= 3, '{}: too many arrangements', what)
        # what was yielded is the caller's: nothing done to it shows in what comes later
        spoil(sol)
        ctx.step()
        ctx.state(len(got), got[-1])
    ctx.state('end', len(got))
    ctx.trace(tuple(got))
    return got


def run_case(case, ctx):
    from satisfy.tool.einstein_riddle import EinsteinRiddleSolver
    from satisfy import VarSelectionPolicy
    from satisfy.utils import INFINITY
    CLOCK.reset()
    want = expected()
    need(len(want) == 1, 'the oracle finds {} arrangements', len(want))
    if case[0] == 'statements':
        texts = list(EinsteinRiddleSolver.statements())
        need(len(texts) == 15, 'there are {} statements', len(texts))
        parsed = [parse(t) for t in texts]
        understood = [p for p in parsed if p is not None]
        ctx.count('sentences understood', len(understood))
        pos = dict(want[0])
        for text, st in zip(texts, parsed):
            if st is not None:
                need(holds(st, pos), 'the statement {!r} is false in the arrangement', text)
        if len(understood) == 15:
            need(arrangements(understood) == want, 'the printed statements admit {} arrangements', len(arrangements(understood)))
        riddle = EinsteinRiddleSolver.riddle()
        for text in texts:
            need(text in riddle, 'the statement {!r} is not printed', text)
            ctx.step()
            ctx.state(text)
        ctx.trace()
        return
    args = {}
    if case[0] != 'timeout':
        if case[1]:
            args['var_selection_policy'] = VarSelectionPolicy[case[1]]
        if case[2] is not None:
            args['compile_constraints'] = case[2]
    if case[0] == 'all':
        solver = EinsteinRiddleSolver(**args)
        for turn in range(2):
            got = collect(solver, '{} iteration {}'.format(args, turn), ctx)
            need(got == want, '{} iteration {}: arrangements {} instead of {}', args, turn, got, want)
    elif case[0] == 'limits':
        for lim in (0, 1, 2, 3, None, INFINITY):
            got = collect(EinsteinRiddleSolver(limit=lim, **args), '{} limit {!r}'.format(args, lim), ctx)
            need(got == (want if lim != 0 else []), '{} limit {!r}: arrangements {}', args, lim, got)
    else:
        CLOCK.reset(tick=1.0)
        solver = EinsteinRiddleSolver(timeout=case[1] * 4)
        got = collect(solver, 'timeout {} ticks'.format(case[1] * 4), ctx)
        interrupt = solver.get_stats().interrupt
        CLOCK.reset()
        need(interrupt in (None, 'timeout'), 'timeout {}: interrupt {}', case[1] * 4, interrupt)
        need(got == want or interrupt == 'timeout', 'timeout {}: arrangements {} without an interrupt', case[1] * 4, got)
