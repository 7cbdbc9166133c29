"""C24: every board size up to a bound x search configurations x limits, against brute force over all permutations."""
import itertools

from mc.clock import CLOCK
from mc.core import kept, need, spoil

PROPERTY = 'C24'
VIRTUAL_CLOCK = True
HORIZON = 200

# policies under which the search of the larger boards is bounded (the others explore the full product of the diagonals)
FAST = ('ORDERED', 'GROUPS', 'MIN_BOUND', 'MAX_CONSTRAINT')
ALL = FAST + ('REVERSED', 'RANDOM', 'MAX_BOUND', 'MIN_CONSTRAINT')


def bounds(tier):
    return dict(sizes='0..{} by default, 0..6 under {} (size 7, and 8 by groups, uncompiled), 0..2 under all policies, compiled and not'.format(9 if tier == 'thorough' else 8, FAST),
                limits='0..number of placements + 2, None, INFINITY for sizes up to 6', larger='sizes 9..{} with all but 0..3 queens fixed'.format(LARGE[tier][-1]), timeouts='0..40 ticks of a clock that advances at every reading, sizes up to 5', tier=tier)


# sizes with most queens fixed by constraints on the model of the puzzle
LARGE = dict(quick=(10, 11, 12, 13, 16), thorough=(10, 11, 12, 13, 16, 17, 18, 19))


def cases(tier):
    yield ('all', 8, None, None)
    yield ('all', 7, None, None)
    for pol in FAST:
        yield ('all', 7, pol, False)
    yield ('all', 8, 'GROUPS', False)
    if tier == 'thorough':
        yield ('all', 9, None, None)
        for pol in FAST:
            yield ('all', 7, pol, True)
            if pol != 'GROUPS':
                yield ('all', 8, pol, False)
    for n in range(7):
        yield ('all', n, None, None)
        for comp in (True, False):
            for pol in ALL if n <= 2 else FAST:
                yield ('all', n, pol, comp)
    for n in range(7):
        for first in range(4):
            yield ('limits', n, first)
    for n in LARGE[tier]:
        yield ('large', n)
    for n in range(6):
        for first in range(4):
            yield ('timeouts', n, first)


_cache = {}


def placements(n):
    if n not in _cache:
        res = set()
        for p in itertools.permutations(range(n)):
            if all(abs(p[a] - p[b]) != b - a for a in range(n) for b in range(a + 1, n)):
                res.add(p)
        _cache[n] = res
    return _cache[n]


def attacking(p):
    return any(p[a] == p[b] or abs(p[a] - p[b]) == b - a for b in range(len(p)) for a in range(b))


def some(n):
    """A few placements of a large size, by the usual construction and its mirror images."""
    odd, even = list(range(1, n, 2)), list(range(0, n, 2))
    res = []
    for p in (odd + even, even + odd):
        for k in range(0, n // 2):
            for q in (p, p[k:] + p[:k], p[:n // 2] + p[n // 2:][k:] + p[n // 2:][:k]):
                if sorted(q) == list(range(n)) and not attacking(q):
                    res += [tuple(q), tuple(n - 1 - v for v in q)]
    res = sorted(set(res))
    return res[:4] + res[-2:]


def read(board, n, what):
    rows = [list(r) for r in board]
    need(len(rows) == n and all(len(r) == n for r in rows), '{}: {} is no {}x{} board', what, board, n, n)
    need(all(cell in (0, 1) for r in rows for cell in r), '{}: cells of {}', what, board)
    need(all(sum(r) == 1 for r in rows), '{}: the board {} has not one queen per row', what, board)
    return tuple(r.index(1) for r in rows)


def collect(solver, n, what, cap):
    got = []
    for board in kept(solver, True, cap + 3):
        got.append(read(board, n, what))
        spoil(board)
        need(len(got) <= cap + 2, '{}: too many boards {}', what, got)
    need(len(set(got)) == len(got), '{}: a placement is repeated in {}', what, got)
    wrong = [g for g in got if attacking(g)]
    need(not wrong, '{}: the placements {} are attacking', what, wrong)
    return got


def run_case(case, ctx):
    from satisfy.tool.queens import QueensSolver
    from satisfy import VarSelectionPolicy
    from satisfy.utils import INFINITY
    CLOCK.reset()
    n = case[1]
    want = placements(n) if case[0] != 'large' else None
    if case[0] == 'all':
        args = {}
        if case[2]:
            args = dict(var_selection_policy=VarSelectionPolicy[case[2]], compile_constraints=case[3])
        solver = QueensSolver(n, **args)
        for turn in range(2 if n <= 6 else 1):
            what = 'size {} {} iteration {}'.format(n, args, turn)
            got = collect(solver, n, what, len(want))
            need(set(got) == want, '{}: missing {}', what, sorted(want - set(got))[:5])
            need(solver.get_stats().interrupt is None, '{}: interrupt {}', what, solver.get_stats().interrupt)
            ctx.step(len(got) + 1)
            for g in got:
                ctx.state(g, turn)
            ctx.state(turn)
            ctx.trace((n, len(got)))
    elif case[0] == 'large':
        for pol, known, unbound in itertools.product((None, 'ORDERED'), some(n), (0, 1, 2, 3)):
            args = dict(var_selection_policy=VarSelectionPolicy[pol]) if pol else {}
            what = 'size {} {} with queens constrained like in {} except {}'.format(n, args, known, unbound)
            solver = QueensSolver(n, **args)
            model = solver.model
            queens = [model.get_variable(name) for name in model.variables() if sorted(model.get_var_domain(name)) == list(range(n))]
            if len(queens) != n:
                ctx.count('sizes whose variables are unknown')
                break
            for var, value in itertools.islice(zip(queens, known), n - unbound):
                model.add_constraint(var == value)
            got = collect(solver, n, what, 30)
            ctx.step(len(got) + 1)
            ctx.state(pol, known, unbound)
            ctx.trace((n, len(got)))
    elif case[0] == 'limits':
        for lim in [x for k, x in enumerate(list(range(len(want) + 3)) + [None, INFINITY]) if k % 4 == case[2]]:
            what = 'size {} limit {!r}'.format(n, lim)
            solver = QueensSolver(n, limit=lim)
            got = collect(solver, n, what, len(want))
            exp = len(want) if lim in (None, INFINITY) else min(lim, len(want))
            need(len(got) == exp, '{}: {} of {} placements', what, len(got), len(want))
            ctx.step(len(got) + 1)
            ctx.state(repr(lim))
            ctx.trace((n, exp))
    else:
        for t in range(case[2], 41, 4):
            what = 'size {} timeout {} ticks'.format(n, t)
            CLOCK.reset(tick=1.0)
            solver = QueensSolver(n, timeout=t)
            got = collect(solver, n, what, len(want))
            interrupt = solver.get_stats().interrupt
            CLOCK.reset()
            need(interrupt in (None, 'timeout'), '{}: interrupt {}', what, interrupt)
            if interrupt is None:
                need(set(got) == want, '{}: no interrupt is reported, missing {}', what, sorted(want - set(got))[:5])
            ctx.step(len(got) + 1)
            ctx.state(t)
            ctx.trace((n, len(got), interrupt))
