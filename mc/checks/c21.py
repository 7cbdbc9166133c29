"""C21: every clue list of bounded size, possible or not, against brute force over all pictures of the size."""
import itertools

from mc import nono
from mc.core import kept, need

PROPERTY = 'C21'
HORIZON = 120

# lines of clues by length of the line: all possible ones, zeros, and oversized ones
LINES = {
    0: [(), (0,), (1,)],
    1: [(), (1,), (0,), (2,), (1, 1)],
    2: [(), (1,), (2,), (0,), (0, 1), (1, 0), (1, 1), (3,)],
    3: [(), (1,), (2,), (3,), (1, 1), (0,), (1, 0, 1), (2, 1), (4,)],
    4: [(), (1,), (2,), (3,), (4,), (1, 1), (1, 2), (2, 1), (0, 2)],
}
MID3 = [(), (1,), (2,), (3,), (1, 1), (2, 1)]


def shapes(tier):
    big = tier == 'thorough'
    # (rows, cols, row lines, column lines): every combination of clues
    yield 0, 0, [()], [()]
    yield 0, 1, [()], LINES[0]
    yield 1, 0, LINES[0], [()]
    yield 0, 2, [()], LINES[0]
    yield 2, 0, LINES[0], [()]
    yield 1, 1, LINES[1], LINES[1]
    yield 1, 2, LINES[2], LINES[1]
    yield 2, 1, LINES[1], LINES[2]
    yield 1, 3, LINES[3], LINES[1]
    yield 3, 1, LINES[1], LINES[3]
    yield 2, 2, LINES[2], LINES[2]
    yield 1, 4, LINES[4], LINES[1][:4]
    yield 4, 1, LINES[1][:4], LINES[4]
    yield 2, 3, LINES[3][:8], LINES[2][:4] + [(1, 1)]
    yield 3, 2, LINES[2][:4] + [(1, 1)], LINES[3][:8]
    if big:
        yield 3, 3, MID3, MID3
        yield 2, 4, LINES[4], LINES[2][:3]
        yield 4, 2, LINES[2][:3], LINES[4]


# bigger pictures: every sequence of rows from a few patterns
PATTERNS = [
    (4, 5, ['.....', '#.#.#', '.###.', '##.##']),
    (5, 5, ['#....', '..#..', '.#.#.', '#####']),
    (3, 8, ['#.#.#.#.', '##.##.##', '...##...', '#......#', '########']),
    (2, 10, ['#.#.#.#.#.', '.#.#.#.#.#', '##..##..##', '..........', '#.##.###.#', '..######..']),
    (1, 14, ['#.#.#.#.#.#.#.', '#.##.###.####.', '##############', '..............', '#............#', '.#.##..##.#.##']),
    (7, 2, ['..', '#.', '.#', '##']),
    (6, 3, ['#.#', '.#.', '##.']),
]
# single big pictures, of more than ten rows, columns and runs in a line
PICTURES = [
    ['#' * 21, '#.' * 10 + '#'] + ['#' * 21] * 9 + ['.' + '#' * 20],
    ['#.' * 12 + '#', '.#' * 12 + '.'] + ['#' * 25] * 3,
    ['#.#', '#.#', '.#.'] * 4 + ['##.'],
    ['#' * k + '.' * (24 - k) for k in range(0, 24, 2)],
    ['.' * 16 + '#' * 8, '#' * 8 + '.' * 16],
]
PATTERNS_BIG = [(6, 6, ['#.#.#.', '.####.', '#....#']), (5, 8, ['#.#.#.#.', '.##..##.', '########', '........']), (4, 12, ['#.#.#.#.#.#.', '.##..##..##.', '####....####', '...######...'])]


# single lines of every picture up to this length, with every clue of as many cells
LINE = dict(quick=10, thorough=11)


def patterns(tier):
    return PATTERNS + (PATTERNS_BIG if tier != 'quick' else [])


def picture_shapes(tier):
    yield 3, 3
    yield 2, 4
    yield 4, 2
    yield 3, 4
    yield 4, 3
    yield 2, 5
    yield 1, 7
    yield 7, 1
    if tier == 'thorough':
        yield 4, 4
        yield 5, 2
        yield 3, 5
        yield 5, 3
        yield 2, 7


def bounds(tier):
    return dict(all_clue_combinations=['{}x{}: rows {} columns {}'.format(r, c, rl, cl) for r, c, rl, cl in shapes(tier)],
                pictures=['{}x{}'.format(len(p), len(p[0])) for p in PICTURES],
                lines='every picture of one line of 3..{} cells, under its own clue and a third of the others of as many cells'.format(LINE[tier] if tier in LINE else 11),
                patterns=['{}x{}: rows from {}'.format(*p) for p in patterns(tier)],
                all_picture_clues=['{}x{}'.format(*s) for s in picture_shapes(tier)],
                configurations='policies and compilation rotated; clues as lists and tuples; zero clues inserted in every second case', tier=tier)


def cases(tier):
    for k, (r, c, rl, cl) in enumerate(shapes(tier)):
        for row in itertools.product(range(len(rl)), repeat=r):
            yield ('combination', k, row)
    for k in range(len(PICTURES)):
        for turned in (False, True):
            yield ('big picture', k, turned)
    for k, (r, c, rows) in enumerate(patterns(tier)):
        for first in range(len(rows) ** min(r, 3)):
            yield ('pattern', k, first)
    for n in range(3, LINE[tier] + 1):
        for turned in (False, True):
            yield ('line', n, turned)
    for r, c in picture_shapes(tier):
        keys = len(nono.index(r, c))
        for first in range(0, keys, 16):
            yield ('picture', r, c, first)


def check(rows, cols, want, k, ctx):
    from satisfy.nonogram import NonogramSolver
    from satisfy import VarSelectionPolicy
    args = {}
    if k % 2:
        args = dict(var_selection_policy=list(VarSelectionPolicy)[k // 2 % 8], compile_constraints=bool(k // 3 % 2))
    wrap = list if k % 3 else tuple
    nonogram = {'rows': wrap(wrap(r) for r in rows), 'columns': wrap(wrap(c) for c in cols)}
    got = []
    for picture in kept(NonogramSolver(nonogram, **args), k % 5 < 3, len(want) + 3):
        p = tuple(tuple(row) for row in picture)
        need(len(p) == len(rows) and all(len(row) == len(cols) for row in p), 'rows {} columns {} {}: picture {} has another size', rows, cols, args, p)
        need(all(cell in (0, 1) for row in p for cell in row), 'rows {} columns {}: cells of {}', rows, cols, p)
        got.append(p)
        need(len(got) <= len(want) + 2, 'rows {} columns {} {}: too many pictures {}', rows, cols, args, got)
    need(len(set(got)) == len(got), 'rows {} columns {} {}: a picture is repeated: {}', rows, cols, args, got)
    need(set(got) == set(want), 'rows {} columns {} {}: pictures {} instead of {}', rows, cols, args, got, want)
    ctx.step(len(got) + 1)
    ctx.state(rows, cols)
    ctx.trace((len(rows), len(cols), len(want)))


def strip(lines):
    return tuple(tuple(s for s in line if s) for line in lines)


def run_case(case, ctx):
    if case[0] == 'combination':
        r, c, rl, cl = list(shapes(ctx.tier if ctx.tier != 'replay' else 'thorough'))[case[1]]
        rows = tuple(rl[k] for k in case[2])
        table = nono.index(r, c)
        for k, cols in enumerate(itertools.product(cl, repeat=c)):
            want = table.get((strip(rows), strip(cols)), [])
            check(rows, cols, want, k + sum(case[2]), ctx)
        return
    if case[0] == 'big picture':
        picture = tuple(tuple(int(ch == '#') for ch in row) for row in PICTURES[case[1]])
        if case[2]:
            picture = tuple(zip(*picture))
        key = tuple(tuple(map(tuple, x)) for x in nono.clues(picture, len(picture[0])))
        want = nono.search(*key)
        need(picture in want, 'the oracle misses {}', picture)
        check(key[0], key[1], want, 0, ctx)
        return
    if case[0] == 'line':
        # every picture of one line, under every clue of as many cells: its own one, or no solution
        n = case[1]
        pictures = list(itertools.product((0, 1), repeat=n))
        clue = {p: tuple(map(tuple, nono.clues((p,), n)[0]))[0] for p in pictures}
        by_sum = {}
        for p in pictures:
            by_sum.setdefault(sum(p), set()).add(clue[p])
        k = 0
        for p in pictures:
            cross = tuple((1,) if cell else () for cell in p)
            others = sorted(by_sum[sum(p)] - {clue[p]})
            own = (tuple((cell,) for cell in p),) if case[2] else (p,)
            for line in [clue[p]] + others[k % 3::3]:
                k += 1
                want = [tuple(own[0]) if case[2] else own] if line == clue[p] else []
                rows, cols = (cross, (line,)) if case[2] else ((line,), cross)
                check(rows, cols, want, k, ctx)
        return
    if case[0] == 'pattern':
        r, c, rows = patterns(ctx.tier)[case[1]]
        rows = [tuple(int(ch == '#') for ch in row) for row in rows]
        n = len(rows)
        for k in range(case[2], n ** r, n ** min(r, 3)):
            picture = tuple(rows[k // n ** j % n] for j in range(r))
            rclues, cclues = nono.clues(picture, c)
            key = tuple(map(tuple, rclues)), tuple(map(tuple, cclues))
            want = nono.search(*key)
            need(picture in want, 'the oracle misses {}', picture)
            check(key[0], key[1], want, k if k % 4 else 0, ctx)
        return
    _, r, c, first = case
    table = nono.index(r, c)
    for k, key in enumerate(sorted(table)[first:first + 16]):
        check(key[0], key[1], table[key], first + k, ctx)
        if k % 2:
            # the same clues with a zero somewhere
            rows = tuple((0,) + line if j == k % max(r, 1) else line for j, line in enumerate(key[0]))
            cols = tuple(line + (0,) if j == k % max(c, 1) else line for j, line in enumerate(key[1]))
            check(rows, cols, table[key], first + k, ctx)
