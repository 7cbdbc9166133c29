"""C18: sudoku schemas derived from complete grids by all erasures/alterations of bounded size, against an independent
bit-mask backtracking solver; all single malformations of the schema."""
import itertools

from mc.core import kept, need

PROPERTY = 'C18'
HORIZON = 120

BASE = [[(3 * r + r // 3 + c) % 9 + 1 for c in range(9)] for r in range(9)]
PUZZLE = [int(ch) for ch in '534678912672195348198342567859761423426853791713924856961537284287419635345286179']


def grids():
    yield tuple(map(tuple, BASE))
    yield tuple(tuple(PUZZLE[9 * r:9 * r + 9]) for r in range(9))


GRIDS = list(grids())
# schemas (as strings) whose search is still small, with many givens spread over the grid
CLASSIC = [
    '530070000600195000098000060800060003400803001700020006060000280000419005000080079',
    '003020600900305001001806400008102900700000008006708200002609500800203009005010300',
]


def peers(r, c):
    for k in range(9):
        if k != c:
            yield r, k
        if k != r:
            yield k, c
    for i in range(r // 3 * 3, r // 3 * 3 + 3):
        for j in range(c // 3 * 3, c // 3 * 3 + 3):
            if i != r and j != c:
                yield i, j


PEERS = {(r, c): frozenset(peers(r, c)) for r in range(9) for c in range(9)}


def completions(schema, cap):
    """All completions (up to cap), by bit-mask backtracking on the cell with the fewest candidates."""
    rows, cols, blocks = [0] * 9, [0] * 9, [0] * 9
    empty = []
    for r in range(9):
        for c in range(9):
            v = schema[r][c]
            if v:
                bit = 1 << v
                b = r // 3 * 3 + c // 3
                if rows[r] & bit or cols[c] & bit or blocks[b] & bit:
                    return []
                rows[r] |= bit
                cols[c] |= bit
                blocks[b] |= bit
            else:
                empty.append((r, c))
    grid = [list(map(lambda v: v or 0, row)) for row in schema]
    res = []

    def rec():
        if len(res) >= cap:
            return
        best = None
        for r, c in empty:
            if not grid[r][c]:
                used = rows[r] | cols[c] | blocks[r // 3 * 3 + c // 3]
                n = 9 - bin(used).count('1')
                if best is None or n < best[0]:
                    best = (n, r, c, used)
        if best is None:
            res.append(tuple(map(tuple, grid)))
            return
        _, r, c, used = best
        b = r // 3 * 3 + c // 3
        for v in range(1, 10):
            bit = 1 << v
            if not used & bit:
                grid[r][c] = v
                rows[r] |= bit
                cols[c] |= bit
                blocks[b] |= bit
                rec()
                grid[r][c] = 0
                rows[r] &= ~bit
                cols[c] &= ~bit
                blocks[b] &= ~bit
    rec()
    return res


def erased(grid, cells):
    rows = [list(row) for row in grid]
    for r, c in cells:
        rows[r][c] = 0
    return rows


def regions():
    for r in range(9):
        yield ('row', r), [(r, c) for c in range(9)]
    for c in range(9):
        yield ('col', c), [(r, c) for r in range(9)]
    for b in range(9):
        yield ('block', b), [(r, c) for r in range(b // 3 * 3, b // 3 * 3 + 3) for c in range(b % 3 * 3, b % 3 * 3 + 3)]


REGIONS = list(regions())
BAD_VALUES = (10, -1, 'a', '5', 99, 0.5, (1,))


def bounds(tier):
    return dict(grids=len(GRIDS), erasures='every set of <= {0} cells; every set of <= {0} regions (with at most {1} completions); all cells of every pair and triple of digits'.format(
                    3 if tier == 'thorough' else 2, CAP),
                alterations='every cell changed to every other value, with the conflicting givens kept and with them erased; every cell erased or filled with each value while its '
                            'row partner is erased', malformed='7 bad values at every cell; 0..10 rows; each row with 0..10 columns',
                spellings='unknown cells as 0, None, False, 0.0 in all pairs', limits='default, None, 0, 2, 3, INFINITY; policies and compilation rotated', classics=len(CLASSIC), tier=tier)


def cases(tier):
    big = tier == 'thorough'
    for g in range(len(GRIDS)):
        for k in range(81):
            yield ('cells', g, k)
            yield ('alter', g, k)
        for a in range(len(REGIONS)):
            yield ('regions', g, a)
        for pair in itertools.combinations(range(1, 10), 2):
            yield ('digits', g, pair)
            if True:
                for d in range(pair[1] + 1, 10):
                    yield ('digits', g, pair + (d,))
    for k in range(len(CLASSIC)):
        for blank in (0, None):
            yield ('classic', k, blank)
    for k in range(81):
        yield ('malformed', k)
    for k in range(9):
        yield ('spellings', k)
    yield ('shapes',)


def policies(k):
    from satisfy import VarSelectionPolicy
    # policies under which the search stays small on nearly complete grids
    return list(VarSelectionPolicy)[k % 8]


CAP = 60


def check(schema, what, ctx, k=0, full=True, vary=True):
    from satisfy.sudoku import SudokuSolver
    from satisfy.utils import INFINITY
    sols = completions(schema, CAP + 1)
    need(len(sols) <= CAP, 'oracle cap for {}', what)
    want = set(sols)
    modes = [({}, 1)]
    if full:
        modes += [(dict(limit=INFINITY), None), (dict(limit=None), 1), (dict(limit=2), 2), (dict(limit=0), 0), (dict(limit=3), 3)]
    else:
        modes = [(dict(limit=INFINITY), None)] if k % 2 else [({}, 1)]
    for j, (args, limit) in enumerate(modes):
        args = dict(args)
        if vary and (k + j) % 3:
            args['var_selection_policy'] = policies(k + j)
            args['compile_constraints'] = bool((k + j) % 2)
        got = []
        for grid in kept(SudokuSolver(schema, **args), j % 2, CAP + 1):
            got.append(tuple(map(tuple, grid)))
            need(len(got) <= CAP, '{} {}: too many solutions', what, args)
        for grid in got:
            need(grid in want, '{} {}: {} is not a completion of {}', what, args, grid, schema)
        need(len(set(got)) == len(got), '{} {}: the same grid twice', what, args)
        expected = len(want) if limit is None else min(limit, len(want))
        need(len(got) == expected, '{} {}: {} grids instead of {}', what, args, len(got), expected)
        ctx.step()
        ctx.state(what, j, tuple(got))
        ctx.trace((len(want), limit))
    return sols


def rejected(schema, what, ctx):
    from satisfy.sudoku import SudokuSolver
    try:
        SudokuSolver(schema)
    except ValueError:
        ctx.step()
        ctx.state(what)
        ctx.trace('rejected')
        return
    need(False, '{}: the schema is accepted', what)


def run_case(case, ctx):
    kind = case[0]
    if kind in ('cells', 'alter'):
        grid = GRIDS[case[1]]
        k = case[2]
        r, c = divmod(k, 9)
    if kind == 'cells':
        check(erased(grid, [(r, c)]), case, ctx, k)
        for j in range(k + 1, 81):
            check(erased(grid, [(r, c), divmod(j, 9)]), case + (j,), ctx, k + j, full=False)
            if ctx.tier == 'thorough':
                for i in range(j + 1, 81):
                    check(erased(grid, [(r, c), divmod(j, 9), divmod(i, 9)]), case + (j, i), ctx, k + j + i, full=False)
        check([list(row) for row in grid], 'complete grid', ctx, k, full=False)
    elif kind == 'alter':
        for v in range(1, 10):
            if v == grid[r][c]:
                continue
            bad = [list(row) for row in grid]
            bad[r][c] = v
            need(not completions(bad, 1), 'oracle')
            check(bad, case + (v, 'conflict'), ctx, v, full=v % 4 == 1)
            # one blank somewhere else does not make a conflict consistent
            other = [list(row) for row in bad]
            other[(r + 4) % 9][(c + 5) % 9] = 0
            check(other, case + (v, 'conflict and blank'), ctx, v, full=False)
            clash = [p for p in PEERS[(r, c)] if grid[p[0]][p[1]] == v]
            open_ = erased(bad, clash)
            check(open_, case + (v, 'consistent'), ctx, v + k, full=v % 4 == 0)
            one = [list(row) for row in erased(grid, clash + [(r, c)])]
            check(one, case + (v, 'blank'), ctx, v + k, full=False)
    elif kind == 'regions':
        a = case[2]
        first = REGIONS[a][1]
        check(erased(GRIDS[case[1]], first), case, ctx, a)
        for b in range(a + 1, len(REGIONS)):
            two = erased(GRIDS[case[1]], first + REGIONS[b][1])
            check(two, case + (b,), ctx, a + b)
            if ctx.tier == 'thorough':
                for d in range(b + 1, len(REGIONS)):
                    three = erased(two, REGIONS[d][1])
                    if len(completions(three, CAP + 1)) <= CAP:
                        check(three, case + (b, d), ctx, a + b + d, full=False)
    elif kind == 'digits':
        grid = GRIDS[case[1]]
        cells = [(r, c) for r in range(9) for c in range(9) if grid[r][c] in case[2]]
        schema = erased(grid, cells)
        # keep the number of completions small: one digit stays in the first rows
        for keep in (0, 1, 3):
            s = [list(row) for row in schema]
            for r in range(keep):
                s[r] = list(grid[r])
            if len(completions(s, CAP + 1)) > CAP:
                continue
            check(s, case + (keep,), ctx, sum(case[2]) + keep)
    elif kind == 'classic':
        text, blank = CLASSIC[case[1]], case[2]
        schema = tuple(tuple(int(ch) or blank for ch in text[9 * r:9 * r + 9]) for r in range(9))
        check(schema, case, ctx, 0, vary=False)
        gen = [iter(row) for row in schema]
        from satisfy.sudoku import SudokuSolver
        got = [tuple(map(tuple, g)) for g in SudokuSolver(iter(gen))]
        need(got == completions(schema, 2), '{}: schema given as iterator: {}', case, got)
    elif kind == 'spellings':
        # unknown cells may be written as anything that equals 0 or None, several ways in one schema, in any sequence type
        k = case[1]
        for g, grid in enumerate(GRIDS):
            digits = {k + 1, (k + 4) % 9 + 1}
            for blanks in itertools.product((0, None, False, 0.0), repeat=2):
                schema = [[blanks[(r * 2 + c) % 2] if grid[r][c] in digits and (r > 1 or c < 5) else grid[r][c] for c in range(9)] for r in range(9)]
                if len(completions(schema, CAP + 1)) <= CAP:
                    check(schema, case + (g, repr(blanks)), ctx, k, full=False)
                    check(tuple(map(tuple, schema)), case + (g, repr(blanks), 'tuples'), ctx, k + 1, full=False)
    elif kind == 'malformed':
        r, c = divmod(case[1], 9)
        for g, grid in enumerate(GRIDS):
            for v in BAD_VALUES:
                s = [list(row) for row in grid]
                s[r][c] = v
                rejected(s, case + (g, v), ctx)
                s = [[0] * 9 for _ in range(9)]
                s[r][c] = v
                rejected(s, case + ('blank', v), ctx)
    else:
        for g in GRIDS:
            for n in list(range(9)) + [10]:
                rejected(([list(row) for row in g] + [[0] * 9])[:n], ('rows', n), ctx)
                for r in range(9):
                    s = [list(row) for row in g]
                    s[r] = (s[r] + [0])[:n]
                    rejected(s, ('columns', r, n), ctx)
                    s = [[0] * 9 for _ in range(9)]
                    s[r] = [0] * n
                    rejected(s, ('columns blank', r, n), ctx)
