"""C26: every ascii map of bounded size over a small alphabet (blanks, dots, ragged rows), against an independent flood fill and brute
force over all colorings of the regions."""
import itertools
import re

from mc.core import kept, need

PROPERTY = 'C26'
HORIZON = 120

PALETTES = [('red', 'green'), ('red', 'green', 'blue'), ('red',), ('blue', 'yellow', 'green', 'red'), (), ('magenta', 'cyan', 'magenta')]
CODES = {31: 'red', 32: 'green', 33: 'yellow', 34: 'blue', 35: 'magenta', 36: 'cyan', 97: 'white', 37: 'light_grey', 90: 'dark_grey', 91: 'light_red', 92: 'light_green', 30: 'black'}
# (rows, columns, alphabet)
QUICK = [
    (0, 0, 'A'), (1, 0, 'A'), (2, 0, 'A'), (1, 1, 'AB .'), (1, 2, 'AB .'), (2, 1, 'AB .'), (1, 3, 'AB .'), (3, 1, 'AB .'), (2, 2, 'ABC .'),
    (1, 5, 'AB '), (5, 1, 'AB '), (2, 3, 'AB .'), (3, 2, 'AB .'), (2, 3, '#0 '), (3, 3, 'AB'), (3, 3, 'A '), (2, 4, 'AB '), (3, 4, 'A.'), (4, 3, 'A '), (3, 4, 'AB'), (2, 5, 'A '), (1, 8, 'A.'), (2, 3, 'ABC '),
]
THOROUGH = QUICK + [(3, 3, 'AB .'), (3, 3, 'ABC'), (4, 4, 'A '), (3, 5, 'A '), (5, 3, 'A.'), (4, 4, 'AB'), (4, 3, 'AB'), (2, 5, 'AB '), (2, 4, 'ABC'), (3, 6, 'A '), (2, 4, 'AB .')]
# one row or column of two cells, any two of these
CHARACTERS = 'AaBbIl1OoZz09.-_*#+=/|\\~:;,?!@$%&<>()[]{}^`"\'éÉßsΣσςİi '
RAGGED = [(2, 3, 'AB '), (3, 2, 'AB '), (3, 2, 'A.'), (2, 3, 'A.')]
BIG = ['default', 'many regions', 'spiral', 'comb', 'rings', 'nested C']
# maps of many regions with few colorings, every coloring is asked for
FEW = {
    'fan': (['C' * 24, 'AB' * 12], 3), 'fan standing': (['CCC'] + ['CAC', 'CBC'] * 12, 3), 'fan 60': (['C' * 60, 'AB' * 30], 3),
    'stripes': (['AB' * 20], 2), 'stripes standing': (['A', 'B'] * 20, 2), 'stripes 120': (['ABC' * 40] * 2, 2), 'islands of stripes': (['ABCD' * 3 + ' ' + 'ABCD' * 3, '', 'CB' * 10], 2),
    'two fans': (['C' * 22, 'AB' * 11, 'D' * 22], 3), 'fan too few': (['C' * 24, 'AB' * 12], 2), 'alternating': (['ABC' * 9, 'BCA' * 9], 4), 'bricks': (['AABBCC' * 4, 'DEEFFD' * 4], 3),
}


def groups(tier):
    return THOROUGH if tier != 'quick' else QUICK


def bounds(tier):
    return dict(maps=['{}x{} over {!r}'.format(*g) for g in groups(tier)], ragged=['<= {} rows of 0..{} over {!r}'.format(*g) for g in RAGGED], larger=BIG + list(FEW), characters='five maps of every two of the {} characters {}'.format(len(CHARACTERS), CHARACTERS),
                colors=[list(p) for p in PALETTES], limits='default (first only), INFINITY, 2', forms='string, list, tuple of strings or lists of characters',
                configurations='policies and compilation rotated', tier=tier)


BUNDLE = 256


def cases(tier):
    for g, (r, c, alpha) in enumerate(groups(tier)):
        n = len(alpha) ** (r * c)
        for first in range(0, n, BUNDLE):
            yield ('rect', g, first)
    for k in range(len(CHARACTERS)):
        yield ('characters', k)
    for g, (r, c, alpha) in enumerate(RAGGED):
        lines = list(ragged_lines(c, alpha))
        for rows in range(1, r + 1):
            for first in range(len(lines)):
                yield ('ragged', g, rows, first)
    for name in BIG:
        yield ('big', name)
    for name in FEW:
        for k in range(3):
            yield ('few', name, k)


def ragged_lines(width, alpha):
    for n in range(width + 1):
        for t in itertools.product(alpha, repeat=n):
            yield ''.join(t)


def big_map(name):
    if name == 'many regions':
        return ['A B A B A B A B A B', '', 'C D C D C D C D C D', '                   ', 'ABABABABABABAB', 'CDCDCDCDCDCDCD', '', 'X.X.X.X.X.X.X', '', 'Y Y Y Y Y Y']
    if name == 'spiral':
        return ['AAAAAAA', 'ABBBBBB', 'ABAAAAB', 'ABABBAB', 'ABABAAB', 'ABABBBB', 'ABAAAAA']
    if name == 'comb':
        return ['A.A.A.A', 'A A A A', 'ABABABA', 'AAAAAAA', 'B B B B', '.B.B.B.']
    if name == 'rings':
        return ['AAAAAAA', 'ABBBBBA', 'AB...BA', 'AB.C.BA', 'AB...BA', 'ABBBBBA', 'AAAAAAA']
    if name == 'nested C':
        return ['CCCCC  ', 'C   C', 'C C C  C', 'C CCC  C', 'C', 'CCCCCCC', '      D', '     D ', 'D   D  ', ' DDD   ']
    from satisfy.tool.demo_ascii_map_coloring import default_ascii_map_coloring_source
    return default_ascii_map_coloring_source().split('\n')


def regions(rows):
    """Maximal connected groups of equal characters (8 neighbours), by union-find; and the pairs that touch."""
    cells = {(r, c): ch for r, row in enumerate(rows) for c, ch in enumerate(row) if ch not in ' .'}
    parent = {p: p for p in cells}

    def find(p):
        while parent[p] != p:
            p = parent[p]
        return p
    near = lambda p: [(p[0] + a, p[1] + b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a or b) and (p[0] + a, p[1] + b) in cells]
    for p in cells:
        for q in near(p):
            if cells[q] == cells[p]:
                parent[find(p)] = find(q)
    roots = list(dict.fromkeys(find(p) for p in sorted(cells)))
    number = {p: roots.index(find(p)) for p in cells}
    touch = {tuple(sorted((number[p], number[q]))) for p in cells for q in near(p) if number[p] != number[q]}
    return number, len(roots), touch


def colorings(n, touch, ncolors, cap):
    """All proper colorings of the regions (at most cap)."""
    res, colors = [], []
    lower = [[a for a in range(b) if (a, b) in touch] for b in range(n)]

    def rec(k):
        if len(res) >= cap:
            return
        if k == n:
            res.append(tuple(colors))
            return
        for x in range(ncolors):
            if all(colors[a] != x for a in lower[k]):
                colors.append(x)
                rec(k + 1)
                colors.pop()
    rec(0)
    return res


CELL = re.compile(r'\x1b\[(?:\d+;)*(\d+)m(.)\x1b\[0m|(.)', re.S)


def color_of(cell, what):
    """(color or None, visible character)"""
    m = re.fullmatch(r'\x1b\[(\d+)m(.*?)\x1b\[0m', cell, re.S)
    if m:
        return CODES.get(int(m.group(1))), m.group(2)
    return None, cell


def read(ascii_map, rows, number, what):
    """Color of every region as shown by the colored map."""
    shown = [list(r) for r in ascii_map]
    need(len(shown) == len(rows), '{}: {} rows instead of {}', what, len(shown), len(rows))
    seen = {}
    for r, row in enumerate(rows):
        need(len(shown[r]) >= len(row), '{}: row {} is shown with {} cells instead of {}', what, r, len(shown[r]), len(row))
        for c, cell in enumerate(shown[r]):
            color, text = color_of(cell, what)
            region = number.get((r, c))
            if region is None:
                need(color is None and text.strip() in ('', '.'), '{}: the blank cell {} is shown as {!r}', what, (r, c), cell)
            else:
                need(color is not None and len(text) == 1, '{}: the cell {} is shown as {!r}', what, (r, c), cell)
                need(seen.setdefault(region, color) == color, '{}: the region of {} is shown in two colors', what, (r, c))
    return seen


def solve(rows, palette, limit, k, ctx, cap=200):
    from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
    from satisfy import VarSelectionPolicy
    unique = [x for j, x in enumerate(palette) if x not in palette[:j]]
    number, n, touch = regions(rows)
    want = colorings(n, touch, len(unique), cap)
    if len(want) >= cap and limit != 'first':
        limit = 'first'
    args = {}
    if limit == 'INFINITY':
        from satisfy.utils import INFINITY
        args['limit'] = INFINITY
    elif limit != 'first':
        args['limit'] = limit
    elif k % 4 == 3:
        args['limit'] = None
    if k % 3 == 1 and n <= 12:
        args.update(var_selection_policy=list(VarSelectionPolicy)[k % 8], compile_constraints=bool(k % 2))
    forms = k % 4
    given = rows
    if forms == 1 and rows:
        given = '\n'.join(rows)
    elif forms == 2:
        given = tuple(rows)
    elif forms == 3:
        given = [list(r) for r in rows]
    what = 'map {} as {} colors {} {}'.format(rows, type(given).__name__, palette, args)
    solver = AsciiMapColoringSolver(given, (list, tuple)[k % 2](palette), **args)
    got = []
    for shown in kept(solver, k % 3, cap + 3):
        seen = read(shown, rows, number, what)
        need(all(c in unique for c in seen.values()), '{}: colors {}', what, sorted(seen.values()))
        coloring = tuple(unique.index(seen[i]) for i in range(n))
        bad = [(a, b) for a, b in touch if coloring[a] == coloring[b]]
        need(not bad, '{}: touching regions share a color in {}', what, coloring)
        got.append(coloring)
        need(len(got) <= cap + 2, '{}: too many colorings', what)
    need(len(set(got)) == len(got), '{}: a coloring is repeated', what)
    exp = len(want) if limit == 'INFINITY' else min(len(want), 1 if limit == 'first' else limit)
    need(len(got) == exp, '{}: {} colorings instead of {}', what, len(got), exp)
    if limit == 'INFINITY':
        need(set(got) == set(want), '{}: colorings {} instead of {}', what, got, want)
    ctx.step(len(got) + 1)
    ctx.state(tuple(rows), palette, limit)
    ctx.trace((n, len(touch), exp))
    return n


def run_case(case, ctx):
    if case[0] == 'rect':
        r, c, alpha = groups('quick' if ctx.tier == 'quick' else 'thorough')[case[1]]
        total = len(alpha) ** (r * c)
        for k in range(case[2], min(total, case[2] + BUNDLE)):
            cells, x = [], k
            for _ in range(r * c):
                x, d = divmod(x, len(alpha))
                cells.append(alpha[d])
            rows = [''.join(cells[i * c:(i + 1) * c]) for i in range(r)]
            solve(rows, PALETTES[k % 2], 'INFINITY', k, ctx)
            solve(rows, PALETTES[k % 6], ('first', 'INFINITY', 2)[k // 6 % 3], k // 3, ctx)
    elif case[0] == 'ragged':
        r, c, alpha = RAGGED[case[1]]
        lines = list(ragged_lines(c, alpha))
        for k, rest in enumerate(itertools.product(lines, repeat=case[2] - 1)):
            solve([lines[case[3]]] + list(rest), PALETTES[k % 2], 'INFINITY', k + case[3], ctx)
            if k % 5 == 0:
                solve([lines[case[3]]] + list(rest), PALETTES[(k + case[3]) % 6], 'first', k // 5, ctx)
    elif case[0] == 'characters':
        a = CHARACTERS[case[1]]
        for k, b in enumerate(CHARACTERS):
            for rows in ([a + b], [a, b], [a + b, b + a], [a + ' ' + b], [a + '..', '..' + b]):
                solve(rows, PALETTES[k % 2], 'INFINITY', k, ctx)
    elif case[0] == 'few':
        rows, n = FEW[case[1]]
        palette = ('red', 'green', 'blue', 'yellow')[:n]
        solve(rows, palette, ('INFINITY', 'first', 3)[case[2]], case[2], ctx, cap=40)
    else:
        rows = big_map(case[1])
        for k, palette in enumerate((('red', 'green', 'blue', 'yellow'), ('cyan', 'magenta', 'red', 'green', 'blue'))):
            for limit in ('first', 3):
                if limit == 3 or case[1] != 'x':
                    solve(rows, palette, limit, k, ctx, cap=10)
                    solve(rows, palette, limit, k + 2, ctx, cap=10)
