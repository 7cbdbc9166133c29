"""C22: every picture of bounded size, ragged ones included: clues, text image and back, clues of the image."""
import itertools

from mc import nono
from mc.checks.c21 import PATTERNS, PATTERNS_BIG
from mc.core import need

PROPERTY = 'C22'

FILLED = (1, True, 2, '*', 'x')


def bounds(tier):
    big = tier == 'thorough'
    return dict(rectangular='all pictures of {}'.format([s for s in shapes(tier)]),
                ragged='all pictures of <= 3 rows of 0..3 cells each' + (', 4 rows of 0..2, 2 rows of 0..5' if big else ', 4 rows of 0..1, 2 rows of 0..4'),
                long='every sequence of rows from patterns of up to 40 cells and 60 runs, with the transposed pictures: {} families'.format(len(LONG)),
                cells='0/1; also other false/true values', images='all texts over {space, underscore, #, X, 0} of ' + ('<= 7' if big else '<= 6') + ' characters and line breaks; other zero/one characters: {}'.format([repr(z) for z in ZEROES]), tier=tier)


def shapes(tier):
    res = [(0, 0), (1, 0), (2, 0), (3, 0), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (3, 4), (4, 3), (1, 8), (8, 1), (2, 5), (5, 2), (2, 6)]
    if tier == 'thorough':
        res += [(4, 4), (3, 5), (5, 3), (1, 14), (14, 1), (2, 7), (7, 2)]
    return res


def rows_of(maxlen):
    return [bits for n in range(maxlen + 1) for bits in itertools.product((0, 1), repeat=n)]


def ragged(tier):
    big = tier == 'thorough'
    for rows, maxlen in ((1, 4), (2, 4 if not big else 5), (3, 3), (4, 1 if not big else 2)):
        yield rows, maxlen


def cases(tier):
    for r, c in shapes(tier):
        n = max(1, r * c - 6)
        for k in range(1 << max(0, r * c - 6)):
            yield ('rect', r, c, k)
    for rows, maxlen in ragged(tier):
        for first in range(len(rows_of(maxlen))):
            yield ('ragged', rows, maxlen, first)
    for k in range(len(LONG)):
        for first in range(len(LONG[k][1])):
            yield ('long', k, first)
    alphabet = ' _#X0\n'
    for first in itertools.product(alphabet, repeat=2):
        yield ('text', 7 if tier == 'thorough' else 6, ''.join(first))


# long lines, many lines, many runs: every sequence of rows (and its transpose) from a few patterns
LONG = [(r, rows) for r, c, rows in PATTERNS + PATTERNS_BIG] + [
    (3, ['#.' * 13, '.' * 25 + '#', '#' * 26, '##.' * 9, '', '#', '.' * 12 + '#' * 12]),
    (2, [('#' * n + '.') * 3 for n in range(0, 15, 2)] + ['.' * n + '#' for n in range(0, 15, 3)]),
    (1, ['#.' * n + t for n in range(0, 60, 7) for t in ('', '.', '#', '##')]),
    (5, ['#' * 12, '.' * 12 + '#.#']),
]


def as_lists(p):
    return [list(r) for r in p]


def picture(p, ctx, rect):
    from satisfy.nonogram import pixmap_shape, pixmap_to_nonogram
    from satisfy.tool import demo_nonogram as demo
    width = max((len(r) for r in p), default=0)
    rows, cols = nono.clues(p)
    for wrap in (tuple, as_lists):
        q = wrap(p)
        before = repr(q)
        got = pixmap_to_nonogram(q)
        need([list(r) for r in got['rows']] == rows, 'row clues of {} are {} instead of {}', p, got['rows'], rows)
        need([list(c) for c in got['columns']] == cols, 'column clues of {} are {} instead of {}', p, got['columns'], cols)
        need(tuple(pixmap_shape(q)) == (len(p), width), 'shape of {} is {}', p, pixmap_shape(q))
        need(repr(q) == before, 'the picture {} is changed', p)
    if not p:
        return           # a text always has a line
    padded = [[int(bool(v)) for v in r] + [0] * (width - len(r)) for r in p]
    for args_out, args_in in (({}, {}), (dict(zero='.', one='@'), dict(zeroes='.')), (dict(zero='_'), {}), (dict(zero='0', one='1'), dict(zeroes={'0'}))):
        image = demo.pixmap_to_image(p, **args_out)
        lines = image.split('\n')
        need(len(lines) == len(p) and all(len(line) == width for line in lines), 'image of {} is {!r}', p, image)
        back = demo.image_to_pixmap(image, **args_in)
        need([list(r) for r in back] == padded, '{} -> {!r} -> {}', p, image, back)
        got = demo.image_to_nonogram(image, **args_in)
        need([list(r) for r in got['rows']] == rows and [list(c) for c in got['columns']] == cols, 'clues of the image {!r} are {}', image, got)
    ctx.step()
    ctx.state(p)
    ctx.trace((len(p), width, str(rows)))


ZEROES = [None, '.', {' '}, '#X', ['0'], (), '_', {'.', '0'}, '\t', ' _0#X', {'x'}]


def text(image, ctx, zeroes=None):
    from satisfy.tool import demo_nonogram as demo
    lines = image.split('\n')
    width = max(map(len, lines))
    want = [[int(c < len(line) and line[c] not in (' _' if zeroes is None else zeroes)) for c in range(width)] for line in lines]
    args = {} if zeroes is None else dict(zeroes=zeroes)
    got = demo.image_to_pixmap(image, **args)
    need([list(r) for r in got] == want, 'picture of the image {!r} {} is {}', image, args, got)
    rows, cols = nono.clues(want)
    n = demo.image_to_nonogram(image, **args)
    need([list(r) for r in n['rows']] == rows and [list(c) for c in n['columns']] == cols, 'clues of the image {!r} are {}', image, n)
    ctx.step()
    ctx.state(image)
    ctx.trace((len(lines), width))


def run_case(case, ctx):
    if case[0] == 'rect':
        _, r, c, k = case
        low = min(r * c, 6)
        for bits in itertools.product((0, 1), repeat=low):
            cells = bits + tuple(k >> j & 1 for j in range(r * c - low))
            p = tuple(tuple(cells[i * c:(i + 1) * c]) for i in range(r))
            picture(p, ctx, True)
            if r * c <= 9 and any(cells):
                # what counts is whether a cell is filled
                picture(tuple(tuple(FILLED[(i + j + k) % 5] if v else (0, False, None, '')[(i + j) % 4] for j, v in enumerate(row)) for i, row in enumerate(p)), ctx, True)
    elif case[0] == 'long':
        _, k, first = case
        n, rows = LONG[k]
        for rest in itertools.product(rows, repeat=n - 1):
            p = tuple(tuple(int(ch == '#') for ch in row) for row in (rows[first],) + rest)
            picture(p, ctx, False)
            width = max(map(len, p))
            picture(tuple(tuple(row[c] if c < len(row) else 0 for row in p) for c in range(width)), ctx, True)
    elif case[0] == 'ragged':
        _, rows, maxlen, first = case
        lines = rows_of(maxlen)
        for rest in itertools.product(lines, repeat=rows - 1):
            picture((lines[first],) + rest, ctx, False)
    else:
        _, n, prefix = case
        for m in range(0, n - 2):
            for k, rest in enumerate(itertools.product(' _#X0.\t\n', repeat=m)):
                for zeroes in (ZEROES if m < 3 else [ZEROES[k % len(ZEROES)]]):
                    text(prefix + ''.join(rest), ctx, zeroes)
        for m in range(0, n - 1):
            for rest in itertools.product(' _#X0\n', repeat=m):
                text(prefix + ''.join(rest), ctx)
        text(prefix[0], ctx)
        text('', ctx)
