"""Pictures and clues: the oracle for nonograms."""
import itertools


def runs(line):
    res, n = [], 0
    for cell in list(line) + [0]:
        if cell:
            n += 1
        elif n:
            res.append(n)
            n = 0
    return res


def clues(picture, ncols=None):
    """Clues of a possibly ragged picture."""
    width = max((len(r) for r in picture), default=0) if ncols is None else ncols
    cols = [[row[c] if c < len(row) else 0 for row in picture] for c in range(width)]
    return [runs(r) for r in picture], [runs(c) for c in cols]


def pictures(rows, cols):
    for bits in itertools.product((0, 1), repeat=rows * cols):
        yield tuple(tuple(bits[r * cols:(r + 1) * cols]) for r in range(rows))


_index = {}


def index(rows, cols):
    """clue key -> all pictures of the shape that have these clues."""
    key = (rows, cols)
    if key not in _index:
        table = {}
        for p in pictures(rows, cols):
            r, c = clues(p, cols)
            table.setdefault((tuple(map(tuple, r)), tuple(map(tuple, c))), []).append(p)
        _index[key] = table
    return _index[key]


def lines(clue, n):
    """All lines of n cells with this clue."""
    if not clue:
        return [(0,) * n]
    res = []
    head, rest = clue[0], tuple(clue[1:])
    tail = sum(rest) + len(rest)
    for start in range(n - head - tail + 1):
        left = (0,) * start + (1,) * head
        if rest:
            res += [left + (0,) + more for more in lines(rest, n - len(left) - 1)]
        else:
            res.append(left + (0,) * (n - len(left)))
    return res


def search(rows, cols):
    """All pictures with these clues, row by row, each column a prefix of a line with its clue."""
    prefixes = []
    for clue in cols:
        prefixes.append({line[:k] for line in lines(tuple(clue), len(rows)) for k in range(len(rows) + 1)})
    found = []

    def extend(done):
        if len(done) == len(rows):
            found.append(tuple(done))
            return
        for line in lines(tuple(rows[len(done)]), len(cols)):
            if all(tuple(r[c] for r in done) + (line[c],) in prefixes[c] for c in range(len(cols))):
                extend(done + [line])
    extend([])
    return found
