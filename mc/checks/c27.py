"""C27: the command line run in-process on a virtual clock: every subcommand x input x source x limit x timeout x model option; the
printed text is parsed back and compared with the solutions of the input computed independently."""
import ast
import contextlib
import io
import itertools
import json
import os
import re
import shutil
import sys
import tempfile

from mc import nono
from mc.clock import CLOCK
from mc.core import REPO, need
from mc.checks import c18, c19, c23, c24, c25, c26

PROPERTY = 'C27'
VIRTUAL_CLOCK = True
HORIZON = 150

KNAPSACKS = [
    dict(values=[3, 1, 2], capacities=[2, 2], weights=[[1, 1], [2, 0], [1, 1]]),
    dict(values=[1, 2], capacities=[-1], weights=[[0], [1]]),
    dict(values=[], capacities=[], weights=[]),
    dict(values=[5, 4, 3, 2], capacities=[5], weights=[[2], [3], [1], [4]]),
    dict(values=[-1, 2, 0], capacities=[-1, 3], weights=[[-2, 1], [1, 2], [0, 0]]),
    dict(values=[0, -3], capacities=[7], weights=[[1], [1]]),
]


def sudokus():
    base = [list(r) for r in c18.GRIDS[0]]
    res = [[list(r) for r in base]]
    one = [list(r) for r in c18.GRIDS[1]]
    for r, c in ((0, 0), (0, 3), (4, 4), (8, 8), (2, 7), (5, 1)):
        one[r][c] = 0
    res.append(one)
    # two completions: 2 values that can be exchanged in a rectangle
    two = [list(r) for r in c18.GRIDS[0]]
    found = None
    for r1, r2, c1, c2 in itertools.product(range(9), repeat=4):
        if r1 < r2 and c1 < c2 and two[r1][c1] == two[r2][c2] and two[r1][c2] == two[r2][c1] and (r1 // 3 == r2 // 3) != (c1 // 3 == c2 // 3):
            found = (r1, r2, c1, c2)
            break
    if found:
        for r, c in itertools.product(found[:2], found[2:]):
            two[r][c] = 0
    else:
        rows = [r for r in range(9)]
        for r in range(9):
            for c in range(9):
                if two[r][c] in (1, 2) and r // 3 in (0, 1, 2):
                    two[r][c] = 0
    res.append(two)
    many = [list(r) for r in c18.GRIDS[0]]
    for r in range(9):
        for c in range(9):
            if many[r][c] in (1, 2):
                many[r][c] = 0
    res.append(many)
    clash = [list(r) for r in c18.GRIDS[0]]
    clash[0][0], clash[4][4] = clash[0][1], 0
    res.append(clash)
    none = [list(r) for r in c18.GRIDS[1]]
    none[0][0] = 0
    none[0][1], none[8][8] = 9, 0     # wrong value: somewhere no completion
    res.append(none)
    return res


GRAPHS = [
    (dict(directed=False, multigraph=False, graph={}, nodes=[dict(id='a'), dict(id='b'), dict(id='c')], links=[dict(source='a', target='b'), dict(source='b', target='c')]), None),
    (dict(directed=False, multigraph=False, graph={}, nodes=[dict(id=0), dict(id=1), dict(id=2)], links=[dict(source=0, target=1), dict(source=1, target=2), dict(source=2, target=0)]), ['x', 'y']),
    (dict(directed=False, multigraph=False, graph={}, nodes=[], links=[]), ['x']),
    (dict(directed=True, multigraph=False, graph={}, nodes=[dict(id='n 1'), dict(id='n 2')], links=[dict(source='n 2', target='n 1'), dict(source='n 1', target='n 2')]), ['l', 'm', 'l']),
    (dict(directed=False, multigraph=True, graph={}, nodes=[dict(id='p'), dict(id='q')], links=[dict(source='p', target='q', key=0), dict(source='p', target='q', key=1)]), ['u', 'v', 'w']),
    (dict(directed=False, multigraph=False, graph={}, nodes=[dict(id='s')], links=[dict(source='s', target='s')]), ['u', 'v']),
    (dict(directed=False, multigraph=False, graph={}, nodes=[dict(id='a'), dict(id='b'), dict(id='c')], links=[]), ['u', 'v']),
    (dict(directed=False, multigraph=False, graph={}, nodes=[dict(id='a'), dict(id='b')], links=[dict(source='a', target='b')]), ['only']),
    (dict(directed=False, multigraph=False, graph={}, nodes=[dict(id='a'), dict(id='b')], links=[]), ['0']),
]
MAPS = [
    ('AAB\nC B\n.CC\n', None),
    ('AB\nBA', ['red', 'blue', 'green']),
    ('AB\nCD', ['red', 'blue', 'green']),
    ('  \n..\n', ['red']),
    ('A A A\n\nB', ['green', 'red']),
    ('#', ['cyan', 'magenta', 'cyan']),
    ('', None),
    ('AB', ['red']),
    ('AB B', ['blue', 'blue']),
    ('A B C', ['white']),
    ('ABC', ['yellow', 'cyan', 'magenta', 'white', 'light_red']),
]
NONOGRAMS = [
    dict(rows=[[1], [1]], columns=[[1], [1]]),
    dict(rows=[[2], [], [1]], columns=[[1, 1], [1]]),
    dict(rows=[[3], [1, 1], [3]], columns=[[3], [1, 1], [3]]),
    dict(rows=[[1], [2]], columns=[[1], [1]]),
    dict(rows=[[0], [1]], columns=[[1], [0], []]),
    dict(rows=[[1], [1], [1]], columns=[[1], [1], [1]]),
    dict(rows=[], columns=[]),
]
IMAGES = ['##\n  \n# ', '# #\n _#\n##', '#', ' ', '###\n#\n#_#\n', 'x\n\nyy', '', '__\n##']
EQUATIONS = ['A+B==3', 'A==A', 'AB+1==BA', '7==8', '7==7', 'a+aa==BC', 'A*B==AB', 'A9/3==13', '2*(A+b)==AB-9', 'I+BB==ILL']
# inputs of many solutions
MANY = [
    ('cryptarithm', 'A+B>=9'), ('cryptarithm', 'A+B+C>=12'), ('queens', '7'),
    ('graph_labeling', (dict(directed=False, multigraph=False, graph={}, nodes=[dict(id='n%d' % k) for k in range(10)], links=[]), ['u', 'v'])),
    ('graph_labeling', (dict(directed=False, multigraph=False, graph={}, nodes=[dict(id=k) for k in range(7)], links=[dict(source=0, target=6)]), None)),
    ('ascii_map_coloring', ('A B C D', None)), ('nonogram', dict(rows=[[1]] * 4, columns=[[1]] * 4)), ('nonogram', dict(rows=[[1]] * 5, columns=[[1]] * 5)),
]
MANY_LIMITS = [[], ['-l'], ['-l', '9'], ['-l', '10'], ['-l', '11'], ['-l', '99'], ['-l', '100'], ['-l', '101'], ['-l', '128'], ['-l', '255'], ['-l', '256'], ['-l', '257'], ['-l', '1000'], ['-l', '1001'], ['-l', 'TOTAL'], ['-l', 'TOTAL+1']]
# every number of solutions
COUNTS = list(range(1, 131)) + [199, 200, 201, 256, 500, 999, 1000, 1001]
SIZES = ['0', '1', '2', '3', '4', '5', '6']
LIMITS = [[], ['-l'], ['-l', '0'], ['-l', '1'], ['-l', '2'], ['--limit', '3'], ['-l', 'TOTAL'], ['-l', 'TOTAL+1'], ['--limit=1000']]
TIMEOUTS = [[], ['-t'], ['-t', '1000'], ['--timeout', '0.5'], ['-t', '0']]
TICKS = (0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144)


# the inputs that come with the library
EXAMPLES = [('knapsack', 0), ('knapsack', 1), ('sudoku', 0), ('sudoku', 1)]
# many letters: too many solutions to know them all, every printed one is judged
LETTERS = ['AB+CD>=90', 'AB+CD+EF<250', 'AB*CD!=EF+GH', 'ab+CD+eF+GH+IJ>=99', 'AB+CD+EF+GH+I<900', 'ABCDE!=FGHIJ', 'Q+WERTY>UIOP', 'ZY+XW>VU-T0', 'JA+IB+HC>GD-FE']


def bounds(tier):
    return dict(subcommands='knapsack sudoku graph_labeling ascii_map_coloring nonogram queens einstein cryptarithm',
                inputs={k: len(v) for k, v in inputs().items()}, sources='-i file, --input-file file, -i - (standard input), -I image, default',
                options='every combination of {} x {} x with/without -s'.format(LIMITS, TIMEOUTS), many='{} inputs of 24..1024 solutions x limits {}'.format(len(MANY), MANY_LIMITS), counts='inputs of {} solutions, without, at and above the limit'.format(COUNTS), letters=LETTERS, examples=['examples/{}_{}.json'.format(*e) for e in EXAMPLES], zeros='-z absent, -z, on/off/true/false/0/1',
                clock='standing still; ticking at every reading with timeouts {}'.format(TICKS if tier == 'quick' else 'range(0, 200)'), tier=tier)


def inputs():
    return dict(knapsack=KNAPSACKS, sudoku=sudokus(), graph_labeling=GRAPHS, ascii_map_coloring=MAPS, nonogram=NONOGRAMS + IMAGES,
                queens=SIZES, einstein=[None], cryptarithm=EQUATIONS)


def cases(tier):
    for cmd, ins in inputs().items():
        for k in range(len(ins)):
            if cmd == 'einstein' or (cmd, k) == ('queens', 6):
                for j in range(len(TIMEOUTS)):
                    yield ('options', cmd, k, j)
            else:
                yield ('options', cmd, k, None)
            yield ('ticks', cmd, k)
    for first in range(0, max(COUNTS) + 1, 20):
        yield ('counts', first)
    for k in range(len(MANY)):
        yield ('many', k)
    for k in range(len(EQUATIONS)):
        yield ('zeros', 'cryptarithm', k)
    for cmd in ('knapsack', 'sudoku', 'graph_labeling', 'ascii_map_coloring', 'nonogram'):
        for opts in range(5):
            yield ('default', cmd, opts)
    if tier == 'thorough':
        yield ('default', 'queens', 0)
    yield ('default', 'cryptarithm', 0)
    yield ('default', 'queens', 1)
    for k in range(len(LETTERS)):
        yield ('letters', k)
    for k in range(len(EXAMPLES)):
        yield ('example', k)
    yield ('help',)


# ---------------------------------------------------------------- running and reading

def call(argv, stdin=None, tick=0.0):
    from satisfy.tool import main
    out = io.StringIO()
    old = sys.argv, sys.stdin
    CLOCK.reset(tick)
    sys.argv = ['satisfy'] + argv
    if stdin is not None:
        sys.stdin = io.StringIO(stdin)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            main()
    except SystemExit as e:
        need(not e.code, 'satisfy {}: exit status {}', ' '.join(argv), e.code)
    finally:
        sys.argv, sys.stdin = old
        CLOCK.reset()
    return out.getvalue()


SOLUTION = re.compile(r'^=== solution (\d+) ===$', re.M)
SUMMARY = re.compile(r'Found (?:(unique) solution|all (\d+) solutions?|(\d+) partial solutions?|(no) solution) in ([\d.]+) seconds(?: \[(\w+) reached\])?')
OPTIMUM = re.compile(r'Found (optimal|sub-optimal|no) solution in ([\d.]+) seconds(?: after (\d+) solve iterations?)?(?: \[(\w+) reached\])?')


def sections(text, what):
    """Lines printed for every solution, and the last line."""
    lines = text.split('\n')
    need(lines[-1] == '' and len(lines) >= 2 and lines[-2].startswith('Found '), '{}: the output does not end with a summary: {!r}', what, text[-200:])
    summary = lines[-2]
    body = lines[:-2]
    heads = [k for k, line in enumerate(body) if SOLUTION.match(line)]
    numbers = [int(SOLUTION.match(body[k]).group(1)) for k in heads]
    need(numbers == list(range(1, len(heads) + 1)), '{}: the solutions are numbered {}', what, numbers)
    res = []
    for k, h in enumerate(heads):
        end = heads[k + 1] if k + 1 < len(heads) else len(body)
        part = body[h + 1:end]
        need(part and part[-1] == '', '{}: no empty line after solution {}', what, k + 1)
        res.append(part[:-1])
    head = body[:heads[0]] if heads else body
    return head, res, summary


# readings of the clock that one search step may take
SLACK = 8


def judge_time(what, elapsed, reason, timeout):
    """timeout: None, or the number of seconds on a clock that advances by one second at every reading."""
    if timeout is not None:
        need(float(elapsed) <= timeout + SLACK, '{}: {} s of search are reported, the timeout is {} s', what, elapsed, timeout)


def judge_enumeration(what, printed, full, cap, summary, limit, timeout, ctx, bound=None):
    """printed: parsed solutions; full: all solutions (None: too many, `cap` says how many at least); limit in effect or None."""
    need(len(set(printed)) == len(printed), '{}: a solution is printed twice', what)
    if full is not None:
        wrong = [p for p in printed if p not in full]
        need(not wrong, '{}: {} is no solution', what, wrong[:2])
    total = len(full) if full is not None else None
    m = SUMMARY.fullmatch(summary)
    need(m, '{}: summary {!r}', what, summary)
    unique, all_, partial, no, elapsed, reason = m.groups()
    judge_time(what, elapsed, reason, bound)
    count = 1 if unique else 0 if no else int(all_ or partial)
    need(count == len(printed), '{}: {} solutions are printed, the summary is {!r}', what, len(printed), summary)
    complete = not partial and not reason
    if complete:
        need(full is not None and len(printed) == total, '{}: {} of {} solutions are printed, the summary is {!r}', what, len(printed), total, summary)
        need(limit is None or limit > len(printed) or limit <= 0, '{}: the limit was reached but the summary is {!r}', what, summary)
    else:
        need(reason in ('limit', 'timeout'), '{}: the summary {!r} names no reason', what, summary)
        need(not unique and not all_, '{}: summary {!r}', what, summary)
        if reason == 'limit':
            need(limit is not None and len(printed) == max(limit, 0), '{}: {} solutions under limit {}, the summary is {!r}', what, len(printed), limit, summary)
        else:
            need(timeout, '{}: the summary is {!r} but no time passed', what, summary)
    if not timeout:
        least = total if total is not None else cap
        want = least if limit is None else min(max(limit, 0), least)
        need(len(printed) == want, '{}: {} solutions are printed instead of {}', what, len(printed), want)
    ctx.step(len(printed) + 1)
    ctx.trace((len(printed), reason))


# ---------------------------------------------------------------- the subcommands: argv, solutions, reader

def parse_sudoku(lines, what):
    grid = []
    for line in lines:
        cells = re.findall(r'[1-9.]', line)
        if cells:
            grid.append(tuple(0 if c == '.' else int(c) for c in cells))
    need(len(grid) == 9 and all(len(r) == 9 for r in grid), '{}: no schema in {}', what, lines)
    return tuple(grid)


def parse_box(lines, n, what):
    rows = [line for line in lines if line.startswith('│')]
    need(len(rows) == n, '{}: the board has {} rows', what, len(rows))
    board = []
    for row in rows:
        cells = row.split('│')[1:-1]
        need(len(cells) == n, '{}: row {!r}', what, row)
        board.append(tuple(int(bool(c.strip())) for c in cells))
    return tuple(board)


RE_HOUSE = re.compile(r'(\[\*\])? *The (.+), who lives in the (first|second|third|fourth|fifth) (\w+) house, drinks (\w+), smokes (.+) and has (.+)\.')


def parse_houses(lines, what):
    sol = {}
    for line in lines:
        m = RE_HOUSE.fullmatch(line.strip())
        need(m, '{}: line {!r}', what, line)
        star, owner, ordinal, color, drink, smoke, animal = m.groups()
        need(bool(star) == (animal == 'a zebra'), '{}: the zebra is not marked right in {!r}', what, line)
        house = ['first', 'second', 'third', 'fourth', 'fifth'].index(ordinal) + 1
        need(house not in sol, '{}: house {} twice', what, house)
        sol[house] = dict(owner=owner, color=color, drink=drink, smoke=smoke, animal=animal)
    return tuple(sorted(c25.read(sol, what).items()))


def parse_cryptarithm(lines, source, letters, what):
    vals = {}
    for line in lines[:-1]:
        m = re.fullmatch(r'([A-Z]) = (\d)', line)
        need(m and m.group(1) not in vals, '{}: line {!r}', what, line)
        vals[m.group(1)] = int(m.group(2))
    need(sorted(vals) == letters, '{}: digits of {} are printed', what, sorted(vals))
    shown = ''.join(str(vals.get(ch, ch)) for ch in source.upper())
    need(lines[-1] == '==> ' + shown, '{}: {!r} is printed instead of {!r}', what, lines[-1], '==> ' + shown)
    return tuple(vals[ch] for ch in letters)


_grids = {}


def grid_problem(schema):
    key = json.dumps(schema)
    if key not in _grids:
        _grids[key] = set(c18.completions(schema, 400))
    return _grids[key]


def color_cells(line):
    res = []
    pos = 0
    pat = re.compile(r'\x1b\[\d+m.\x1b\[0m|.', re.S)
    while pos < len(line):
        m = pat.match(line, pos)
        res.append(m.group())
        pos = m.end()
    return res


def problem(cmd, data, what):
    """(set of solutions, default limit, reader of a section)"""
    if cmd == 'sudoku':
        full = grid_problem(data)
        return full, 1, lambda lines: parse_sudoku(lines, what)
    if cmd == 'graph_labeling':
        graph, labels = data
        labels = labels or ['red', 'blue', 'green']
        labels = [x for j, x in enumerate(labels) if x not in labels[:j]]
        nodes = [n['id'] for n in graph['nodes']]
        edges = [(nodes.index(e['source']), nodes.index(e['target'])) for e in graph['links']]
        full = {vals for vals in itertools.product(labels, repeat=len(nodes)) if all(vals[a] != vals[b] for a, b in edges)}

        def reader(lines):
            need(len(lines) == 1, '{}: lines {}', what, lines)
            sol = ast.literal_eval(lines[0])
            need(isinstance(sol, dict) and sorted(map(repr, sol)) == sorted(map(repr, nodes)), '{}: {} does not label the nodes', what, sol)
            return tuple(sol[n] for n in nodes)
        return full, None, reader
    if cmd == 'ascii_map_coloring':
        text, colors = data
        colors = colors or ['red', 'blue', 'green', 'yellow']
        colors = [x for j, x in enumerate(colors) if x not in colors[:j]]
        rows = text.split('\n')
        number, n, touch = c26.regions(rows)
        some = c26.colorings(n, touch, len(colors), 400)
        full = set(some) if len(some) < 400 else None

        def reader(lines):
            seen = c26.read([color_cells(line) for line in lines], rows, number, what)
            coloring = tuple(colors.index(seen[i]) for i in range(n))
            need(all(coloring[a] != coloring[b] for a, b in touch), '{}: touching regions share a color', what)
            return coloring
        return full, 1, reader
    if cmd == 'nonogram':
        if isinstance(data, str):
            lines = data.split('\n')
            width = max(map(len, lines))
            pic = [[int(c < len(line) and line[c] not in ' _') for c in range(width)] for line in lines]
            rows, cols = nono.clues(pic, width)
        else:
            rows, cols = data['rows'], data['columns']
        strip = lambda ls: tuple(tuple(x for x in line if x) for line in ls)
        if len(rows) * len(cols) <= 16:
            full = set(nono.index(len(rows), len(cols)).get((strip(rows), strip(cols)), []))
        elif strip(rows) == strip(cols) == ((1,),) * len(rows):
            full = {tuple(tuple(int(c == x) for c in range(len(cols))) for x in p) for p in itertools.permutations(range(len(cols)))}
        else:
            full = None

        def reader(lines):
            if not rows:
                need(lines in ([], ['']), '{}: {}', what, lines)
                return ()
            need(len(lines) == len(rows) and all(len(line) == len(cols) for line in lines), '{}: the picture {} is not {}x{}', what, lines, len(rows), len(cols))
            pic = tuple(tuple(int(ch not in ' _.') for ch in line) for line in lines)
            r, c = nono.clues(pic, len(cols))
            need(tuple(map(tuple, r)) == strip(rows) and tuple(map(tuple, c)) == strip(cols), '{}: the picture {} has other clues', what, lines)
            return pic
        return full, None, reader
    if cmd == 'queens':
        n = int(data)
        full = {tuple(tuple(int(p[r] == c) for c in range(n)) for r in range(n)) for p in c24.placements(n)}
        return full, None, lambda lines: parse_box(lines, n, what)
    if cmd == 'einstein':
        return set(c25.expected()), None, lambda lines: parse_houses(lines, what)
    if cmd == 'cryptarithm':
        source, avoid = data
        letters, full = c19.oracle(source, avoid)
        return full, None, lambda lines: parse_cryptarithm(lines, source, letters, what)
    raise ValueError(cmd)


def judge_knapsack(what, text, data, limited, timed, ctx, bound=None):
    lines = text.split('\n')
    need(len(lines) > 2 and lines[-1] == '' and lines[-2].startswith('Found '), '{}: no summary', what)
    m = OPTIMUM.fullmatch(lines[-2])
    need(m, '{}: summary {!r}', what, lines[-2])
    kind, elapsed, iterations, reason = m.groups()
    judge_time(what, elapsed, reason, bound)
    fields = {}
    for line in lines[lines.index('=== optimal_solution ===') + 1:-2]:
        if ':' in line:
            name, _, rest = line.partition(':')
            fields[name] = ast.literal_eval(rest.strip())
    best, sels = c23.brute(data['values'], data['capacities'], data['weights'])
    ctx.step(int(iterations or 0) + 1)
    ctx.trace((kind, reason))
    if reason:
        need(reason in ('limit', 'timeout'), '{}: summary {!r}', what, lines[-2])
        need(limited if reason == 'limit' else timed, '{}: the summary is {!r} without such a bound', what, lines[-2])
    else:
        need(kind != 'sub-optimal', '{}: the summary {!r} names no reason', what, lines[-2])
    if 'solution' not in fields:
        need('no solution found' in text and kind == 'no', '{}: nothing is said about the solution: {!r}', what, text[-300:])
        need(best is None or reason, '{}: no solution is found although {} are feasible', what, sels)
        return
    need(kind != 'no' and 'no solution found' not in text, '{}: {!r}', what, text[-300:])
    sel = tuple({'X': 1, '_': 0}[x] for x in fields['solution'].split())
    need(len(sel) == len(data['values']), '{}: solution {!r}', what, fields['solution'])
    weights = tuple(sum(s * r[j] for s, r in zip(sel, data['weights'])) for j in range(len(data['capacities'])))
    value = sum(s * v for s, v in zip(sel, data['values']))
    need(best is not None and all(w <= c for w, c in zip(weights, data['capacities'])), '{}: {} is not feasible', what, fields)
    need(fields['value'] == value and tuple(fields['weights']) == weights, '{}: {} reports another value or weights than {} {}', what, fields, value, weights)
    need(fields['is_optimal'] == (kind == 'optimal'), '{}: is_optimal {} but {!r}', what, fields['is_optimal'], lines[-2])
    if kind == 'optimal' or not reason:
        need(kind == 'optimal' and value == best, '{}: value {} is called {}, the best is {}', what, value, kind, best)


def files(cmd, data, k, scratch):
    """(argv, text for the standard input)"""
    if cmd == 'queens':
        return [['-b', data], ['--board-size', data]][k % 2], None
    if cmd == 'einstein':
        return [], None
    if cmd == 'cryptarithm':
        return None, None
    extra, opt = [], ['-i', '--input-file'][k % 2]
    content = data
    if cmd == 'graph_labeling':
        content, labels = data
        extra = [['-L', '--labels'][k % 2]] + labels if labels else []
    elif cmd == 'ascii_map_coloring':
        content, colors = data
        extra = [['-C', '--colors'][k % 2]] + colors if colors else []
    elif cmd == 'nonogram' and isinstance(data, str):
        opt = ['-I', '--input-image'][k % 2]
    if not isinstance(content, str):
        content = json.dumps(content)
    if k % 4 == 3:
        return extra + [opt, '-'], content
    path = os.path.join(scratch, 'input')
    with open(path, 'w') as f:
        f.write(content)
    return extra + [opt, path], None


def effective(limit_args, default, total):
    args = [a.replace('TOTAL+1', str(total + 1)).replace('TOTAL', str(total)) for a in limit_args]
    if not args:
        return args, default
    val = args[-1].split('=')[-1]
    return args, None if val in ('-l', '--limit') else int(val)


def drive(cmd, data, k, largs, targs, show, tick, scratch, ctx, zargs=None, avoid=True):
    argv, stdin = files(cmd, data, k, scratch)
    if cmd == 'cryptarithm':
        argv = [data] + (zargs or [])
        data = (data, avoid)
    timed = bool(tick) and len(targs) == 2
    bound = float(targs[1]) if timed else None
    what = 'satisfy {} [{}]'.format(cmd, data)
    if cmd == 'knapsack':
        full, default, reader = None, None, None
        total = len(c23.brute(data['values'], data['capacities'], data['weights'])[1])
    else:
        full, default, reader = problem(cmd, data, what)
        total = len(full) if full is not None else 400
    largs, limit = effective(largs, default, total)
    argv = [cmd] + argv + ([['-s'], ['--show-model']][k % 2] if show else []) + largs + targs
    what = 'satisfy {} [input {}]{}'.format(' '.join(argv), data, ' on a ticking clock' if tick else '')
    text = call(argv, stdin, tick)
    ctx.state(tuple(largs), tuple(targs), show, tick, k, avoid)
    need(('=== model variables: ===' in text and '=== model constraints: ===' in text) == show, '{}: the model is {}printed', what, 'not ' if show else '')
    if cmd == 'knapsack':
        judge_knapsack(what, text, data, limit is not None, timed, ctx, bound)
        return
    head, parts, summary = sections(text, what)
    if cmd == 'sudoku':
        start = head.index('=== sudoku schema ===')
        need(parse_sudoku(head[start + 1:start + 14], what) == tuple(map(tuple, data)), '{}: another schema is printed', what)
    if cmd == 'einstein':
        from satisfy.tool.einstein_riddle import EinsteinRiddleSolver
        for st in EinsteinRiddleSolver.statements():
            need(any(line.endswith(st) for line in head), '{}: the statement {!r} is not printed', what, st)
    printed = [reader(p) for p in parts]
    judge_enumeration(what, printed, full, 400, summary, limit, timed, ctx, bound)


def read_default(cmd, text, what):
    """The default input as printed."""
    m = re.search(r'^No input .*:$\n', text, re.M)
    need(m, '{}: the default input is not announced', what)
    rest = text[m.end():]
    if cmd == 'cryptarithm':
        return (rest.strip().split('\n')[0], True)
    if cmd == 'ascii_map_coloring':
        body = rest[:rest.index('\n\n=== ')] if '\n\n=== ' in rest else rest
        body = body[:-1] if body.endswith('\n\n') else body
        lines = body.split('\n')
        while lines and not lines[-1].strip():
            lines.pop()
        return ('\n'.join(lines), None)
    data, _ = json.JSONDecoder().raw_decode(rest.lstrip())
    return (data, None) if cmd == 'graph_labeling' else data


def run_letters(source, ctx):
    letters = sorted(set(filter(str.isalpha, source.upper())))
    for limit, show in itertools.product((1, 2, 3, 12), (False, True)):
        argv = ['cryptarithm', source, '-l', str(limit)] + ['-s'] * show
        what = 'satisfy ' + ' '.join(argv)
        head, parts, summary = sections(call(argv), what)
        printed = [parse_cryptarithm(p, source, letters, what) for p in parts]
        need(len(printed) == limit and len(set(printed)) == limit, '{}: {} solutions are printed: {}', what, len(printed), printed)
        m = SUMMARY.fullmatch(summary)
        need(m and m.groups()[5] == 'limit', '{}: summary {!r}', what, summary)
        for sol in printed:
            words = re.sub('[A-Z0-9]+', lambda w: str(int(''.join(str(dict(zip(letters, sol)).get(ch, ch)) for ch in w.group()))), source.upper())
            first = {w[0] for w in re.findall('[A-Z0-9]+', source.upper())}
            need(len(set(sol)) == len(sol) and eval(words) and all(v or ch not in first for ch, v in zip(letters, sol)), '{}: {} is printed, {}', what, dict(zip(letters, sol)), words)
        ctx.step(limit)
        ctx.state(source, limit, show)
        ctx.trace((limit, len(letters)))


def run_case(case, ctx):
    if case[0] == 'help':
        for argv in ([], ['-h']):
            text = call(argv)
            for cmd in inputs():
                need(cmd in text, 'the help does not mention {}', cmd)
        for cmd in inputs():
            text = call([cmd, '--help'])
            need('--limit' in text and '--timeout' in text and '--show-model' in text, 'help of {}', cmd)
            ctx.state(cmd)
            ctx.trace()
            ctx.step()
        return
    if case[0] == 'letters':
        return run_letters(LETTERS[case[1]], ctx)
    scratch = tempfile.mkdtemp(prefix='mc-c27-')
    try:
        kind, cmd = case[:2]
        if kind == 'many':
            cmd, data = MANY[case[1]]
            for k, largs in enumerate(MANY_LIMITS):
                drive(cmd, data, k, largs, [], not k % 5, 0.0, scratch, ctx)
            for t in (20, 200, 2000):
                drive(cmd, data, 0, ['-l'], ['-t', str(t)], False, 1.0, scratch, ctx)
            return
        if kind == 'counts':
            # one node, so as many solutions as labels
            graph = dict(directed=False, multigraph=False, graph={}, nodes=[dict(id='n')], links=[])
            for k in [n for n in COUNTS if cmd <= n < cmd + 20]:
                for j, largs in enumerate((['-l'], ['-l', 'TOTAL'], ['-l', 'TOTAL+1'], [])):
                    drive('graph_labeling', (graph, ['l%d' % n for n in range(k)]), j + k % 2, largs, [], False, 0.0, scratch, ctx)
            return
        if kind == 'example':
            cmd, n = EXAMPLES[case[1]]
            with open(os.path.join(REPO, 'examples', '{}_{}.json'.format(cmd, n))) as f:
                data = json.load(f)
            for k, (targs, largs, show) in enumerate(itertools.product(([], ['-t', '1000']), ([], ['-l'], ['-l', '1'], ['-l', '3'], ['-l', 'TOTAL+1']), (False, True))):
                if n == 0 or k in (0, 3, 5):
                    drive(cmd, data, k, largs, targs, show, 0.0, scratch, ctx)
            for t in (3, 50, 500):
                drive(cmd, data, 0, ['-l'], ['-t', str(t)], False, 1.0, scratch, ctx)
            return
        if kind == 'options':
            data = inputs()[cmd][case[2]]
            for k, (targs, largs, show) in enumerate(itertools.product(TIMEOUTS, LIMITS, (False, True))):
                if case[3] is None or TIMEOUTS.index(targs) == case[3]:
                    drive(cmd, data, k, largs, targs, show, 0.0, scratch, ctx)
        elif kind == 'ticks':
            data = inputs()[cmd][case[2]]
            for k, t in enumerate(TICKS if ctx.tier == 'quick' else range(200)):
                for largs in ([], ['-l'], ['-l', '2']):
                    drive(cmd, data, k, largs, ['-t', str(t)], bool(k % 2), 1.0, scratch, ctx)
            drive(cmd, data, 1, ['-l'], ['-t'], False, 1.0, scratch, ctx)
            drive(cmd, data, 0, ['-l'], [], False, 1.0, scratch, ctx)
        elif kind == 'zeros':
            for zargs, avoid in (([], True), (['-z'], True), (['-z', 'on'], True), (['-z', 'off'], False), (['--avoid-leading-zeros', 'true'], True), (['-z', 'FALSE'], False),
                                 (['-z', '0'], False), (['-z', '1'], True), (['--avoid-leading-zeros=off'], False), (['-z', 'Off'], False)):
                for largs in ([], ['-l', '2'], ['-l']):
                    for show in (False, True):
                        drive(cmd, EQUATIONS[case[2]], 0, largs, [], show, 0.0, scratch, ctx, zargs, avoid)
        else:
            if cmd == 'queens':
                argv, limit = [cmd] + [[], ['-l', '1']][case[2]], [None, 1][case[2]]
            else:
                argv = [cmd] + [[], ['-l', '2'], ['-s', '-l', '1'], ['-t', '-l', '3'], ['-s']][case[2]]
                limit = [None, 2, 1, 3, None][case[2]]
            text = call(argv)
            what = 'satisfy ' + ' '.join(argv)
            data = '8' if cmd == 'queens' else read_default(cmd, text, what)
            if cmd == 'knapsack':
                judge_knapsack(what, text, data, limit is not None, False, ctx)
                return
            full, default, reader = problem(cmd, data, what)
            head, parts, summary = sections(text, what)
            if cmd == 'ascii_map_coloring':
                parts = [p[:len(data[0].split('\n'))] for p in parts]     # the printed map ends with a line break
            if limit is None:
                limit = default
            printed = [reader(p) for p in parts]
            if cmd == 'nonogram':
                need(len(printed) >= 1, '{}: no picture', what)
                full = set(printed) if full is None else full      # clues are checked by the reader
            judge_enumeration(what, printed, full, 400, summary, limit, False, ctx)
            ctx.state(what)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
