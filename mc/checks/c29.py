"""C29: puzzle solvers are ordinary solvers of an ordinary model.

All histories up to a depth of activities on one puzzle object (iterations to the end, partial, abandoned, interleaved, closed, modified
solutions, settings of its solver, constraints added to its model, solvability marks, a ticking clock with a timeout); after every
activity the sequence yielded is compared with the renderings of the solutions that a fresh model of the puzzle has in a pristine process."""
import copy
import itertools

from mc import csp
from mc.clock import CLOCK
from mc.core import need, pristine, spoil

PROPERTY = 'C29'
VIRTUAL_CLOCK = True
HORIZON = 300


def sudoku(n):
    text = '534678912672195348198342567859761423426853791713924856961537284287419635345286179'
    cells = [int(c) for c in text]
    for k, c in enumerate(cells):
        if n == 0 and str(c) in '12' or n == 1 and k % 9 in (0, 4, 8) and k % 2:
            cells[k] = 0
    return tuple(tuple(cells[9 * r:9 * r + 9]) for r in range(9))


def graph():
    import networkx as nx
    g = nx.Graph()
    g.add_edges_from([('a', 'b'), ('b', 'c'), ('c', 'a')])
    g.add_node('d')
    return g


def inputs(name):
    """The data of a puzzle, fresh; a sibling is another puzzle of the same kind, of another size or shape."""
    if name == 'sudoku':
        return [[list(r) for r in sudoku(0)]]
    if name == 'sudoku unique':
        return [[list(r) for r in sudoku(1)]]
    if name == 'sudoku sibling':
        rows = [list(r) for r in sudoku(0)[3:] + sudoku(0)[:3]]
        rows[0][0] = rows[4][4] = rows[8][1] = None
        return [rows]
    if name == 'cryptarithm':
        return ['A1+B==C0']
    if name == 'cryptarithm sibling':
        return ['b+c+1==Da']
    if name == 'graph':
        return [graph(), ['u', 'v', 'w']]
    if name == 'graph sibling':
        g = graph()
        g.add_edges_from([('d', 'e'), ('a', 0), (0, 'd')])
        return [g, ['k', 'u', 'l', 'v']]
    if name == 'nonogram':
        return [dict(rows=[[1], [], [1], [1]], columns=[[1], [1], [], [1]])]
    if name == 'nonogram sibling':
        return [dict(rows=[[1, 1], [1], [2]], columns=[[1], [1], [1], [1], [1]])]
    if name == 'queens':
        return [4]
    if name == 'queens tiny':
        return [1]
    if name == 'nonogram tiny':
        return [dict(rows=[[1]], columns=[[1]])]
    if name == 'cryptarithm tiny':
        return ['A*A==A+A']
    if name == 'map tiny':
        return [['A'], ['red']]
    if name == 'graph tiny':
        import networkx as nx
        g = nx.Graph()
        g.add_node('a')
        return [g, ['u']]
    if name == 'queens sibling':
        return [5]
    if name == 'map':
        return [[list('AB'), list('CB')], ['red', 'blue', 'green']]
    if name == 'map sibling':
        return [['AAB', 'CC B'], ['yellow', 'cyan', 'red', 'white']]
    return []


def make(name, data=None, **args):
    from satisfy.cryptarithm import CryptarithmSolver
    from satisfy.graph_labeling import GraphLabelingSolver
    from satisfy.nonogram import NonogramSolver
    from satisfy.sudoku import SudokuSolver
    from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
    from satisfy.tool.einstein_riddle import EinsteinRiddleSolver
    from satisfy.tool.queens import QueensSolver
    from satisfy.utils import INFINITY
    kind = name.split()[0]
    if kind in ('sudoku', 'map') and 'solver' not in args:
        args.setdefault('limit', INFINITY)
    cls = dict(sudoku=SudokuSolver, cryptarithm=CryptarithmSolver, graph=GraphLabelingSolver, nonogram=NonogramSolver, queens=QueensSolver,
               einstein=EinsteinRiddleSolver, map=AsciiMapColoringSolver)[kind]
    return cls(*(inputs(name) if data is None else data), **args)


def alter(data):
    """Modifies the data a puzzle was built from as deeply as it lets one."""
    for x in data:
        if isinstance(x, dict):
            x['rows'][0].append(1)
            x['columns'].reverse()
            x['rows'].append([2])
        elif isinstance(x, list):
            for row in x:
                if isinstance(row, list) and row:
                    row[:] = [3 if isinstance(c, int) else 'Z' for c in row[1:]]
            x[0] = x[-1]
            x.append(x[0])
        elif hasattr(x, 'add_edge'):
            x.add_edge('d', 'a')
            x.add_edge('new', 'b')
            x.remove_nodes_from(['c'])


PUZZLES = ('graph', 'map', 'cryptarithm', 'nonogram', 'queens', 'sudoku', 'sudoku unique', 'einstein', 'graph tiny', 'map tiny', 'cryptarithm tiny', 'nonogram tiny', 'queens tiny')
# searching the auxiliary variables first takes for ever
POLICIES = {'queens': ('ORDERED', 'GROUPS', 'MIN_BOUND'), 'einstein': ('GROUPS', 'MIN_BOUND')}
ALL = ('ORDERED', 'REVERSED', 'GROUPS', 'MIN_BOUND')
ACTS = ('full', 'first', 'abandon', 'resume', 'close', 'pairs', 'nested', 'modify', 'solve', 'limit', 'policy', 'interpreted', 'constrain', 'constrain more', 'unsolvable', 'ticks', 'optimize', 'other', 'data')
KACTS = ('call', 'modify', 'limit', 'policy', 'interpreted', 'constrain', 'constrain more', 'unsolvable', 'ticks', 'solve', 'abandon', 'other')
WAYS = ('own', 'solver', 'model', 'marked')
KNAPSACKS = [dict(values=[3, 4, 5], capacities=[7, 4], weights=[[2, 1], [3, 2], [4, 2]]), dict(values=[2, -1, 2, 1], capacities=[3], weights=[[1], [-1], [2], [2]])]


def depth(name, tier):
    return 3 if tier == 'thorough' and name not in ('einstein', 'queens', 'sudoku') else 1 if name == 'einstein' and tier == 'quick' else 2


def bounds(tier):
    return dict(puzzles=list(PUZZLES) + ['knapsack'], activities=list(ACTS), knapsack_activities=list(KACTS),
                depth={n: depth(n, tier) + 1 for n in PUZZLES + ('knapsack',)}, construction='every combination of settings given as arguments (and one use); own settings; a passed Solver; a passed Model; a passed Model marked as not solvable', tier=tier,
                observations='every activity and a final full iteration: sequence, statistics')


def cases(tier):
    for name in PUZZLES:
        for way in WAYS:
            for first in ACTS:
                if depth(name, tier) == 1:
                    yield ('puzzle', name, way, (first,))
                else:
                    for second in ACTS:
                        yield ('puzzle', name, way, (first, second))
    for name in PUZZLES + ('knapsack',):
        for pol in ('',) + POLICIES.get(name, ALL):
            yield ('settings', name, pol)
    for k in range(len(KNAPSACKS)):
        for way in WAYS:
            for first in KACTS:
                yield ('knapsack', k, way, (first,))


_reference = {}


def reference(name):
    """Solutions of the model under every policy and mode, and their renderings: (pairs, names, sequences)"""
    if name in _reference:
        return _reference[name]

    def compute():
        from satisfy import Solver
        puzzle = make(name)
        raw = [tuple(sorted(s.items())) for s in Solver(var_selection_policy=puzzle.solver.var_selection_policy).solve(puzzle.model)]
        shown = [copy.deepcopy(s) for s in make(name)]
        seqs = {}
        for pol in POLICIES.get(name, ALL):
            for comp in (True, False):
                seqs[pol, comp] = [tuple(sorted(s.items())) for s in Solver(var_selection_policy=csp.policy(pol), compile_constraints=comp).solve(make(name).model)]
        return raw, shown, list(puzzle.model.variables()), seqs
    ok, res = pristine(compute)
    need(ok, 'puzzle {}: {}', name, res)
    raw, shown, names, seqs = res
    need(len(raw) == len(shown), 'puzzle {}: {} solutions, but {} of its model', name, len(shown), len(raw))
    need(len(set(raw)) == len(raw) and raw, 'puzzle {}: solutions of its model are repeated or missing', name)
    for key, seq in seqs.items():
        need(set(seq) == set(raw) and len(seq) == len(raw), 'puzzle {}: its model has {} solutions with {} and {} with its own settings', name, len(seq), key, len(raw))
    _reference[name] = dict(zip(raw, shown)), names, seqs
    return _reference[name]


_siblings = {}


def siblings(name):
    if name not in _siblings:
        ok, res = pristine(lambda: [copy.deepcopy(s) for s in make(name)])
        need(ok and len(res) > 1, 'puzzle {}: {}', name, res)
        _siblings[name] = res
    return _siblings[name]


def add(model, extra):
    var = lambda n: model.get_variable(n)
    if extra[0] == 'ne':
        model.add_constraint(var(extra[1]) != extra[2])
    else:
        model.add_constraint(var(extra[1]) + var(extra[2]) <= extra[3])


def allows(extra, s):
    return s[extra[1]] != extra[2] if extra[0] == 'ne' else s[extra[1]] + s[extra[2]] <= extra[3]


_constrained = {}


def sequence(name, pol, comp, extras):
    """The sequence a fresh model with the added constraints has; its set is the filtered one."""
    _, _, seqs = reference(name)
    if not extras:
        return seqs[pol, comp]
    key = name, pol, comp, extras
    if key not in _constrained:
        def compute():
            from satisfy import Solver
            model = make(name).model
            for extra in extras:
                add(model, extra)
            return [tuple(sorted(s.items())) for s in Solver(var_selection_policy=csp.policy(pol), compile_constraints=comp).solve(model)]
        ok, seq = pristine(compute)
        need(ok, 'puzzle {} with {}: {}', name, extras, seq)
        want = [s for s in seqs[pol, comp] if all(allows(extra, dict(s)) for extra in extras)]
        need(sorted(seq) == sorted(want), 'puzzle {} with {} in its model ({}, compiled {}): solutions {} instead of {}', name, extras, pol, comp, seq, want)
        _constrained[key] = seq
    return _constrained[key]


class World:
    def __init__(self, name, way):
        from satisfy import Model, Solver
        self.name, self.way = name, way
        self.render, self.names, self.seqs = reference(name)
        self.policies = POLICIES.get(name, ALL)
        args = {}
        if way == 'solver':
            args['solver'] = self.given = Solver(var_selection_policy=csp.policy('MIN_BOUND'))
        elif way != 'own':
            args['model'] = self.given = Model()
            self.given.set_solvable(way == 'model')
        self.data = inputs(name)
        self.puzzle = make(name, self.data, **args)
        if way != 'own':
            need(getattr(self.puzzle, 'solver' if way == 'solver' else 'model') is self.given, 'puzzle {}: the given {} is not used', name, way)
        self.extra = []
        self.solvable = way != 'marked'
        self.limit = None
        self.comp = True
        self.pol = self.puzzle.solver.var_selection_policy.name
        need((self.pol, self.comp) in self.seqs, 'puzzle {}: policy {}', name, self.pol)
        self.held = []

    def raw(self):
        if not self.solvable:
            return []
        return sequence(self.name, self.pol, self.comp, tuple(self.extra))

    def expected(self):
        res = [self.render[s] for s in self.raw()]
        return res if self.limit is None else res[:self.limit]

    def constrain(self, which):
        raw = self.raw() or self.seqs[self.pol, self.comp]
        first, last, a, b = dict(raw[0]), dict(raw[-1]), self.names[0], self.names[-1]
        self.extra.append(('ne', a, first[a]) if which == 'constrain' else ('le', a, b, last[a] + last[b]))
        add(self.puzzle.model, self.extra[-1])


def stats(w, what, n, whole):
    st = w.puzzle.get_stats()
    need(st.count == n, '{}: {} solutions yielded, the statistics count {}', what, n, st.count)
    reached = w.limit is not None and n >= w.limit
    if whole:
        need(st.interrupt == ('limit' if reached else None), '{}: interrupt {} after {} solutions with limit {}', what, st.interrupt, n, w.limit)


def do(w, act, what):
    from satisfy import Maximize
    p = w.puzzle
    exp = w.expected()
    before = p.get_stats()
    if act == 'full':
        got = list(itertools.islice(p, len(exp) + 1))
        need(got == exp, '{}: yields {} instead of {}', what, got, exp)
        stats(w, what, len(exp), True)
    elif act in ('first', 'abandon', 'close'):
        it = iter(p)
        got = list(itertools.islice(it, 1 if act != 'close' else 2))
        need(got == exp[:len(got)] and len(got) == min(len(exp), 1 if act != 'close' else 2), '{}: yields {} first instead of {}', what, got, exp[:2])
        stats(w, what, len(got), False)
        if act == 'abandon' and got:
            w.held.append((it, exp[1:]))
        elif act == 'close':
            it.close()
    elif act == 'resume':
        for it, rest in w.held:
            got = list(itertools.islice(it, len(rest) + 1))
            need(got == rest, '{}: an iteration that had been paused goes on with {} instead of {}', what, got, rest)
        w.held = []
    elif act == 'pairs':
        got = list(itertools.islice(itertools.zip_longest(p, p), len(exp) + 1))
        need(got == [(e, e) for e in exp], '{}: two iterations in turn yield {} instead of {} twice', what, got, exp)
    elif act == 'nested':
        for k, s in enumerate(itertools.islice(p, 3)):
            need(k < len(exp) and s == exp[k], '{}: yields {} as solution {} of {}', what, s, k, exp)
            got = list(itertools.islice(p, len(exp) + 1))
            need(got == exp, '{}: an iteration inside another one yields {} instead of {}', what, got, exp)
    elif act == 'modify':
        n = 0
        for k, s in enumerate(itertools.islice(p, len(exp) + 1)):
            need(k < len(exp) and s == exp[k], '{}: after modified solutions yields {} instead of {}', what, s, exp[k:k + 1])
            spoil(s)
            n += 1
        need(n == len(exp), '{}: after modified solutions yields {} instead of {} solutions', what, n, len(exp))
    elif act == 'solve':
        raw = w.raw()[:w.limit]
        got = [tuple(sorted(s.items())) for s in itertools.islice(p.solver.solve(p.model), len(raw) + 1)]
        need(got == raw, '{}: its solver finds {} instead of {} for its model', what, got, raw)
    elif act == 'limit':
        w.limit = {None: 1, 1: 2, 2: None}[w.limit]
        p.solver.limit = w.limit
    elif act == 'policy':
        w.pol = w.policies[(w.policies.index(w.pol) + 1) % len(w.policies)]
        p.solver.var_selection_policy = csp.policy(w.pol)
    elif act == 'interpreted':
        w.comp = not w.comp
        p.solver.compile_constraints = w.comp
    elif act in ('constrain', 'constrain more'):
        if w.held:
            # what a running iteration makes of a constraint added meanwhile is not specified
            do(w, 'resume', what)
        w.constrain(act)
    elif act == 'unsolvable':
        if w.held:
            do(w, 'resume', what)
        w.solvable = not w.solvable
        p.model.set_solvable(w.solvable)
    elif act == 'ticks':
        for bound in (0, 20.5, 150.5, 10.0 ** 9):
            p.solver.timeout = bound
            CLOCK.reset(1.0)
            try:
                got = list(itertools.islice(p, len(exp) + 1))
                st = p.get_stats()
            finally:
                CLOCK.reset()
                p.solver.timeout = None
            need(got == exp[:len(got)], '{}: with timeout {} yields {}', what, bound, got)
            need(st.count == len(got), '{}: with timeout {} the statistics count {} for {} solutions', what, bound, st.count, len(got))
            need(st.interrupt in (('limit',) if w.limit is not None and len(got) >= w.limit else (None, 'timeout')), '{}: interrupt {}', what, st.interrupt)
            need(len(got) == len(exp) or st.interrupt == 'timeout', '{}: with timeout {} yields {} of {} solutions without a reason', what, bound, len(got), len(exp))
            need(st.interrupt != 'timeout' or bound < 10 ** 9, '{}: {} exceeded', what, bound)
    elif act == 'optimize':
        var = w.names[0]
        raw = w.raw()
        res = p.solver.optimal_solution(p.model, Maximize(p.model.get_variable(var)), limit=None)
        if not raw:
            need(res.solution is None, '{}: {} maximizes {}', what, res, var)
        else:
            need(res.solution is not None and tuple(sorted(res.solution.items())) in raw, '{}: {} maximizes {}', what, res, var)
            need(res.is_optimal and res.solution[var] == max(dict(s)[var] for s in raw), '{}: {} maximizes {}', what, res, var)
    elif act == 'other':
        # another puzzle, of another kind too, used meanwhile
        for name in (w.name, 'graph', 'nonogram'):
            render, _, seqs = reference(name)
            q = make(name)
            got = list(itertools.islice(q, len(render) + 1))
            need(len(got) == len(render) and all(g in render.values() for g in got), 'puzzle {}, made after {}: yields {}', name, what, got)
        # one of the same kind and another size, built and used between the steps of this one
        it = iter(p)
        got = list(itertools.islice(it, 1))
        sibling = w.name.split()[0] + ' sibling' if w.name != 'einstein' else 'queens sibling'
        want = siblings(sibling)
        other = iter(make(sibling))
        found = list(itertools.islice(other, 1))
        got += list(itertools.islice(it, 1))
        found += list(itertools.islice(other, 1))
        got += list(itertools.islice(it, len(exp)))
        found += list(itertools.islice(other, len(want)))
        need(got == exp, '{}: yields {} instead of {} while {} is used', what, got, exp, sibling)
        need(found == want, '{}: {} yields {} instead of {}', what, sibling, found, want)
    elif act == 'data':
        alter(w.data)
    else:
        raise ValueError(act)
    if act in ('limit', 'policy', 'interpreted', 'data'):
        need(p.get_stats() == before, '{}: the statistics change from {} to {}', what, before, p.get_stats())


def run_puzzle(name, way, first, ctx):
    length = depth(name, ctx.tier)
    for rest in itertools.product(ACTS, repeat=length - len(first)):
        history = first + rest
        w = World(name, way)
        for k, act in enumerate(history):
            do(w, act, 'puzzle {} ({}) after {}'.format(name, way, ', '.join(history[:k + 1])))
            ctx.step()
        for act in ('full', 'resume', 'full'):
            do(w, act, 'puzzle {} ({}) after {} in the end'.format(name, way, ', '.join(history)))
            ctx.step()
        ctx.state(history)
        ctx.trace((len(w.expected()), w.limit, w.pol, w.comp))


class Bag:
    def __init__(self, k, way):
        from satisfy import Model, Solver
        from satisfy.knapsack import KnapsackOptimizer
        self.data = KNAPSACKS[k]
        args = {}
        if way == 'solver':
            args['solver'] = given = Solver(var_selection_policy=csp.policy('MAX_CONSTRAINT'))
        elif way != 'own':
            args['model'] = given = Model()
            given.set_solvable(way == 'model')
        self.mine = copy.deepcopy(self.data)
        self.puzzle = KnapsackOptimizer(**self.mine, **args)
        if way != 'own':
            need(getattr(self.puzzle, 'solver' if way == 'solver' else 'model') is given, 'knapsack: the given {} is not used', way)
        self.names = list(self.puzzle.model.variables())
        n = len(self.data['values'])
        need(len(self.names) == n, 'knapsack: {} variables for {} items', len(self.names), n)
        self.extra, self.solvable, self.limit, self.comp, self.pol, self.held = [], way != 'marked', None, True, 0, []

    def feasible(self):
        if not self.solvable:
            return []
        return [s for s in itertools.product((0, 1), repeat=len(self.data['values'])) if all(ok(s) for ok in self.extra)
                and all(sum(x * r[j] for x, r in zip(s, self.data['weights'])) <= cap for j, cap in enumerate(self.data['capacities']))]

    def value(self, sel):
        return sum(a * b for a, b in zip(sel, self.data['values']))


def judge(b, res, what, limited=False):
    sels = b.feasible()
    if res.solution is None:
        need(not sels or limited, '{}: no solution, but {} are feasible', what, sels)
        need(res.value is None and res.weights is None, '{}: {}', what, res)
        return
    need(res.solution in sels, '{}: {} is not one of {}', what, res.solution, sels)
    need(res.value == b.value(res.solution), '{}: {} reports another value than {}', what, res, b.value(res.solution))
    weights = tuple(sum(s * r[j] for s, r in zip(res.solution, b.data['weights'])) for j in range(len(b.data['capacities'])))
    need(tuple(res.weights) == weights, '{}: {} reports other weights than {}', what, res, weights)
    best = max(map(b.value, sels))
    need(limited or res.is_optimal, '{}: {} is not called optimal', what, res)
    need(not res.is_optimal or res.value == best, '{}: {} is called optimal, the best value is {}', what, res, best)


def do_bag(b, act, what):
    p = b.puzzle
    before = p.get_stats()
    if act == 'call':
        judge(b, p(), what, b.limit is not None)
        st = p.get_stats()
        need((st.count > 0) == bool(b.feasible()), '{}: statistics {}', what, st)
    elif act == 'modify':
        for sol in itertools.islice(p.solver.solve(p.model, limit=None), 20):
            sol.clear()
        spoil(b.mine['weights'])
        spoil(b.mine['values'])
        spoil(b.mine['capacities'])
    elif act == 'limit':
        b.limit = {None: 1, 1: 2, 2: None}[b.limit]
        p.solver.limit = b.limit
    elif act == 'policy':
        b.pol += 1
        p.solver.var_selection_policy = csp.policy(ALL[b.pol % len(ALL)])
    elif act == 'interpreted':
        b.comp = not b.comp
        p.solver.compile_constraints = b.comp
    elif act == 'constrain':
        sels = b.feasible()
        if sels:
            best = max(sels, key=b.value)
            val = sum(best)
            b.extra.append(lambda s: sum(s) != val)
            p.model.add_constraint(sum(p.model.get_variable(n) for n in b.names) != val)
    elif act == 'constrain more':
        b.extra.append(lambda s: s[0] != s[-1])
        p.model.add_all_different_constraint([p.model.get_variable(b.names[0]), p.model.get_variable(b.names[-1])])
    elif act == 'unsolvable':
        b.solvable = not b.solvable
        p.model.set_solvable(b.solvable)
    elif act == 'ticks':
        for bound in (0, 5.5, 25.5, 10.0 ** 9):
            p.solver.timeout = bound
            CLOCK.reset(1.0)
            try:
                res = p()
                st = p.get_stats()
            finally:
                CLOCK.reset()
                p.solver.timeout = None
            judge(b, res, what, b.limit is not None or st.interrupt == 'timeout')
            need(st.interrupt != 'timeout' or not res.is_optimal and bound < 10 ** 9, '{}: {} although {}', what, res, st)
    elif act == 'solve':
        got = sorted(tuple(s[n] for n in b.names) for s in itertools.islice(p.solver.solve(p.model, limit=None), 20))
        need(got == sorted(b.feasible()), '{}: its solver finds {} instead of {} for its model', what, got, b.feasible())
    elif act == 'abandon':
        it = iter(p.solver.solve(p.model, limit=None))
        next(it, None)
        b.held.append(it)
    elif act == 'other':
        from satisfy.knapsack import KnapsackOptimizer
        q = KnapsackOptimizer([1, 1], [1], [[1], [1]])()
        need(q.value == 1 and q.is_optimal, 'another knapsack after {}: {}', what, q)
    else:
        raise ValueError(act)
    if act in ('limit', 'policy', 'interpreted', 'constrain', 'unsolvable'):
        need(p.get_stats() == before, '{}: the statistics change from {} to {}', what, before, p.get_stats())


def run_bag(k, way, first, ctx):
    for rest in itertools.product(KACTS, repeat=depth('knapsack', ctx.tier)):
        history = first + rest
        b = Bag(k, way)
        for j, act in enumerate(history):
            do_bag(b, act, 'knapsack {} ({}) after {}'.format(b.data, way, ', '.join(history[:j + 1])))
            ctx.step()
        do_bag(b, 'call', 'knapsack {} ({}) after {} in the end'.format(b.data, way, ', '.join(history)))
        ctx.state(history)
        ctx.trace((len(b.feasible()), b.limit))


def run_settings(name, pol, ctx):
    """The settings given to a puzzle are the settings of its solver, whatever their combination."""
    from satisfy.knapsack import KnapsackOptimizer
    from satisfy.utils import INFINITY
    for comp, limit, timeout in itertools.product((None, True, False), ('', 0, 1, 2, None, INFINITY), ('', 1000, None, INFINITY)):
        args = {}
        if pol:
            args['var_selection_policy'] = csp.policy(pol)
        if comp is not None:
            args['compile_constraints'] = comp
        if limit != '':
            args['limit'] = limit
        if timeout != '':
            args['timeout'] = timeout
        what = 'puzzle {} with the settings {}'.format(name, args)
        if name == 'knapsack':
            b = Bag(0, 'own')
            b.puzzle = p = KnapsackOptimizer(**copy.deepcopy(KNAPSACKS[0]), **args)
        else:
            # sudoku and map have a limit of their own
            own = {} if 'limit' in args or name.split()[0] in ('sudoku', 'map') else {'limit': None}
            p = make(name, **dict(own, **args))
        solver = p.solver
        need(not pol or solver.var_selection_policy is csp.policy(pol), '{}: the policy is {}', what, solver.var_selection_policy)
        need(solver.compile_constraints is (comp is not False), '{}: compilation {}', what, solver.compile_constraints)
        bound = None if limit in ('', None) or limit is INFINITY else limit
        if name == 'knapsack':
            judge(b, p(), what, bound is not None)
        elif name.split()[0] != 'sudoku' and name.split()[0] != 'map' or limit != None:
            render, _, seqs = reference(name)
            got = list(p)
            want = [render[s] for s in seqs[pol or solver.var_selection_policy.name, comp is not False]][:bound]
            need(got == want, '{}: {} instead of {}', what, got, want)
        # asked for after use, too
        need(solver.limit == bound or limit is None and name.split()[0] in ('sudoku', 'map'), '{}: the limit is {!r}', what, solver.limit)
        need(solver.timeout == (1000 if timeout == 1000 else None), '{}: the timeout is {!r}', what, solver.timeout)
        ctx.step()
        ctx.state(comp, limit, timeout)
        ctx.trace((comp, bound))


def run_case(case, ctx):
    if case[0] == 'settings':
        return run_settings(case[1], case[2], ctx)
    kind, name, way, first = case
    (run_puzzle if kind == 'puzzle' else run_bag)(name, way, first, ctx)
