"""C20: every graph of bounded size (undirected, directed, self-loops, parallel edges, odd node names) x label lists, against
brute force over all label assignments."""
import itertools

from mc.core import kept, need

PROPERTY = 'C20'

NAMES = {
    'int': [0, 1, 2, 3, 4],
    'str': ['a', 'n_0', 'node 1', '', 'n_1'],
    'mixed': [(1, 2), 'x y', -1, frozenset([3]), 2.5],
    'zero': ['0', 0, (0,), '\n', False or 'False'],
    'reversed': [4, 3, 2, 1, 0],
}
LABELS = [(), ('r',), ('r', 'g'), ('r', 'g', 'b'), ('r', 'r'), ('g', 'r', 'g'), (0, 1), (None, 'x', ''), ((1,), (2,)), (3, 2, 1, 0), (['u'], ['v']), (1, '1'), ('None', None, 'none'), ((0,), '(0,)', 0.5, '0.5'), (-1, -2), ('b', 'a', 'b', 'a', 'c')]


def bounds(tier):
    return dict(undirected='every graph on <= {} nodes, on <= 3 nodes also with every set of self-loops'.format(5 if tier == 'thorough' else 4),
                directed='every digraph with self-loops on <= 3 nodes{}'.format(', every digraph on 4 nodes' if tier == 'thorough' else ''),
                multi='every multigraph / multidigraph on 3 nodes with edge multiplicity <= 2', big='cycles, paths, cliques, stars, pairs of cliques, ladders of up to 14 nodes, paths and stars of up to 300 x label lists of up to 30 (45 with repetitions) with at most 6000 labelings', labels=[repr(x) for x in LABELS], attributes=[repr(a) for a in ATTRIBUTES], node_names=sorted(NAMES), tier=tier)


def cases(tier):
    for n in range(0, 6 if tier == 'thorough' else 5):
        for mask in range(1 << (n * (n - 1) // 2)):
            yield ('undirected', n, mask, 0)
    for n in range(1, 4):
        for mask in range(1 << (n * (n - 1) // 2)):
            for loops in range(1, 1 << n):
                yield ('undirected', n, mask, loops)
    for n in range(1, 4):
        for mask in range(1 << (n * n)):
            yield ('directed', n, mask)
    if tier == 'thorough':
        for mask in range(1 << 12):
            yield ('directed4', 4, mask)
    for kind in ('multi', 'multidirected'):
        npairs = 3 if kind == 'multi' else 6
        for mult in itertools.product((0, 1, 2), repeat=npairs):
            yield (kind, 3, mult)
    # bigger ones with structure
    yield ('cycle', 5)
    yield ('cycle', 6)
    yield ('wheel', 6)
    yield ('path', 7)
    yield ('complete', 5)
    yield ('disjoint', 6)
    for kind, n in (('cycle', 12), ('path', 13), ('complete', 6), ('complete', 7), ('star', 12), ('two cliques', 12), ('ladder', 14), ('path', 40), ('star', 60), ('path', 120), ('star', 150), ('path', 300), ('complete', 4), ('complete', 3), ('single', 1), ('pair', 2), ('triangle', 3)):
        for labels in BIG_LABELS:
            if count(kind, n, len(BIG_LABELS[labels])) <= 6000:
                yield ('big', n, kind, labels)


BIG_LABELS = {'two': 'ab', 'three': range(3), 'six': 'fedcba', 'seven': (10, 9, 8, 7, 6, 5, 4), 'twelve': [str(k) for k in range(12)], 'thirty': range(30, 0, -1), 'repeated': 'abcabcabcabcdef' * 3}


def big_edges(kind, n):
    if kind == 'cycle':
        return [(k, (k + 1) % n) for k in range(n)]
    if kind in ('path', 'pair'):
        return [(k + 1, k) for k in range(n - 1)]
    if kind in ('complete', 'triangle'):
        return list(itertools.combinations(range(n), 2))
    if kind == 'star':
        return [(0, k) for k in range(1, n)]
    if kind == 'two cliques':
        return [(a, b) for a, b in itertools.combinations(range(n), 2) if (a < n // 2) == (b < n // 2)] + [(0, n - 1)]
    if kind == 'ladder':
        return [(k, k + 2) for k in range(n - 2)] + [(k, k + 1) for k in range(0, n, 2)]
    return []


def labelings(kind, n, m):
    """All proper labelings, node by node."""
    before = [[a for a, b in map(sorted, big_edges(kind, n)) if b == k] for k in range(n)]
    layer = [()]
    for k in range(n):
        layer = [vals + (v,) for vals in layer for v in range(m) if all(vals[a] != v for a in before[k])]
        if len(layer) > 200000:
            return None
    return layer


_count = {}


def count(kind, n, m):
    """Number of proper labelings, or more than the bound."""
    if (kind, n, m) not in _count:
        res = labelings(kind, n, m) if m ** n < 10 ** 7 or kind in ('two cliques', 'ladder', 'cycle') and m <= 3 or kind in ('path', 'star') and m == 2 else None
        _count[kind, n, m] = 10 ** 9 if res is None else len(res)
    return _count[kind, n, m]


def run_big(case, ctx):
    import networkx as nx
    from satisfy.graph_labeling import GraphLabelingSolver
    _, n, kind, name = case
    labels = list(BIG_LABELS[name])
    unique = list(dict.fromkeys(labels))
    want = set(labelings(kind, n, len(unique)))
    for naming in (lambda k: k, lambda k: 'n_{}'.format(n - k)):
        g = nx.Graph()
        g.add_nodes_from(naming(k) for k in range(n))
        g.add_edges_from((naming(a), naming(b)) for a, b in big_edges(kind, n))
        got = set()
        for sol in GraphLabelingSolver(g, labels):
            need(set(sol) == set(g.nodes()), '{}: {} does not label exactly the nodes', case, sol)
            vals = tuple(unique.index(sol[naming(k)]) for k in range(n))
            need(vals in want and vals not in got, '{}: {} is wrong or repeated', case, sol)
            got.add(vals)
        need(got == want, '{}: missing {}', case, sorted(want - got)[:3])
        ctx.step(len(got) + 1)
        ctx.state(naming(0))
        ctx.trace((n, len(want), len(unique)))


ATTRIBUTES = [{}, dict(weight=0), dict(weight=None, color='r'), dict(weight=-1, label='r', capacity=0), dict(weight=False, length=''), dict(weight=3.5, directed=True)]


def graph_of(case, names, attributes=0):
    import networkx as nx
    kind, n = case[:2]
    edges, cls = [], nx.Graph
    pairs = list(itertools.combinations(range(n), 2))
    if kind == 'undirected':
        edges = [p for k, p in enumerate(pairs) if case[2] >> k & 1] + [(k, k) for k in range(n) if case[3] >> k & 1]
    elif kind == 'directed':
        cls = nx.DiGraph
        edges = [p for k, p in enumerate(itertools.product(range(n), repeat=2)) if case[2] >> k & 1]
    elif kind == 'directed4':
        cls = nx.DiGraph
        edges = [p for k, p in enumerate(p for p in itertools.product(range(n), repeat=2) if p[0] != p[1]) if case[2] >> k & 1]
    elif kind == 'multi':
        cls = nx.MultiGraph
        edges = [p for k, p in enumerate(pairs) for _ in range(case[2][k])]
    elif kind == 'multidirected':
        cls = nx.MultiDiGraph
        edges = [p for k, p in enumerate(p for p in itertools.product(range(n), repeat=2) if p[0] != p[1]) for _ in range(case[2][k])]
    elif kind == 'cycle':
        edges = [(k, (k + 1) % n) for k in range(n)]
    elif kind == 'wheel':
        edges = [(k, k % (n - 1) + 1) for k in range(1, n)] + [(0, k) for k in range(1, n)]
    elif kind == 'path':
        edges = [(k + 1, k) for k in range(n - 1)]
    elif kind == 'complete':
        edges = [(b, a) for a, b in pairs]
    elif kind == 'disjoint':
        edges = [(0, 1), (2, 3)]
    g = cls()
    # what nodes and edges are annotated with does not matter
    g.add_nodes_from((x, ATTRIBUTES[(k + attributes) % 6]) for k, x in enumerate(names[:n]))
    g.add_edges_from((names[a], names[b], ATTRIBUTES[(k // 2 + attributes) % 6]) for k, (a, b) in enumerate(edges))
    return g, edges


def run_case(case, ctx):
    from satisfy.graph_labeling import GraphLabelingSolver
    from satisfy import VarSelectionPolicy
    pols = list(VarSelectionPolicy)
    if case[0] == 'big':
        return run_big(case, ctx)
    n = case[1]
    base = list(NAMES.values())
    small = n <= 5
    for k, labels in enumerate(LABELS):
        unique = [x for j, x in enumerate(labels) if x not in labels[:j]]
        if len(unique) ** n > 1100:
            continue
        j = k + (0 if len(case) < 3 else sum(case[2]) if isinstance(case[2], tuple) else case[2])
        # all naming schemes for the plain graphs, rotated for the others
        schemes = [base[j % 5], base[(j + 2) % 5]] if small else [list(range(n))]
        for s, names in enumerate(schemes):
            graph, edges = graph_of(case, names, j % 7 if j % 7 < 6 else 0)
            want = set()
            for vals in itertools.product(range(len(unique)), repeat=n):
                if all(vals[a] != vals[b] for a, b in edges):
                    want.add(vals)
            args = {}
            if (j + s) % 3:
                args = dict(var_selection_policy=pols[(j + s) % 8], compile_constraints=bool((j + s) % 2))
            given = (list, tuple, iter)[(j + s) % 3](labels)
            got = []
            for sol in kept(GraphLabelingSolver(graph, given, **args), (j + s) % 2, len(want) + 4):
                need(isinstance(sol, dict) and set(sol) == set(names[:n]), '{} names {} labels {}: {} does not label exactly the nodes', case, names[:n], labels, sol)
                vals = []
                for node in names[:n]:
                    need(sol[node] in labels, '{} labels {}: {} is no label', case, labels, sol[node])
                    vals.append(unique.index(sol[node]))
                got.append(tuple(vals))
                need(len(got) <= len(want) + 3, '{} labels {} {}: too many labelings', case, labels, args)
            need(len(set(got)) == len(got), '{} names {} labels {} {}: a labeling is repeated', case, names[:n], labels, args)
            need(set(got) == want, '{} edges {} names {} labels {} {}: missing {} wrong {}', case, edges, names[:n], labels, args,
                 sorted(want - set(got))[:4], sorted(set(got) - want)[:4])
            ctx.step(len(got) + 1)
            ctx.state(k, s)
            ctx.trace((n, len(want), len(unique)))
