"""C23: every knapsack instance over small alphabets (values, weights, capacities, negative ones included), against brute force over
all selections; every mismatch of the numbers of items, rows and columns; limits and a ticking clock."""
import itertools

from mc.clock import CLOCK
from mc.core import need

PROPERTY = 'C23'
VIRTUAL_CLOCK = True
HORIZON = 120

# (items, capacities, value alphabet, weight alphabet, capacity alphabet)
QUICK = [
    (0, 0, (), (), ()), (0, 1, (), (), (-1, 0, 1)), (0, 2, (), (), (-1, 0)),
    (1, 0, (-2, 0, 3), (), ()), (2, 0, (-1, 0, 2), (), ()), (3, 0, (-1, 0, 2), (), ()),
    (1, 1, (-1, 0, 1, 5), (-2, -1, 0, 1, 3), (-2, -1, 0, 1, 2, 3)),
    (2, 1, (-1, 0, 2, 3), (-1, 0, 1, 2), (-1, 0, 1, 2, 3)),
    (3, 1, (-1, 0, 2, 3), (0, 1, 2), (0, 1, 2, 3)),
    (3, 1, (1, 2), (-1, 1, 2), (-1, 0, 2)),
    (1, 2, (-1, 0, 2), (-1, 0, 2), (-1, 0, 1, 2)),
    (2, 2, (-1, 0, 3), (0, 1, 2), (0, 1, 2)),
    (2, 3, (1, 2), (0, 1), (0, 1)),
    (4, 1, (1, 2, 3), (1, 2), (2, 3, 5)),
    (3, 2, (1, 3), (0, 2), (1, 2, 3)),
]
THOROUGH = QUICK + [
    (3, 1, (-2, -1, 0, 1, 2, 4), (-1, 0, 1, 3), (-1, 0, 1, 2, 3, 4)),
    (2, 2, (-1, 0, 1, 3), (-1, 0, 1, 2), (-1, 0, 1, 2)),
    (4, 1, (0, 1, 2, 4), (0, 1, 2), (1, 2, 3, 5)),
    (5, 1, (1, 2, 4), (1, 3), (2, 4, 6)),
    (3, 2, (-1, 2, 3), (0, 1), (0, 1, 2)),
    (4, 2, (1, 2), (0, 1), (1, 2)),
]
FORMS = ('list', 'tuple', 'iter')
BAD = ('a', 1.5, None, (1,))


def groups(tier):
    return THOROUGH if tier != 'quick' else QUICK


def bounds(tier):
    return dict(instances=[dict(items=n, capacities=d, values=v, weights=w, capacity=c) for n, d, v, w, c in groups(tier)],
                big='{} items and capacities x {} values x {} weights x {} capacities'.format(BIG_SIZES, len(BIG_VALUES), len(BIG_WEIGHTS), len(BIG_CAPACITIES)),
                forms='lists, tuples and iterators for values, capacities, weights and the rows of weights (rotated, all 81 on a few instances)',
                malformed='0..3 values x 0..3 rows of 0..3 weights x 0..2 capacities, wherever the numbers disagree; {} in every place'.format(list(BAD)),
                interrupts='limits 0..3, 50; timeouts 0..24 ticks of a clock that advances at every reading', configurations='8 policies x compilation rotated', tier=tier)


def cases(tier):
    for g, (n, d, v, w, c) in enumerate(groups(tier)):
        for vals in itertools.product(v, repeat=n):
            for caps in itertools.product(c, repeat=d):
                yield ('solve', g, vals, caps)
    for n in range(4):
        for nrows in range(4):
            yield ('shape', n, nrows)
    for where in ('value', 'capacity', 'weight'):
        for bad in range(len(BAD)):
            yield ('bad', where, bad)
    for n, d in BIG_SIZES + (((13, 2),) if tier != 'quick' else ()):
        for v, w, c in itertools.product(BIG_VALUES, BIG_WEIGHTS, BIG_CAPACITIES):
            yield ('big', n, d, v, w, c)
    for k in range(len(SAMPLES)):
        yield ('forms', k)
        for pol in range(8):
            yield ('interrupts', k, pol)


# more items, more capacities and bigger numbers: every combination of these patterns
BIG_VALUES = {'equal': lambda k, n: 4, 'increasing': lambda k, n: k + 1, 'powers': lambda k, n: 3 ** (n - k), 'signed': lambda k, n: (k + 1) * (-1) ** k, 'huge': lambda k, n: 10 ** 25 + k * (k % 3),
              'cycle': lambda k, n: (5, 3, 0, 8, 1)[k % 5]}
BIG_WEIGHTS = {'equal': lambda k, j: 2, 'own': lambda k, j: k + 1 + j, 'cycle': lambda k, j: (1, 7, 3, 5)[(k + j) % 4], 'signed': lambda k, j: (k + 2) * (-1) ** (k + j), 'huge': lambda k, j: 10 ** 20 * (1 + (k + j) % 3)}
BIG_CAPACITIES = {'tight': (0, 0), 'half': (1, 2), 'almost': (5, 6), 'all': (1, 1)}     # a part of the total of the positive weights
BIG_SIZES = ((6, 4), (8, 1), (8, 2), (10, 1), (11, 3))


def big(n, d, v, w, c):
    values = tuple(BIG_VALUES[v](k, n) for k in range(n))
    rows = tuple(tuple(BIG_WEIGHTS[w](k, j) for j in range(d)) for k in range(n))
    num, den = BIG_CAPACITIES[c]
    caps = tuple(max(0, sum(r[j] for r in rows if r[j] > 0) * num // max(den, 1) - (j if num != den else 0)) for j in range(d))
    return values, caps, rows


SAMPLES = [
    ((3, 1, 2), (2, 2), ((1, 1), (2, 0), (1, 1))),
    ((5, 4, 3, 2), (5,), ((2,), (3,), (1,), (4,))),
    ((-1, 2, 0), (-1, 3), ((-2, 1), (1, 2), (0, 0))),
    ((1, 2), (-1,), ((0,), (1,))),
    ((1, 2, 3, 4, 5), (100,), ((1,), (1,), (1,), (1,), (1,))),
]


def give(form, seq):
    return {'list': list, 'tuple': tuple, 'iter': iter}[form](seq)


def brute(vals, caps, rows):
    """(value, selections with it) of the best feasible selections, or None."""
    best, sels = None, []
    for sel in itertools.product((0, 1), repeat=len(vals)):
        if all(sum(s * r[j] for s, r in zip(sel, rows)) <= cap for j, cap in enumerate(caps)):
            val = sum(s * v for s, v in zip(sel, vals))
            if best is None or val > best:
                best, sels = val, []
            if val == best:
                sels.append(sel)
    return best, sels


def judge(what, res, vals, caps, rows, want, ctx, uninterrupted=True):
    best, sels = want
    ctx.step()
    ctx.trace((best, res.solution, res.is_optimal))
    if best is None:
        need(res.solution is None and res.value is None and res.weights is None, '{}: {} although no selection is feasible', what, res)
        return
    if res.solution is None:
        need(not uninterrupted, '{}: no solution although {} are feasible', what, sels)
        need(not res.is_optimal, '{}: no solution is called optimal', what)
        return
    sel = tuple(res.solution)
    need(len(sel) == len(vals) and all(s in (0, 1) for s in sel), '{}: {} is no selection', what, res)
    weights = tuple(sum(s * r[j] for s, r in zip(sel, rows)) for j in range(len(caps)))
    value = sum(s * v for s, v in zip(sel, vals))
    need(all(w <= c for w, c in zip(weights, caps)), '{}: {} exceeds a capacity', what, res)
    need(res.value == value and tuple(res.weights) == weights, '{}: {} reports a value or weights different from {} {}', what, res, value, weights)
    if uninterrupted or res.is_optimal:
        need(value == best, '{}: {} has value {}, the best is {} by {}', what, res, value, best, sels)
    if uninterrupted:
        need(res.is_optimal, '{}: {} is not called optimal although nothing interrupted the search', what, res)


def run_case(case, ctx):
    from satisfy.knapsack import KnapsackOptimizer
    from satisfy.utils import INFINITY
    from satisfy import VarSelectionPolicy
    pols = list(VarSelectionPolicy)
    kind = case[0]
    CLOCK.reset()
    if kind == 'solve':
        _, g, vals, caps = case
        n, d, _, w, _ = groups('quick' if ctx.tier == 'quick' else 'thorough')[g]
        for k, rows in enumerate(itertools.product(itertools.product(w, repeat=d), repeat=n)):
            want = brute(vals, caps, rows)
            args = [{}, {}, dict(limit=INFINITY, timeout=None), dict(limit=1000, timeout=1e6), dict(limit=None, timeout=INFINITY)][k % 5]
            if k % 3 == 1:
                args = dict(args, var_selection_policy=pols[k % 8], compile_constraints=bool(k % 2))
            f = FORMS[k % 3], FORMS[k // 3 % 3], FORMS[k // 2 % 3]
            opt = KnapsackOptimizer(give(f[0], vals), give(f[1], caps), give(f[2], [give(FORMS[(k + j) % 3], r) for j, r in enumerate(rows)]), **args)
            what = 'values {} capacities {} weights {} {} {}'.format(vals, caps, rows, f, args)
            res = opt()
            judge(what, res, vals, caps, rows, want, ctx)
            if k % 7 == 0:
                judge(what + ' second call', opt(), vals, caps, rows, want, ctx)
            ctx.state(rows)
    elif kind == 'big':
        vals, caps, rows = big(*case[1:])
        want = brute(vals, caps, rows)
        k = sum(map(ord, ''.join(case[3:])))
        for args in ({}, dict(var_selection_policy=pols[k % 8], compile_constraints=bool(k % 3))):
            judge('{} {}'.format(case, args), KnapsackOptimizer(vals, caps, rows, **args)(), vals, caps, rows, want, ctx)
            ctx.state(tuple(args))
    elif kind == 'shape':
        _, n, nrows = case
        for lens in itertools.product(range(4), repeat=nrows):
            for d in range(3):
                ok = nrows == n and all(x == d for x in lens)
                for k, forms in enumerate(itertools.product(FORMS, repeat=2)):
                    vals, caps = (1, 2, 3)[:n], (1, 2)[:d]
                    rows = [(1, 0, 2)[:x] for x in lens]
                    try:
                        opt = KnapsackOptimizer(give(forms[0], vals), give(forms[1], caps), give(forms[0], [give(forms[1], r) for r in rows]))
                        res = opt()
                    except Exception:
                        need(not ok, 'values {} capacities {} weights {} {} is rejected', vals, caps, rows, forms)
                    else:
                        need(ok, 'values {} capacities {} weights {} {} is accepted: {}', vals, caps, rows, forms, res)
                        judge(str((vals, caps, rows, forms)), res, vals, caps, rows, brute(vals, caps, rows), ctx)
                ctx.state(lens, d)
                ctx.trace(ok)
                ctx.step()
    elif kind == 'bad':
        _, where, b = case
        for n, d in itertools.product((1, 2, 3), (1, 2)):
            for i, j in itertools.product(range(n), range(d)):
                vals, caps = list((1, 2, 3)[:n]), list((1, 2)[:d])
                rows = [list((1, 0)[:d]) for _ in range(n)]
                if where == 'value':
                    vals[i] = BAD[b]
                elif where == 'capacity':
                    caps[j] = BAD[b]
                else:
                    rows[i][j] = BAD[b]
                for form in FORMS:
                    try:
                        res = KnapsackOptimizer(give(form, vals), give(form, caps), give(form, rows))()
                    except Exception:
                        pass
                    else:
                        need(False, 'values {} capacities {} weights {} is accepted: {}', vals, caps, rows, res)
                ctx.state(n, d, i, j)
                ctx.trace()
                ctx.step()
    elif kind == 'forms':
        vals, caps, rows = SAMPLES[case[1]]
        want = brute(vals, caps, rows)
        for f in itertools.product(FORMS, repeat=4):
            res = KnapsackOptimizer(give(f[0], vals), give(f[1], caps), give(f[2], [give(f[3], r) for r in rows]))()
            judge('{} as {}'.format(SAMPLES[case[1]], f), res, vals, caps, rows, want, ctx)
            ctx.state(f)
    else:
        _, k, p = case
        vals, caps, rows = SAMPLES[k]
        want = brute(vals, caps, rows)
        for comp in (True, False):
            base = dict(var_selection_policy=pols[p], compile_constraints=comp)
            for lim in (0, 1, 2, 3, 50):
                opt = KnapsackOptimizer(vals, caps, rows, limit=lim, **base)
                res = opt()
                what = '{} limit={} {}'.format(SAMPLES[k], lim, base)
                judge(what, res, vals, caps, rows, want, ctx, uninterrupted=lim == 50)
                if want[0] is not None and not res.is_optimal and lim > 0:
                    need(opt.get_stats().interrupt == 'limit', '{}: {} is not called optimal, interrupt {}', what, res, opt.get_stats().interrupt)
                ctx.state(comp, lim)
            for t in range(25):
                CLOCK.reset(tick=1.0)
                opt = KnapsackOptimizer(vals, caps, rows, timeout=t, **base)
                res = opt()
                stats = opt.get_stats()
                CLOCK.reset()
                what = '{} timeout={} ticks {}'.format(SAMPLES[k], t, base)
                judge(what, res, vals, caps, rows, want, ctx, uninterrupted=False)
                if stats.interrupt is None:
                    judge(what + ' (no interrupt reported)', res, vals, caps, rows, want, ctx)
                elif want[0] is not None:
                    need(stats.interrupt == 'timeout', '{}: interrupt {}', what, stats.interrupt)
                    need(not res.is_optimal, '{}: {} is called optimal although the timeout is reported', what, res)
                ctx.state(comp, 't', t)
