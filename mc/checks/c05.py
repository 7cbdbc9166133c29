"""C05: timeouts, on a virtual clock owned by the harness: every schedule of at most `dev` delays among the
evaluations of the search (and uniform ones), every timeout value, consumer delays between solutions."""
import itertools

from mc import csp, timed
from mc.clock import CLOCK
from mc.core import need
from mc.checks.c03 import Shuffler

PROPERTY = 'C05'
VIRTUAL_CLOCK = True


def bounds(tier):
    return dict(models=sorted(timed.MODELS), long='{}: a delay at every single evaluation (every third of > 150), uniform delays with every fifth timeout'.format(sorted(timed.LONG)), schedules='delay 1 at every set of <= {} evaluations; delay 1 at every evaluation; delay at every k-th'.format(3 if tier == 'thorough' else 2),
                timeouts='0, 0.5, 1, 2 and every integer up to the total for uniform schedules, also in units of 1/4 s, 1/16 s, 1 us and 4096 s', consumer='0 or 10 at every pause',
                configurations='{} policies x compile, given in constructor / call / both, with and without limit, solve and optimize'.format(8), tier=tier)


CONFIG_QUICK = [('ORDERED', True), ('GROUPS', False), ('MAX_BOUND', True)]


def cases(tier):
    big = tier == 'thorough'
    configs = [(p, c) for p in csp.POLICIES for c in (True, False)]
    for name in timed.MODELS:
        for pol, comp in configs:
            for mode in ('solve', 'min', 'max'):
                yield ('uniform', name, pol, comp, mode)
                if big or (pol, comp) in CONFIG_QUICK:
                    for first in range(48):
                        yield ('subsets', name, pol, comp, mode, first)
    for name in timed.MODELS:
        yield ('defaults', name)
    for name in timed.LONG:
        for pol, comp in configs:
            for mode in ('solve', 'min', 'max'):
                if big or mode == 'solve' or (pol, comp) in CONFIG_QUICK:
                    yield ('long', name, pol, comp, mode)


def untimed(name, pol, comp, mode, **args):
    from satisfy import Solver
    run = timed.Run(name)
    solver = Solver(var_selection_policy=csp.policy(pol), compile_constraints=comp)
    res = []
    with Shuffler(()):
        it = timed.start(run, solver, mode, **args)
        while True:
            key = run.next(it)
            if key is None:
                break
            res.append(key)
            need(len(res) < 500, '{}: does not end', name)
    return res, run.evaluations


def step_bound(name):
    """Evaluations of user constraints within one search step: every value of a domain and all constraints, plus the
    additional ones; doubled, so that a differently cut step is no alarm."""
    spec = timed.model_of(name)
    ncons = sum(1 for c in spec[2] if c[0] == 'custom') + len(timed.ADDITIONAL.get(name, ()))
    return 2 * max(len(v[1]) for v in spec[0]) * ncons


def timed_run(name, pol, comp, mode, full, advance, timeout, consumer, ctx, label, ctor=False, other=None, limit=None):
    from satisfy import Solver
    CLOCK.reset()
    run = timed.Run(name, advance)
    run.timeout = timeout
    kw = dict(timeout=timeout) if ctor else dict(timeout=other) if other is not None else {}
    solver = Solver(var_selection_policy=csp.policy(pol), compile_constraints=comp, **kw)
    args = {} if ctor else dict(timeout=timeout)
    if limit is not None:
        args['limit'] = limit
    want = full if limit is None else full[:limit]
    got = []
    with Shuffler(()):
        it = timed.start(run, solver, mode, **args)
        CLOCK.advance(consumer)
        while True:
            key = run.next(it)
            if key is None:
                break
            got.append(key)
            need(len(got) <= len(full), '{}: {}: yields more than without timeout: {}', name, label, got)
            CLOCK.advance(consumer)
    interrupt = solver.get_stats().interrupt
    ctx.step(run.evaluations + len(got))
    ctx.state(label, timeout, consumer, tuple(got), interrupt, run.search)
    ctx.trace((len(got), interrupt, run.exceeded_at))
    what = '{} {} {} {} timeout={} consumer={} limit={} {}: '.format(name, pol, comp, mode, timeout, consumer, limit, label)
    need(got == want[:len(got)], what + '{} is not a prefix of {}', got, want)
    if run.exceeded_at is None:
        need(got == want, what + 'search time {} is within the timeout, but only {} of {}', run.search, got, want)
        expected = 'limit' if limit is not None and len(full) >= limit else None
        need(interrupt == expected, what + 'search time {} is within the timeout, but interrupt {!r}', run.search, interrupt)
        return run
    late = run.evaluations - run.exceeded_at
    need(run.yields_after <= 1, what + '{} solutions were yielded after the timeout was exceeded', run.yields_after)
    need(late <= step_bound(name), what + '{} evaluations after the timeout was exceeded (more than one search step)', late)
    if interrupt is None:
        need(got == want and limit is None or len(got) == len(full), what + 'timeout exceeded, incomplete {} but no interrupt', got)
        # only possible when nothing was left to do after the step in which it was exceeded
        need(run.yields_after == 0, what + 'timeout exceeded before the last solution, but no interrupt')
    elif interrupt == 'limit':
        need(limit is not None and len(got) == limit, what + 'interrupt limit after {}', got)
    else:
        need(interrupt == 'timeout', what + 'interrupt {!r}', interrupt)
    return run


def run_case(case, ctx):
    if case[0] == 'defaults':
        return run_defaults(case, ctx)
    _, name, pol, comp, mode = case[:5]
    full, evals = untimed(name, pol, comp, mode)
    if case[0] == 'long':
        # the timeout is exceeded at every single evaluation, and reached gradually everywhere
        for where in range(0, evals, 1 if evals < 150 else 3):
            timed_run(name, pol, comp, mode, full, lambda k: 5 if k == where else 0, 1, 2 * (where % 2), ctx, ('at', where), ctor=bool(where % 3))
        for every in (1, 7):
            for timeout in range(0, evals // every + 2, 5):
                timed_run(name, pol, comp, mode, full, lambda k: 1 if k % every == 0 else 0, timeout, 10 * (timeout % 2), ctx, 'every {}'.format(every), ctor=bool(timeout % 2))
        timed_run(name, pol, comp, mode, full, lambda k: 1, evals, 3, ctx, 'all', limit=max(1, len(full) - 1))
        return
    if case[0] == 'uniform':
        for every in (1, 2, 3):
            adv = lambda k: 1 if k % every == 0 else 0
            for timeout in range(0, evals + 3):
                for consumer in (0, 10):
                    timed_run(name, pol, comp, mode, full, adv, timeout, consumer, ctx, 'every {}'.format(every), ctor=bool(timeout % 2))
                if timeout % 3 == 0:
                    timed_run(name, pol, comp, mode, full, adv, timeout + 0.5, 1, ctx, 'every {}'.format(every), other=0.25)
        for unit in (0.25, 0.0625, 2.0 ** -20, 4096):
            # fractions of a second, exact in binary, and hours
            for every in (1, 2):
                adv = lambda k: unit if k % every == 0 else 0
                for k in range(0, 2 * evals + 3, 3):
                    timed_run(name, pol, comp, mode, full, adv, k * unit / 2, 10 * (k % 2), ctx, 'every {}, unit {}'.format(every, unit), ctor=bool(k % 2))
                for timeout in (1, 2) if unit < 1 else ():
                    timed_run(name, pol, comp, mode, full, adv, timeout, 0.5, ctx, 'every {}, unit {}'.format(every, unit))
        for limit in range(1, len(full) + 2):
            for timeout in range(0, evals + 3, 2):
                timed_run(name, pol, comp, mode, full, lambda k: 1, timeout, 3, ctx, 'limit', limit=limit)
        return
    first = case[5]
    if first >= evals:
        return
    rest = range(first + 1, evals)
    dev = 2 if ctx.tier == 'quick' or evals > 40 else 3
    for n in range(dev):
        for more in itertools.combinations(rest, n):
            where = {first, *more}
            adv = lambda k: 1 if k in where else 0
            for timeout in (0, 1, 0.5) if n else (0, 1):
                if timeout >= len(where) and n:
                    continue
                for consumer in (0, 10) if n < 2 else (0,):
                    timed_run(name, pol, comp, mode, full, adv, timeout, consumer, ctx, tuple(sorted(where)))
            # exactly the timeout is not exceeding it
            timed_run(name, pol, comp, mode, full, adv, len(where), 7, ctx, tuple(sorted(where)))


def run_defaults(case, ctx):
    """A call's timeout replaces the solver's in both directions; it does not outlive the call."""
    from satisfy import Solver
    from satisfy.utils import INFINITY
    name = case[1]
    for mode in ('solve', 'min'):
        full, evals = untimed(name, 'ORDERED', True, mode)
        for default in (None, 'INF', 0, 1, 10 ** 6):
            for seq, wide in itertools.product(itertools.product(('unset', None, 'INF', 0, 1, 10 ** 6), repeat=2), ('none', 'solver', 'call')):
                # a limit that is never reached has nothing to do with it
                CLOCK.reset()
                solver = Solver(var_selection_policy=csp.policy('ORDERED'), timeout=INFINITY if default == 'INF' else default, limit=5000 if wide == 'solver' else None)
                for t in seq:
                    run = timed.Run(name, lambda k: 1)
                    args = {} if t == 'unset' else dict(timeout=INFINITY if t == 'INF' else t)
                    if wide == 'call':
                        args['limit'] = 5000
                    eff = default if t == 'unset' else t
                    run.timeout = None if eff in (None, 'INF') else eff
                    it = timed.start(run, solver, mode, **args)
                    got = []
                    while True:
                        key = run.next(it)
                        if key is None:
                            break
                        got.append(key)
                        need(len(got) <= len(full), 'too many solutions')
                    interrupt = solver.get_stats().interrupt
                    ctx.step()
                    ctx.state(default, seq, wide, t, tuple(got))
                    ctx.trace((len(got), interrupt))
                    if run.exceeded_at is None:
                        need(got == full and interrupt is None, '{} {} default={} calls={} wide limit: {}: got {} interrupt {!r}, the timeout was not exceeded',
                             name, mode, default, seq, wide, got, interrupt)
                    else:
                        need(run.evaluations - run.exceeded_at <= step_bound(name), '{} {} default={} calls={}: timeout not applied', name, mode, default, seq)
                        need(interrupt == 'timeout' or got == full, '{} {} default={} calls={}: interrupt {!r}', name, mode, default, seq, interrupt)
