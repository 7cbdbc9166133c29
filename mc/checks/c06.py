"""C06: statistics at every pause, end, abandonment and restart, on a virtual clock owned by the harness."""
import itertools

from mc import csp, timed
from mc.clock import CLOCK
from mc.core import need
from mc.checks.c03 import Shuffler
from mc.checks.c04 import MODELS as SMALL

PROPERTY = 'C06'
VIRTUAL_CLOCK = True


def bounds(tier):
    return dict(models=sorted(timed.MODELS), schedules='delay at every set of <= {} evaluations; at every evaluation; consumer delay patterns'.format(2 if tier == 'thorough' else 1),
                long='{} with uniform delays, 8 limits, 10 timeouts'.format(sorted(timed.LONG)), histories='every sequence of {} activities of {} on one solver, every pair of them 8 times over'.format(3 if tier == 'thorough' else 2, len(ACTIVITIES)),
                concurrent='2 iterations on one solver, {}: every interleaving of their steps, with the statistics of the one started last after '
                           'every step'.format(CONCURRENT), untimed_models=len(SMALL), configurations='8 policies x compile; solve, minimize, maximize; limits 1..n+1', tier=tier)


def cases(tier):
    for name in timed.MODELS:
        for pol in csp.POLICIES:
            for comp in (True, False):
                for mode in ('solve', 'min', 'max'):
                    yield ('run', name, pol, comp, mode)
    for name in timed.LONG:
        for pol in csp.POLICIES:
            for comp in (True, False):
                for mode in ('solve', 'min', 'max'):
                    yield ('long', name, pol, comp, mode)
    for k in range(len(SMALL)):
        yield ('small', k)
    for name in ('two', 'none', 'ad', 'additional'):
        for first in ACTIVITIES:
            for second in ACTIVITIES:
                yield ('history', name, first, second)
    for name in ('two', 'none', 'ad', 'single additional'):
        for old in range(len(CONCURRENT)):
            for new in range(len(CONCURRENT)):
                yield ('concurrent', name, old, new)


def check(solver, count, elapsed, what, interrupt=0):
    stats = solver.get_stats()
    need(stats.count == count, '{}: count {} instead of {}', what, stats.count, count)
    need(abs(stats.elapsed - elapsed) < 1e-6, '{}: elapsed {} instead of {}', what, stats.elapsed, elapsed)
    if interrupt != 0:
        need(stats.interrupt == interrupt, '{}: interrupt {!r} instead of {!r}', what, stats.interrupt, interrupt)


def observe(run, solver, it, consumer, what, ctx, stop_after=None, base=0.0):
    """Steps an iteration to its end (or abandons it), reading the statistics several times at every pause."""
    count = 0
    run.watch = lambda: check(solver, count, run.search, '{} while searching after solution {}'.format(what, count), None)
    while stop_after is None or count < stop_after:
        key = run.next(it)
        if key is None:
            break
        count += 1
        need(count < 500, '{}: does not end', what)
        check(solver, count, run.search, '{} at pause {}'.format(what, count), None)
        CLOCK.advance(consumer)
        check(solver, count, run.search, '{} at pause {} after {} s of the consumer'.format(what, count, consumer), None)
        ctx.step()
        ctx.state(what, count, run.search)
    else:
        return count
    check(solver, count, run.search, '{} at the end'.format(what))
    CLOCK.advance(3)
    check(solver, count, run.search, '{} after the end'.format(what))
    ctx.trace((count, run.search, solver.get_stats().interrupt))
    return count


def one(case, advance, consumer, ctx, label, **args):
    from satisfy import Solver
    _, name, pol, comp, mode = case
    CLOCK.reset()
    run = timed.Run(name, advance)
    solver = Solver(var_selection_policy=csp.policy(pol), compile_constraints=comp)
    check(solver, 0, 0, 'new solver', None)
    with Shuffler(()):
        it = timed.start(run, solver, mode, **args)
        CLOCK.advance(consumer)
        observe(run, solver, it, consumer, '{} {} {}'.format(case, label, args), ctx)
    return run


class Boom(Exception):
    pass


def raising(case, at, ctx):
    """A constraint raises an error at one of its evaluations: the solve ends there, the next one starts afresh."""
    from satisfy import Solver
    _, name, pol, comp, mode = case
    CLOCK.reset()
    solver = Solver(var_selection_policy=csp.policy(pol), compile_constraints=comp)
    for again in (True, False):
        run = timed.Run(name)
        what = '{} error at evaluation {}'.format(case, at)

        def advance(k):
            if k == at and again:
                raise Boom()
            return 1
        run.advance = advance
        with Shuffler(()):
            it = timed.start(run, solver, mode)
            try:
                count = 0
                while run.next(it) is not None:
                    count += 1
                    check(solver, count, run.search, '{} pause {}'.format(what, count), None)
                    CLOCK.advance(1)
                need(not again, '{}: the error is lost', what)
            except Boom:
                pass
        for _ in range(2):
            check(solver, count, run.search, '{} at the end'.format(what), None)
            CLOCK.advance(2)
        ctx.step(count + 1)
        ctx.state(at, again, count, run.search)
        ctx.trace((count, run.search))


def run_case(case, ctx):
    if case[0] == 'small':
        return run_small(case, ctx)
    if case[0] == 'history':
        return run_history(case, ctx)
    if case[0] == 'concurrent':
        return run_concurrent(case, ctx)
    base = one(case, None, 0, ctx, 'no time passes')
    evals = base.evaluations
    if case[0] == 'long':
        one(case, lambda k: 1, 3, ctx, 'every evaluation')
        one(case, lambda k: (k + 1) / 1024, 1 / 512, ctx, 'milliseconds')
        for limit in (1, 5, 60, 100, 127, 128, 200, 260):
            one(case, lambda k: 1, 2, ctx, 'limit', limit=limit)
        for timeout in range(0, evals + 1, 1 + evals // 9):
            one(case, lambda k: 1, 2, ctx, 'timeout', timeout=timeout)
        return
    for consumer in (0, 1, 5):
        one(case, lambda k: 1, consumer, ctx, 'every evaluation')
        one(case, lambda k: 2 if k % 2 else 0, consumer, ctx, 'odd evaluations')
        # times that are no whole seconds (exactly representable ones)
        one(case, lambda k: (k + 1) / 1024, consumer / 512, ctx, 'milliseconds')
        one(case, lambda k: 2.0 ** 16 + k / 256, consumer, ctx, 'days')
    for limit in range(1, 4):
        one(case, lambda k: (k + 1) / 1024, 1 / 256, ctx, 'milliseconds, limit', limit=limit)
        one(case, lambda k: (k + 1) / 1024, 1 / 256, ctx, 'milliseconds, timeout', timeout=limit * 3 / 1024)
    for n in range(1, 3 if ctx.tier == 'thorough' else 2):
        for where in itertools.combinations(range(evals), n):
            one(case, lambda k: 1 if k in where else 0, 4 * (where[0] % 2), ctx, where)
    for at in range(evals):
        raising(case, at, ctx)
    for limit in range(1, 8):
        one(case, lambda k: 1, 2, ctx, 'limit', limit=limit)
    for timeout in range(0, evals + 1, 1 if ctx.tier == 'thorough' else 3):
        one(case, lambda k: 1, 2, ctx, 'timeout', timeout=timeout)


def goals(model, kind, variables):
    from satisfy import Minimize, Maximize
    objs = [model.get_variable(v[0]) for v in variables]
    if kind == 'optimize':
        return Minimize(-objs[0])
    return [(Maximize if k % 2 else Minimize)((-1) ** (k + 1) * objs[k // 2 % len(objs)] * (k + 1)) for k in range(int(kind[-1]))]


def run_small(case, ctx):
    """Models of every small number of solutions: counts at every pause."""
    from satisfy import Solver
    from satisfy.solver import ModelSolver
    spec = SMALL[case[1]][1]
    total = len(csp.solutions(spec))
    for pol in csp.POLICIES:
        for limit in [None] + (list(range(1, total + 2)) if total < 15 else [1, 2, total // 2, total - 1, total, total + 1]):
            for kind in ('solver', 'model solver', 'optimize', 'optimize 2', 'optimize 3', 'optimize 5'):
                if kind.startswith('optimize') and (not spec[0] or kind != 'optimize' and total > 40):
                    continue
                model = csp.Built(spec).model
                if kind == 'model solver':
                    solver = ModelSolver(model=model, var_selection_policy=csp.policy(pol), limit=limit)
                    it = iter(solver)
                else:
                    solver = Solver(var_selection_policy=csp.policy(pol), limit=limit)
                    it = solver.solve(model) if kind == 'solver' else solver.optimize(model, goals(model, kind, spec[0]))
                check(solver, 0, 0, '{} before the start'.format(case), None)
                count = 0
                with Shuffler(()):
                    for _ in it:
                        count += 1
                        CLOCK.advance(1)
                        check(solver, count, 0, '{} {} {} pause {}'.format(case, pol, kind, count), None)
                        ctx.step()
                        need(count <= total, '{}: more than {} solutions', case, total)
                check(solver, count, 0, '{} {} {} end'.format(case, pol, kind), 'limit' if count == limit else None)
                ctx.state(pol, limit, kind, count)
                ctx.trace(count)


ACTIVITIES = ('full', 'abandon 1', 'close 1', 'throw 1', 'limit 1', 'limit 2', 'timeout 0', 'timeout 2', 'optimize', 'abandon optimize',
              'optimal', 'optimal limit', 'unsolvable', 'no variables', 'limit 0', 'raising')


def activity(name, act, solver, ctx, hold, what):
    """Runs one activity on the solver, checking the statistics all along."""
    from satisfy import Maximize, Model
    run = timed.Run(name, lambda k: 1)
    if act == 'unsolvable' or act == 'no variables' or act == 'limit 0':
        model = Model()
        if act == 'unsolvable':
            model.add_constraint(False)
        count = sum(1 for _ in solver.solve(model, **(dict(limit=0) if act == 'limit 0' else {})))
        want = 1 if act == 'no variables' else 0
        need(count == want, '{}: {} solutions', what, count)
        check(solver, want, 0, what, None if act != 'limit 0' else 0)
        return
    if act.startswith('optimal'):
        x = run.built.objs[('v', 'x')]
        run.control = True
        args = dict(additional_constraints=list(run.additional))
        if act == 'optimal limit':
            args['limit'] = 1
        # the number of yielded solutions, from an identical run step by step
        from satisfy import Solver
        twin = timed.Run(name)
        n = sum(1 for _ in Solver(var_selection_policy=solver.var_selection_policy).optimize(twin.model, Maximize(twin.built.objs[('v', 'x')]), **dict(args, additional_constraints=list(twin.additional))))
        res = solver.optimal_solution(run.model, Maximize(x), **args)
        run.control = False
        check(solver, n, run.search, what, 'limit' if act == 'optimal limit' and n else None)
        return
    if act == 'raising':
        state = []

        def advance(k):
            if k == 3 and not state:
                state.append(1)
                raise Boom()
            return 1
        run.advance = advance
        it = timed.start(run, solver, 'solve')
        try:
            observe(run, solver, it, 1, what, ctx)
        except Boom:
            CLOCK.advance(1)
            need(abs(solver.get_stats().elapsed - run.search) < 1e-6, '{}: elapsed {} instead of {} after an error', what, solver.get_stats().elapsed, run.search)
        return
    args = {}
    mode = 'max' if 'optimize' in act else 'solve'
    stop = 1 if act.split()[0] in ('abandon', 'close', 'throw') else None
    if act.startswith('limit'):
        args['limit'] = int(act[-1])
    if act.startswith('timeout'):
        args['timeout'] = int(act[-1])
    it = timed.start(run, solver, mode, **args)
    n = observe(run, solver, it, 1, what, ctx, stop_after=stop)
    if stop is not None and n:
        if act.startswith('close'):
            it.close()
            check(solver, n, run.search, what + ' closed')
        elif act.startswith('throw'):
            try:
                it.throw(KeyError('x'))
            except KeyError:
                pass
            check(solver, n, run.search, what + ' thrown at')
        else:
            hold.append(it)


def run_history(case, ctx):
    from satisfy import Solver
    _, name, first, second = case
    thirds = ACTIVITIES if ctx.tier == 'thorough' else ('full', 'limit 1', 'optimal', 'unsolvable')
    for rest in [(third,) for third in thirds] + [(first, second) * 7]:
        third = rest if len(rest) > 1 else rest[0]
        for pol in ('ORDERED', 'GROUPS'):
            CLOCK.reset()
            hold = []
            solver = Solver(var_selection_policy=csp.policy(pol))
            for k, act in enumerate((first, second) + rest):
                activity(name, act, solver, ctx, hold, '{} {} {} activity {} ({})'.format(case, third, pol, k, act))
                CLOCK.advance(2)
            ctx.state(third, pol, CLOCK.now)
            ctx.trace(CLOCK.now)


CONCURRENT = [('solve', {}), ('solve', dict(limit=1)), ('solve', dict(limit=2)), ('solve', dict(timeout=2)), ('max', {}), ('max', dict(limit=1)), ('solve', dict(timeout=0))]


def run_concurrent(case, ctx):
    """The statistics are those of the solve that was started last, whatever the older one does."""
    from satisfy import Solver
    from mc.checks.c14 import schedules
    _, name, old, new = case

    def alone(k, stop=None):
        CLOCK.reset()
        run = timed.Run(name, lambda k: 1)
        solver = Solver()
        it = timed.start(run, solver, CONCURRENT[k][0], **CONCURRENT[k][1])
        stats = []
        while True:
            key = run.next(it)
            stats.append((solver.get_stats().count, run.search, solver.get_stats().interrupt))
            need(stats[-1][:1] == (len(stats) - (key is None),), '{} {} count {}', name, CONCURRENT[k], stats)
            if key is None:
                return stats
    singles = [alone(old), alone(new)]
    cap = 5 if ctx.tier == 'quick' else 7
    lengths = [min(len(s), cap) for s in singles]
    for schedule in schedules(lengths):
        for close in (None, 0, 1):
            CLOCK.reset()
            solver = Solver()
            runs = [timed.Run(name, lambda k: 1) for _ in range(2)]
            its = [timed.start(runs[k], solver, CONCURRENT[j][0], **CONCURRENT[j][1]) for k, j in enumerate((old, new))]
            done = [0, 0]
            last = None
            for n, k in enumerate(schedule):
                if done[k] == 0:
                    last = k
                runs[k].next(its[k])
                done[k] += 1
                CLOCK.advance(3)
                stats = solver.get_stats()
                count, elapsed, interrupt = singles[last][done[last] - 1]
                ctx.step()
                need((stats.count, stats.interrupt) == (count, interrupt) and abs(stats.elapsed - elapsed) < 1e-6,
                     '{} {} then {} on one solver, schedule {}: after step {} the solve started last has {} (alone: {})',
                     name, CONCURRENT[old], CONCURRENT[new], schedule, n, stats, (count, elapsed, interrupt))
                if close is not None and n == close + 1 and k != last:
                    its[k].close()
                    stats = solver.get_stats()
                    need((stats.count, stats.interrupt) == (count, interrupt) and abs(stats.elapsed - elapsed) < 1e-6,
                         '{} {} then {} schedule {}: closing the older one changes the statistics to {} from {}', name, CONCURRENT[old], CONCURRENT[new], schedule, stats, (count, elapsed, interrupt))
            ctx.state(schedule, close)
            ctx.trace((tuple(done), last))
