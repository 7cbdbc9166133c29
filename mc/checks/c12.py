"""C12: optimality and truthful claims: optimal_solution on every problem of the universe, under limits, and on a
virtual clock under timeouts, against brute force."""
from mc import csp, optim, timed
from mc.clock import CLOCK
from mc.core import need
from mc.checks import c11
from mc.checks.c03 import Shuffler

PROPERTY = 'C12'
VIRTUAL_CLOCK = True


def bounds(tier):
    res = c11.bounds(tier)
    res['limits'] = '0 .. number of improvements + 1, in the constructor or the call'
    res['timeouts'] = 'on {} timed models: every integer up to the total search time, delays at every / every second evaluation'.format(len(timed.MODELS))
    return res


def cases(tier):
    yield from optim.problems(tier)
    yield from optim.together_cases(tier)
    for name in timed.MODELS:
        for pol in csp.POLICIES:
            yield ('timed', name, pol)


def reaching(what, keys, sols, goals):
    if keys:
        need(optim.undominated(keys[-1], sols, goals), '{}: it ends with {}, which is not optimal', what, keys[-1])
    need(bool(keys) == bool(sols), '{}: {} solutions yielded, {} satisfying assignments', what, len(keys), len(sols))


def judge(what, res, interrupt, sols, names, goals, ctx):
    """What holds of every result, interrupted or not."""
    if res.solution is None:
        need(not res.is_optimal, '{}: optimality claimed without solution', what())
        need(interrupt is not None or not sols, '{}: no solution, but {} is satisfying', what(), next(iter(sols), None))
        return None
    key = csp.key_of(res.solution, names)
    need(key in sols, '{}: {} does not satisfy the model', what(), res.solution)
    if interrupt is None:
        need(optim.undominated(key, sols, goals), '{}: {} is not optimal', what(), res.solution)
        need(bool(res.is_optimal), '{}: search was complete, but no optimality is claimed', what())
    else:
        need(not res.is_optimal, '{}: optimality claimed in spite of interrupt {}', what(), interrupt)
    return key


def run_case(case, ctx):
    from satisfy import Solver
    if case[0] == 'timed':
        return run_timed(case, ctx)
    if case[0] == 'together':
        return optim.run_together(case, reaching, ctx)
    kind, dom, cons = case
    spec, goal_sets = optim.problem(case)
    names = tuple(v[0] for v in spec[0])
    sols = csp.solutions(spec)
    for g, goals in enumerate(goal_sets):
        if not goals:
            continue
        for pol, comp, additional, form in c11.configurations(ctx.tier, kind, g, len(spec[2])):
            built = csp.Built(spec, additional=additional)
            what = lambda: '{} goals {} policy {} compile {} additional {}'.format(spec, [(optim.ast_of(o), s) for o, s in goals], pol, comp, additional)
            mk = lambda **args: Solver(var_selection_policy=csp.policy(pol), compile_constraints=comp, **args)
            with Shuffler(()):
                solver = mk()
                res = solver.optimal_solution(built.model, optim.goals_of(built, goals, form), additional_constraints=built.additional)
                need(solver.get_stats().interrupt is None, '{}: interrupt {!r}', what(), solver.get_stats().interrupt)
                key = judge(what, res, None, sols, names, goals, ctx)
                ctx.step()
                ctx.state(goals, pol, comp, additional, key)
                ctx.trace((key, res.is_optimal))
                if g % 3:
                    continue
                steps = [csp.key_of(o.solution, names) for o in mk().optimize(
                    built.model, optim.goals_of(built, goals, form), additional_constraints=built.additional)]
                for limit in range(0, len(steps) + 2) if len(steps) < 20 else (0, 1, 2, len(steps) // 2, len(steps) - 1, len(steps), len(steps) + 1):
                    in_call = (limit + g) % 2
                    solver = mk(**({} if in_call else dict(limit=limit)))
                    res = solver.optimal_solution(built.model, optim.goals_of(built, goals, form), additional_constraints=built.additional,
                                                  **(dict(limit=limit) if in_call else {}))
                    # reached the limit: interrupted, whatever the solver reports
                    stopped = 'limit' if limit <= len(steps) and (limit or sols) else None
                    lwhat = lambda: '{} limit {}'.format(what(), limit)
                    key = judge(lwhat, res, stopped, sols, names, goals, ctx)
                    if 1 <= limit <= len(steps):
                        need(key == steps[limit - 1], '{}: returns {}, the last solution found was {}', lwhat(), key, steps[limit - 1])
                    elif limit == 0:
                        need(key is None, '{}: returns {} under limit 0', lwhat(), key)
                    ctx.step()
                    ctx.state(goals, pol, comp, additional, limit, key)
                    ctx.trace((key, limit, res.is_optimal))


def run_timed(case, ctx):
    from satisfy import Solver, Minimize, Maximize
    _, name, pol = case
    spec = timed.MODELS[name]
    sols = csp.solutions(spec, timed.ADDITIONAL.get(name, ()))
    names = tuple(v[0] for v in spec[0])
    score = {'max': lambda k: -sum(k), 'min': lambda k: 2 * k[0] - k[-1]}

    def objective(mode, run):
        objs = [run.built.objs[('v', n)] for n in run.names]
        return Maximize(sum(objs[1:], objs[0])) if mode == 'max' else Minimize(2 * objs[0] - objs[-1])

    for mode in ('min', 'max'):
        for comp in (True, False):
            for every in (1, 2):
                total = None
                for timeout in [None] + list(range(0, 80)):
                    if total is not None and timeout > total + 1:
                        break
                    CLOCK.reset()
                    run = timed.Run(name, lambda k: 1 if k % every == 0 else 0)
                    run.timeout = timeout
                    in_call = bool(timeout and timeout % 2)
                    solver = Solver(var_selection_policy=csp.policy(pol), compile_constraints=comp, timeout=None if in_call else timeout,
                                    **(dict(limit=10000) if timeout and timeout % 5 == 4 else {}))
                    run.control = True
                    # the evaluations done for judging below are not part of the run
                    with Shuffler(()):
                        res = solver.optimal_solution(run.model, objective(mode, run), additional_constraints=list(run.additional),
                                                      **dict(dict(timeout=timeout) if in_call else {}, **(dict(limit=10000) if timeout and timeout % 3 == 1 else {})))
                    run.control = False
                    if timeout is None:
                        total = run.search
                    stats = solver.get_stats()
                    what = '{} {} compile {} every {} timeout {}'.format(case, mode, comp, every, timeout)
                    key = None if res.solution is None else csp.key_of(res.solution, names)
                    ctx.step(run.evaluations)
                    ctx.state(mode, comp, every, timeout, key, res.is_optimal)
                    ctx.trace((key, res.is_optimal, stats.interrupt))
                    need(key is None or key in sols, '{}: {} does not satisfy the model', what, res.solution)
                    CLOCK.reset()
                    twin = timed.Run(name, run.advance)
                    it = timed.start(twin, Solver(var_selection_policy=csp.policy(pol), compile_constraints=comp, timeout=timeout), mode)
                    last = None
                    with Shuffler(()):
                        for _ in range(200):
                            nxt = twin.next(it)
                            if nxt is None:
                                break
                            last = nxt
                    need(key == last, '{}: returns {}, the last solution found is {}', what, key, last)
                    if run.exceeded_at is None or stats.interrupt is None:
                        best = min(map(score[mode], sols)) if sols else None
                        need((key is None) == (not sols) and (key is None or score[mode](key) == best), '{}: {} is not optimal ({})', what, key, best)
                        need(bool(res.is_optimal) == bool(sols), '{}: is_optimal {!r}', what, res.is_optimal)
                    if run.exceeded_at is None:
                        need(stats.interrupt is None, '{}: interrupt {!r}, search time {}', what, stats.interrupt, run.search)
                    elif stats.interrupt is not None:
                        need(not res.is_optimal, '{}: optimality claimed in spite of the timeout', what)
                    need(not (res.is_optimal and key is None), '{}: optimality claimed without solution', what)
