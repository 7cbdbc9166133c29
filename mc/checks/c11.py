"""C11: every sequence yielded while optimizing is feasible and strictly improving (all problems of the universe)."""
from mc import csp, optim
from mc.core import need
from mc.checks.c03 import Shuffler

PROPERTY = 'C11'


def bounds(tier):
    return dict(large='{} models of up to 13 variables, 300 values, 300 improvements'.format(len(optim.LARGE)), models='3 variables x {} domain choices x subsets of <=2 of {} constraints'.format(5 if tier == 'thorough' else 3, len(csp.CATALOG3)),
                objectives='{} expressions x min/max; {} pairs x directions; triples; no objective'.format(len(optim.OBJECTIVES), len(optim.PAIRS)),
                configurations='8 policies x compile (rotated over the goals so that every goal meets {}), constraints in the model or additional, '
                               'objective as single/list/tuple/iterator, limits 1..3; two optimizations at once: every order of the first 4 turns'.format('every policy' if tier == 'thorough' else 'several policies'), tier=tier)


def cases(tier):
    yield from optim.problems(tier)
    yield from optim.together_cases(tier)


def improving(what, keys, sols, goals):
    for k, key in enumerate(keys):
        need(key in sols, '{}: yields {} which does not satisfy the model', what, key)
        need(not k or optim.better(key, keys[k - 1], goals), '{}: {} is not strictly better than {}', what, key, keys[k - 1])
    need(bool(keys) == bool(sols), '{}: {} solutions yielded, {} satisfying assignments', what, len(keys), len(sols))


def configurations(tier, kind, g, ncons):
    n = 8 if tier == 'thorough' else 4 if kind == 'large' else 2
    for k in range(n):
        j = (k * (8 // n) + g) % 8
        pol, comp = csp.POLICIES[j], bool((k + g // 8) % 2)
        yield pol, comp, (), ('single', 'list', 'iter', 'tuple')[(g + k) % 4] if kind == 'single' or kind == 'large' and g < 12 else ('list', 'iter', 'tuple')[(g + k) % 3]
    if ncons:
        yield csp.POLICIES[(g + 3) % 8], bool(g % 2), tuple(range(ncons)), 'list'
        yield 'GROUPS', bool((g + 1) % 2), (g % ncons,), 'tuple'


def run_case(case, ctx):
    from satisfy import Solver
    if case[0] == 'together':
        return optim.run_together(case, improving, ctx)
    kind, dom, cons = case
    spec, goal_sets = optim.problem(case)
    names = tuple(v[0] for v in spec[0])
    sols = csp.solutions(spec)
    for g, goals in enumerate(goal_sets):
        if kind == 'single' and not goals:
            continue
        for pol, comp, additional, form in configurations(ctx.tier, kind, g, len(spec[2])):
            built = csp.Built(spec, additional=additional)
            solver = Solver(var_selection_policy=csp.policy(pol), compile_constraints=comp)
            what = lambda: '{} goals {} policy {} compile {} additional {}'.format(spec, [(optim.ast_of(o), s) for o, s in goals], pol, comp, additional)
            prev, n = None, 0
            objectives = [optim.objective(o, s, built) for o, s in goals]
            with Shuffler(()):
                for opt in solver.optimize(built.model, optim.goals_of(built, goals, form), additional_constraints=built.additional):
                    key = csp.key_of(opt.solution, names)
                    n += 1
                    if g % 2:
                        # what the consumer does with its solution is its own business
                        opt.solution.update({name: (-7, 7, 0)[n % 3] for name in names} if n % 4 else {'other': 1})
                    ctx.step()
                    ctx.state(goals, pol, comp, additional, key)
                    need(key in sols, '{}: yields {} which does not satisfy the model', what(), opt.solution)
                    for (o, s), objective in zip(goals, objectives):
                        reported = objective.evaluate(dict(zip(names, key)))
                        need(reported == optim.value(o, key), '{}: the objective {} {} reports the value {} for {}', what(), s, optim.ast_of(o), reported, key)
                    if prev is not None and goals:
                        need(optim.better(key, prev, goals), '{}: {} is not strictly better than {} in every objective', what(), key, prev)
                    need(n <= len(sols), '{}: does not end', what())
                    prev = key
            need((n > 0) == bool(sols), '{}: {} solutions yielded, {} satisfying assignments', what(), n, len(sols))
            ctx.trace((n, prev))
            # interrupted runs improve, too
            for limit in (1, 2, 3) if kind != 'large' else (1, 2, n // 2, n - 1, n):
                if not 1 <= limit <= n or g % 4:
                    continue
                prev, m = None, 0
                with Shuffler(()):
                    for opt in solver.optimize(built.model, optim.goals_of(built, goals, form), additional_constraints=built.additional, limit=limit):
                        key = csp.key_of(opt.solution, names)
                        m += 1
                        need(key in sols, '{} limit {}: yields {} which does not satisfy the model', what(), limit, opt.solution)
                        if prev is not None and goals:
                            need(optim.better(key, prev, goals), '{} limit {}: {} is not strictly better than {}', what(), limit, key, prev)
                        need(m <= n, '{}: does not end', what())
                        prev = key
                need(m == limit, '{} limit {}: {} solutions', what(), limit, m)
                ctx.trace((m, prev))
