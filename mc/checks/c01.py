"""C01: every assignment yielded by the real solver satisfies the model (all models of the universe,
all policies, compiled and interpreted, constraints in the model or passed as additional ones)."""
from mc import csp, ref
from mc.core import need

PROPERTY = 'C01'


def bounds(tier):
    return dict(models='u1: 3 variables x 5 domain choices x every subset of <=2 (a third constraint on {} domain choices) of {} '
                       'constraints; u2: 4 variables x every set of <={} all-different groups; u3: every graph of <={} variables x '
                       'edge constraint kinds; u4: 5..{} variables x subsets of 15 high-arity constraints; u0: no variables, single variables, '
                       'domains of large, huge, negative and boolean values as separate objects; scale: {} models of up to 40 variables, 400 values, 38 constraints on a variable, same-named parameters of different values'.format(
                           5 if tier == 'thorough' else 1, len(csp.CATALOG3), 3 if tier == 'thorough' else 2,
                           5 if tier == 'thorough' else 4, 10 if tier == 'thorough' else 8, len(csp.SCALE)),
                configurations='8 policies x compile on/off; every constraint in the model, and every constraint moved out as additional', tier=tier)


def cases(tier):
    for k in range(len(csp.SCALE)):
        yield ('scale', k)
    for case in csp.universe(tier):
        if case[0] == 'u0':
            for k in range(len(csp.U0)):
                yield ('u0', k)
        else:
            yield case


def spec_of(case):
    return csp.SCALE[case[1]] if case[0] == 'scale' else csp.U0[case[1]] if case[0] == 'u0' else csp.spec_of(case)


def oracle(case):
    return (csp.joined if case[0] == 'scale' else csp.solutions)(spec_of(case))


def configurations(spec, case):
    ncons = len(spec[2])
    for k, pol in enumerate(csp.POLICIES):
        for comp in (True, False):
            yield pol, comp, ()
    if ncons:
        # placement: each constraint alone, and all of them, as additional constraints
        subsets = [tuple(range(ncons))] + ([(c,) for c in range(ncons)] if ncons > 1 else [])
        for k, sub in enumerate(subsets):
            yield csp.POLICIES[k % 8], bool(k % 2), sub
            yield 'GROUPS', not k % 2, sub


def run_case(case, ctx):
    from satisfy import Solver
    spec = spec_of(case)
    want = oracle(case)
    names = tuple(v[0] for v in spec[0])
    domains = {v[0]: set(v[1]) for v in spec[0]}
    total = 1
    for v in spec[0]:
        total *= len(v[1])
    for pol, comp, additional in configurations(spec, case):
        built = csp.Built(spec, additional=additional)
        solver = Solver(var_selection_policy=csp.policy(pol), compile_constraints=comp)
        n = 0
        for solution in solver.solve(built.model, additional_constraints=built.additional):
            n += 1
            ctx.step()
            key = csp.key_of(solution, names)
            ctx.state(pol, comp, additional, key)
            need(set(solution) == set(names), '{} policy={} compile={} additional={}: yielded {!r} does not bind exactly {}',
                 spec, pol, comp, additional, solution, names)
            for name in names:
                need(solution[name] in domains[name], '{} policy={} compile={} additional={}: {}={!r} is outside its domain',
                     spec, pol, comp, additional, name, solution[name])
            if key not in want:
                params = dict(spec[1])
                broken = [c for c in spec[2] if not csp.con_holds(c, solution, params)]
                need(False, '{} policy={} compile={} additional={}: yielded {} violates {}', spec, pol, comp, additional, solution, broken)
            if n > total:
                break
        ctx.trace((len(want), n))
        ctx.evals(n)
