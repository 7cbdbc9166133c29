"""C02: the real solver yields every satisfying assignment exactly once."""
from mc import csp
from mc.core import need
from mc.checks import c01

PROPERTY = 'C02'
bounds = c01.bounds
cases = c01.cases


def run_case(case, ctx):
    from satisfy import Solver
    spec = c01.spec_of(case)
    want = c01.oracle(case)
    names = tuple(v[0] for v in spec[0])
    for pol, comp, additional in c01.configurations(spec, case):
        built = csp.Built(spec, additional=additional)
        solver = Solver(var_selection_policy=csp.policy(pol), compile_constraints=comp)
        got, seen = [], set()
        for solution in solver.solve(built.model, additional_constraints=built.additional):
            key = csp.key_of(solution, names)
            need(key not in seen, '{} policy={} compile={} additional={}: {} was yielded twice', spec, pol, comp, additional, solution)
            seen.add(key)
            ctx.step()
            ctx.state(pol, comp, additional, key)
        missing = want - seen
        need(not missing, '{} policy={} compile={} additional={}: {} solutions are missing, e.g. {}', spec, pol, comp, additional,
             len(missing), dict(zip(names, min(missing) if missing else ())))
        ctx.trace((len(want),))
        ctx.evals(len(seen))
