"""C03: the set of solutions does not depend on search heuristics or on the phrasing of the model.
Every alternative phrasing/heuristic of each model is executed on the real solver and its solution set
is compared with the one of the reference phrasing (declaration order, ORDERED policy, interpreted).
The random policy is owned by the harness: every outcome of random.shuffle (every permutation) is run."""
import itertools
import random

from mc import csp
from mc.core import need
from mc.checks import c01

PROPERTY = 'C03'
HORIZON = 240


def bounds(tier):
    return dict(models='u1: 3 variables x 5 domain choices x every subset of <=2 of {} constraints; every graph of <=4 variables x edge '
                       'kinds; 4 variables x <=2 all-different groups; 5..6 variables x subsets of 15 high-arity constraints'.format(len(csp.CATALOG3)),
                variations='8 policies x compile; all outcomes of the random policy (all permutations of <=4 variables{}); all declaration '
                           'orders of <=4 variables; all orders of the constraints; reversal/rotation of every domain; 6 container '
                           'types; every subset of the constraints passed as additional; {} models of scale (orders: rotations; subsets: single ones, halves, all); constraints on undeclared variables and on parameters in either place'.format(', 5 thorough' if tier == 'thorough' else '', len(csp.SCALE)),
                tier=tier)


def cases(tier):
    big = tier == 'thorough'
    for k in range(len(csp.U0)):
        yield ('u0', k)
    for k in range(len(csp.SCALE)):
        yield ('scale', k)
    for k in range(len(WRONG_MODELS)):
        for wrong in WRONG:
            yield ('wrong', k, wrong)
    yield from csp.u1(2, range(5) if big else (0, 1, 3))
    yield from csp.u3(3)
    yield from csp.u3(4)
    yield from csp.u2(2 if big else 1)
    yield from csp.u4(5, 2, False)
    if big:
        yield from csp.u2(3)
        yield from csp.u4(6, 2, True)
        for cons in itertools.combinations(range(len(csp.CATALOG3)), 3):
            yield ('u1', 1, cons)


class Shuffler:
    """Owns the random module: every call of shuffle/sample takes the chosen permutation."""

    def __init__(self, perm):
        self.perm = perm
        self.calls = 0

    def order(self, n):
        self.calls += 1
        if n == len(self.perm):
            return list(self.perm)
        return list(range(n))

    def shuffle(self, seq, *args):
        vals = [seq[k] for k in self.order(len(seq))]
        seq[:] = vals

    def sample(self, seq, k, **kw):
        seq = list(seq)
        return [seq[j] for j in self.order(len(seq))][:k]

    def __enter__(self):
        self.saved = random.shuffle, random.sample
        random.shuffle, random.sample = self.shuffle, self.sample
        return self

    def __exit__(self, *exc):
        random.shuffle, random.sample = self.saved


def solve(spec, policy, comp, declare=None, con_order=None, additional=(), perm=()):
    from satisfy import Solver
    built = csp.Built(spec, declare=declare, con_order=con_order, additional=additional)
    names = tuple(v[0] for v in spec[0])
    total = 1
    for v in spec[0]:
        total *= len(v[1])
    solver = Solver(var_selection_policy=csp.policy(policy), compile_constraints=comp)
    with Shuffler(perm):
        return csp.run(solver.solve(built.model, additional_constraints=built.additional), names, 2 * total + 10)


def perms(n, limit):
    if n <= limit:
        return list(itertools.permutations(range(n)))
    # beyond the bound: identity, reversal, rotations
    base = list(range(n))
    return [tuple(base), tuple(reversed(base))] + [tuple(base[k:] + base[:k]) for k in range(1, n)]


def redomain(spec, fun):
    return (tuple((n, fun(k, d), c) for k, (n, d, c) in enumerate(spec[0])),) + spec[1:]


def recontainer(spec, kind):
    def ok(d):
        return kind != 'range' or not d or d[-1] - d[0] + 1 == len(d) and tuple(d) == tuple(range(d[0], d[-1] + 1))
    return (tuple((n, d, kind if ok(d) else 'tuple') for n, d, c in spec[0]),) + spec[1:]


def subsets(n):
    """Every non-empty subset; beyond the bound: single ones, halves, alternating ones, all."""
    if n <= 10:
        for k in range(1, n + 1):
            yield from itertools.combinations(range(n), k)
    else:
        yield from ((k,) for k in range(n))
        yield from (tuple(range(n // 2)), tuple(range(n // 2, n)), tuple(range(0, n, 2)), tuple(range(1, n, 2)), tuple(range(n)))


def variations(spec, tier):
    big = tier == 'thorough'
    nv, nc = len(spec[0]), len(spec[2])
    for pol in csp.POLICIES:
        for comp in (True, False):
            yield ('policy', pol, comp), spec, pol, comp, {}
    for perm in perms(nv, 5 if big else 4):
        yield ('shuffle', perm), spec, 'RANDOM', bool(perm and perm[0] % 2), dict(perm=perm)
    for k, perm in enumerate(perms(nv, 4)):
        for j, pol in enumerate(csp.POLICIES if nv <= 3 and big else ('ORDERED', csp.POLICIES[k % 8], 'GROUPS')):
            yield ('declare', perm, pol), spec, pol, bool((j + k) % 2), dict(declare=perm)
    if nc > 1:
        for k, perm in enumerate(perms(nc, 4)):
            for pol in csp.POLICIES if big else (csp.POLICIES[k % 8], 'GROUPS', 'MAX_CONSTRAINT'):
                yield ('constraints', perm, pol), spec, pol, bool(k % 2), dict(con_order=perm)
    for k in range(nv):
        d = spec[0][k][1]
        for name, new in (('reversed', tuple(reversed(d))), ('rotated', tuple(d[1:] + d[:1]))):
            yield ('domain', k, name), redomain(recontainer(spec, 'tuple'), lambda j, dom: new if j == k else dom), csp.POLICIES[k % 8], bool(k % 2), {}
    yield ('domain', 'all'), redomain(recontainer(spec, 'tuple'), lambda j, dom: tuple(sorted(dom, reverse=True))), 'GROUPS', True, {}
    for k, kind in enumerate(csp.CONTAINERS):
        yield ('container', kind), recontainer(spec, kind), csp.POLICIES[k % 8], bool(k % 2), {}
    for k, sub in enumerate(subsets(nc)):
        n = len(sub)
        for pol in ('GROUPS', csp.POLICIES[(k + n) % 8], 'MIN_CONSTRAINT'):
            yield ('additional', sub, pol), spec, pol, bool((k + n) % 2), dict(additional=sub)


# constraints on what is no variable of the model, which has a parameter p
WRONG_MODELS = [
    ('x',), ('x', 'y'), ('x', 'y', 'z'), (),
]


def _foreign(name):
    from satisfy import Model
    return Model().add_int_variable([0, 1], name=name)


def _named(*names):
    from satisfy.constraint import AllDifferentConstraint
    return AllDifferentConstraint(names)


WRONG = {
    'undeclared': lambda v: _foreign('q') >= 0,
    'undeclared with another': lambda v: sum(v.values()) + _foreign('q') >= 0,
    'parameter': lambda v: _foreign('p') >= 0,
    'parameter with others': lambda v: sum(v.values()) >= _foreign('p') - 5,
    'custom on a parameter': lambda v: csp.custom_constraint('small', tuple(v) + ('p',)),
    'custom on an undeclared': lambda v: csp.custom_constraint('small', ('q',) + tuple(v)),
    'different from a parameter': lambda v: _named('p', *v),
    'different from an undeclared': lambda v: _named(*v, 'q'),
    'none': None,
}


def run_wrong(case, ctx):
    """In the model or additional, such a constraint is an error, and leaves model and solver as they were."""
    from satisfy import Maximize, Minimize, Model, Solver
    from satisfy.constraint import Constraint, ExpressionConstraint
    _, k, wrong = case
    names = WRONG_MODELS[k]
    for sizes in itertools.product((0, 1, 3), repeat=len(names)):
        m = Model()
        v = {n: m.add_int_variable(range(size), name=n) for n, size in zip(names, sizes)}
        m.add_parameter(1, name='p')
        if names:
            m.add_constraint(v[names[0]] != 1)
        want = {vals for vals in itertools.product(*map(range, sizes)) if not names or vals[0] != 1}
        good = ExpressionConstraint(v[names[-1]] != 7) if names else csp.custom_constraint('small', ())
        con = WRONG[wrong](v) if wrong != 'none' else good
        con = con if isinstance(con, Constraint) else ExpressionConstraint(con)
        count = len(list(m.constraints()))
        try:
            m.add_constraint(con)
            accepted = True
        except ValueError:
            accepted = False
        need(accepted == (wrong == 'none') and len(list(m.constraints())) == count + accepted, '{} {}: constraint {} {}', case, sizes, con, 'accepted' if accepted else 'rejected')
        for pol in csp.POLICIES:
            for comp in (True, False):
                solver = Solver(var_selection_policy=csp.policy(pol), compile_constraints=comp)
                for form in ([con], [con, good], (good, con), iter([con, con])):
                    for mode in ('solve', 'minimize', 'maximize'):
                        if mode != 'solve' and not names:
                            continue
                        what = (case, sizes, pol, comp, mode)
                        form = list(form)
                        if mode == 'solve':
                            run = solver.solve(m, additional_constraints=form)
                        else:
                            run = solver.optimize(m, (Minimize if mode == 'minimize' else Maximize)(v[names[0]] + 0), additional_constraints=form)
                        with Shuffler(()):
                            try:
                                got, error = list(itertools.islice(run, 40)), None
                            except Exception as e:
                                got, error = [], e
                        need((error is None) == (wrong == 'none'), '{}: {} solutions, error {!r}', what, len(got), error)
                        if wrong == 'none' and mode == 'solve':
                            need({tuple(s[n] for n in names) for s in got} == want and len(got) == len(want), '{}: {} instead of {}', what, got, want)
                        ctx.step()
                with Shuffler(()):
                    keys = csp.run(solver.solve(m), names, 40)
                need(set(keys) == want and len(keys) == len(want), '{} {} {} {}: afterwards {} instead of {}', case, sizes, pol, comp, keys, want)
                ctx.state(case, sizes, pol, comp)
                ctx.trace((wrong, len(want)))


def run_case(case, ctx):
    if case[0] == 'wrong':
        return run_wrong(case, ctx)
    spec = c01.spec_of(case)
    base = solve(recontainer(spec, 'tuple'), 'ORDERED', False)
    want = set(base)
    for label, vspec, pol, comp, args in variations(spec, ctx.tier):
        got = set(solve(vspec, pol, comp, **args))
        ctx.step()
        ctx.state(label, frozenset(got))
        ctx.trace(frozenset(got))
        if got != want:
            need(False, '{}: variation {} (policy {}, compile {}): missing {} extra {} w.r.t. the reference phrasing',
                 spec, label, pol, comp, sorted(want - got)[:5], sorted(got - want)[:5])
