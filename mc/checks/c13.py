"""C13: all histories of solving activities up to a depth on one real model and solver; afterwards the model and the
solver are compared with the results of a fresh model and solver computed in a process that did nothing else."""
import gc
import itertools

from mc import csp
from mc.clock import CLOCK
from mc.core import need, pristine, Violation
from mc.checks.c03 import Shuffler

PROPERTY = 'C13'
VIRTUAL_CLOCK = True
HORIZON = 300

E = csp.E
V = lambda n: ('v', n)
MODELS = {
    'unary': ((('x', (0, 1, 2, 3), 'list'), ('y', (2, 0, 1), 'list')), (('p', 1),),
              (E('!=', V('x'), ('i', 2)), E('>', V('y'), ('i', 0)), E('<=', V('y'), V('x')))),
    'all different': ((('x', (0, 1, 2), 'list'), ('y', (0, 1, 2), 'list'), ('z', (2, 1), 'list')), (),
                      (('ad', ('x', 'y', 'z')), E('!=', V('x'), ('i', 1)))),
    'custom': ((('x', (0, 1), 'list'), ('y', (0, 1, 2), 'list'), ('z', (1, 0), 'list')), (('p', 1),),
               (('custom', 'parity', ('x', 'y', 'z')), E('<=', V('x'), ('p', 'p')), ('custom', 'small', ('y',)))),
    'unsat': ((('x', (0, 1), 'list'), ('y', (0, 1), 'list')), (), (E('<', V('x'), V('y')), E('<', V('y'), V('x')))),
    'or': ((('x', (0, 1, 2), 'list'), ('y', (0, 1, 2), 'list')), (('p', 0),),
           (E('|', E('==', V('x'), V('y'))[1], E('>', ('-', V('x'), V('y')), ('p', 'p'))[1]), ('const', True))),
    'no constraint': ((('x', (1, 0), 'list'), ('y', (3, 4, 5), 'list')), (), ()),
}
ACTS = ('full', 'full interpreted reversed', 'random', 'abandon', 'abandon deep', 'close', 'throw', 'drop', 'limit', 'limit in solver', 'timeout',
        'optimize', 'optimize abandon', 'optimize limit', 'optimal timeout', 'optimal two', 'mutate solution', 'mutate container',
        'raising', 'additional', 'reuse additional', 'mutate views', 'other model', 'unsolvable', 'max bound')


def depth_of(name, tier):
    return 4 if tier == 'thorough' and name not in ('unsat', 'no constraint') else 3


def bounds(tier):
    return dict(models=sorted(MODELS), activities=list(ACTS), without_variables='all histories of {} of {} and 4 fixed ones'.format(5 if tier == 'thorough' else 4, EMPTY), depth={name: depth_of(name, tier) for name in MODELS}, periodic='every pair of activities, 5 and 10 times over',
                observations='after every history: solution lists by 3 solvers (the used one, fresh ones), optima, declared variables, domains, constraints', tier=tier)


class World:
    def __init__(self, name):
        from satisfy import Solver, Minimize, Maximize, Model
        self.spec = MODELS[name]
        self.names = tuple(v[0] for v in self.spec[0])
        self.containers = {}
        self.advance = 0
        original = csp.container

        def container(domain, kind):
            lst = list(domain)
            self.containers[len(self.containers)] = lst
            return lst
        csp.container = container
        try:
            self.built = csp.Built(self.spec, on_evaluate=self.evaluate)
        finally:
            csp.container = original
        self.model = self.built.model
        self.solver = Solver()
        self.settings = settings(self.solver)
        self.x = self.built.objs[('v', 'x')]
        self.y = self.built.objs[('v', 'y')]
        self.low = Minimize(self.x + 2 * self.y)
        self.high = Maximize(3 * self.x - self.y)
        self.extra = csp.Built(self.spec).constraint(E('!=', V('x'), V('y')))
        self.clocked = csp.custom_constraint('nondec', self.names, self.evaluate)
        self.before = self.declared()
        self.held = []
        self.raise_at = None

    def evaluate(self):
        CLOCK.advance(self.advance)
        if getattr(self, 'raise_at', None) is not None:
            self.raise_at -= 1
            if self.raise_at == 0:
                raise KeyError('raised by the constraint')

    def declared(self):
        return ([(n, i.variable.name, None if i.domain is None else tuple(i.domain)) for n, i in self.model.variables().items()],
                len(list(self.model.constraints())), [frozenset(c.vars()) for c in self.model.constraints()], self.model.solvable())

    def take(self, it, n):
        return list(itertools.islice(it, n))


def settings(solver):
    return (solver.var_selection_policy, solver.limit, solver.timeout, solver.compile_constraints)


def do(w, act):
    from satisfy import Solver, Model
    s, m = w.solver, w.model
    if act == 'full':
        list(itertools.islice(s.solve(m), 100))
    elif act == 'full interpreted reversed':
        s.compile_constraints, saved = False, s.compile_constraints
        list(itertools.islice(s.solve(m, var_selection_policy=csp.policy('REVERSED')), 100))
        s.compile_constraints = saved
    elif act == 'random':
        list(itertools.islice(s.solve(m, var_selection_policy=csp.policy('RANDOM')), 100))
    elif act == 'max bound':
        list(itertools.islice(s.solve(m, var_selection_policy=csp.policy('MAX_BOUND')), 3))
    elif act == 'abandon':
        it = iter(s.solve(m))
        next(it, None)
        w.held.append(it)
    elif act == 'abandon deep':
        it = iter(s.solve(m))
        w.take(it, 3)
        w.held.append(it)
    elif act == 'close':
        it = iter(s.solve(m))
        w.take(it, 2)
        it.close()
    elif act == 'throw':
        it = iter(s.solve(m))
        next(it, None)
        try:
            it.throw(IndexError('x'))
        except IndexError:
            pass
    elif act == 'drop':
        it = iter(s.solve(m))
        next(it, None)
        del it
    elif act == 'limit':
        list(itertools.islice(s.solve(m, limit=1), 100))
    elif act == 'limit in solver':
        s.limit, saved = 2, s.limit
        list(itertools.islice(s.solve(m), 100))
        s.limit = saved
    elif act == 'timeout':
        w.advance = 1
        list(itertools.islice(s.solve(m, timeout=1, additional_constraints=[w.clocked]), 100))
        w.advance = 0
    elif act == 'optimize':
        list(itertools.islice(s.optimize(m, w.low), 100))
    elif act == 'optimize abandon':
        it = iter(s.optimize(m, w.high))
        next(it, None)
        w.held.append(it)
    elif act == 'optimize limit':
        s.optimal_solution(m, w.high, limit=1)
    elif act == 'optimal timeout':
        w.advance = 1
        s.optimal_solution(m, [w.low, w.high], timeout=1, additional_constraints=[w.clocked])
        w.advance = 0
    elif act == 'optimal two':
        s.optimal_solution(m, [w.low, w.high])
    elif act == 'mutate solution':
        for pol in ('GROUPS', 'ORDERED', 'REVERSED'):
            got = []
            for k, sol in enumerate(itertools.islice(s.solve(m, var_selection_policy=csp.policy(pol)), 100)):
                got.append(csp.key_of(sol, w.names))
                if k % 3 == 0:
                    for n in list(sol):
                        sol[n] = 77
                    sol['new'] = 1
                elif k % 3 == 1:
                    sol.clear()
                else:
                    sol.pop(w.names[k // 3 % len(w.names)])
            want = _oracle.get(w.spec)
            if want is None:
                want = _oracle[w.spec] = csp.solutions(w.spec)
            need(sorted(got, key=repr) == sorted(want, key=repr), 'modifying the yielded solutions changed the later ones: {} instead of {}', got, sorted(want))
        for goal, val in ((w.low, lambda sol: -sol['x'] - 2 * sol['y']), (w.high, lambda sol: 3 * sol['x'] - sol['y'])):
            for other in (0, 9, -9, None):
                prev = None
                for k, res in enumerate(itertools.islice(s.optimize(m, goal), 100)):
                    need(prev is None or val(res.solution) > prev, 'modifying the solutions of an optimization changed the later ones: {} after one of value {}', res.solution, prev)
                    prev = val(res.solution)
                    res.solution.update((n, other) for n in w.names if other is not None)
                    if other is None:
                        res.solution.clear()
                best = max(map(val, (dict(zip(w.names, sol)) for sol in want)), default=None)
                need(prev == best, 'modifying the solutions of an optimization changed its outcome: value {} instead of {}', prev, best)
        res = s.optimal_solution(m, w.low)
        if res.solution is not None:
            res.solution.clear()
    elif act == 'mutate container':
        for c in w.containers.values():
            c.reverse()
            c.append(99)
            del c[0]
    elif act == 'raising':
        w.raise_at = 3
        try:
            list(itertools.islice(s.solve(m, additional_constraints=[w.clocked]), 100))
        except KeyError:
            pass
        w.raise_at = None
    elif act == 'additional':
        list(itertools.islice(s.solve(m, additional_constraints=(w.built.constraint(E('<', V('x'), V('y'))), w.built.constraint(('const', False)))), 100))
    elif act == 'reuse additional':
        list(itertools.islice(s.solve(m, additional_constraints=[w.extra]), 100))
        list(itertools.islice(s.optimize(m, w.low, additional_constraints=[w.extra]), 100))
    elif act == 'mutate views':
        lst = list(m.constraints())
        del lst[:]
        for n in list(m.variables()):
            d = m.get_var_domain(n)
            if isinstance(d, list):
                d.clear()
        try:
            m.variables().clear()
        except (AttributeError, TypeError):
            pass
    elif act == 'other model':
        other = Model()
        a = other.add_int_variable((5, 6), name='x')
        b = other.add_int_variable((6, 7, 5), name='y')
        other.add_all_different_constraint([a, b])
        other.add_constraint(a < 6)
        list(itertools.islice(s.solve(other), 2))
        s.optimal_solution(other, w.high)
    elif act == 'unsolvable':
        m.set_solvable(False)
        list(itertools.islice(s.solve(m), 100))
        m.set_solvable(True)


def results(w, solver):
    from satisfy import Minimize, Maximize
    # the settings as they are, then explicit ones
    res = [('as set', tuple(csp.run(solver.solve(w.model), w.names, 100)), solver.get_stats().interrupt)]
    for comp in (True, False):
        for pol in ('GROUPS', 'ORDERED'):
            solver.compile_constraints = comp
            got = csp.run(solver.solve(w.model, var_selection_policy=csp.policy(pol)), w.names, 100)
            res.append((comp, pol, tuple(sorted(got, key=repr)), tuple(solver.get_stats()[::2])))
    solver.compile_constraints = True
    for obj, val in ((w.low, lambda s: s['x'] + 2 * s['y']), (w.high, lambda s: 3 * s['x'] - s['y'])):
        opt = solver.optimal_solution(w.model, obj)
        res.append((None if opt.solution is None else val(opt.solution), bool(opt.is_optimal)))
        res.append(tuple(solver.get_stats()[::2]))
    return res


def observe(name):
    from satisfy import Solver
    w = World(name)
    return results(w, Solver()), [x for x in w.declared() if x is not None][0:1], w.declared()[2:]


# a model without variables: its only solution is the empty one
EMPTY = ('all', 'first', 'optimum', 'optima', 'constant', 'close', 'other', 'interpreted', 'policy', 'mark', 'value')


def run_empty(first, ctx):
    from satisfy import Minimize, Model, Solver
    for history in itertools.product(EMPTY, repeat=4 if ctx.tier == 'thorough' else 3):
        history = (first,) + history + ('all', 'optimum', 'optima', 'all')
        m, s = Model(), Solver()
        p = m.add_parameter(2, name='p')
        goal = Minimize(p * 3 + 1)
        marked, pol, held = True, 0, []
        for k, act in enumerate(history):
            what = 'a model without variables after {}'.format(', '.join(history[:k + 1]))
            if act in ('all', 'first', 'close'):
                it = iter(s.solve(m))
                got = []
                for sol in itertools.islice(it, 1 if act != 'all' else 3):
                    got.append(dict(sol))
                    sol['x'] = k
                    if k % 2:
                        sol['p'] = 5
                if act == 'close':
                    it.close()
                held.append(it)
                need(got == [{}] * marked, '{}: the solutions are {}', what, got)
                need(s.get_stats().count == len(got), '{}: the statistics are {}', what, s.get_stats())
            elif act in ('optimum', 'optima'):
                if act == 'optimum':
                    res = [s.optimal_solution(m, goal)]
                    need(bool(res[0].is_optimal) == marked, '{}: {}', what, res[0])
                else:
                    res = list(itertools.islice(s.optimize(m, goal), 3))
                need([r.solution for r in res] == ([{}] if marked else [None] if act == 'optimum' else []), '{}: {}', what, res)
                for r in res:
                    if r.solution is not None:
                        r.solution['y'] = k
            elif act == 'constant':
                m.add_constraint(True)
            elif act == 'other':
                other = Model()
                other.add_int_variable((k, k + 1), name='x')
                need(list(itertools.islice(s.solve(other), 3)) == [{'x': k}, {'x': k + 1}], '{}: another model', what)
            elif act == 'interpreted':
                s.compile_constraints = not s.compile_constraints
            elif act == 'policy':
                pol += 1
                s.var_selection_policy = csp.policy(('ORDERED', 'GROUPS', 'MIN_BOUND', 'RANDOM')[pol % 4])
            elif act == 'mark':
                marked = not marked
                m.set_solvable(marked)
            else:
                p.value = p.value + k
            ctx.step()
        ctx.state(history)
        ctx.trace((marked, len(held)))


_fresh = {}
_oracle = {}


def cases(tier):
    for name in MODELS:
        _fresh[name] = pristine(lambda: observe(name))
    for first in EMPTY:
        yield ('empty', first)
    for name in MODELS:
        for first in ACTS:
            for second in ACTS:
                yield (name, first, second)


def run_case(case, ctx):
    from satisfy import Solver
    if case[0] == 'empty':
        return run_empty(case[1], ctx)
    name, first, second = case
    if name not in _fresh:
        _fresh[name] = pristine(lambda: observe(name))
    ok, fresh = _fresh[name]
    need(ok, 'the fresh model fails: {}', fresh)
    want = fresh[0]
    depth = depth_of(name, ctx.tier)
    for rest in [(first, second) * n for n in (4, 9)] + list(itertools.product(ACTS, repeat=depth - 2)):
        history = (first, second) + rest
        CLOCK.reset()
        w = World(name)
        with Shuffler((1, 0)):
            for act in history:
                do(w, act)
                ctx.step()
            need(settings(w.solver) == w.settings, '{} after {}: the settings of the solver became {}', name, history, settings(w.solver))
            for who, solver in (('the used solver', w.solver), ('a fresh solver', Solver())):
                got = results(w, solver)
                for a, b in zip(got, want):
                    need(a == b, '{} after {}: {} gives {}, a fresh model and solver {}', name, history, who, a, b)
        after = w.declared()
        need(after == w.before, '{} after {}: declared {} became {}', name, history, w.before, after)
        need(after[0] == fresh[1][0] and list(after[2:]) == list(fresh[2]), '{} after {}: declared {}, fresh {}', name, history, after, fresh[1:])
        ctx.state(history)
        ctx.trace((name, len(w.held)))
