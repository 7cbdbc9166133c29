"""Executions of the real solver on a virtual clock.

Time passes only (a) inside evaluations of user constraints, which the search performs, and (b) while the
consumer has control.  A schedule says how much at each evaluation and at each pause, so the search time
of every execution is known exactly to the harness."""
from . import csp
from .clock import CLOCK

E = csp.E
V = lambda n: ('v', n)
D2, D3, D4 = (0, 1), (0, 1, 2), (0, 1, 2, 3)


def m(doms, *cons):
    return (tuple((n, d, 'tuple') for n, d in zip('xyzwabcd', doms)), (), cons)


# unary constraints of a model are applied before the search starts: here they are additional ones
MODELS = {
    'two': m((D3, D3), ('custom', 'nondec', ('x', 'y'))),
    'three': m((D2, D3, D2), ('custom', 'parity', ('x', 'y', 'z')), ('custom', 'nondec', ('x', 'y'))),
    'late': m((D3, D3, D2), ('custom', 'small', ('x', 'y')), E('==', ('+', ('+', V('x'), V('y')), V('z')), ('i', 3))),
    'none': m((D3, D3, D3), ('custom', 'nondec', ('x', 'y')), ('custom', 'parity', ('y', 'z')), E('>', V('x'), V('y'))),
    'ad': m((D3, D3, D3), ('ad', ('x', 'y', 'z')), ('custom', 'parity', ('x', 'z'))),
    'deep none': m((D3, D3, D3, D2), ('custom', 'nondec', ('x', 'y')), E('<', V('w'), ('-', V('w'), V('z')))),
    'one': m((D4, D4), ('custom', 'parity', ('x', 'y')), E('==', ('+', V('x'), V('y')), ('i', 6))),
    'single additional': m(((0, 1, 2, 3, -1, -2),), E('!=', V('x'), ('i', 7))),
    'single none': m(((0, 1, 2, 3, -1),), E('!=', V('x'), ('i', 7))),
    'additional': m((D3, D3), E('!=', V('x'), V('y'))),
}
# longer searches: hundreds of evaluations, many solutions, solutions late or none
LONG = {
    'deep': m((D2,) * 8, ('custom', 'parity', tuple('xyzwabcd'))),
    'deepest none': m((D2,) * 7, ('custom', 'parity', tuple('xyzwabc')), ('custom', 'odd', tuple('xyzwabc'))),
    'deep some': m((D2,) * 6, ('custom', 'parity', tuple('xyzwab'))),
    'many': m((tuple(range(300)), (-1,)), ('custom', 'nondec', ('y', 'x'))),
    'many below': m(((0, 1), tuple(range(150))), ('custom', 'nondec', ('x', 'y'))),
    'long some': m((tuple(range(8)), tuple(range(7, -1, -1)), (1, 0)), ('custom', 'parity', ('x', 'y', 'z')), E('<', V('x'), V('y'))),
    'long late': m((tuple(range(12)), tuple(range(12))), ('custom', 'nondec', ('x', 'y')), E('>', ('+', V('x'), V('y')), ('i', 21))),
    'long none': m((tuple(range(10)), tuple(range(10)), (0, 1)), ('custom', 'nondec', ('x', 'y')), E('<', V('y'), ('-', V('z'), ('i', 1)))),
}
ADDITIONAL = {'additional': (('custom', 'nondec', ('x', 'y')),), 'three': (), 'single additional': (('custom', 'small', ('x',)),),
              'single none': (('custom', 'small', ('x',)), ('const', False)),
              'deep some': (('custom', 'nondec', ('x', 'y')), ('custom', 'small', ('z', 'w', 'a')))}


def model_of(name):
    return MODELS[name] if name in MODELS else LONG[name]


class Run:
    """One controlled iteration; `advance` maps the index of an evaluation to a delay."""

    def __init__(self, name, advance=None, on_exceed=None):
        self.spec = model_of(name)
        self.names = tuple(v[0] for v in self.spec[0])
        self.advance = advance or (lambda k: 0)
        self.evaluations = 0
        self.search = 0.0          # time spent while the solver has control
        self.control = False
        self.exceeded_at = None
        self.timeout = None
        self.built = csp.Built(self.spec, on_evaluate=self.evaluate)
        self.model = self.built.model
        self.additional = [self.built.constraint(c) for c in ADDITIONAL.get(name, ())]
        self.yields_after = 0
        self.watch = None          # called at the beginning of every evaluation

    def evaluate(self):
        if not self.control:
            return
        if self.watch is not None:
            self.watch()
        dt = self.advance(self.evaluations)
        self.evaluations += 1
        if dt:
            CLOCK.advance(dt)
            self.search += dt
            if self.timeout is not None and self.exceeded_at is None and self.search > self.timeout:
                self.exceeded_at = self.evaluations

    def next(self, it):
        """Gives control to the solver; returns the value tuple, or None at the end."""
        self.control = True
        try:
            item = next(it)
        except StopIteration:
            return None
        finally:
            self.control = False
        if self.exceeded_at is not None:
            self.yields_after += 1
        item = getattr(item, 'solution', item)
        return csp.key_of(item, self.names)


def start(run, solver, mode, **args):
    from satisfy import Minimize, Maximize
    if run.additional:
        args['additional_constraints'] = list(run.additional)
    if mode == 'solve':
        return iter(solver.solve(run.model, **args))
    objs = [run.built.objs[('v', n)] for n in run.names]
    if mode == 'max':
        return iter(solver.optimize(run.model, Maximize(sum(objs[1:], objs[0])), **args))
    return iter(solver.optimize(run.model, Minimize(2 * objs[0] - objs[-1]), **args))
