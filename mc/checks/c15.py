"""C15: all histories of valid and invalid declarations up to a depth on the real model, against a reference model of
what must have been declared; after every operation everything observable is compared."""
import itertools

from mc import csp
from mc.core import need

PROPERTY = 'C15'
HORIZON = 300

GOOD_NAMES = ['x', 'y1', 'Z_9', 'x_', 'lambda', 'aé']
BAD_NAMES = ['', '_x', '1x', 'x y', 'x\n', 'x-', ' x', 'x:', '\nx', 'x.y', '_v1', '_p0', '*', 5]
# name, (maker of a fresh container, values or None if it must be rejected)
DOMAINS = {
    'list': (lambda: [0, 1], (0, 1)),
    'descending': (lambda: (2, 1, 0), (2, 1, 0)),
    'range': (lambda: range(1, 3), (1, 2)),
    'generator': (lambda: (v for v in (1, 0)), (1, 0)),
    'empty': (lambda: (), ()),
    'negative': (lambda: [-3, 0, 3], (-3, 0, 3)),
    'repeated': (lambda: [0, 0], None),
    'repeated apart': (lambda: (1, 2, 3, 1), None),
    'repeated in generator': (lambda: iter([2, 1, 2]), None),
    'equal values': (lambda: [1, True], None),
    'no iterable': (lambda: 5, None),
    'none': (lambda: None, None),
    'failing iterator': (lambda: failing(), None),
}


OMIT = '<omitted>'


def failing():
    yield 0
    raise KeyError('in the middle')


def ops(tier):
    res = []
    # names x a valid domain
    for name in GOOD_NAMES + BAD_NAMES + [None]:
        res.append(('int', name, 'list'))
    for dom in DOMAINS:
        if dom != 'list':
            res.append(('int', 'x', dom))
            res.append(('int', None, dom))
    # the name not given at all
    res += [('int', OMIT, 'list'), ('int', OMIT, 'repeated'), ('bool', OMIT, None), ('par', OMIT, 3)]
    res += [('int', '_x', 'repeated'), ('bool', 'x', None), ('bool', None, None), ('bool', 'x:', None)]
    for name in ('x', 'y1', None, '_p', 'p q', 'x\n'):
        res.append(('par', name, 3))
    res += [('con', k, None) for k in CONSTRAINTS]
    return res


# constraints: maker(world) -> what is passed; the variables it depends on; does it denote a constraint at all; semantics
CONSTRAINTS = {
    'x>0': (lambda w: w.var('x') > 0, ('x',), lambda s: s['x'] > 0),
    'x!=y1': (lambda w: w.var('x') != w.var('y1'), ('x', 'y1'), lambda s: s['x'] != s['y1']),
    'foreign': (lambda w: w.foreign('q') > 0, ('q',), None),
    'mixed foreign': (lambda w: w.var('x') + w.foreign('q') > 0, ('x', 'q'), None),
    'true': (lambda w: True, (), lambda s: True),
    'custom x': (lambda w: csp.custom_constraint('small', ('x',)), ('x',), lambda s: abs(s['x']) <= 2),
    'custom q': (lambda w: csp.custom_constraint('small', ('x', 'q')), ('x', 'q'), None),
    'named y1': (lambda w: w.foreign('y1') > 0, ('y1',), lambda s: s['y1'] > 0),
    'ad constraint': (lambda w: ad_constraint(['y1', 'x']), ('x', 'y1'), lambda s: s['x'] != s['y1']),
    'string': (lambda w: 'x > 0', None, None),
    'none': (lambda w: None, None, None),
    'float': (lambda w: 1.5, None, None),
    'list': (lambda w: [True], None, None),
    'ad x y1': (lambda w: AD([w.var('x'), w.var('y1')]), ('x', 'y1'), lambda s: s['x'] != s['y1']),
    'ad foreign': (lambda w: AD([w.var('x'), w.foreign('q'), w.var('y1')]), ('x', 'q', 'y1'), None),
    'ad number': (lambda w: AD([w.var('x'), 3]), None, None),
    'ad iterator': (lambda w: AD(iter([w.var('x'), w.var('y1')])), ('x', 'y1'), lambda s: s['x'] != s['y1']),
    'ad none': (lambda w: AD(None), None, None),
}


# constraints that name variables instead of mentioning the declared objects
BY_NAME = ('custom x', 'custom q', 'named y1', 'ad constraint')


def ad_constraint(names):
    from satisfy.constraint import AllDifferentConstraint
    return AllDifferentConstraint(names)


class AD:
    def __init__(self, variables):
        self.variables = variables


def bounds(tier):
    o = ops(tier)
    return dict(operations=len(o), valid_names=GOOD_NAMES, invalid_names=BAD_NAMES, domains=sorted(DOMAINS), constraints=sorted(CONSTRAINTS),
                depth='all histories of length {}'.format(3) + (' and of length 4 over {} operations'.format(len(core_ops()))),
                periodic='every sequence of 3 of the {} operations, 14 times over, compared after every operation'.format(len(core_ops())),
                similar='{} similar names, three at a time, as variables and parameters'.format(len(SIMILAR)),
                views='attempts to change the model through every view after every history of length <= 2', tier=tier)


def core_ops():
    return [('int', 'x', 'list'), ('int', 'x', 'repeated'), ('int', None, 'descending'), ('int', None, 'repeated'), ('int', '_v1', 'list'),
            ('int', 'y1', 'generator'), ('par', 'x', 3), ('par', None, 3), ('con', 'x!=y1', None), ('con', 'mixed foreign', None),
            ('con', 'ad foreign', None), ('con', 'x>0', None), ('bool', None, None), ('con', 'custom q', None), ('con', 'ad x y1', None), ('con', 'named y1', None), ('par', 'y1', 2)]


def cases(tier):
    o = ops(tier)
    for a in range(len(o)):
        yield ('all', a)
    for a in range(len(core_ops())):
        yield ('core', a)
    for a in range(len(VALUES)):
        yield ('domain', a)
    for a in range(len(o)):
        yield ('views', a)
    for a in range(len(SIMILAR)):
        yield ('names', a)
    for a in range(len(core_ops())):
        for b in range(len(core_ops())):
            yield ('periodic', a, b)


class World:
    def __init__(self):
        from satisfy import Model
        self.model = Model()
        self.order = []            # names in order of declaration
        self.info = {}             # name -> (kind, domain or value, object)
        self.sem = []              # semantics of the accepted constraints
        self.cvars = []

    def var(self, name):
        from satisfy.expression import Variable
        return self.info[name][2] if name in self.info else Variable(name)

    def foreign(self, name):
        from satisfy import Model
        return Model().add_int_variable([0, 1], name=name)

    def do(self, op, history):
        kind, name, arg = op
        if kind == 'con':
            return self.add_constraint(name, history)
        kw = dict(name=name)
        if name == OMIT:
            kw, name = {}, None
        if kind == 'int':
            make, values = DOMAINS[arg]
        else:
            make, values = None, (0, 1)
        good = values is not None and (name is None or (name in GOOD_NAMES and name not in self.info))
        try:
            if kind == 'int':
                obj = self.model.add_int_variable(make(), **kw)
            elif kind == 'bool':
                obj = self.model.add_bool_variable(**kw)
            else:
                obj = self.model.add_parameter(arg, **kw)
        except Exception as e:
            need(not good, '{}: {} raises {!r}', history, op, e)
            return 'rejected'
        need(good, '{}: {} is accepted', history, op)
        if name is not None:
            need(obj.name == name, '{}: {} creates a variable named {!r}', history, op, obj.name)
        need(obj.name not in self.info, '{}: {} gives the name {!r}, which is already used', history, op, obj.name)
        need(obj.name not in GOOD_NAMES or name is not None, '{}: automatic name {!r} is one that a user could choose', history, obj.name)
        self.order.append(obj.name)
        self.info[obj.name] = ('par', arg, obj) if kind == 'par' else ('var', values, obj)
        return 'accepted'

    def add_constraint(self, name, history):
        make, names, sem = CONSTRAINTS[name]
        value = make(self)
        # parameters count as declared and do not belong to the variables of an expression
        good = names is not None and all(n in self.info for n in names)
        if name in ('ad x y1', 'ad iterator') and any(self.info.get(n, ('',))[0] == 'par' for n in names):
            return 'skipped'       # all-different on parameters: decided in C10
        if name in BY_NAME and good:
            # they name their variables; a parameter is none
            good = all(self.info[n][0] == 'var' for n in names)
        try:
            if isinstance(value, AD):
                self.model.add_all_different_constraint(value.variables)
            else:
                self.model.add_constraint(value)
        except Exception as e:
            need(not good, '{}: constraint {} raises {!r}', history, name, e)
            return 'rejected'
        need(good, '{}: constraint {} is accepted', history, name)
        self.sem.append(sem)
        self.cvars.append(frozenset(n for n in names if self.info[n][0] == 'var'))
        return 'accepted'

    def compare(self, history):
        m = self.model
        view = m.variables()
        names = list(view)
        need(names == self.order, '{}: declared {} instead of {}', history, names, self.order)
        need(len(view) == len(self.order), '{}: {} variables', history, len(view))
        for n in names:
            kind, value, obj = self.info[n]
            need(view[n].variable is obj and m.get_variable(n) is obj, '{}: {} is not the declared variable', history, n)
            need(obj.name == n, '{}: variable {} is named {}', history, n, obj.name)
            if kind == 'par':
                need(view[n].domain is None and m.get_var_domain(n) is None, '{}: parameter {} has domain {}', history, n, view[n].domain)
                need(obj.value == value, '{}: parameter {} is {}', history, n, obj.value)
            else:
                need(tuple(view[n].domain) == value, '{}: domain of {} is {} instead of {}', history, n, view[n].domain, value)
                need(tuple(m.get_var_domain(n)) == value and tuple(m.get_var_domain(obj)) == value, '{}: domain of {} is {} instead of {}', history, n, m.get_var_domain(n), value)
        got = [frozenset(c.vars()) for c in m.constraints()]
        need([c for c in got if c] == [c for c in self.cvars if c], '{}: constraints on {} instead of {}', history, got, self.cvars)

    def solve(self, history):
        from satisfy import Solver
        names = [n for n in self.order if self.info[n][0] == 'var']
        fixed = {n: self.info[n][1] for n in self.order if self.info[n][0] == 'par'}
        want = set()
        for vals in itertools.product(*(self.info[n][1] for n in names)):
            env = dict(fixed, **dict(zip(names, vals)))
            if all(sem(env) for sem in self.sem):
                want.add(vals)
        if not names and not all(sem(fixed) for sem in self.sem):
            want = set()
        got = csp.run(Solver().solve(self.model), names, 400)
        need(len(got) == len(want) and set(got) == want, '{}: solutions {} instead of {}', history, got, sorted(want))
        return len(want)


def run_history(history, ctx, every):
    w = World()
    outcome = []
    for op in history:
        outcome.append(w.do(op, history))
        ctx.step()
        if every:
            w.compare(history)
    w.compare(history)
    if every or any(op[0] == 'con' for op in history):
        outcome.append(w.solve(history))
    ctx.state(history)
    ctx.trace((tuple(outcome), len(w.order)))
    return w


def attempts(w):
    """Ways in which a user could try to change the model through what it hands out."""
    m = w.model
    view = m.variables()
    yield 'view.clear()', lambda: view.clear()
    yield 'view.pop', lambda: view.pop(next(iter(view)))
    yield 'view[...] =', lambda: view.__setitem__('new', None)
    yield 'del view[...]', lambda: view.__delitem__(next(iter(view)))
    yield 'view.update', lambda: view.update({'new': None})
    yield 'view.move_to_end', lambda: view.move_to_end(next(iter(view)))
    yield 'constraints clear', lambda: m.constraints().clear()
    yield 'constraints append', lambda: m.constraints().append(None)
    yield 'constraints pop', lambda: m.constraints().pop()
    for n in list(view):
        yield 'info.domain =', lambda: setattr(view[n], 'domain', (7,))
        yield 'info.variable =', lambda: setattr(view[n], 'variable', None)
        for what, get in (('domain', lambda: view[n].domain), ('get_var_domain', lambda: m.get_var_domain(n))):
            yield what + '.append', lambda: get().append(9)
            yield what + '.clear', lambda: get().clear()
            yield what + '[0] =', lambda: get().__setitem__(0, 9)
            yield what + '.sort', lambda: get().sort(reverse=True)
        yield 'variable.name =', lambda: setattr(view[n].variable, 'name', 'other')


VALUES = (0, 1, -1, 2, -2, True, 300, -300, 2 ** 70, -2 ** 70)


_LONG = 'a' * 40
SIMILAR = ('x', 'X', 'x_', 'x1', 'x10', 'x01', 'xx', 'v0', 'x__v0', 'a\u00e9', 'ae', 'x\u00aa', 'xa', _LONG, _LONG + 'a', _LONG + '_1', _LONG + '_2', 'A' * 40, 'a' * 300, 'None', 'none')


def names(first, ctx):
    """Similar names, three at a time: rejected exactly if they are equal to an earlier one."""
    from satisfy import Model
    for rest in itertools.product(SIMILAR, repeat=2):
        given = (SIMILAR[first],) + rest
        m = Model()
        want = []
        for k, name in enumerate(given):
            kind = (k + first + len(rest[0])) % 3
            try:
                if kind == 0:
                    made = m.add_int_variable([k, k + 1], name=name)
                elif kind == 1:
                    made = m.add_bool_variable(name=name)
                else:
                    made = m.add_parameter(k, name=name)
            except ValueError:
                made = None
            need((made is None) == (name in [n for n, _ in want]), 'names {}: {} is {}', given, name, 'rejected' if made is None else 'accepted')
            if made is not None:
                want.append((name, [(k, k + 1), (0, 1), None][kind]))
                need(made.name == name, 'names {}: declared as {}', given, made.name)
            got = [(n, info.domain) for n, info in m.variables().items()]
            need(got == want, 'names {}: variables are {} instead of {}', given, got, want)
            ctx.step()
        ctx.state(given)
    ctx.trace(SIMILAR[first])


def domains(first, ctx):
    """Every domain of up to 4 values: accepted exactly if they are distinct."""
    from satisfy import Model
    for n in range(4):
        for rest in itertools.product(VALUES, repeat=n):
            values = (first,) + rest
            m = Model()
            # equal integers that are distinct objects
            given = [int(str(int(v))) if v is not True else v for v in values]
            given = (list, tuple, iter)[n % 3](given)
            good = all(a != b for a, b in itertools.combinations(values, 2))
            try:
                m.add_int_variable(given, name='x')
                accepted = True
            except ValueError:
                accepted = False
            need(accepted == good and len(m.variables()) == accepted, 'domain {}: {}', values, 'accepted' if accepted else 'rejected')
            if good:
                need(m.get_var_domain('x') == values, 'domain {} is {}', values, m.get_var_domain('x'))
            ctx.step()
        ctx.state(first, n)
    ctx.trace(str(first))


def run_case(case, ctx):
    if case[0] == 'domain':
        return domains(VALUES[case[1]], ctx)
    if case[0] == 'names':
        return names(case[1], ctx)
    o = ops(ctx.tier)
    if case[0] == 'core':
        c = core_ops()
        for rest in itertools.product(c, repeat=3 if ctx.tier == 'quick' else 4):
            run_history((c[case[1]],) + rest, ctx, False)
        return
    if case[0] == 'periodic':
        c = core_ops()
        for third in c:
            w = World()
            history = (c[case[1]], c[case[2]], third) * 14
            for k, op in enumerate(history):
                outcome = w.do(op, history[:k + 1])
                w.compare(history[:k + 1])
                ctx.step()
                ctx.state(third, k)
            total = 1
            for n in w.order:
                total *= len(w.info[n][1]) if w.info[n][0] == 'var' else 1
            if total <= 300:
                w.solve(history)
            ctx.trace((outcome, len(w.order)))
        return
    if case[0] == 'all':
        for b in o:
            run_history((o[case[1]], b), ctx, True)
            for c in o:
                run_history((o[case[1]], b, c), ctx, False)
        return
    for b in o:
        w = run_history((o[case[1]], b), ctx, False)
        for what, fun in attempts(w):
            try:
                fun()
            except Exception:
                pass
            w.compare('{} then {}'.format((o[case[1]], b), what))
            ctx.step()
        w.solve('{} then attempts to change it through the views'.format((o[case[1]], b)))
        ctx.trace('views')
