"""Batch e: printed forms (C30)."""
BUGS = []
def bug(id, property, edits, demo, needs, breaks, also=()):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, also=also))

S, X, M, C, O, U = 'solver.py', 'expression.py', 'model.py', 'constraint.py', 'objective.py', 'utils.py'
DU = 'tool/demo_utils.py'

bug('c30-same-operator', 'C30', [(X, '''        return "({} {} {})".format(self.left_operand, self.__symbol__, self.right_operand)
''', '''        left, right = str(self.left_operand), str(self.right_operand)
        if type(self.right_operand) is type(self):
            right = right[1:-1]
        return "({} {} {})".format(left, self.__symbol__, right)
''')], '''
from satisfy.expression import Variable
x, y, z = (Variable(n) for n in 'xyz')
assert eval(str(x - (y - z)), dict(x=5, y=3, z=1)) == 3
''', 'an operator that is not associative nested in its own right operand', 'the text of x - (y - z) denotes (x - y) - z')

bug('c30-prod-of-sums', 'C30', [(X, '''        values.extend(convert(e) for e in self)
        if len(values) == 0:''', '''        values.extend(convert(e) if convert is not str or not isinstance(e, BinOp) else str(e)[1:-1] for e in self)
        if len(values) == 0:''')], '''
from satisfy.expression import Variable, Prod
x, y, z = (Variable(n) for n in 'xyz')
assert eval(str(Prod([x + y, z])), dict(x=1, y=2, z=3)) == 9
''', 'a product of exactly two operands, one of which is a sum', 'the text of (x + y) * z lacks parentheses')

bug('c30-repr-const', 'C30', [(X, '''            ", ".join(repr(e) for e in self),
            self._const)
''', '''            ", ".join(repr(e) for e in self),
            self._const or self.__neutral_element__)
''')], '''
from satisfy.expression import *
from satisfy.expression import Prod, Variable, Sum
x, y, z = (Variable(n) for n in 'xyz')
p = Prod([x, y, z], const=0)
assert eval(repr(p)).evaluate(dict(x=1, y=2, z=3)) == p.evaluate(dict(x=1, y=2, z=3))
''', 'a product built with the constant zero', 'the representation denotes a product with the constant one')

bug('c30-cached-repr', 'C30', [(X, '''    def __repr__(self):
        return "{}({})".format(
            type(self).__name__,
            ", ".join(repr(expr) for expr in self._expressions))
''', '''    def __repr__(self):
        text = self.__dict__.get('_text')
        if text is None:
            text = self._text = "{}({})".format(
                type(self).__name__,
                ", ".join(repr(expr) for expr in self._expressions))
        return text
''')], '''
from satisfy.expression import *
from satisfy.expression import Variable, Parameter, Gt, Lt
p = Parameter('p', 1)
e = Variable('x') < p
repr(e)
p.value = 5
assert eval(repr(e)).evaluate(dict(x=3))
''', 'printing an expression before and after changing its parameter', 'the second representation has the old value')

bug('c30-listed-once', 'C30', [(DU, '''    for c_index, constraint in enumerate(model.constraints()):
''', '''    for c_index, constraint in enumerate(sorted(model.constraints(), key=lambda c: len(c.vars()), reverse=True)):
''')], '''
import io, contextlib
from satisfy import Model
from satisfy.tool.demo_utils import print_model
m = Model()
x, y = m.add_int_variable(domain=[1, 2], name='x'), m.add_int_variable(domain=[1, 2], name='y')
m.add_constraint(x > 1)
m.add_constraint(x < y)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    print_model(m)
assert out.getvalue().index('(x > 1)') < out.getvalue().index('(x < y)')
''', 'constraints declared in an order other than that of their number of variables', 'the listing is not in the sequence of declaration')

bug('c30-domain-range', 'C30', [(DU, '''        print(" {:4d}) {!r} domain: {}".format(var_index, var_name, var_info.domain))
''', '''        domain = var_info.domain
        if domain is not None and len(domain) == domain[-1] - domain[0] + 1:
            domain = tuple(range(domain[0], domain[-1] + 1))
        print(" {:4d}) {!r} domain: {}".format(var_index, var_name, domain))
''')], '''
import io, contextlib
from satisfy import Model
from satisfy.tool.demo_utils import print_model
m = Model()
m.add_int_variable(domain=[0, 3, 2], name='x')
out = io.StringIO()
with contextlib.redirect_stdout(out):
    print_model(m)
assert '(0, 3, 2)' in out.getvalue()
''', 'an unsorted domain with as many values as its ends span', 'the listed domain is another one')

bug('c30-str-sorted', 'C30', [(X, '''        return "({} {} {})".format(self.left_operand, self.__symbol__, self.right_operand)
''', '''        operands = [self.left_operand, self.right_operand]
        if self.is_commutative() or isinstance(self, Pow):
            operands.sort(key=str)
        return "({} {} {})".format(operands[0], self.__symbol__, operands[1])
''')], '''
from satisfy.expression import Variable
x, y = Variable('x'), Variable('y')
assert eval(str(y ** x), dict(x=3, y=2)) == 8
''', 'a power whose exponent comes first in the alphabet', 'the text has base and exponent exchanged')
