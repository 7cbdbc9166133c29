From df223ed63178208ffa59763227474e9b309b4550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 01/47] fix: parenthesise "or" and "not" in compiled
 expressions

---
 src/satisfy/expression.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 0a99ed8..ad25c8f 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -600,9 +600,6 @@ class Or(BinOp):
     def _op(self, left_value, right_value):
         return left_value or right_value
 
-    def py_expr(self):
-        return "{} or {}".format(self._expressions[0].py_expr(), self._expressions[1].py_expr())
-
 
 class Not(UnOp):
     __symbol__ = '^'
@@ -615,7 +612,7 @@ class Not(UnOp):
         return "^{}".format(self._expressions[0])
 
     def py_expr(self):
-        return "not {}".format(self._expressions[0].py_expr())
+        return "(not {})".format(self._expressions[0].py_expr())
 
 
 class Accumulation(Collection):
-- 
2.43.0


From ce5e272e33676cf30e037747372bd75aa38b882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:05 +0000
Subject: [PATCH 02/47] fix: compile the operand of negation and abs instead of
 its display form

---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index ad25c8f..6cbc947 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -438,7 +438,7 @@ class Neg(UnOp):
         return "-({})".format(self.operand)
 
     def py_expr(self):
-        return str(self)
+        return "(-{})".format(self.operand.py_expr())
 
 
 class Abs(UnOp):
@@ -449,7 +449,7 @@ class Abs(UnOp):
         return "abs({})".format(self.operand)
 
     def py_expr(self):
-        return str(self)
+        return "abs({})".format(self.operand.py_expr())
 
 
 class BinOp(Collection):
-- 
2.43.0


From f36578e7c7cc1a5eb2878ea5bb472cdb771b28f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:06 +0000
Subject: [PATCH 03/47] fix: parenthesise constants, parameters, sums and
 products in compiled expressions

---
 src/satisfy/expression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 6cbc947..d82165a 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -222,7 +222,7 @@ class Const(Expression):
         return str(self._value)
 
     def py_expr(self):
-        return str(self)
+        return "({})".format(self._value)
 
     def __add__(self, other):
         if self._value == 0:
@@ -703,7 +703,7 @@ class Sum(Accumulation):
         return self._as_str(op='+', fun='sum')
 
     def py_expr(self):
-        return self._as_str(op='+', fun='sum', convert=lambda x: x.py_expr())
+        return "({})".format(self._as_str(op='+', fun='sum', convert=lambda x: x.py_expr()))
 
 
 class Prod(Accumulation):
@@ -725,7 +725,7 @@ class Prod(Accumulation):
         return self._as_str(op='*', fun='prod')
 
     def py_expr(self):
-        return self._as_str(op='*', fun='prod', convert=lambda x: x.py_expr())
+        return "({})".format(self._as_str(op='*', fun='prod', convert=lambda x: x.py_expr()))
 
 
 class Variable(Expression):
@@ -786,4 +786,4 @@ class Parameter(Variable):
         return self._value
 
     def py_expr(self):
-        return str(self._value)
+        return "({})".format(self._value)
-- 
2.43.0


From f570e5f1973448d829c5a3a796614343dbb15556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:07 +0000
Subject: [PATCH 04/47] fix: call the fallback of a failed compilation like a
 compiled function

---
 src/satisfy/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index d82165a..c229400 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -69,7 +69,7 @@ class Expression(abc.ABC):
             return self.compile_py_function()
         except:
             LOG.exception("compilation of py function failed:")
-        return self.evaluate
+        return lambda **substitution: self.evaluate(substitution)
 
     @abc.abstractmethod
     def py_expr(self):
-- 
2.43.0


From 40e1587b8d9c625a417e94c909ec82fa60412cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 05/47] fix: do not let variables named sum, prod or abs shadow
 the helpers of compiled expressions

---
 src/satisfy/expression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index c229400..1162407 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -58,7 +58,7 @@ class Expression(abc.ABC):
 
     def compile_py_function(self):
         py_source = self.py_source()
-        return eval(py_source, {'sum': sum, 'prod': prod})
+        return eval(py_source, {'__sum': sum, '__prod': prod, '__abs': abs})
         # def ff(substitution):
         #     print("///", sorted(substitution.items(), key=lambda x: x[0]))
         #     return fn(**substitution)
@@ -449,7 +449,7 @@ class Abs(UnOp):
         return "abs({})".format(self.operand)
 
     def py_expr(self):
-        return "abs({})".format(self.operand.py_expr())
+        return "__abs({})".format(self.operand.py_expr())
 
 
 class BinOp(Collection):
@@ -703,7 +703,7 @@ class Sum(Accumulation):
         return self._as_str(op='+', fun='sum')
 
     def py_expr(self):
-        return "({})".format(self._as_str(op='+', fun='sum', convert=lambda x: x.py_expr()))
+        return "({})".format(self._as_str(op='+', fun='__sum', convert=lambda x: x.py_expr()))
 
 
 class Prod(Accumulation):
@@ -725,7 +725,7 @@ class Prod(Accumulation):
         return self._as_str(op='*', fun='prod')
 
     def py_expr(self):
-        return "({})".format(self._as_str(op='*', fun='prod', convert=lambda x: x.py_expr()))
+        return "({})".format(self._as_str(op='*', fun='__prod', convert=lambda x: x.py_expr()))
 
 
 class Variable(Expression):
-- 
2.43.0


From 0ab448effbaba908a62a342a41713bc2fc9e0668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:33 +0000
Subject: [PATCH 06/47] fix: do not compile expressions whose variable names
 the parser would rewrite

---
 src/satisfy/expression.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 1162407..bad2184 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -2,6 +2,7 @@ import abc
 import functools
 import itertools
 import logging
+import unicodedata
 
 
 __all__ = [
@@ -53,6 +54,10 @@ class Expression(abc.ABC):
 
     def py_source(self):
         alist = list(self.vars())
+        for name in alist:
+            if unicodedata.normalize("NFKC", name) != name:
+                # the parser normalizes identifiers, keyword arguments are not
+                raise ValueError("variable name {!r} cannot be compiled".format(name))
         alist.append("**__dummy_kwargs")
         return "lambda {}: ({})".format(", ".join(alist), self.py_expr())
 
-- 
2.43.0


From f8b1ae9941239754f61c6dcfe9aee0ced32385c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:34 +0000
Subject: [PATCH 07/47] fix: short-circuit interpreted "&" and "|" like the
 compiled ones

---
 src/satisfy/expression.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index bad2184..561aed2 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -594,6 +594,9 @@ class And(BinOp):
     __symbol__ = '&'
     __py_symbol__ = 'and'
 
+    def evaluate(self, substitution):
+        return self._expressions[0].evaluate(substitution) and self._expressions[1].evaluate(substitution)
+
     def _op(self, left_value, right_value):
         return left_value and right_value
 
@@ -602,6 +605,9 @@ class Or(BinOp):
     __symbol__ = '|'
     __py_symbol__ = 'or'
 
+    def evaluate(self, substitution):
+        return self._expressions[0].evaluate(substitution) or self._expressions[1].evaluate(substitution)
+
     def _op(self, left_value, right_value):
         return left_value or right_value
 
-- 
2.43.0


From 8b85db472ae0adf5cc6b7a46ca77b7febeb7c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 08/47] fix: division of a number by an expression raised
 TypeError

---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 561aed2..c9a9899 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -167,10 +167,10 @@ class Expression(abc.ABC):
         return self.coerce(other) * self
 
     def __rdiv__(self, other):
-        return self.coerce(other) // self
+        return self.coerce(other) / self
 
     def __rtruediv__(self, other):
-        return self.coerce(other) // self
+        return self.coerce(other) / self
 
     def __rmod__(self, other):
         return self.coerce(other) % self
-- 
2.43.0


From f617fbbc24e9906d111a10f41e9f41346b44e18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:36 +0000
Subject: [PATCH 09/47] fix: structural equality compared operands by truth
 value and ignored the constant

---
 src/satisfy/expression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index c9a9899..613d727 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -335,7 +335,7 @@ class Collection(Expression):
         return False
 
     def equals(self, other):
-        return type(self) == type(other) and len(self) == len(other) and all(l_e == r_e for l_e, r_e in zip(self, other))
+        return type(self) == type(other) and len(self) == len(other) and all(l_e.equals(r_e) for l_e, r_e in zip(self, other))
 
     def __iter__(self):
         yield from self._expressions
@@ -672,6 +672,9 @@ class Accumulation(Collection):
     def op(cls, start, values):
         raise NotImplementedError()
 
+    def equals(self, other):
+        return super().equals(other) and self._const == other.const
+
     def evaluate(self, substitution):
         return self.op(self._const, (e.evaluate(substitution) for e in self._expressions))
 
-- 
2.43.0


From dba223b0c59c4aca679c7a4451a5d8b4ee6f9f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 10/47] fix: Parameter.free_vars did not accept a substitution

---
 src/satisfy/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 613d727..cf34a10 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -790,7 +790,7 @@ class Parameter(Variable):
     def value(self, v):
         self._value = v
 
-    def free_vars(self):
+    def free_vars(self, substitution):
         yield from ()
 
     def vars(self):
-- 
2.43.0


From f7d66391d2a4c3e386d58ce9481c053c46d65524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 11/47] fix: Model.set_solvable had no effect

---
 src/satisfy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index dc1f2dd..743890a 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -93,7 +93,7 @@ class Model(object):
         return self._variables[name].variable
 
     def set_solvable(self, solvable):
-        self.__unsolvable = True
+        self.__solvable = bool(solvable)
 
     def add_constraint(self, constraint):
         if isinstance(constraint, bool):
-- 
2.43.0


From abf0176eb5255367f87d0a0984f018ceb8dbcb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 12/47] fix: accept constraints that constant folding reduced
 to an integer

---
 src/satisfy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index 743890a..b1b8a47 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -96,7 +96,7 @@ class Model(object):
         self.__solvable = bool(solvable)
 
     def add_constraint(self, constraint):
-        if isinstance(constraint, bool):
+        if isinstance(constraint, (bool, int)):
             constraint = ConstConstraint(constraint)
         elif isinstance(constraint, Expression):
             constraint = ExpressionConstraint(constraint)
-- 
2.43.0


From 4d3ea0bbe3b59705e977c983d8b96c9a79a4f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:39 +0000
Subject: [PATCH 13/47] fix: keep a private copy of the domain of a variable

---
 src/satisfy/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index b1b8a47..ce3ce63 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -75,6 +75,7 @@ class Model(object):
         return parameter
 
     def add_int_variable(self, domain, *, name=None):
+        domain = tuple(domain)
         values = set()
         for value in domain:
             if value in values:
-- 
2.43.0


From 652eb2f86838e2be156752f737bc5159c9e82f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 14/47] fix: do not accept variable names ending with a newline

---
 src/satisfy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index ce3ce63..c2799be 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -27,7 +27,7 @@ VariableInfo = collections.namedtuple("VariableInfo", "variable domain")
 
 
 class Model(object):
-    __re_name__ = re.compile(r'^[a-zA-Z]\w*$')
+    __re_name__ = re.compile(r'^[a-zA-Z]\w*\Z')
 
     def __init__(self):
         self._variables = collections.OrderedDict()
-- 
2.43.0


From ef3218653c20cebd7bee40fe451bcf58cb7d9b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 15/47] fix: constraints on parameters only were evaluated once
 and for all when added

---
 src/satisfy/model.py  | 5 ++---
 src/satisfy/solver.py | 4 +++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index c2799be..eb9f060 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -36,7 +36,8 @@ class Model(object):
         self.__solvable = True
 
     def solvable(self):
-        return self.__solvable
+        return self.__solvable and all(
+            constraint.evaluate({}) for constraint in self._constraints if not constraint.vars())
 
     def variables(self):
         return self._variables_proxy
@@ -108,10 +109,8 @@ class Model(object):
             value = constraint.evaluate({})
             if value:
                 LOG.warning("constraint {} is always satisfied".format(constraint))
-                return
             else:
                 LOG.warning("constraint {} is never satisfied - model is marked as not solvable".format(constraint))
-                self.__solvable = False
         for var_name in var_names:
             if var_name not in self._variables:
                 raise ValueError("constraint {} depends on undefined variable {}".format(constraint, var_name))
diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 82e525d..056f87c 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -102,9 +102,11 @@ class Solver(object):
         var_groups = collections.defaultdict(list)
         compile_constraints = self._compile_constraints
         for constraint in itertools.chain(model.constraints(), additional_constraints):
+            c_vars = constraint.vars()
+            if not c_vars:
+                continue
             if compile_constraints:
                 constraint.compile()
-            c_vars = constraint.vars()
             for var_name in c_vars:
                 if var_name in pure_variables:
                     var_bounds[var_name] += len(c_vars) - 1
-- 
2.43.0


From 6885cb9605487674189b5be2123c688b1f40d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:43 +0000
Subject: [PATCH 16/47] fix: do not use a stale compiled function when
 compilation is turned off

---
 src/satisfy/constraint.py | 6 ++++++
 src/satisfy/solver.py     | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/satisfy/constraint.py b/src/satisfy/constraint.py
index 74d7931..474b671 100644
--- a/src/satisfy/constraint.py
+++ b/src/satisfy/constraint.py
@@ -35,6 +35,9 @@ class Constraint(abc.ABC):
     def compile(self):
         pass
 
+    def uncompile(self):
+        pass
+
     def is_compiled(self):
         return False
 
@@ -68,6 +71,9 @@ class ExpressionConstraint(Constraint):
     def compile(self):
         self._evaluate_function = self._expression.as_function()
 
+    def uncompile(self):
+        self._evaluate_function = None
+
     def evaluate_function(self):
         if self._evaluate_function is None:
             self._evaluate_function = self._expression.as_function()
diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 056f87c..d1e4e78 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -107,6 +107,8 @@ class Solver(object):
                 continue
             if compile_constraints:
                 constraint.compile()
+            else:
+                constraint.uncompile()
             for var_name in c_vars:
                 if var_name in pure_variables:
                     var_bounds[var_name] += len(c_vars) - 1
-- 
2.43.0


From 2656e21a85e539a6f7ff82dc24d505153360fab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 17/47] fix: optimize added two parameters to the model at
 every call

---
 src/satisfy/objective.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/satisfy/objective.py b/src/satisfy/objective.py
index 1abbebd..ff4cfe1 100644
--- a/src/satisfy/objective.py
+++ b/src/satisfy/objective.py
@@ -2,7 +2,7 @@ import abc
 import operator
 
 from .constraint import ExpressionConstraint
-from .expression import Expression
+from .expression import Expression, Parameter
 
 __all__ = [
     'Objective',
@@ -30,8 +30,8 @@ class Objective(abc.ABC):
 class MinMaxConstraint(ExpressionConstraint):
     def __init__(self, model, expression, op):
         self._model = model
-        self._not_set = model.add_parameter(1)
-        self._bound = model.add_parameter(0)
+        self._not_set = Parameter("_not_set", 1)
+        self._bound = Parameter("_bound", 0)
         super().__init__(self._not_set | op(expression, self._bound))
 
     def set_bound(self, value):
-- 
2.43.0


From f45ae6110927b973c6734d21f7e135e19aa85053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:46 +0000
Subject: [PATCH 18/47] fix: check additional constraints again after they are
 tightened

Optimization could return a worse solution than one already found and
declare it optimal; additional constraints without variables were ignored.
---
 src/satisfy/solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index d1e4e78..567d1c1 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -121,7 +121,7 @@ class Solver(object):
                     for var_name in c_vars:
                         var_ad_constraints[var_name].update(v for v in c_vars if v != var_name)
             else:
-                if len(c_vars) == 1:
+                if len(c_vars) == 1 and constraint not in additional_constraints:
                     # single value constraint
                     var_name = next(iter(c_vars))
                     if var_name in pure_variables:
@@ -160,7 +160,7 @@ class Solver(object):
         timeout = args.get('timeout', self._timeout)
         limit = args.get('limit', self._limit)
         var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
-        additional_constraints = args.get('additional_constraints', ())
+        additional_constraints = tuple(args.get('additional_constraints', ()))
         # print("::: timeout=", timeout)
         # print("::: limit=", limit)
         # print("::: var_selection_policy=", var_selection_policy)
@@ -271,6 +271,9 @@ class Solver(object):
                 continue
             value = domain.pop(0)
             substitution[var_name] = value
+            # additional constraints can become tighter while solving:
+            if any(constraint.unsatisfied(substitution) for constraint in additional_constraints):
+                continue
             if unbound_vars:
                 stack.append((unbound_vars, substitution))
             else:
-- 
2.43.0


From cb1936451f5a1c295bd0250e53826a8804f8eaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 19/47] fix: accept INFINITY as timeout and limit of a single
 solve call

---
 src/satisfy/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 567d1c1..abe9bfe 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -165,6 +165,10 @@ class Solver(object):
         # print("::: limit=", limit)
         # print("::: var_selection_policy=", var_selection_policy)
         # print("::: additional_constraints=", additional_constraints)
+        if timeout is INFINITY:
+            timeout = None
+        if limit is INFINITY:
+            limit = None
         if not model.solvable():
             return
 
-- 
2.43.0


From a176ae6f183e462a8523604311f7e9e1e5f41236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 20/47] fix: a null limit returned one solution

---
 src/satisfy/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index abe9bfe..08d01c2 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -172,6 +172,10 @@ class Solver(object):
         if not model.solvable():
             return
 
+        if limit is not None and limit <= 0:
+            self._interrupt = "limit"
+            return
+
         model_info = self._setup(model, additional_constraints=additional_constraints)
         variables = model_info.variables
         var_constraints = model_info.var_constraints
-- 
2.43.0


From 5cf719e4713dbd7a8376092b9d9e89401f1fbeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 21/47] fix: elapsed time did not include the search after the
 last solution

---
 src/satisfy/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 08d01c2..7a4f9a6 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -240,6 +240,7 @@ class Solver(object):
             if timeout is not None:
                 cur_elapsed = timer.elapsed()
                 if cur_elapsed > timeout:
+                    timer.abort()
                     self._interrupt = "timeout"
                     return
 
@@ -296,6 +297,7 @@ class Solver(object):
                     return
                 timer.start()
                 continue
+        timer.abort()
 
     def _solve_forbidden(self, model, **args):
         timeout = args.get('timeout', self._timeout)
-- 
2.43.0


From 7a6432b75e7d1a35e3174c427e8b03eed123408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 22/47] fix: a model without variables has one solution, the
 empty substitution

---
 src/satisfy/solver.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 7a4f9a6..8ead1b0 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -218,9 +218,6 @@ class Solver(object):
         elif var_selection_policy is VarSelectionPolicy.MAX_CONSTRAINT:
             var_names = tuple(sorted(var_names, key=lambda x: len(var_constraints[x]), reverse=True))
 
-        if not var_names:
-            return
-
         # print("::: var_names=", var_names)
         # for var_name in var_names:
         #     print("::: var_name={}".format(var_name))
@@ -231,11 +228,18 @@ class Solver(object):
 
         stack = []
         domains = {}
-        stack.append((var_names, {}))
-
         timer = self._timer
         timer.start()
         num_solutions = 0
+        if var_names:
+            stack.append((var_names, {}))
+        elif not any(constraint.unsatisfied({}) for constraint in additional_constraints):
+            # no variables: the empty substitution is the only solution
+            timer.stop()
+            yield {}
+            if limit is not None and limit <= 1:
+                self._interrupt = "limit"
+            return
         while stack:
             if timeout is not None:
                 cur_elapsed = timer.elapsed()
-- 
2.43.0


From 94ffdbc93cf6bb7f034f3875c1fadd80110ff603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:44 +0000
Subject: [PATCH 23/47] fix: all-different constraints on parameters made the
 solver fail with KeyError

---
 src/satisfy/model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index eb9f060..0084449 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -117,7 +117,15 @@ class Model(object):
         self._constraints.append(constraint)
 
     def add_all_different_constraint(self, variables):
-        self.add_constraint(AllDifferentConstraint([var.name for var in variables]))
+        variables = tuple(variables)
+        parameters = [var for var in variables if isinstance(var, Parameter)]
+        self.add_constraint(AllDifferentConstraint([var.name for var in variables if not isinstance(var, Parameter)]))
+        for index, parameter in enumerate(parameters):
+            for other in variables:
+                if not isinstance(other, Parameter):
+                    self.add_constraint(other != parameter)
+            for other in parameters[index + 1:]:
+                self.add_constraint(other != parameter)
 
     def get_var_domain(self, var):
         if isinstance(var, Variable):
-- 
2.43.0


From e9520ece2607f0aac754a0021eb887f3f228810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 24/47] fix: sudoku schemas with conflicting givens had invalid
 solutions

---
 src/satisfy/sudoku.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/satisfy/sudoku.py b/src/satisfy/sudoku.py
index 6235b60..597e65d 100644
--- a/src/satisfy/sudoku.py
+++ b/src/satisfy/sudoku.py
@@ -55,6 +55,12 @@ class SudokuSolver(ModelSolver):
                                               block_neighbors[cell.block_index]):
                         c1.domain.discard(value)
 
+        for neighbors in itertools.chain(row_neighbors, col_neighbors, block_neighbors):
+            givens = [schema[c1.row_index][c1.col_index] for c1 in neighbors]
+            givens = [value for value in givens if value not in null_values]
+            if len(givens) != len(set(givens)):
+                model.set_solvable(False)
+
         row_variables = [[] for _ in range(size)]
         col_variables = [[] for _ in range(size)]
         block_variables = [[] for _ in range(size)]
-- 
2.43.0


From e2523c0143aebd91e0800380a1f7b710ffbffe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:46 +0000
Subject: [PATCH 25/47] fix: reject sudoku schemas with a wrong number of
 columns

---
 src/satisfy/sudoku.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/satisfy/sudoku.py b/src/satisfy/sudoku.py
index 597e65d..9d91d30 100644
--- a/src/satisfy/sudoku.py
+++ b/src/satisfy/sudoku.py
@@ -36,6 +36,8 @@ class SudokuSolver(ModelSolver):
         variables = []
 
         for row_index, row in enumerate(schema):
+            if len(row) != size:
+                raise ValueError("row {}: wrong column number {}".format(row_index, len(row)))
             block_offset = (row_index // block_size) * block_size
             for col_index, value in enumerate(row):
                 if value not in accepted_values:
-- 
2.43.0


From e0cfca32ccb77b374b74d86eaba20230a4c4324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:48 +0000
Subject: [PATCH 26/47] fix: cryptarithm option avoid_leading_zeros=False had
 no effect

---
 src/satisfy/cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/cryptarithm.py b/src/satisfy/cryptarithm.py
index da5a22d..1595bdf 100644
--- a/src/satisfy/cryptarithm.py
+++ b/src/satisfy/cryptarithm.py
@@ -30,7 +30,7 @@ class CryptarithmSolver(ModelSolver):
         variables = {}
         for m in word.finditer(source):
             number = m.group()
-            if not number[0].isdigit():
+            if avoid_leading_zeros and not number[0].isdigit():
                 non_zero_letters.add(number[0])
             begin, end = m.span()
             parts = []
-- 
2.43.0


From 689f98336752058931f4945398458b7810e2bbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 27/47] fix: repeated labels allowed adjacent nodes to have the
 same label

---
 src/satisfy/graph_labeling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/graph_labeling.py b/src/satisfy/graph_labeling.py
index d6e462c..d1318cd 100644
--- a/src/satisfy/graph_labeling.py
+++ b/src/satisfy/graph_labeling.py
@@ -12,7 +12,11 @@ class GraphLabelingSolver(ModelSolver):
             args['var_selection_policy'] = VarSelectionPolicy.ORDERED
         super().__init__(**args)
         self._graph = graph
-        self._labels = {label_id: label for label_id, label in enumerate(labels)}
+        unique_labels = []
+        for label in labels:
+            if label not in unique_labels:
+                unique_labels.append(label)
+        self._labels = {label_id: label for label_id, label in enumerate(unique_labels)}
         label_ids = tuple(self._labels)
         model = self._model
         variables = {}
-- 
2.43.0


From 260121dee09317d17d2a454852d7a04a5044c86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 28/47] fix: nonogram clues of size zero produced repeated
 solutions

---
 src/satisfy/nonogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/nonogram.py b/src/satisfy/nonogram.py
index a0d2420..a356a3d 100644
--- a/src/satisfy/nonogram.py
+++ b/src/satisfy/nonogram.py
@@ -17,8 +17,8 @@ class NonogramSolver(ModelSolver):
             args['var_selection_policy'] = VarSelectionPolicy.MIN_BOUND
         super().__init__(**args)
         model = self._model
-        rows = nonogram['rows']
-        cols = nonogram['columns']
+        rows = [[size for size in row if size] for row in nonogram['rows']]
+        cols = [[size for size in col if size] for col in nonogram['columns']]
         num_rows = len(rows)
         num_cols = len(cols)
         var_infos = {}
-- 
2.43.0


From d2702c366a07362617fc430f5fecaf9fe2303ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 29/47] fix: pixmap_to_nonogram failed on rows of different
 length

---
 src/satisfy/nonogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/nonogram.py b/src/satisfy/nonogram.py
index a356a3d..26efd32 100644
--- a/src/satisfy/nonogram.py
+++ b/src/satisfy/nonogram.py
@@ -159,7 +159,7 @@ def pixmap_to_nonogram(pixmap):
         col = []
         count = 0
         for r in range(num_rows):
-            cell = pixmap[r][c]
+            cell = c < len(pixmap[r]) and pixmap[r][c]
             if cell:
                 count += 1
             else:
-- 
2.43.0


From 755a0c5ee1e21f9b80a1e962179ee6d1ea318a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:53 +0000
Subject: [PATCH 30/47] fix: knapsack weights given as an iterator were ignored

---
 src/satisfy/knapsack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/knapsack.py b/src/satisfy/knapsack.py
index a8df7b9..7c55bcc 100644
--- a/src/satisfy/knapsack.py
+++ b/src/satisfy/knapsack.py
@@ -44,10 +44,10 @@ class KnapsackOptimizer(ModelOptimizer):
         variables = [model.add_bool_variable(name="i_{}".format(i)) for i in range(len(values))]
         constraints = []
         for idx, capacity in enumerate(capacities):
-            constraint = model.add_constraint(sum(var * weight[idx] for var, weight in zip(variables, weights)) <= capacity)
+            constraint = model.add_constraint(sum(var * weight[idx] for var, weight in zip(variables, ws)) <= capacity)
         self._values = values
         self._capacities = capacities
-        self._weights = weights
+        self._weights = ws
         self._variables = variables
         self._model = model
 
-- 
2.43.0


From 756b0b6d7759cd4302fef7c578f6ce0342b3316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:54 +0000
Subject: [PATCH 31/47] fix: the knapsack problem without items failed with
 AttributeError

---
 src/satisfy/knapsack.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/satisfy/knapsack.py b/src/satisfy/knapsack.py
index 7c55bcc..6628317 100644
--- a/src/satisfy/knapsack.py
+++ b/src/satisfy/knapsack.py
@@ -1,5 +1,6 @@
 import collections
 
+from .expression import Expression
 from .model import Model
 from .objective import Maximize
 from .solver import ModelOptimizer
@@ -19,8 +20,6 @@ class KnapsackOptimizer(ModelOptimizer):
         super().__init__(**args)
         model = self._model
         values = tuple(values)
-        if not values:
-            return
         for value in values:
             if not isinstance(value, int):
                 raise TypeError("{} is not a valid value".format(value))
@@ -58,7 +57,7 @@ class KnapsackOptimizer(ModelOptimizer):
         variables = self._variables
         model = self._model
         solver = self._solver
-        objective = Maximize(sum(var * value for var, value in zip(variables, values)))
+        objective = Maximize(Expression.coerce(sum(var * value for var, value in zip(variables, values))))
         opt_result = solver.optimal_solution(model, objective)
         opt_solution = opt_result.solution
         if opt_solution is not None:
-- 
2.43.0


From 18a16fc7e5dd6ee1a7b58e601d5c90f63c638d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:56 +0000
Subject: [PATCH 32/47] fix: an ascii map without rows failed with ValueError

---
 src/satisfy/tool/ascii_map_coloring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/tool/ascii_map_coloring.py b/src/satisfy/tool/ascii_map_coloring.py
index 01fb8c4..bdc98ab 100644
--- a/src/satisfy/tool/ascii_map_coloring.py
+++ b/src/satisfy/tool/ascii_map_coloring.py
@@ -49,7 +49,7 @@ class AsciiMapColoringSolver(GraphLabelingSolver):
         rows = [list(row) for row in ascii_map]
         self._ascii_map = tuple(tuple(row) for row in ascii_map)
         num_rows = len(rows)
-        num_cols = max(len(row) for row in rows)
+        num_cols = max((len(row) for row in rows), default=0)
         pos_limits = (num_rows, num_cols)
         rows = [(row + ([' '] * (num_cols - len(row)))) for row in rows]
         
-- 
2.43.0


From bdc29bbdb3818e14e659726d0d4d842b227f6f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 33/47] fix: satisfy ascii_map_coloring --input-file failed
 with TypeError

---
 src/satisfy/tool/demo_ascii_map_coloring.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/satisfy/tool/demo_ascii_map_coloring.py b/src/satisfy/tool/demo_ascii_map_coloring.py
index 84102b4..d45153f 100644
--- a/src/satisfy/tool/demo_ascii_map_coloring.py
+++ b/src/satisfy/tool/demo_ascii_map_coloring.py
@@ -59,8 +59,7 @@ No input file - using default data:
 """.format(example=source))
         data = source
     else:
-        with open(input_file, "r") as fh:
-            data = fh.read()
+        data = input_file.read()
 
     ascii_map_coloring_solver = AsciiMapColoringSolver(data, colors, timeout=timeout, limit=limit)
     if show_model:
-- 
2.43.0


From 73acf5d2a0148d260b2369a419f0ab346a3087aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 34/47] fix: satisfy cryptarithm did not replace lowercase
 letters with their digits

---
 src/satisfy/tool/demo_cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/tool/demo_cryptarithm.py b/src/satisfy/tool/demo_cryptarithm.py
index 6c564ff..5de936a 100644
--- a/src/satisfy/tool/demo_cryptarithm.py
+++ b/src/satisfy/tool/demo_cryptarithm.py
@@ -18,7 +18,7 @@ def default_cryptarithm_source():
 
 
 def print_cryptarithm_solution(solution, source):
-    s = source
+    s = source.upper()
     for key in sorted(solution):
         print("{} = {}".format(key, solution[key]))
         s = s.replace(key, str(solution[key]))
-- 
2.43.0


From 9f0d0039f017f9a7d3537d9695900fa90091a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:00 +0000
Subject: [PATCH 35/47] fix: satisfy knapsack reported a sub-optimal solution
 when there was none

---
 src/satisfy/tool/demo_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/tool/demo_utils.py b/src/satisfy/tool/demo_utils.py
index 794c2d8..dd544e3 100644
--- a/src/satisfy/tool/demo_utils.py
+++ b/src/satisfy/tool/demo_utils.py
@@ -42,7 +42,10 @@ def print_optimization_stats(stats, optimal=None):
         suffix = ''
     else:
         suffix = 's'
-    fmt = "Found {kind} solution in {s.elapsed:.3f} seconds after {s.count} solve iteration{suffix}"
+    if stats.count == 0:
+        fmt = "Found no solution in {s.elapsed:.3f} seconds"
+    else:
+        fmt = "Found {kind} solution in {s.elapsed:.3f} seconds after {s.count} solve iteration{suffix}"
     if stats.interrupt:
         fmt += " [{s.interrupt} reached]"
     print("\n" + fmt.format(suffix=suffix, kind=kind, s=stats))
-- 
2.43.0


From ba1c4a59ef1269f4be96e8b76717e3ddf98a36f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 36/47] fix: comparisons and logical operators of constants
 returned plain integers

---
 src/satisfy/expression.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index cf34a10..c157309 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -217,6 +217,9 @@ class Const(Expression):
     def value(self):
         return self._value
 
+    def __bool__(self):
+        return bool(self._value)
+
     def evaluate(self, substitution):
         return self._value
 
@@ -276,42 +279,42 @@ class Const(Expression):
 
     def __eq__(self, other):
         if isinstance(other, Const):
-            return int(self._value == other.value)
+            return Const(int(self._value == other.value))
         return Eq(self, other)
 
     def __ne__(self, other):
         if isinstance(other, Const):
-            return int(self._value != other.value)
+            return Const(int(self._value != other.value))
         return Ne(self, other)
 
     def __lt__(self, other):
         if isinstance(other, Const):
-            return int(self._value < other.value)
+            return Const(int(self._value < other.value))
         return Lt(self, other)
 
     def __le__(self, other):
         if isinstance(other, Const):
-            return int(self._value <= other.value)
+            return Const(int(self._value <= other.value))
         return Le(self, other)
 
     def __gt__(self, other):
         if isinstance(other, Const):
-            return int(self._value > other.value)
+            return Const(int(self._value > other.value))
         return Gt(self, other)
 
     def __ge__(self, other):
         if isinstance(other, Const):
-            return int(self._value >= other.value)
+            return Const(int(self._value >= other.value))
         return Ge(self, other)
 
     def __and__(self, other):
         if isinstance(other, Const):
-            return int(self._value and other.value)
+            return Const(self._value and other.value)
         return And(self, other)
 
     def __or__(self, other):
         if isinstance(other, Const):
-            return int(self._value or other.value)
+            return Const(self._value or other.value)
         return Or(self, other)
 
 
-- 
2.43.0


From b039499060e42db2b68f1bea1c88d3c5bf17b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 37/47] fix: parameters with different values compared as
 structurally equal

---
 src/satisfy/expression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index c157309..1eaee9b 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -785,6 +785,9 @@ class Parameter(Variable):
         super().__init__(name)
         self._value = value
 
+    def equals(self, other):
+        return super().equals(other) and self._value == other.value
+
     @property
     def value(self):
         return self._value
-- 
2.43.0


From 61addc6680d823c1ca1b52acb8c33c8d392de445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 38/47] fix: cryptarithm divided numbers without letters with
 true division

---
 src/satisfy/cryptarithm.py | 6 ++++--
 src/satisfy/expression.py  | 6 ++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/cryptarithm.py b/src/satisfy/cryptarithm.py
index 1595bdf..2b699df 100644
--- a/src/satisfy/cryptarithm.py
+++ b/src/satisfy/cryptarithm.py
@@ -3,6 +3,7 @@ import itertools
 import operator
 import re
 
+from .expression import Const
 from .solver import ModelSolver, VarSelectionPolicy
 
 __all__ = [
@@ -48,7 +49,8 @@ class CryptarithmSolver(ModelSolver):
                         ldict[letter].append(p10 * (10 ** c))
                     letters.update(part)
                 p10 *= 10 ** len(part)
-            expr_list = [str(num_part)]
+            # not a plain number: division of plain numbers is not integer division
+            expr_list = ['const({})'.format(num_part)]
             for letter, coeffs in ldict.items():
                 factor = sum(coeffs)
                 if factor == 1:
@@ -76,7 +78,7 @@ class CryptarithmSolver(ModelSolver):
         #         n_expr += variables[letter] * (10 ** ipow)
         #     expressions[number] = n_expr
         # expr = eval(source, expressions)
-        expr = eval(mod_source, variables.copy())
+        expr = eval(mod_source, dict(variables, const=Const))
         model.add_all_different_constraint(list(variables.values()))
         model.add_constraint(expr)
         self._expr = expr
diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 1eaee9b..ebc886f 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -129,6 +129,9 @@ class Expression(abc.ABC):
     def __truediv__(self, other):
         return self.__div__(other)
 
+    def __floordiv__(self, other):
+        return self.__div__(other)
+
     def __eq__(self, other):
         return Eq(self, other)
 
@@ -172,6 +175,9 @@ class Expression(abc.ABC):
     def __rtruediv__(self, other):
         return self.coerce(other) / self
 
+    def __rfloordiv__(self, other):
+        return self.coerce(other) / self
+
     def __rmod__(self, other):
         return self.coerce(other) % self
 
-- 
2.43.0


From 4e1ffc76c186c90c94e501f7874757b29242fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:32 +0000
Subject: [PATCH 39/47] fix: an older solve overwrote the interrupt of the
 newest one on the same solver

---
 src/satisfy/solver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 8ead1b0..7e59200 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -237,7 +237,7 @@ class Solver(object):
             # no variables: the empty substitution is the only solution
             timer.stop()
             yield {}
-            if limit is not None and limit <= 1:
+            if limit is not None and limit <= 1 and self._timer is timer:
                 self._interrupt = "limit"
             return
         while stack:
@@ -245,7 +245,8 @@ class Solver(object):
                 cur_elapsed = timer.elapsed()
                 if cur_elapsed > timeout:
                     timer.abort()
-                    self._interrupt = "timeout"
+                    if self._timer is timer:
+                        self._interrupt = "timeout"
                     return
 
             unbound_vars, substitution = stack[-1]
@@ -297,7 +298,8 @@ class Solver(object):
                 yield substitution
                 if limit is not None and num_solutions >= limit:
                     timer.abort()
-                    self._interrupt = "limit"
+                    if self._timer is timer:
+                        self._interrupt = "limit"
                     return
                 timer.start()
                 continue
-- 
2.43.0


From 2ceb09032202f23b1902d203a624f663bb82c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 40/47] fix: parenthesize signed constants, negations and
 two-valued sums and products in the text of an expression

---
 src/satisfy/expression.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index ebc886f..1632f57 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -233,7 +233,10 @@ class Const(Expression):
         return "{}({!r})".format(type(self).__name__, self._value)
 
     def __str__(self):
-        return str(self._value)
+        text = str(self._value)
+        if text.startswith('-'):
+            text = "({})".format(text)
+        return text
 
     def py_expr(self):
         return "({})".format(self._value)
@@ -449,7 +452,7 @@ class Neg(UnOp):
         return -self._expressions[0].evaluate(substitution)
 
     def __str__(self):
-        return "-({})".format(self.operand)
+        return "(-{})".format(self.operand)
 
     def py_expr(self):
         return "(-{})".format(self.operand.py_expr())
@@ -629,7 +632,7 @@ class Not(UnOp):
         return not self._expressions[0].evaluate(substitution)
 
     def __str__(self):
-        return "^{}".format(self._expressions[0])
+        return "(^{})".format(self._expressions[0])
 
     def py_expr(self):
         return "(not {})".format(self._expressions[0].py_expr())
@@ -696,14 +699,14 @@ class Accumulation(Collection):
     def _as_str(self, op, fun, convert=str):
         values = []
         if self._const != self.__neutral_element__:
-            values.append(str(self._const))
+            values.append(str(Const(self._const)))
         values.extend(convert(e) for e in self)
         if len(values) == 0:
             return str(self.__neutral_element__)
         elif len(values) == 1:
             return str(values[0])
         elif len(values) == 2:
-            return "{} {} {}".format(values[0], op, values[1])
+            return "({} {} {})".format(values[0], op, values[1])
         else:
             return "{}([{}])".format(fun, ", ".join(values))
 
-- 
2.43.0


From dc77640e0f05ecadb4f44a6b8872be7aff769b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 41/47] fix: the representation of sums, products and
 parameters builds them again

---
 src/satisfy/expression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 1632f57..af338f4 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -691,7 +691,7 @@ class Accumulation(Collection):
         return self.op(self._const, (e.evaluate(substitution) for e in self._expressions))
 
     def __repr__(self):
-        return "{}({}, const={!r})".format(
+        return "{}([{}], const={!r})".format(
             type(self).__name__,
             ", ".join(repr(e) for e in self),
             self._const)
@@ -814,5 +814,8 @@ class Parameter(Variable):
     def evaluate(self, substitution):
         return self._value
 
+    def __repr__(self):
+        return "{}({!r}, {!r})".format(type(self).__name__, self._name, self._value)
+
     def py_expr(self):
         return "({})".format(self._value)
-- 
2.43.0


From 8531c911f9fa66694ddbb399efc04e0b8579c102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:52 +0000
Subject: [PATCH 42/47] fix: Timer.stats() of a running stopwatch did not
 include the current interval

---
 src/satisfy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/utils.py b/src/satisfy/utils.py
index 647a457..b37595d 100644
--- a/src/satisfy/utils.py
+++ b/src/satisfy/utils.py
@@ -87,4 +87,4 @@ class Timer(object):
     def stats(self):
         return Stats(
             count=self._count,
-            elapsed=self._t_elapsed)
+            elapsed=self.elapsed())
-- 
2.43.0


From fd823f2e10a1317e99476ab5d538768c655b0df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:52 +0000
Subject: [PATCH 43/47] fix: the search time before an error raised by a
 constraint was not counted in the statistics

---
 src/satisfy/solver.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 7e59200..f26bea3 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -157,6 +157,14 @@ class Solver(object):
 
     def solve(self, model, **args):
         self._reset()
+        timer = self._timer
+        try:
+            yield from self._solve(model, **args)
+        finally:
+            # a constraint can raise an error
+            timer.abort()
+
+    def _solve(self, model, **args):
         timeout = args.get('timeout', self._timeout)
         limit = args.get('limit', self._limit)
         var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
-- 
2.43.0


From b399ed99287c05450891740d272eb78361e1010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:10 +0000
Subject: [PATCH 44/47] fix: INFINITY and UNDEFINED print as text,
 satisfy.utils exports Infinity

---
 src/satisfy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/utils.py b/src/satisfy/utils.py
index b37595d..eddcdd3 100644
--- a/src/satisfy/utils.py
+++ b/src/satisfy/utils.py
@@ -3,7 +3,7 @@ import time
 
 __all__ = [
     'INFINITY',
-    'InfiniTY',
+    'Infinity',
     'UNDEFINED',
     'Undefined',
     'Timer',
@@ -27,7 +27,7 @@ class _Singleton(object):
         return "{}()".format(self.name())
 
     def __str__(self):
-        return self.name
+        return self.name()
 
 
 class Infinity(_Singleton):
-- 
2.43.0


From 46115f7ed641b8a9b504b22fe279fec1d08da53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:47 +0000
Subject: [PATCH 45/47] fix: constraints cannot name a parameter as one of
 their variables

---
 src/satisfy/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index 0084449..a093247 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -114,6 +114,8 @@ class Model(object):
         for var_name in var_names:
             if var_name not in self._variables:
                 raise ValueError("constraint {} depends on undefined variable {}".format(constraint, var_name))
+            if self._variables[var_name].domain is None:
+                raise ValueError("constraint {} depends on {}, which is not a variable but a parameter".format(constraint, var_name))
         self._constraints.append(constraint)
 
     def add_all_different_constraint(self, variables):
-- 
2.43.0


From c37e4548da5190a633809d9008bf43f4e8a90145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:47 +0000
Subject: [PATCH 46/47] fix: additional constraints on undefined variables are
 errors instead of being ignored

---
 src/satisfy/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index f26bea3..1caacb2 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -169,6 +169,10 @@ class Solver(object):
         limit = args.get('limit', self._limit)
         var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
         additional_constraints = tuple(args.get('additional_constraints', ()))
+        for constraint in additional_constraints:
+            for var_name in constraint.vars():
+                if var_name not in model.variables() or model.get_var_domain(var_name) is None:
+                    raise ValueError("constraint {} depends on undefined variable {}".format(constraint, var_name))
         # print("::: timeout=", timeout)
         # print("::: limit=", limit)
         # print("::: var_selection_policy=", var_selection_policy)
-- 
2.43.0


From 6322ce4b15f8595ea7b22aab906850bbdc274a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:55 +0000
Subject: [PATCH 47/47] fix: constraints derived from AllDifferentConstraint
 are evaluated, not taken for plain groups

---
 src/satisfy/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 1caacb2..27328d9 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -112,7 +112,8 @@ class Solver(object):
             for var_name in c_vars:
                 if var_name in pure_variables:
                     var_bounds[var_name] += len(c_vars) - 1
-            if isinstance(constraint, AllDifferentConstraint):
+            if type(constraint) is AllDifferentConstraint:
+                # derived constraints have a meaning of their own
                 groupid = len(groups)
                 groups[groupid] = c_vars
                 for var_name in c_vars:
-- 
2.43.0

