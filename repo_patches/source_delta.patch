From 0a6c4a55bd5a723dabc9f27af11ccfe9186d0a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 01/28] fix: compiled 'or' and 'not' expressions must be
 parenthesized

Or and Not rendered without parentheses, so that for instance
(x | y) & z compiled to 'x or y and z'.
---
 src/satisfy/expression.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 0a99ed8..ad25c8f 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -600,9 +600,6 @@ class Or(BinOp):
     def _op(self, left_value, right_value):
         return left_value or right_value
 
-    def py_expr(self):
-        return "{} or {}".format(self._expressions[0].py_expr(), self._expressions[1].py_expr())
-
 
 class Not(UnOp):
     __symbol__ = '^'
@@ -615,7 +612,7 @@ class Not(UnOp):
         return "^{}".format(self._expressions[0])
 
     def py_expr(self):
-        return "not {}".format(self._expressions[0].py_expr())
+        return "(not {})".format(self._expressions[0].py_expr())
 
 
 class Accumulation(Collection):
-- 
2.43.0


From eeaa3fd96682bf57b37062e76216b4b2f4016ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 02/28] fix: compile the operands of Neg and Abs with py_expr

They were compiled from the display form: '/' became a true division, '&'
and '|' became bitwise operators and parameters became undefined names;
-x as the base of a power lost its precedence.
---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index ad25c8f..6cbc947 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -438,7 +438,7 @@ class Neg(UnOp):
         return "-({})".format(self.operand)
 
     def py_expr(self):
-        return str(self)
+        return "(-{})".format(self.operand.py_expr())
 
 
 class Abs(UnOp):
@@ -449,7 +449,7 @@ class Abs(UnOp):
         return "abs({})".format(self.operand)
 
     def py_expr(self):
-        return str(self)
+        return "abs({})".format(self.operand.py_expr())
 
 
 class BinOp(Collection):
-- 
2.43.0


From a6210cc3f680aa5e939e3d4cadb7f135f195ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 03/28] fix: parenthesize constants and parameters in compiled
 expressions

A negative constant as the base of a power compiled to -(2**x).
---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 6cbc947..a2974d8 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -222,7 +222,7 @@ class Const(Expression):
         return str(self._value)
 
     def py_expr(self):
-        return str(self)
+        return "({!r})".format(self._value)
 
     def __add__(self, other):
         if self._value == 0:
@@ -786,4 +786,4 @@ class Parameter(Variable):
         return self._value
 
     def py_expr(self):
-        return str(self._value)
+        return "({!r})".format(self._value)
-- 
2.43.0


From 57dd4391a46cf105c9e6a230518397c8ec93b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 04/28] fix: parenthesize two-term sums and products in
 compiled expressions

---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index a2974d8..8c67ebd 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -703,7 +703,7 @@ class Sum(Accumulation):
         return self._as_str(op='+', fun='sum')
 
     def py_expr(self):
-        return self._as_str(op='+', fun='sum', convert=lambda x: x.py_expr())
+        return "({})".format(self._as_str(op='+', fun='sum', convert=lambda x: x.py_expr()))
 
 
 class Prod(Accumulation):
@@ -725,7 +725,7 @@ class Prod(Accumulation):
         return self._as_str(op='*', fun='prod')
 
     def py_expr(self):
-        return self._as_str(op='*', fun='prod', convert=lambda x: x.py_expr())
+        return "({})".format(self._as_str(op='*', fun='prod', convert=lambda x: x.py_expr()))
 
 
 class Variable(Expression):
-- 
2.43.0


From 12c179e699e01b5fcec82ec86c9f36ac5b4c0cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:01 +0000
Subject: [PATCH 05/28] fix: variables named sum, prod or abs must not shadow
 functions in compiled expressions

---
 src/satisfy/expression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 8c67ebd..3593f9a 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -58,7 +58,7 @@ class Expression(abc.ABC):
 
     def compile_py_function(self):
         py_source = self.py_source()
-        return eval(py_source, {'sum': sum, 'prod': prod})
+        return eval(py_source, {'__sum': sum, '__prod': prod, '__abs': abs})
         # def ff(substitution):
         #     print("///", sorted(substitution.items(), key=lambda x: x[0]))
         #     return fn(**substitution)
@@ -449,7 +449,7 @@ class Abs(UnOp):
         return "abs({})".format(self.operand)
 
     def py_expr(self):
-        return "abs({})".format(self.operand.py_expr())
+        return "__abs({})".format(self.operand.py_expr())
 
 
 class BinOp(Collection):
@@ -703,7 +703,7 @@ class Sum(Accumulation):
         return self._as_str(op='+', fun='sum')
 
     def py_expr(self):
-        return "({})".format(self._as_str(op='+', fun='sum', convert=lambda x: x.py_expr()))
+        return "({})".format(self._as_str(op='+', fun='__sum', convert=lambda x: x.py_expr()))
 
 
 class Prod(Accumulation):
@@ -725,7 +725,7 @@ class Prod(Accumulation):
         return self._as_str(op='*', fun='prod')
 
     def py_expr(self):
-        return "({})".format(self._as_str(op='*', fun='prod', convert=lambda x: x.py_expr()))
+        return "({})".format(self._as_str(op='*', fun='__prod', convert=lambda x: x.py_expr()))
 
 
 class Variable(Expression):
-- 
2.43.0


From c4a79e935f7734afe24b8eacb0b6f37c739a0ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:03 +0000
Subject: [PATCH 06/28] fix: interpreted fallback of as_function must accept
 keyword arguments

For expressions that cannot be compiled (for instance with a variable named
'if', which the model accepts) the fallback raised TypeError when called.
---
 src/satisfy/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 3593f9a..6a73ad9 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -69,7 +69,7 @@ class Expression(abc.ABC):
             return self.compile_py_function()
         except:
             LOG.exception("compilation of py function failed:")
-        return self.evaluate
+        return lambda **substitution: self.evaluate(substitution)
 
     @abc.abstractmethod
     def py_expr(self):
-- 
2.43.0


From 6c728607cc8e4518f612bed80ceb23d70d1d4477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 07/28] fix: interpreted & and | must short-circuit as compiled
 ones do

(y != 0) & (x / y > 1) failed with ZeroDivisionError when interpreted.
---
 src/satisfy/expression.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 6a73ad9..b7636c3 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -592,6 +592,9 @@ class And(BinOp):
     def _op(self, left_value, right_value):
         return left_value and right_value
 
+    def evaluate(self, substitution):
+        return self._expressions[0].evaluate(substitution) and self._expressions[1].evaluate(substitution)
+
 
 class Or(BinOp):
     __symbol__ = '|'
@@ -600,6 +603,9 @@ class Or(BinOp):
     def _op(self, left_value, right_value):
         return left_value or right_value
 
+    def evaluate(self, substitution):
+        return self._expressions[0].evaluate(substitution) or self._expressions[1].evaluate(substitution)
+
 
 class Not(UnOp):
     __symbol__ = '^'
-- 
2.43.0


From d6553dd8c9d389675fb5bbb39510b464d43a09e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 08/28] fix: dividing a plain number by an expression raised
 TypeError

---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index b7636c3..1b367b4 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -162,10 +162,10 @@ class Expression(abc.ABC):
         return self.coerce(other) * self
 
     def __rdiv__(self, other):
-        return self.coerce(other) // self
+        return self.coerce(other) / self
 
     def __rtruediv__(self, other):
-        return self.coerce(other) // self
+        return self.coerce(other) / self
 
     def __rmod__(self, other):
         return self.coerce(other) % self
-- 
2.43.0


From ebfac845ccadc165e7cbe7e3264022c71787ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 09/28] fix: structural equality compared operands with ==,
 which is always truthy

It also ignored the constant of sums and products.
---
 src/satisfy/expression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 1b367b4..e0257b0 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -330,7 +330,7 @@ class Collection(Expression):
         return False
 
     def equals(self, other):
-        return type(self) == type(other) and len(self) == len(other) and all(l_e == r_e for l_e, r_e in zip(self, other))
+        return type(self) == type(other) and len(self) == len(other) and all(l_e.equals(r_e) for l_e, r_e in zip(self, other))
 
     def __iter__(self):
         yield from self._expressions
@@ -658,6 +658,9 @@ class Accumulation(Collection):
         self._const = const
         super().__init__(elist)
 
+    def equals(self, other):
+        return super().equals(other) and self._const == other.const
+
     @property
     def const(self):
         return self._const
-- 
2.43.0


From 46fb734d73ef0f62c5bc15d8d78c6e8a62d50012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:13 +0000
Subject: [PATCH 10/28] fix: Parameter.free_vars must accept a substitution

---
 src/satisfy/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index e0257b0..bb0c8e8 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -785,7 +785,7 @@ class Parameter(Variable):
     def value(self, v):
         self._value = v
 
-    def free_vars(self):
+    def free_vars(self, substitution):
         yield from ()
 
     def vars(self):
-- 
2.43.0


From 12f1ef74e277df9960db3dbda81dd420d91cdfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:15 +0000
Subject: [PATCH 11/28] fix: str(INFINITY) and 'from satisfy.utils import *'
 raised errors

---
 src/satisfy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/utils.py b/src/satisfy/utils.py
index 647a457..21bdeb9 100644
--- a/src/satisfy/utils.py
+++ b/src/satisfy/utils.py
@@ -3,7 +3,7 @@ import time
 
 __all__ = [
     'INFINITY',
-    'InfiniTY',
+    'Infinity',
     'UNDEFINED',
     'Undefined',
     'Timer',
@@ -27,7 +27,7 @@ class _Singleton(object):
         return "{}()".format(self.name())
 
     def __str__(self):
-        return self.name
+        return self.name()
 
 
 class Infinity(_Singleton):
-- 
2.43.0


From e9988ecacb9de46f0e54e664d7019c79b4f92243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 12/28] fix: Model.set_solvable had no effect

---
 src/satisfy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index dc1f2dd..743890a 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -93,7 +93,7 @@ class Model(object):
         return self._variables[name].variable
 
     def set_solvable(self, solvable):
-        self.__unsolvable = True
+        self.__solvable = bool(solvable)
 
     def add_constraint(self, constraint):
         if isinstance(constraint, bool):
-- 
2.43.0


From 77ba337ef7eee3fa8c18e2a96904bc6cd6edd2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 13/28] fix: a name ending with a newline must be rejected

---
 src/satisfy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index 743890a..2b3698b 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -27,7 +27,7 @@ VariableInfo = collections.namedtuple("VariableInfo", "variable domain")
 
 
 class Model(object):
-    __re_name__ = re.compile(r'^[a-zA-Z]\w*$')
+    __re_name__ = re.compile(r'^[a-zA-Z]\w*\Z')
 
     def __init__(self):
         self._variables = collections.OrderedDict()
-- 
2.43.0


From 03dbc5157f412e1cd59f993d526fe2b4f3ffb55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 14/28] fix: optimize must check each solution against the
 current bound

The candidate values of a variable were checked against the bound known when
they were computed, and constraints on a single variable only once before the
search: non improving solutions were yielded, they loosened the bound, and a
non optimal solution was reported as optimal.
---
 src/satisfy/solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 82e525d..881b815 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -156,7 +156,7 @@ class Solver(object):
         timeout = args.get('timeout', self._timeout)
         limit = args.get('limit', self._limit)
         var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
-        additional_constraints = args.get('additional_constraints', ())
+        additional_constraints = tuple(args.get('additional_constraints', ()))
         # print("::: timeout=", timeout)
         # print("::: limit=", limit)
         # print("::: var_selection_policy=", var_selection_policy)
@@ -269,6 +269,10 @@ class Solver(object):
             substitution[var_name] = value
             if unbound_vars:
                 stack.append((unbound_vars, substitution))
+            elif any(constraint.unsatisfied(substitution) for constraint in additional_constraints):
+                # additional constraints (e.g. the bound of an objective) can
+                # become stricter after the domains have been computed
+                continue
             else:
                 timer.stop()
                 # for constraint in model.constraints():
-- 
2.43.0


From cafa0ccc719c26270f0c28ddea4f3e651da55eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 15/28] fix: the elapsed time must include the search after the
 last solution

---
 src/satisfy/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 881b815..48d8ca2 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -228,6 +228,7 @@ class Solver(object):
             if timeout is not None:
                 cur_elapsed = timer.elapsed()
                 if cur_elapsed > timeout:
+                    timer.abort()
                     self._interrupt = "timeout"
                     return
 
@@ -285,6 +286,7 @@ class Solver(object):
                     return
                 timer.start()
                 continue
+        timer.abort()
 
     def _solve_forbidden(self, model, **args):
         timeout = args.get('timeout', self._timeout)
-- 
2.43.0


From fa18813dc6e67c8bd0b867666feda264aaaf6081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 16/28] fix: a limit of 0 must not yield a solution

---
 src/satisfy/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 48d8ca2..f360c83 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -161,6 +161,9 @@ class Solver(object):
         # print("::: limit=", limit)
         # print("::: var_selection_policy=", var_selection_policy)
         # print("::: additional_constraints=", additional_constraints)
+        if limit is not None and limit <= 0:
+            self._interrupt = "limit"
+            return
         if not model.solvable():
             return
 
-- 
2.43.0


From ef5e36f25a33b77182a754e065e89232ea1e8417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 17/28] fix: solve must accept INFINITY as timeout or limit

The solver attributes accept it, the solve arguments raised TypeError.
---
 src/satisfy/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index f360c83..9c9654f 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -154,7 +154,11 @@ class Solver(object):
     def solve(self, model, **args):
         self._reset()
         timeout = args.get('timeout', self._timeout)
+        if timeout is INFINITY:
+            timeout = None
         limit = args.get('limit', self._limit)
+        if limit is INFINITY:
+            limit = None
         var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
         additional_constraints = tuple(args.get('additional_constraints', ()))
         # print("::: timeout=", timeout)
-- 
2.43.0


From 399bb7043813f375e4d4d36a38e678fb7fcfe336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:16 +0000
Subject: [PATCH 18/28] fix: a solve without compilation must not use stale
 compiled constraints

Constraints compiled by a previous solve kept the parameter values they were
compiled with.
---
 src/satisfy/constraint.py | 6 ++++++
 src/satisfy/solver.py     | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/satisfy/constraint.py b/src/satisfy/constraint.py
index 74d7931..a0b81fc 100644
--- a/src/satisfy/constraint.py
+++ b/src/satisfy/constraint.py
@@ -35,6 +35,9 @@ class Constraint(abc.ABC):
     def compile(self):
         pass
 
+    def decompile(self):
+        pass
+
     def is_compiled(self):
         return False
 
@@ -68,6 +71,9 @@ class ExpressionConstraint(Constraint):
     def compile(self):
         self._evaluate_function = self._expression.as_function()
 
+    def decompile(self):
+        self._evaluate_function = None
+
     def evaluate_function(self):
         if self._evaluate_function is None:
             self._evaluate_function = self._expression.as_function()
diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 9c9654f..ee2e5d2 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -104,6 +104,10 @@ class Solver(object):
         for constraint in itertools.chain(model.constraints(), additional_constraints):
             if compile_constraints:
                 constraint.compile()
+            elif constraint.is_compiled():
+                # do not use a function compiled by a previous solve: it does
+                # not depend on the current value of parameters
+                constraint.decompile()
             c_vars = constraint.vars()
             for var_name in c_vars:
                 if var_name in pure_variables:
-- 
2.43.0


From 79149415be1e75a4ff94d31cd9cf3c4309c1ca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 19/28] fix: a model without decision variables has one, empty,
 solution

Complete sudoku schemas and blank nonograms had no solution.
---
 src/satisfy/solver.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index ee2e5d2..785ef56 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -218,6 +218,15 @@ class Solver(object):
             var_names = tuple(sorted(var_names, key=lambda x: len(var_constraints[x]), reverse=True))
 
         if not var_names:
+            # the empty substitution is the only candidate
+            for constraint in itertools.chain(model.constraints(), additional_constraints):
+                if constraint.unsatisfied({}):
+                    return
+            self._timer.start()
+            self._timer.stop()
+            yield {}
+            if limit is not None and limit <= 1:
+                self._interrupt = "limit"
             return
 
         # print("::: var_names=", var_names)
-- 
2.43.0


From 03d11f4a1df35d5938ecbe0575a2eb946401db62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 20/28] fix: CryptarithmSolver ignored
 avoid_leading_zeros=False

---
 src/satisfy/cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/cryptarithm.py b/src/satisfy/cryptarithm.py
index da5a22d..1595bdf 100644
--- a/src/satisfy/cryptarithm.py
+++ b/src/satisfy/cryptarithm.py
@@ -30,7 +30,7 @@ class CryptarithmSolver(ModelSolver):
         variables = {}
         for m in word.finditer(source):
             number = m.group()
-            if not number[0].isdigit():
+            if avoid_leading_zeros and not number[0].isdigit():
                 non_zero_letters.add(number[0])
             begin, end = m.span()
             parts = []
-- 
2.43.0


From 82de8e6467683c7cc20824c01784f7703d34bc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 21/28] fix: knapsack weights given as iterators were ignored

The iterator was consumed by the checks, no capacity constraint was added.
---
 src/satisfy/knapsack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/knapsack.py b/src/satisfy/knapsack.py
index a8df7b9..7c55bcc 100644
--- a/src/satisfy/knapsack.py
+++ b/src/satisfy/knapsack.py
@@ -44,10 +44,10 @@ class KnapsackOptimizer(ModelOptimizer):
         variables = [model.add_bool_variable(name="i_{}".format(i)) for i in range(len(values))]
         constraints = []
         for idx, capacity in enumerate(capacities):
-            constraint = model.add_constraint(sum(var * weight[idx] for var, weight in zip(variables, weights)) <= capacity)
+            constraint = model.add_constraint(sum(var * weight[idx] for var, weight in zip(variables, ws)) <= capacity)
         self._values = values
         self._capacities = capacities
-        self._weights = weights
+        self._weights = ws
         self._variables = variables
         self._model = model
 
-- 
2.43.0


From 42e9e0349306971a36dabbe4d5a47153091bc902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:08 +0000
Subject: [PATCH 22/28] fix: a knapsack problem without items crashed when
 called

---
 src/satisfy/knapsack.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/satisfy/knapsack.py b/src/satisfy/knapsack.py
index 7c55bcc..6628317 100644
--- a/src/satisfy/knapsack.py
+++ b/src/satisfy/knapsack.py
@@ -1,5 +1,6 @@
 import collections
 
+from .expression import Expression
 from .model import Model
 from .objective import Maximize
 from .solver import ModelOptimizer
@@ -19,8 +20,6 @@ class KnapsackOptimizer(ModelOptimizer):
         super().__init__(**args)
         model = self._model
         values = tuple(values)
-        if not values:
-            return
         for value in values:
             if not isinstance(value, int):
                 raise TypeError("{} is not a valid value".format(value))
@@ -58,7 +57,7 @@ class KnapsackOptimizer(ModelOptimizer):
         variables = self._variables
         model = self._model
         solver = self._solver
-        objective = Maximize(sum(var * value for var, value in zip(variables, values)))
+        objective = Maximize(Expression.coerce(sum(var * value for var, value in zip(variables, values))))
         opt_result = solver.optimal_solution(model, objective)
         opt_solution = opt_result.solution
         if opt_solution is not None:
-- 
2.43.0


From 5e3629cf3cde9240251d6c449a664c382fc3b208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 23/28] fix: sudoku schemas with contradictory givens must have
 no solution

---
 src/satisfy/sudoku.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/satisfy/sudoku.py b/src/satisfy/sudoku.py
index 6235b60..0dbaa00 100644
--- a/src/satisfy/sudoku.py
+++ b/src/satisfy/sudoku.py
@@ -55,6 +55,13 @@ class SudokuSolver(ModelSolver):
                                               block_neighbors[cell.block_index]):
                         c1.domain.discard(value)
 
+        for cells in itertools.chain(row_neighbors, col_neighbors, block_neighbors):
+            givens = [schema[cell.row_index][cell.col_index] for cell in cells]
+            givens = [value for value in givens if value not in null_values]
+            if len(set(givens)) < len(givens):
+                # contradictory schema
+                model.add_constraint(False)
+
         row_variables = [[] for _ in range(size)]
         col_variables = [[] for _ in range(size)]
         block_variables = [[] for _ in range(size)]
-- 
2.43.0


From f4bb4186aff0c55c0747e29ee70dd263b7388bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 24/28] fix: 'satisfy ascii_map_coloring -i FILE' crashed

The argument is already an open file.
---
 src/satisfy/tool/demo_ascii_map_coloring.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/satisfy/tool/demo_ascii_map_coloring.py b/src/satisfy/tool/demo_ascii_map_coloring.py
index 84102b4..d45153f 100644
--- a/src/satisfy/tool/demo_ascii_map_coloring.py
+++ b/src/satisfy/tool/demo_ascii_map_coloring.py
@@ -59,8 +59,7 @@ No input file - using default data:
 """.format(example=source))
         data = source
     else:
-        with open(input_file, "r") as fh:
-            data = fh.read()
+        data = input_file.read()
 
     ascii_map_coloring_solver = AsciiMapColoringSolver(data, colors, timeout=timeout, limit=limit)
     if show_model:
-- 
2.43.0


From cfd501d9e30eb0bd0642ab59411fad3df9dfdee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 25/28] fix: print the digits of lower case cryptarithms

Letters are upper case in solutions, so nothing was replaced.
---
 src/satisfy/tool/demo_cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/tool/demo_cryptarithm.py b/src/satisfy/tool/demo_cryptarithm.py
index 6c564ff..101f2df 100644
--- a/src/satisfy/tool/demo_cryptarithm.py
+++ b/src/satisfy/tool/demo_cryptarithm.py
@@ -44,5 +44,5 @@ No input source - using default cryptarithm example:
     for solution in cryptarithm_solver:
         num_solutions += 1
         print("\n=== solution {} ===".format(num_solutions))
-        print_cryptarithm_solution(solution, source)
+        print_cryptarithm_solution(solution, cryptarithm_solver.source)
     print_solve_stats(cryptarithm_solver.get_stats())
-- 
2.43.0


From de562e2e514bc9890d0c35465db5cc3d5179e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 26/28] fix: a model with a never satisfied constraint has no
 solution even if set as solvable

---
 src/satisfy/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 785ef56..c48fc06 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -174,6 +174,9 @@ class Solver(object):
             return
         if not model.solvable():
             return
+        if any(not constraint.vars() and constraint.unsatisfied({}) for constraint in model.constraints()):
+            # a never satisfied constraint, in a model set as solvable
+            return
 
         model_info = self._setup(model, additional_constraints=additional_constraints)
         variables = model_info.variables
-- 
2.43.0


From 50ec62fb9400d3614594a5464748477749b31c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:16 +0000
Subject: [PATCH 27/28] fix: solving with an empty all-different constraint as
 additional constraint crashed

---
 src/satisfy/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index c48fc06..3ea55c9 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -138,7 +138,7 @@ class Solver(object):
         group_sizes = {}
         for groupid, c_vars in groups.items():
             group_bounds[groupid] = sum(var_bounds[var_name] for var_name in c_vars)
-            group_sizes[groupid] = max(var_sizes[var_name] for var_name in c_vars)
+            group_sizes[groupid] = max((var_sizes[var_name] for var_name in c_vars), default=0)
         return ModelInfo(
             variables=pure_variables,
             var_constraints=var_constraints,
-- 
2.43.0


From 9c2bcc5856bee3f45da70403653a504e334808bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:05 +0000
Subject: [PATCH 28/28] fix: reject bad objectives before changing the model

---
 src/satisfy/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 3ea55c9..e3c0ab1 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -433,10 +433,11 @@ class Solver(object):
             objectives = (objective,)
         else:
             objectives = tuple(objective)
-        objective_constraints = []
         for objective in objectives:
             if not isinstance(objective, Objective):
                 raise ValueError("{} is not an Objective".format(objective))
+        objective_constraints = []
+        for objective in objectives:
             objective_constraints.append(objective.make_constraint(model))
         args['additional_constraints'] = tuple(args.get('additional_constraints', ())) + tuple(objective_constraints)
         for solution in self.solve(model, **args):
-- 
2.43.0

