From fed884c8b69654c6a698dd3bc3485088f0de8f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:26 +0000
Subject: [PATCH 01/22] fix: roll() no longer overwrites the description of the
 die it was given or of remembered rolls

---
 src/roller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/roller.py b/src/roller.py
index 5c13e7a..091d7a0 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -1,4 +1,5 @@
 from typing import Union, Iterable
+import copy
 import random
 import math
 
@@ -49,7 +50,7 @@ def roll(n: Union[T_ifsr, str], d: Union[T_ifsr, str, None] = None) -> MetaRV:
   if isinstance(n, MetaRV):
     assert isinstance(n, RV), 'n must be a RV if its MetaRV'
   # both arguments are now exactly int|Seq|RV
-  result = _roll(n, d)  # ROLL!
+  result = copy.copy(_roll(n, d))  # ROLL! (copy since the result may be d itself or a memoized roll)
   result._str_LHS_RHS = _setup_str_LHS_RHS(n, d)  # only used for the __str__ method
   return result
 
-- 
2.43.0


From ff2d4dab7a0836ad94c051c9828872e4a9626ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:26 +0000
Subject: [PATCH 02/22] fix: compiling no longer empties the caller's flags
 dict

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 5186b6c..473b624 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -26,7 +26,7 @@ class PythonResolver:
         self.root = root
         self.reset_state()
 
-        flags = flags or {}
+        flags = dict(flags or {})
         # this flag is for a very nasty behaviour in anydice where a functions variables are a temporary copy of the callers variables; see https://anydice.com/program/394f0 and https://anydice.com/program/394f1 for the ugly behaviour
         # handling this is very ugly, we pass around a dictionary of all the code's variables and copy it for each function call
         # this makes the output code look unpleasant as every variable is accessed as dict['VAR'] instead of just VAR.
-- 
2.43.0


From 3b6b3fae78f678b862565b8eee49910a7aa949e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:26 +0000
Subject: [PATCH 03/22] fix: function depth is restored when a function raises

---
 src/decorators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decorators.py b/src/decorators.py
index e0cd5f8..5d93c83 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -151,8 +151,10 @@ def max_func_depth():
           SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True
         return blackrv.BlankRV()
       SETTINGS['INTERNAL_CURR_DEPTH'] += 1
-      res = func(*args, **kwargs)
-      SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
+      try:
+        res = func(*args, **kwargs)
+      finally:
+        SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
       return res if res is not None else blackrv.BlankRV()
     return wrapper
   return decorator
-- 
2.43.0


From 3b9d25e4cca6fb1147826548ced4601710bfd758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:26 +0000
Subject: [PATCH 04/22] fix: remembered rolls are not reused under different
 settings or for faces of another type

---
 src/roller.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/roller.py b/src/roller.py
index 091d7a0..3a31858 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -6,6 +6,7 @@ import math
 from .typings import T_ifsr, MetaRV, MetaSeq
 from . import factory
 from .randvar import RV
+from .settings import SETTINGS
 from . import blackrv
 
 
@@ -89,14 +90,16 @@ def _roll_int_rv(n: int, d: RV) -> RV:
     return RV.from_const(0)
   if n == 1:
     return d
-  if (n, d.vals, d.probs) in _MEMOIZED_ROLLS:
-    return _MEMOIZED_ROLLS[(n, d.vals, d.probs)]
+  # faces that compare equal (1 and 1.0) and rolls made under other settings give different results
+  memo_key = (n, d.vals, d.probs, tuple(type(v) for v in d.vals), SETTINGS['RV_TRUNC'], SETTINGS['RV_IGNORE_ZERO_PROBS'])
+  if memo_key in _MEMOIZED_ROLLS:
+    return _MEMOIZED_ROLLS[memo_key]
   half = _roll_int_rv(n // 2, d)
   full = half + half
   if n % 2 == 1:
     full = full + d
   full.set_source(n, d)
-  _MEMOIZED_ROLLS[(n, d.vals, d.probs)] = full
+  _MEMOIZED_ROLLS[memo_key] = full
   return full
 
 
-- 
2.43.0


From f5a80ab5eef1cd3084ec27619f3c451e42987935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:26 +0000
Subject: [PATCH 05/22] fix: equal text values have equal hashes

---
 src/string_rvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 26c2995..4f65614 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -99,7 +99,7 @@ class StringVal(MetaStr):
       return operator(float('inf'), other)
 
   def __hash__(self):
-    return hash((self.keys, tuple(self.data)))
+    return hash((self.keys, tuple(self.data[k] for k in self.keys)))
 
 
 class StringSeq(seq.Seq):
-- 
2.43.0


From 533c24b8db50c5e5243a3fa42744fbdaf233436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:26 +0000
Subject: [PATCH 06/22] fix: sequences of text support sum and position access

---
 src/string_rvs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 4f65614..7662ec2 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -105,6 +105,8 @@ class StringVal(MetaStr):
 class StringSeq(seq.Seq):
   def __init__(self, source: tuple[T_ift, ...]):
     # do not call super().__init__ here
+    self._sum = None
+    self._one_indexed = 1
     source_lst: list[T_ift] = list(source)
     for i, x in enumerate(source_lst):
       if isinstance(x, str):
-- 
2.43.0


From c63249f959e80e8ea9ab23c6a1d475b181ff8d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:26 +0000
Subject: [PATCH 07/22] fix: number literals with leading zeros or non-ASCII
 digits give the number written

---
 src/parser/myparser.py        | 2 +-
 src/parser/python_resolver.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index c11f818..032fb0b 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -78,7 +78,7 @@ def t_ignore_COMMENT(t):
 
 
 def t_NUMBER(t):
-    r'\d+'
+    r'[0-9]+'
     # t.value = int(t.value)  # Convert the string to an integer
     return t
 
diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 473b624..45abfd9 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -118,7 +118,7 @@ class PythonResolver:
             return '{' + node.val + '}'
         elif node.type == NodeType.NUMBER:  # number in an expression
             assert isinstance(node.val, str), f'Expected str of a number, got {node.val}  type: {type(node.val)}'
-            return str(node.val)
+            return node.val.lstrip('0') or '0'  # python does not allow leading zeros
         elif node.type == NodeType.NUMBER_DECIMAL:  # number in an expression
             val1, val2 = node
             assert isinstance(val1, str) and isinstance(val2, str), f'Expected str of a number, got {val1} and {val2}'
-- 
2.43.0


From 10f7ead9e03efd3537d7aa146a4f95d7b4d6c616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 08/22] fix: a call may start with a nested call

---
 src/parser/myparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index 032fb0b..8c14f39 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -606,7 +606,7 @@ def p_call_elements_expr(p):
     call_elements : expression
                 | call_elements expression
     '''
-    if p[1].type == NodeType.CALL:  # recursive case
+    if len(p) == 3:  # recursive case (p[1] may also be a nested call in the base case)
         wrapped = Node(NodeType.CALL_EXPR, p[2])
         p[0] = p[1].with_child(wrapped)
     else:
-- 
2.43.0


From 8d607304f3a4b612dbd979a5384f0c46a3c88f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 09/22] fix: a function without a name is a syntax error
 instead of a crash

---
 src/parser/myparser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index 8c14f39..d65502a 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -369,8 +369,7 @@ def p_funcname_def(p):
 
 def p_funcname_def_impossibletocall(p):
     '''
-    funcname_def :
-                | D_OP
+    funcname_def : D_OP
                 | funcname_def D_OP
     '''
     # Good luck calling a function with " d " in the name. It's impossible
-- 
2.43.0


From 5b420e0497fbe28fa3804fe2ecc4fe85ae2a5f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 10/22] fix: backslashes and control characters in strings stay
 text

---
 src/parser/python_resolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 45abfd9..5f1cb78 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -107,6 +107,7 @@ class PythonResolver:
             str_list = []
             for x in node:
                 if isinstance(x, str):
+                    x = x.replace('\\', '\\\\').replace('\r', '\\r').replace('\0', '\\x00')  # keep special characters as text
                     str_list.append(x.replace('{', '{{').replace('}', '}}'))  # escape curly braces
                 else:
                     str_list.append(self.resolve_node(x))
-- 
2.43.0


From 0a358431541d24e860068231c6e36439a535de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 11/22] fix: duplicate parameters without a type compile

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 5f1cb78..8c70430 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -292,5 +292,5 @@ def fix_dups_in_args(func_args, func_arg_names):
     N = len(func_args)
     for i in range(N - 1, -1, -1):  # only first is kept
         if func_arg_names.count(func_arg_names[i]) > 1:  # IS DUP
-            func_args[i] = f'dummy{i}: ' + func_args[i].split(': ')[1]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
+            func_args[i] = f'dummy{i}' + func_args[i][len(func_arg_names[i]):]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
             func_arg_names[i] = f'dummy{i}'
-- 
2.43.0


From 17065a7bbfe2bd0a45c0d08454aa6a277b877e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 12/22] fix: unknown parameter types are rejected when
 compiling

---
 src/parser/python_resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 8c70430..3cd1529 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -167,7 +167,8 @@ class PythonResolver:
                 else:
                     arg_name, arg_dtype = x
                     assert isinstance(arg_dtype, str), f'Expected string for arg_dtype, got {arg_dtype}'
-                    arg_dtype = {'s': 'T_S', 'n': 'T_N', 'd': 'T_D'}.get(arg_dtype, arg_dtype)
+                    assert arg_dtype in ('s', 'n', 'd'), f'Unknown parameter type {arg_dtype}'
+                    arg_dtype = {'s': 'T_S', 'n': 'T_N', 'd': 'T_D'}[arg_dtype]
                     func_args.append(f'{arg_name}: {arg_dtype}')
                     func_arg_names.append(arg_name)
                     func_name.append('X')
-- 
2.43.0


From 2ae9c841ea078916eef7aa3954be4dcfc51b4b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 13/22] fix: true_div is exported with the other library
 functions and callable in every compiler mode

---
 src/__init__.py | 4 ++--
 src/utils.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/__init__.py b/src/__init__.py
index 9f3c0ff..b5add1d 100644
--- a/src/__init__.py
+++ b/src/__init__.py
@@ -26,7 +26,7 @@ from .funclib import lowest_N_of_D as lowest_X_of_X, middle_N_of_D as middle_X_o
 from .funclib import maximum_of as maximum_of_X, reverse as reverse_X, sort as sort_X
 
 
-from .utils import mymatmul as myMatmul, mylen as myLen, myinvert as myInvert, myand as myAnd, myor as myOr
+from .utils import mymatmul as myMatmul, mylen as myLen, myinvert as myInvert, myand as myAnd, myor as myOr, true_div as true_div_X_X
 
 
 __all__ = [
@@ -34,5 +34,5 @@ __all__ = [
   'T_N', 'T_S', 'T_D',
   'roller', 'settings_reset', 'StringSeq', 'get_seq',
   'absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X', 'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X',
-  'myMatmul', 'myLen', 'myInvert', 'myAnd', 'myOr'
+  'myMatmul', 'myLen', 'myInvert', 'myAnd', 'myOr', 'true_div_X_X'
 ]
diff --git a/src/utils.py b/src/utils.py
index 963b533..883ff20 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -60,5 +60,5 @@ def myor(a, b):
     return a | b
 
 
-def true_div(a, b):
+def true_div(a, b, *args, **kwargs):
     return a / b
-- 
2.43.0


From 5a18d4d378dc25c2372ab5c5aa65a1cac8fa90ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:04 +0000
Subject: [PATCH 14/22] fix: generated Python groups operators as the source
 does

---
 src/parser/python_resolver.py | 37 +++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 3cd1529..5bff0a6 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -17,6 +17,9 @@ CONST = {
   'function library': ('absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X', 'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X', 'true_div_X_X'),
   'oplib': {'@': 'myMatmul', 'len': 'myLen', '~': 'myInvert', '&': 'myAnd', '|': 'myOr'},
 }
+# how tightly python binds the operators of the generated text
+_PY_PRECEDENCE = {'==': 1, '!=': 1, '<': 1, '>': 1, '<=': 1, '>=': 1, '|': 2, '&': 3, '+': 4, '-': 4, '*': 5, '//': 5, 'unary': 6, '**': 7}
+_PY_OPERATORS = {'=': '==', '^': '**', '/': '//'}
 _FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set'))
 
 
@@ -96,6 +99,28 @@ class PythonResolver:
         """Indent a string by self.indent_level spaces for each new line"""
         return '\n'.join(' ' * self.INDENT_LEVEL + x for x in s.split('\n'))
 
+    def _precedence(self, node: Union['Node', 'str']) -> int:
+        """Python precedence of the text that node resolves to"""
+        if isinstance(node, Node) and node.type == NodeType.UNARY:
+            if not (node.vals[0] == '!' and self._COMPILER_FLAG_OPERATOR_ON_INT):
+                return _PY_PRECEDENCE['unary']
+        elif isinstance(node, Node) and node.type == NodeType.EXPR_OP:
+            op = node.vals[0]
+            if op not in ('dm', 'ndm', '@') and not (op in ('&', '|') and self._COMPILER_FLAG_OPERATOR_ON_INT):
+                return _PY_PRECEDENCE[_PY_OPERATORS.get(op, op)]
+        return 10  # call, literal, name or anything in parentheses
+
+    def _resolve_operand(self, node: Union['Node', 'str'], min_precedence: int) -> str:
+        """Resolve an operand, with parentheses if python would group it differently"""
+        res = self.resolve_node(node)
+        return res if self._precedence(node) >= min_precedence else f'({res})'
+
+    def _resolve_infix(self, op: str, left: Union['Node', 'str'], right: Union['Node', 'str']) -> str:
+        prec = _PY_PRECEDENCE[op]
+        left_prec = prec + 1 if prec == 1 or op == '**' else prec  # comparisons chain and ** groups to the right in python
+        right_prec = _PY_PRECEDENCE['unary'] if op == '**' else prec + 1
+        return f'{self._resolve_operand(left, left_prec)} {op} {self._resolve_operand(right, right_prec)}'
+
     def resolve_node(self, node: Union['Node', 'str']) -> str:  # noqa: C901
         assert node is not None, 'Got None'
         assert not isinstance(node, str), f'resolver error, not sure what to do with a string [{node}]. All strings should be a Node ("string", str|strvar...)'
@@ -228,7 +253,7 @@ class PythonResolver:
         elif node.type == NodeType.EXPR_OP:
             op, left, right = node
             assert isinstance(op, str), f'Unknown operator {op}'
-            op = {'=': '==', '^': '**', '/': '//'}.get(op, op)
+            op = _PY_OPERATORS.get(op, op)
             if op == 'dm':
                 return f'{CONST["roll"]}({self.resolve_node(left)})'
             elif op == 'ndm':
@@ -236,20 +261,20 @@ class PythonResolver:
             elif op == '@':
                 if self._COMPILER_FLAG_OPERATOR_ON_INT:
                     return f'{CONST["oplib"]["@"]}({self.resolve_node(left)}, {self.resolve_node(right)})'
-                return f'({self.resolve_node(left)} {op} {self.resolve_node(right)})'  # wrap in parentheses to take precedence over multiplication
+                return f'({self._resolve_operand(left, 5)} {op} {self._resolve_operand(right, 6)})'  # wrap in parentheses to take precedence over multiplication
             elif op == '&' or op == '|':
                 if self._COMPILER_FLAG_OPERATOR_ON_INT:
                     return f'{CONST["oplib"][op]}({self.resolve_node(left)}, {self.resolve_node(right)})'
-                return f'{self.resolve_node(left)} {op} {self.resolve_node(right)}'
+                return self._resolve_infix(op, left, right)
             else:  # all other operators
-                return f'{self.resolve_node(left)} {op} {self.resolve_node(right)}'
+                return self._resolve_infix(op, left, right)
         elif node.type == NodeType.UNARY:
             op, expr = node
             if op == '!':
                 if self._COMPILER_FLAG_OPERATOR_ON_INT:
                     return f'{CONST["oplib"]["~"]}({self.resolve_node(expr)})'
-                return f'~{self.resolve_node(expr)}'
-            return f'{op}{self.resolve_node(expr)}'
+                return f'~{self._resolve_operand(expr, _PY_PRECEDENCE["unary"])}'
+            return f'{op}{self._resolve_operand(expr, _PY_PRECEDENCE["unary"])}'
         elif node.type == NodeType.HASH:  # len
             if self._COMPILER_FLAG_OPERATOR_ON_INT:
                 return f'{CONST["oplib"]["len"]}({self.resolve_node(node.val)})'
-- 
2.43.0


From 9f40bbc7db949e7cbc90d5e693a0b67f8909b318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 15/22] fix: names of a program never capture names the
 generated text relies on

---
 src/parser/python_resolver.py | 46 +++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 5bff0a6..fc7edc9 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -1,3 +1,4 @@
+import keyword
 import logging
 from typing import Union
 
@@ -20,7 +21,10 @@ CONST = {
 # how tightly python binds the operators of the generated text
 _PY_PRECEDENCE = {'==': 1, '!=': 1, '<': 1, '>': 1, '<=': 1, '>=': 1, '|': 2, '&': 3, '+': 4, '-': 4, '*': 5, '//': 5, 'unary': 6, '**': 7}
 _PY_OPERATORS = {'=': '==', '^': '**', '/': '//'}
-_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set'))
+# names the generated text relies on (a program can only define names like these with a function)
+_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], CONST['seq'], 'max_func_depth', 'anydice_casting', 'settings_set', 'len', 'vars', *keyword.kwlist))
+# names the generated text relies on that a program could use for a variable
+_VARS_MAY_COLLIDE = ('T_N', 'T_S', 'T_D')
 
 
 class PythonResolver:
@@ -75,7 +79,8 @@ class PythonResolver:
                 assert f_name in self._defined_functions, f'Unknown function {f_name} not defined. Currently callable functions: {self._user__defined_functions}'
         assert self._output_counter > 0, 'No outputs made. Did you forget to call "output expr"?'
 
-        if any(f in self._defined_functions for f in _FUNCS_MAY_COLLIDE):  # collision -> reset with flag (if another collision then crash)
+        # a function made of parameters only (e.g. X_X) looks like a variable
+        if any(f in _FUNCS_MAY_COLLIDE or f.isupper() for f in self._defined_functions):  # collision -> reset with flag (if another collision then crash)
             assert not self._COMPILER_FLAG_FUNC_LIB_CONFLICT, 'Function library conflict despite flag; this should not happen'
             self._COMPILER_FLAG_FUNC_LIB_CONFLICT = True
             self.reset_state()
@@ -91,6 +96,17 @@ class PythonResolver:
         assert self.result_text is not None, 'No text generated. Call resolve() first'
         return self.result_text
 
+    def _var_name(self, name: str) -> str:
+        """Python name of a variable of the program (lowercase letters never occur in variables of a program)"""
+        return f'var_{name}' if name in _VARS_MAY_COLLIDE else name
+
+    def _is_user_function(self, name: str, node: Union['Node', 'str', None]) -> bool:
+        if not isinstance(node, Node):
+            return False
+        if node.type == NodeType.FUNCNAME_DEF and name == '_'.join(x if isinstance(x, str) else 'X' for x in node):
+            return True
+        return any(self._is_user_function(name, x) for x in node)
+
     def _indent_resolve(self, node: Union['Node', 'str']) -> str:
         """Given a node, resolve it and indent it. node to indent: if/elif/else, loop, function"""
         return self._indent_str(self.resolve_node(node))
@@ -141,7 +157,7 @@ class PythonResolver:
             assert isinstance(node.val, str), f'Expected string for strvar, got {node.val}'
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 return "{vars['" + node.val + "']}"
-            return '{' + node.val + '}'
+            return '{' + self._var_name(node.val) + '}'
         elif node.type == NodeType.NUMBER:  # number in an expression
             assert isinstance(node.val, str), f'Expected str of a number, got {node.val}  type: {type(node.val)}'
             return node.val.lstrip('0') or '0'  # python does not allow leading zeros
@@ -153,7 +169,7 @@ class PythonResolver:
             assert isinstance(node.val, str), f'Expected str of a variable, got {node.val}'
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 return f"vars['{node.val}']"
-            return node.val
+            return self._var_name(node.val)
         elif node.type == NodeType.GROUP:  # group inside an expression, node.val is an expression
             return f'({self.resolve_node(node.val)})'
 
@@ -186,7 +202,7 @@ class PythonResolver:
                     func_name.append(x)
                 elif x.type == NodeType.PARAM:
                     arg_name = x.val
-                    func_args.append(arg_name)
+                    func_args.append(self._var_name(arg_name))
                     func_arg_names.append(arg_name)
                     func_name.append('X')
                 else:
@@ -194,11 +210,11 @@ class PythonResolver:
                     assert isinstance(arg_dtype, str), f'Expected string for arg_dtype, got {arg_dtype}'
                     assert arg_dtype in ('s', 'n', 'd'), f'Unknown parameter type {arg_dtype}'
                     arg_dtype = {'s': 'T_S', 'n': 'T_N', 'd': 'T_D'}[arg_dtype]
-                    func_args.append(f'{arg_name}: {arg_dtype}')
+                    func_args.append(f'{self._var_name(arg_name)}: {arg_dtype}')
                     func_arg_names.append(arg_name)
                     func_name.append('X')
             if has_dups(func_arg_names):
-                fix_dups_in_args(func_args, func_arg_names)
+                fix_dups_in_args(func_args, func_arg_names, self._var_name)
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 func_args.append('vars')
             func_name = '_'.join(func_name)
@@ -208,7 +224,7 @@ class PythonResolver:
             func_def = f'def {func_name}({", ".join(func_args)}):'
             func_code = ''
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
-                func_code += self._indent_str('vars = vars.copy(); ' + '; '.join([f'vars["{n}"] = {n}' for n in func_arg_names])) + '\n'
+                func_code += self._indent_str('vars = vars.copy(); ' + '; '.join([f'vars["{n}"] = {self._var_name(n)}' for n in func_arg_names])) + '\n'
             func_code += self._indent_resolve(code)
             return f'{func_decorator}\n{func_def}\n{func_code}' + '\n' * self.NEWLINES_AFTER_FUNCTION
         elif node.type == NodeType.RESULT:
@@ -235,10 +251,10 @@ class PythonResolver:
         # LOOP
         elif node.type == NodeType.LOOP:
             var, over, code = node
-            res_header = f'for {var} in {self.resolve_node(over)}:'
+            res_header = f'for {self._var_name(var)} in {self.resolve_node(over)}:'
             res_code = ''
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
-                res_code += self._indent_str(f"vars['{var}'] = {var}") + '\n'  # I hate this but it must happen
+                res_code += self._indent_str(f"vars['{var}'] = {self._var_name(var)}") + '\n'  # I hate this but it must happen
             res_code += self._indent_resolve(code)
             return res_header + '\n' + res_code + '\n' * self.NEWLINES_AFTER_LOOP
 
@@ -247,7 +263,7 @@ class PythonResolver:
             var, val = node
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 return f"vars['{var}'] = {self.resolve_node(val)}"
-            return f'{var} = {self.resolve_node(val)}'
+            return f'{self._var_name(var)} = {self.resolve_node(val)}'
 
         # EXPRESSIONS
         elif node.type == NodeType.EXPR_OP:
@@ -289,8 +305,6 @@ class PythonResolver:
             return f'{CONST["range"]}({l}, {r})'
         elif node.type == NodeType.CALL:
             name, args = [], []
-            if self._COMPILER_FLAG_FUNC_LIB_CONFLICT:
-                name.append('f')
             for x in node:
                 if isinstance(x, Node) and x.type == NodeType.CALL_EXPR:  # expression
                     args.append(self.resolve_node(x.val))
@@ -302,6 +316,8 @@ class PythonResolver:
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 args.append('vars')
             name = '_'.join(name)
+            if self._COMPILER_FLAG_FUNC_LIB_CONFLICT and (name not in CONST['function library'] or self._is_user_function(name, self.root)):
+                name = 'f_' + name
             self._called_functions.add(name)
             return f'{name}({", ".join(args)})' if args else f'{name}()'
 
@@ -313,10 +329,10 @@ def has_dups(lst):
     return len(lst) != len(set(lst))
 
 
-def fix_dups_in_args(func_args, func_arg_names):
+def fix_dups_in_args(func_args, func_arg_names, var_name=str):
     # rarely used, but if a function has duplicate arguments then we need to rename them
     N = len(func_args)
     for i in range(N - 1, -1, -1):  # only first is kept
         if func_arg_names.count(func_arg_names[i]) > 1:  # IS DUP
-            func_args[i] = f'dummy{i}' + func_args[i][len(func_arg_names[i]):]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
+            func_args[i] = f'dummy{i}' + func_args[i][len(var_name(func_arg_names[i])):]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
             func_arg_names[i] = f'dummy{i}'
-- 
2.43.0


From 22f98e6d9e805aeb48ddbbf99bf1527efc0f6ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:05 +0000
Subject: [PATCH 16/22] fix: sequences of rolled dice follow the position order
 setting

---
 src/randvar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index a926bc0..ef30724 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -178,7 +178,8 @@ class RV(MetaRV):
     pdf_dict = {v: p for v, p in zip(D.vals, D.probs)}
     vals, probs = [], []
     FACTORIAL_N = utils.factorial(N)
-    for roll in combinations_with_replacement(D.vals[::-1], N):
+    ordered_vals = D.vals if SETTINGS["position order"] == "lowest first" else D.vals[::-1]
+    for roll in combinations_with_replacement(ordered_vals, N):
       vals.append(factory.get_seq(_INTERNAL_SEQ_VALUE=roll))
       counts = defaultdict(int)  # fast counts
       cur_roll_probs = 1  # this is p(x_1)*...*p(x_n) where [x_1,...,x_n] is the current roll, if D is a uniform then this = 1 and is not needed.
-- 
2.43.0


From 4f43be221f66a8057bb240b5f4d50c23c44fbdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:40 +0000
Subject: [PATCH 17/22] fix: dice with rescaled weights stay in canonical form

---
 src/randvar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/randvar.py b/src/randvar.py
index ef30724..848a7aa 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -242,7 +242,7 @@ class RV(MetaRV):
   def _get_kth_order_statistic(self, draws: int, k: int):
     '''Get the k-th smallest value of n draws: k@RV where RV is n rolls of a die'''
     # k-th largest value of n draws: γ@RV where RV is n rolls of a die | FOR DISCRETE (what we need): https://en.wikipedia.org/wiki/Order_statistic#Dealing_with_discrete_variables
-    cdf = self.get_cdf().probs  # P(X <= x)
+    cdf = tuple(accumulate(self.probs))  # P(X <= x)
     sum_probs = self._get_sum_probs()
     p1 = tuple(cdf_x - p_x for p_x, cdf_x in zip(self.probs, cdf))  # P(X < x)
     p2 = self.probs  # P(X = x)
@@ -449,8 +449,8 @@ def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: float = 10e30):
   sum_ = rv._get_sum_probs()
   if sum_ <= sum_limit:
     return rv
-  normalizing_const = int(10e10 * (sum_ // sum_limit))
-  logger.warning(f'WARNING reducing probabilities | sum limit {sum_limit}, sum{sum_:.1g}, NORMALIZING BY {normalizing_const:.1g} | from my calc, abs err <= {1 / (sum_ / normalizing_const - 1)}')
+  normalizing_const = int(10e10) * (sum_ // int(sum_limit))
+  logger.warning(f'WARNING reducing probabilities | sum limit {sum_limit}, sum {sum_}, NORMALIZING BY {normalizing_const} | from my calc, abs err <= {1 / (sum_ / normalizing_const - 1)}')
   # napkin math for the error. int(x) = x - x_ϵ where x_ϵ∈[0,1) is for the rounding error. Don't quote me on this math, not 100% sure.
   # P(x_i )=p_i/(∑p_i )  before normalization (p_i is an integer probability unbounded)
   # P(x_i )=p_i/(∑▒Nint(p_i/N) )  after normalization
@@ -459,6 +459,7 @@ def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: float = 10e30):
   # abs err=p_i*(∑▒〖(p_i/N-(p_i/N)_eps )-(∑p_i)/N〗)/(∑p_i*∑▒(p_i/N-(p_i/N)_eps ) )
   # =p_i*((∑▒p_i/N-∑▒(p_i/N)_eps )-(∑p_i)/N)/(∑p_i*(∑▒p_i/N-∑▒(p_i/N)_eps ) )=p_i/(∑p_i )*(∑▒(p_i/N)_eps )/((∑▒p_i/N-∑▒(p_i/N)_eps ) )≤p_i/(∑p_i )*1/((∑▒p_i/CN-1) )≤1/(((∑▒p_i )/N-1) )
 
-  rv.probs = tuple(p // normalizing_const for p in rv.probs)
+  reduced_probs = tuple(p // normalizing_const for p in rv.probs)
+  rv.vals, rv.probs = RV._sort_and_group(rv.vals, reduced_probs, skip_zero_probs=SETTINGS['RV_IGNORE_ZERO_PROBS'], normalize=True)
   rv._get_sum_probs(force=True)  # force update sum
   return rv
-- 
2.43.0


From 7339fbd6609fc459797ec8d162e7efbcc2c6cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:01 +0000
Subject: [PATCH 18/22] fix: a cut never removes face 0 because of its value

---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index 848a7aa..68661c6 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -152,7 +152,7 @@ class RV(MetaRV):
         vals_probs[i] = (f'"{v}"', p) if v.is_number() else (f'{v}', p)
     if cdf_cut > 0:  # cut the bottom vals/probs and when stop total cut probs is less than cdf_cut
       sorted_vals_probs = sorted(vals_probs, key=lambda x: x[1])
-      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1]), initial=(0, 0)))
+      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1])))
       vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)
       vals_probs = list((v, p) for v, p in vals_probs if v not in vals_to_cut)
     return tuple(vals_probs)
-- 
2.43.0


From b04620890b84edf0bb4bd89213cba0d22c0c76fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:21 +0000
Subject: [PATCH 19/22] fix: a float given to a sequence parameter becomes a
 one-element sequence

---
 src/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decorators.py b/src/decorators.py
index 5d93c83..30cd81f 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -73,7 +73,7 @@ def anydice_type_casting(verbose=False):  # noqa: C901
         elif expected_type == T_N and isinstance(arg_val, MetaRV):
           hard_params[k] = (arg_val, expected_type)
           continue
-        elif expected_type == T_S and isinstance(arg_val, int):
+        elif expected_type == T_S and isinstance(arg_val, (int, float)):
           new_val = get_seq([arg_val])
         elif expected_type == T_S and isinstance(arg_val, MetaRV):
           hard_params[k] = (arg_val, expected_type)
-- 
2.43.0


From f86eca6b840e215e379f691004971410ff60c129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:31 +0000
Subject: [PATCH 20/22] fix: restore the function depth after a call that
 resets the settings

---
 src/decorators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decorators.py b/src/decorators.py
index 30cd81f..eefc97c 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -150,11 +150,12 @@ def max_func_depth():
           print(msg)
           SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True
         return blackrv.BlankRV()
+      depth = SETTINGS['INTERNAL_CURR_DEPTH']
       SETTINGS['INTERNAL_CURR_DEPTH'] += 1
       try:
         res = func(*args, **kwargs)
-      finally:
-        SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
+      finally:  # not decremented since the call may have reset the settings
+        SETTINGS['INTERNAL_CURR_DEPTH'] = depth
       return res if res is not None else blackrv.BlankRV()
     return wrapper
   return decorator
-- 
2.43.0


From e3f098dc5adb55235ae03c5ace7152cef9c82756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:03 +0000
Subject: [PATCH 21/22] fix: a cut never removes a likely text face shown like
 a rare one

---
 src/randvar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/randvar.py b/src/randvar.py
index 68661c6..eea5a30 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -146,15 +146,15 @@ class RV(MetaRV):
     assert 0 <= cdf_cut < 1, 'cdf_cut must be in [0, 1)'
     s = self._get_sum_probs()
     vals_probs: list[tuple[Union[float, str], float]] = list((v, p / s) for v, p in zip(self.vals, self.probs))
-    # convert strings representing numbers as "string"
-    for i, (v, p) in enumerate(vals_probs):
-      if isinstance(v, MetaStr):
-        vals_probs[i] = (f'"{v}"', p) if v.is_number() else (f'{v}', p)
     if cdf_cut > 0:  # cut the bottom vals/probs and when stop total cut probs is less than cdf_cut
       sorted_vals_probs = sorted(vals_probs, key=lambda x: x[1])
       accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1])))
       vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)
       vals_probs = list((v, p) for v, p in vals_probs if v not in vals_to_cut)
+    # convert strings representing numbers as "string" (after the cut, different faces may be shown as the same text)
+    for i, (v, p) in enumerate(vals_probs):
+      if isinstance(v, MetaStr):
+        vals_probs[i] = (f'"{v}"', p) if v.is_number() else (f'{v}', p)
     return tuple(vals_probs)
 
   def get_cdf(self):
-- 
2.43.0


From 95a1a6c221cf3fef7f489087036ea3f8444fbf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:10 +0000
Subject: [PATCH 22/22] fix: a result outside of a function is rejected when
 compiling

---
 src/parser/python_resolver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index fc7edc9..6af20c9 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -60,6 +60,7 @@ class PythonResolver:
         self._user__defined_functions: list[str] = []  # only used for error messages
         self._called_functions: set[str] = set()
         self._output_counter = 0
+        self._function_level = 0  # how many functions enclose the node being resolved
         self.result_text: Union[str, None] = None
 
     def _check_nested_str(self, node):
@@ -225,9 +226,12 @@ class PythonResolver:
             func_code = ''
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 func_code += self._indent_str('vars = vars.copy(); ' + '; '.join([f'vars["{n}"] = {self._var_name(n)}' for n in func_arg_names])) + '\n'
+            self._function_level += 1
             func_code += self._indent_resolve(code)
+            self._function_level -= 1
             return f'{func_decorator}\n{func_def}\n{func_code}' + '\n' * self.NEWLINES_AFTER_FUNCTION
         elif node.type == NodeType.RESULT:
+            assert self._function_level > 0, 'result outside of a function'
             return f'return {self.resolve_node(node.val)}'
 
         # CONDITIONALS IF
-- 
2.43.0

