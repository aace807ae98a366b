From 9f52fb344f4a5b351955b8e0dc0e04baa013b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 01/55] fix: several wrappers of one function, created before
 its first call, must all stay callable

---
 .../_060_autonomous_functions/autonomous_core_classes.py  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index bf2f55c..aa01021 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -238,9 +238,11 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         #     island[fn_name] = self
         assert self.fn_source_code == island[fn_name].fn_source_code
 
-        if island[fn_name]._fn_fully_registered:
-            if type(self) == AutonomousFn:
-                self.update(island[fn_name])
+        if island[fn_name] is not self:
+            # The island may hold another wrapper of the same function:
+            # complete that one, and share its registration data.
+            island[fn_name]._complete_fn_registration()
+            self.update(island[fn_name])
             return
 
         SafeFn._complete_fn_registration(self)
-- 
2.43.0


From d77a08e412e89181367ab9766835736d9df84354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 02/55] fix: an autonomous function's decorator, and addresses
 built from it, must not depend on earlier calls

---
 .../autonomous_core_classes.py                         | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index aa01021..4519a62 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -112,6 +112,9 @@ class AutonomousCodePortal(SafeCodePortal):
 class AutonomousFn(SafeFn, PortalAwareClass):
     island_name:str
     strictly_autonomous:bool
+    # What the function was declared as. Unlike strictly_autonomous, it never
+    # changes, so the function's textual form does not depend on its history.
+    _declared_strictly_autonomous:bool = False
     _autonomous_fn_dependencies: list[str] | None
 
     def __init__(self, a_fn: Callable | str | OrdinaryFn
@@ -132,6 +135,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
 
         self.island_name = island_name
         self.strictly_autonomous = bool(strictly_autonomous)
+        self._declared_strictly_autonomous = self.strictly_autonomous
         if type(self) == AutonomousFn:
             self._begin_fn_registration()
 
@@ -139,6 +143,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         SafeFn.update(self, other)
         self.island_name = other.island_name
         self.strictly_autonomous = other.strictly_autonomous
+        self._declared_strictly_autonomous = other._declared_strictly_autonomous
         if other._fn_fully_registered:
             self._autonomous_fn_dependencies = other._autonomous_fn_dependencies
 
@@ -194,7 +199,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
 
     @property
     def fn_type(self) -> str:
-        if self.strictly_autonomous:
+        if self._declared_strictly_autonomous:
             return "strictly_autonomous"
         else:
             return "autonomous"
@@ -321,7 +326,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         draft_state = dict(fn_name = self.fn_name
             , fn_source_code = self.fn_source_code
             , island_name = self.island_name
-            , strictly_autonomous = self.strictly_autonomous
+            , strictly_autonomous = self._declared_strictly_autonomous
             , class_name = self.__class__.__name__)
         state = dict()
         for key in sorted(draft_state):
@@ -336,6 +341,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         self.fn_source_code = state["fn_source_code"]
         self.island_name = state["island_name"]
         self.strictly_autonomous = state["strictly_autonomous"]
+        self._declared_strictly_autonomous = self.strictly_autonomous
         self._fn_fully_registered = False
         self.capture_portal()
         self._begin_fn_registration()
\ No newline at end of file
-- 
2.43.0


From 96a53460ce428164d567afb125ecc9a2d0b3aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 03/55] fix: name analysis must know keyword-only and
 positional-only arguments, lambdas, nested classes, dotted imports and
 late-bound names

---
 .../names_usage_analyzer.py                   | 64 ++++++++++++++-----
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index f6e0af6..fb65872 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -26,33 +26,64 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         self.imported_packages_deep = set()
         self.func_nesting_level = 0
         self.n_yelds = 0
+        # names, used by nested functions, which these functions do not bind
+        self.nested_nonlocal = set()
+        self.nested_unclassified = set()
+
+    def add_arguments(self, args):
+        all_args = args.posonlyargs + args.args + args.kwonlyargs
+        for arg in all_args:
+            self.names.local |= {arg.arg}
+        if args.vararg:
+            self.names.local |= {args.vararg.arg}
+        if args.kwarg:
+            self.names.local |= {args.kwarg.arg}
+        self.names.accessible |= self.names.local
+
+    def add_nested(self, nested):
+        self.imported_packages_deep |= nested.imported_packages_deep
+        self.names.explicitly_global_unbound_deep |= nested.names.explicitly_global_unbound_deep
+        self.nested_nonlocal |= nested.names.explicitly_nonlocal_unbound_deep
+        self.nested_unclassified |= nested.names.unclassified_deep
+        # self.names.imported is not changing
+        # self.n_yelds is not changing
+
+    def resolve_nested(self):
+        # A nested function is allowed to use names which
+        # the enclosing function binds after the nested one is defined.
+        self.names.explicitly_nonlocal_unbound_deep |= (
+            self.nested_nonlocal - self.names.accessible)
+        self.names.unclassified_deep |= (
+            self.nested_unclassified - self.names.accessible)
 
     def visit_FunctionDef(self, node):
         if self.func_nesting_level == 0:
             self.names.function = node.name
             self.func_nesting_level += 1
-            for arg in node.args.args:
-                self.names.local |= {arg.arg}
-            if node.args.vararg:
-                self.names.local |= {node.args.vararg.arg}
-            if node.args.kwarg:
-                self.names.local |= {node.args.kwarg.arg}
-            self.names.accessible |= self.names.local
+            self.add_arguments(node.args)
             self.generic_visit(node)
+            self.resolve_nested()
             self.func_nesting_level -= 1
         else:
             nested = NamesUsageAnalyzer()
             nested.visit(node)
-            self.imported_packages_deep |= nested.imported_packages_deep
-            nested.names.explicitly_nonlocal_unbound_deep -= self.names.accessible
-            self.names.explicitly_nonlocal_unbound_deep |= nested.names.explicitly_nonlocal_unbound_deep
-            self.names.explicitly_global_unbound_deep |= nested.names.explicitly_global_unbound_deep
-            nested.names.unclassified_deep -= self.names.accessible
-            self.names.unclassified_deep |= nested.names.unclassified_deep
+            self.add_nested(nested)
             self.names.local |= {node.name}
             self.names.accessible |= {node.name}
-            # self.names.imported is not changing
-            # self.n_yelds is not changing
+
+    def visit_Lambda(self, node):
+        nested = NamesUsageAnalyzer()
+        nested.func_nesting_level = 1
+        nested.add_arguments(node.args)
+        nested.visit(node.body)
+        nested.resolve_nested()
+        self.add_nested(nested)
+        self.visit(node.args)
+
+    def visit_ClassDef(self, node):
+        self.names.local |= {node.name}
+        self.names.accessible |= {node.name}
+        self.generic_visit(node)
 
     def visit_Name(self, node):
         if isinstance(node.ctx, ast.Load):
@@ -119,7 +150,8 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
 
     def visit_Import(self, node):
         for alias in node.names:
-            name = alias.asname if alias.asname else alias.name
+            # 'import a.b.c' binds name 'a'; 'import a.b.c as x' binds name 'x'
+            name = alias.asname if alias.asname else alias.name.split('.')[0]
             self.names.imported |= {name}
             self.imported_packages_deep |= {alias.name.split('.')[0]}
         self.names.accessible |= self.names.imported
-- 
2.43.0


From 3af693745ae3e20fd9bef0ac777c6c5ba46374ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 04/55] fix: source normalization must be idempotent for
 lambdas and repeated leading strings

---
 .../code_normalizer_implementation.py         | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index 00c5f76..8ff98ce 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -122,20 +122,21 @@ def __get_normalized_function_source__(
             # remove return annotation from function definitions
             node.returns = None
 
-        if not len(node.body):
-            continue
-        if not isinstance(node.body[0], ast.Expr):
-            continue
-        if not hasattr(node.body[0], 'value'):
-            continue
-        if not isinstance(node.body[0].value, ast.Str):
-            continue
-        node.body = node.body[1:]
-        if len(node.body) < 1:
-            node.body.append(ast.Pass())
+        # If another string follows the docstring, it would become a docstring
+        # once the first one is removed, so all leading strings are removed.
+        while (len(node.body)
+                and isinstance(node.body[0], ast.Expr)
+                and isinstance(node.body[0].value, ast.Constant)
+                and isinstance(node.body[0].value.value, str)):
+            node.body = node.body[1:]
+            if len(node.body) < 1:
+                node.body.append(ast.Pass())
         # TODO: compare with the source for ast.candidate_docstring()
 
     result = ast.unparse(code_ast)
-    result = autopep8.fix_code(result)
+    # E731 is excluded, as it rewrites a lambda into a function definition,
+    # which would be normalized differently the next time.
+    result = autopep8.fix_code(result, options=dict(
+        ignore=["E226", "E24", "W50", "W690", "E731"]))
 
     return result
\ No newline at end of file
-- 
2.43.0


From 9291c9b4127b4b55869b4224b7005858d144f75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 05/55] fix: source normalization must accept variable
 annotations

---
 .../code_normalizer_implementation.py         | 35 ++++++++++++++++---
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index 8ff98ce..ce95fbf 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -24,6 +24,34 @@ from pythagoras._040_ordinary_functions.assert_ordinarity import assert_ordinari
 import pythagoras as pth
 
 
+class _VariableAnnotationsRemover(ast.NodeTransformer):
+    """Remove type annotations from variable declarations.
+
+    Annotations, located directly in a body of a class, are not removed,
+    because they are a part of the class (e.g. they define dataclass fields).
+    """
+
+    def visit_AnnAssign(self, node):
+        if node.value is None:
+            return None
+        return ast.copy_location(ast.Assign(
+            targets=[node.target], value=node.value), node)
+
+    def visit_ClassDef(self, node):
+        for i, child in enumerate(node.body):
+            if not isinstance(child, ast.AnnAssign):
+                node.body[i] = self.visit(child)
+        return node
+
+    def generic_visit(self, node):
+        super().generic_visit(node)
+        if getattr(node, "body", None) == []:
+            node.body = [ast.Pass()]
+        if isinstance(node, ast.Try) and not node.handlers + node.finalbody:
+            node.finalbody = [ast.Pass()]
+        return node
+
+
 def __get_normalized_function_source__(
         a_func:Callable|str
         , drop_pth_decorators:bool = False
@@ -100,14 +128,11 @@ def __get_normalized_function_source__(
         assert pth_dec_counter == 1
         code_ast.body[0].decorator_list = []
 
+    code_ast = _VariableAnnotationsRemover().visit(code_ast)
+
     # Remove docstrings.
     for node in ast.walk(code_ast):
 
-        if isinstance(node, ast.AnnAssign):
-            # remove type annotation from variable declarations
-            node.annotation = None
-            continue
-
         if isinstance(node, ast.arg):
             # argument annotations in functions
             node.annotation = None
-- 
2.43.0


From 708fd8564d30ce86c59c4f8d304ae1d77ca4cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 06/55] fix: source normalization must not change multi-line
 strings

---
 .../code_normalizer_implementation.py         | 31 ++++++-------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index ce95fbf..782dcfb 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -76,29 +76,18 @@ def __get_normalized_function_source__(
     else:
         assert callable(a_func) or isinstance(a_func, str)
 
-    code_lines = code.splitlines()
-
-    code_no_empty_lines = []
-    for line in code_lines:
-        if set(line)<=set(" \t"):
-            continue
-        code_no_empty_lines.append(line)
+    if a_func_name is None:
+        a_func_name = get_function_name_from_source(code)
 
     # Fix indent for functions that are defined within other functions;
-    # most frequently it is used for tests.
-    first_line_no_indent = code_no_empty_lines[0].lstrip()
-    n_chars_to_remove = len(code_no_empty_lines[0]) - len(first_line_no_indent)
-    chars_to_remove = code_no_empty_lines[0][:n_chars_to_remove]
-    code_clean_version = []
-    for line in code_no_empty_lines:
-        assert line.startswith(chars_to_remove)
-        cleaned_line = line[n_chars_to_remove:]
-        code_clean_version.append(cleaned_line)
-
-    code_clean_version = "\n".join(code_clean_version)
-    if a_func_name is None:
-        a_func_name = get_function_name_from_source(code_clean_version)
-    code_ast = ast.parse(code_clean_version)
+    # most frequently it is used for tests. The code itself is not changed,
+    # as changing its lines would change multi-line strings.
+    first_line = [l for l in code.split("\n") if l.strip()][0]
+    if first_line[0] in " \t":
+        code_ast = ast.parse("if True:\n" + code)
+        code_ast.body = code_ast.body[0].body
+    else:
+        code_ast = ast.parse(code)
 
     assert isinstance(code_ast, ast.Module)
     assert isinstance(code_ast.body[0], ast.FunctionDef),(
-- 
2.43.0


From b77f9e097158c5a7e7674e5169a7d1b190175735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 07/55] fix: log the exceptions that reach the end of a
 portal's block or of the program, not those that happen to be handled at that
 time

---
 pythagoras/_020_logging_portals/logging_portals.py  | 12 ++++++------
 pythagoras/_070_pure_functions/pure_core_classes.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index 1c3f14f..866e6c9 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -19,12 +19,12 @@ from pythagoras._820_strings_signatures_converters.random_signatures import (
 
 
 def pth_excepthook(exc_type, exc_value, trace_back) -> None:
-    LoggingPortal._exception_logger()
+    LoggingPortal._exception_logger(exc_type, exc_value, trace_back)
     sys.__excepthook__(exc_type, exc_value, trace_back)
 
 def pth_excepthandler(_, exc_type, exc_value
                     , trace_back, tb_offset=None) -> None:
-    LoggingPortal._exception_logger()
+    LoggingPortal._exception_logger(exc_type, exc_value, trace_back)
     traceback.print_exception(exc_type, exc_value, trace_back)
 
 _previous_excepthook = None
@@ -307,9 +307,9 @@ class LoggingPortal(BasicPortal):
         return build_execution_environment_summary()
 
     @staticmethod
-    def _exception_logger():
-        exc_type, exc_value, trace_back = sys.exc_info()
-
+    def _exception_logger(*exc_info):
+        # Without arguments, it logs the exception that is being handled now.
+        exc_type, exc_value, trace_back = exc_info or sys.exc_info()
         if not LoggingPortal._exception_needs_to_be_processed(
                 exc_type, exc_value, trace_back):
             return
@@ -324,7 +324,7 @@ class LoggingPortal(BasicPortal):
 
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        LoggingPortal._exception_logger()
+        LoggingPortal._exception_logger(exc_type, exc_val, exc_tb)
         super().__exit__(exc_type, exc_val, exc_tb)
         return False
 
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index af5b3fd..de2af80 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -967,7 +967,7 @@ class PureFnExecutionFrame(PortalAwareClass):
             self.fn_address + ["results", self.session_id]] = result
 
     def __exit__(self, exc_type, exc_value, trace_back):
-        self.output_capturer.__exit__(exc_type, exc_value, traceback)
+        self.output_capturer.__exit__(exc_type, exc_value, trace_back)
 
         output_id = self.session_id+"_output"
         execution_outputs = self.fn_address.execution_outputs
@@ -976,7 +976,7 @@ class PureFnExecutionFrame(PortalAwareClass):
         # self.register_exception(
         #     exc_type=exc_type, exc_value=exc_value, trace_back=trace_back)
 
-        self.portal.__exit__(exc_type, exc_value, traceback)
+        self.portal.__exit__(exc_type, exc_value, trace_back)
         self.fn.call_stack.pop()
 
 
-- 
2.43.0


From 9706a6170269bdcb779baf286b59beff63f8d0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 08/55] fix: the previous exception hook must be restored when
 all portals are cleared

---
 pythagoras/_020_logging_portals/logging_portals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index 866e6c9..ddbd724 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -29,6 +29,7 @@ def pth_excepthandler(_, exc_type, exc_value
 
 _previous_excepthook = None
 def register_systemwide_uncaught_exception_handlers() -> None:
+    global _previous_excepthook
     if not is_executed_in_notebook():
         _previous_excepthook = sys.excepthook
         sys.excepthook = pth_excepthook
-- 
2.43.0


From 710a7d87db88528b6b3b43b623e567b4cf6f4291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 09/55] fix: a function's registration error must not be masked
 by an error in its own logging

---
 pythagoras/_040_ordinary_functions/ordinary_core_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
index 26f12f6..e137ef2 100644
--- a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
+++ b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
@@ -173,8 +173,9 @@ class OrdinaryFn(PortalAwareClass):
             , exception_extra_data_to_persist=exception_extra_data_to_persist)
 
     def execute(self,**kwargs):
+        # Data needed for logging is not available before the registration.
+        self._complete_fn_registration()
         try:
-            self._complete_fn_registration()
             names_dict = self._available_names()
             names_dict[self._kwargs_var_name] = kwargs
             exec(self._fn_bytecode, names_dict, names_dict)
-- 
2.43.0


From 49272383f5db44075706105d214d043df6d265f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 10/55] fix: a storage error must not leave a portal entered or
 the output captured

---
 .../_020_logging_portals/logging_portals.py   |  6 +++--
 .../_070_pure_functions/pure_core_classes.py  | 26 +++++++++++++------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index ddbd724..1e19092 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -325,8 +325,10 @@ class LoggingPortal(BasicPortal):
 
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        LoggingPortal._exception_logger(exc_type, exc_val, exc_tb)
-        super().__exit__(exc_type, exc_val, exc_tb)
+        try:
+            LoggingPortal._exception_logger(exc_type, exc_val, exc_tb)
+        finally:
+            super().__exit__(exc_type, exc_val, exc_tb)
         return False
 
     @staticmethod
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index de2af80..0dfc10e 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import os
+import sys
 import time
 import traceback
 from copy import copy
@@ -949,7 +950,12 @@ class PureFnExecutionFrame(PortalAwareClass):
         self.portal.__enter__()
         self.output_capturer.__enter__()
         self.fn.call_stack.append(self)
-        self.register_execution_attempt()
+        try:
+            self.register_execution_attempt()
+        except:
+            self.output_capturer.__exit__(*sys.exc_info())
+            self._leave_context(*sys.exc_info())
+            raise
         return self
 
     def register_execution_attempt(self):
@@ -967,17 +973,21 @@ class PureFnExecutionFrame(PortalAwareClass):
             self.fn_address + ["results", self.session_id]] = result
 
     def __exit__(self, exc_type, exc_value, trace_back):
-        self.output_capturer.__exit__(exc_type, exc_value, trace_back)
+        try:
+            self.output_capturer.__exit__(exc_type, exc_value, trace_back)
 
-        output_id = self.session_id+"_output"
-        execution_outputs = self.fn_address.execution_outputs
-        execution_outputs[output_id] = self.output_capturer.get_output()
+            output_id = self.session_id+"_output"
+            execution_outputs = self.fn_address.execution_outputs
+            execution_outputs[output_id] = self.output_capturer.get_output()
 
-        # self.register_exception(
-        #     exc_type=exc_type, exc_value=exc_value, trace_back=trace_back)
+            # self.register_exception(
+            #     exc_type=exc_type, exc_value=exc_value, trace_back=trace_back)
+        finally:
+            self._leave_context(exc_type, exc_value, trace_back)
 
-        self.portal.__exit__(exc_type, exc_value, trace_back)
+    def _leave_context(self, exc_type, exc_value, trace_back):
         self.fn.call_stack.pop()
+        self.portal.__exit__(exc_type, exc_value, trace_back)
 
 
     def _extra_exception_data(self) -> dict:
-- 
2.43.0


From 616482ddb01ff285775e73b97c01086f0e99983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 11/55] fix: OverlappingMultiDict must reject pickling and
 direct item access

---
 .../overlapping_multi_dict.py                 | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py b/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py
index b120b37..3cfecbf 100644
--- a/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py
+++ b/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py
@@ -35,23 +35,23 @@ class OverlappingMultiDict:
                 ,**individual_subdicts_params[subdict_name]
                 ,"file_type":subdict_name})
 
-        def __getstate__(self):
-            raise NotAllowedError("This object should never be pickled")
-
-        def __setstate__(self, state):
-            raise NotAllowedError("This object should never be pickled")
-
-        def __getitem__(self, key):
-            raise NotAllowedError(
-                "Individual items should be accessed through nested dicts, "
-                + f"which are available via attributes {self.subdicts_names}")
-
-        def __setitem__(self, key, value):
-            raise NotAllowedError(
-                "Individual items should be accessed through nested dicts, "
-                + f"which are available via attributes {self.subdicts_names}")
-
-        def __delitem__(self, key):
-            raise NotAllowedError(
-                "Individual items should be accessed through nested dicts, "
-                + f"which are available via attributes {self.subdicts_names}")
\ No newline at end of file
+    def __getstate__(self):
+        raise NotAllowedError("This object should never be pickled")
+
+    def __setstate__(self, state):
+        raise NotAllowedError("This object should never be pickled")
+
+    def __getitem__(self, key):
+        raise NotAllowedError(
+            "Individual items should be accessed through nested dicts, "
+            + f"which are available via attributes {self.subdicts_names}")
+
+    def __setitem__(self, key, value):
+        raise NotAllowedError(
+            "Individual items should be accessed through nested dicts, "
+            + f"which are available via attributes {self.subdicts_names}")
+
+    def __delitem__(self, key):
+        raise NotAllowedError(
+            "Individual items should be accessed through nested dicts, "
+            + f"which are available via attributes {self.subdicts_names}")
\ No newline at end of file
-- 
2.43.0


From 1d755edc35a0ed15034851efea0d28656eee5791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 12/55] fix: after all portals are cleared, the default local
 portal must be created anew

---
 .../_100_default_local_portals/default_local_portal.py      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pythagoras/_100_default_local_portals/default_local_portal.py b/pythagoras/_100_default_local_portals/default_local_portal.py
index 812967f..e88b440 100644
--- a/pythagoras/_100_default_local_portals/default_local_portal.py
+++ b/pythagoras/_100_default_local_portals/default_local_portal.py
@@ -37,6 +37,12 @@ class DefaultLocalPortal(SwarmingPortal):
             , n_background_workers=3
             )
 
+    def _clear(self) -> None:
+        """Clear the portal's state"""
+        DefaultLocalPortal._default_local_portal_instance = None
+        DefaultLocalPortal._calls_counter = 0
+        super()._clear()
+
     @classmethod
     def _clear_all(cls):
         """Clear all data stored in the portal"""
-- 
2.43.0


From d3dd2122a7cb9969dcff36c1139f2bca98bd8f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 13/55] fix: hash signatures of frozensets, and of sets and
 dicts of them, must not depend on the hash seed

---
 .../hash_signatures.py                        | 35 +++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_820_strings_signatures_converters/hash_signatures.py b/pythagoras/_820_strings_signatures_converters/hash_signatures.py
index f080575..f97c00e 100644
--- a/pythagoras/_820_strings_signatures_converters/hash_signatures.py
+++ b/pythagoras/_820_strings_signatures_converters/hash_signatures.py
@@ -10,11 +10,42 @@ from pythagoras._820_strings_signatures_converters.base_16_32_convertors import
 hash_type: str = "sha256"
 max_signature_length: int = 22
 
+def _is_partially_ordered(x:Any) -> bool:
+    return (isinstance(x, frozenset) or
+        isinstance(x, tuple) and any(_is_partially_ordered(i) for i in x))
+
+class _UnorderedItems:
+    """What a collection is replaced with when it is hashed."""
+    def __init__(self, items):
+        self.type_name = type(items).__name__
+        if isinstance(items, dict):
+            items = items.items()
+        self.items_hashes = sorted(get_base16_hash_signature(i) for i in items)
+
+class _FrozensetsHasher:
+    """A mixin which makes hashes independent of the order of frozensets.
+
+    Joblib sorts elements of sets and keys of dicts, but it does not do it for
+    frozensets, and it can't do it for elements and keys that are frozensets,
+    as comparing frozensets does not define any specific order.
+    """
+    def save(self, obj):
+        if type(obj) is frozenset or (type(obj) in (set, dict)
+                and any(_is_partially_ordered(i) for i in obj)):
+            obj = _UnorderedItems(obj)
+        super().save(obj)
+
+class _Hasher(_FrozensetsHasher, joblib.hashing.Hasher):
+    pass
+
+class _NumpyHasher(_FrozensetsHasher, joblib.hashing.NumpyHasher):
+    pass
+
 def get_base16_hash_signature(x:Any) -> str:
     if 'numpy' in sys.modules:
-        hasher = joblib.hashing.NumpyHasher(hash_name=hash_type)
+        hasher = _NumpyHasher(hash_name=hash_type)
     else:
-        hasher = joblib.hashing.Hasher(hash_name=hash_type)
+        hasher = _Hasher(hash_name=hash_type)
     hash_signature = hasher.hash(x)
     return str(hash_signature)
 
-- 
2.43.0


From dc37f344b384e976f50042d7beffec49ed4b3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 14/55] fix: the streams of an output capturer must support
 everything the original streams do

---
 .../_810_output_manipulators/output_capturer.py    | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_810_output_manipulators/output_capturer.py b/pythagoras/_810_output_manipulators/output_capturer.py
index 23961d8..49ac4be 100644
--- a/pythagoras/_810_output_manipulators/output_capturer.py
+++ b/pythagoras/_810_output_manipulators/output_capturer.py
@@ -35,8 +35,15 @@ class OutputCapturer:
             Args:
                 data: The data to be written.
             """
-            self.original.write(data)
+            result = self.original.write(data)
             self.buffer.write(data)
+            return result
+
+        def writelines(self, lines):
+            """Write a list of strings to the original stream and the buffer.
+            """
+            for line in lines:
+                self.write(line)
 
         def flush(self):
             """Flush original stream and buffer to ensure all data is written.
@@ -44,6 +51,11 @@ class OutputCapturer:
             self.original.flush()
             self.buffer.flush()
 
+        def __getattr__(self, name):
+            """Everything else (encoding, isatty, etc.) is up to the original.
+            """
+            return getattr(self.original, name)
+
     class _CaptureHandler(logging.Handler):
         """  An internal logging handler that captures logging output.
 
-- 
2.43.0


From 5ef531070db53eb4bafc0614202269e8e66123a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 15/55] fix: while output is captured, log handlers must keep
 honouring their levels and filters

---
 pythagoras/_810_output_manipulators/output_capturer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_810_output_manipulators/output_capturer.py b/pythagoras/_810_output_manipulators/output_capturer.py
index 49ac4be..ce0d710 100644
--- a/pythagoras/_810_output_manipulators/output_capturer.py
+++ b/pythagoras/_810_output_manipulators/output_capturer.py
@@ -82,7 +82,8 @@ class OutputCapturer:
             msg = self.format(record)
             self.buffer.write(msg + '\n')
             for handler in self.original_handlers:
-                handler.emit(record)
+                if record.levelno >= handler.level:
+                    handler.handle(record)
 
     def __init__(self):
         """ Initialize the OutputCapturer object.
-- 
2.43.0


From 074586c0e34ff81b47df1ecb016fb85b460df5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 16/55] fix: an output capturer must replace, and restore, what
 is in place when its block is entered

---
 .../_810_output_manipulators/output_capturer.py       | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pythagoras/_810_output_manipulators/output_capturer.py b/pythagoras/_810_output_manipulators/output_capturer.py
index ce0d710..b7cbc18 100644
--- a/pythagoras/_810_output_manipulators/output_capturer.py
+++ b/pythagoras/_810_output_manipulators/output_capturer.py
@@ -86,7 +86,11 @@ class OutputCapturer:
                     handler.handle(record)
 
     def __init__(self):
-        """ Initialize the OutputCapturer object.
+        """ Initialize the OutputCapturer object."""
+        self.captured_buffer = io.StringIO()
+
+    def __enter__(self):
+        """Redirect stdout, stderr, and logging output to the capturer.
 
         Sets up tee streams for stdout and stderr,
         and a capture handler for logging.
@@ -94,17 +98,12 @@ class OutputCapturer:
         self.original_stdout = sys.stdout
         self.original_stderr = sys.stderr
         self.original_log_handlers = logging.root.handlers[:]
-        self.captured_buffer = io.StringIO()
         self.tee_stdout = self._TeeStream(
             self.original_stdout, self.captured_buffer)
         self.tee_stderr = self._TeeStream(
             self.original_stderr, self.captured_buffer)
         self.capture_handler = self._CaptureHandler(
             self.captured_buffer, self.original_log_handlers)
-
-    def __enter__(self):
-        """Redirect stdout, stderr, and logging output to the capturer.
-        """
         sys.stdout = self.tee_stdout
         sys.stderr = self.tee_stderr
         logging.root.handlers = [self.capture_handler]  # Temporarily replace existing handlers
-- 
2.43.0


From b0442f1b8efa87e6de53409296f496252a8e2709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 17/55] fix: name analysis must follow Python's scoping rules
 for classes, comprehensions, defaults, decorators, walrus and match

---
 .../names_usage_analyzer.py                   | 196 +++++++++++-------
 1 file changed, 121 insertions(+), 75 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index fb65872..9ce6e94 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -19,26 +19,51 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
 
     This class is a visitor of an AST (Abstract Syntax Tree) that collects data
     needed to analyze function autonomy.
+
+    An analyzer collects names that belong to one scope: a function, a lambda,
+    a body of a class, or a comprehension. Scopes, located inside the scope,
+    are processed by their own (nested) analyzers.
     """
-    # TODO: add support for structural pattern matching
-    def __init__(self):
+    def __init__(self, parent=None, is_comprehension=False):
         self.names = NamesUsedInFunction()
         self.imported_packages_deep = set()
-        self.func_nesting_level = 0
+        self.func_nesting_level = 0 if parent is None else 1
         self.n_yelds = 0
-        # names, used by nested functions, which these functions do not bind
+        self.parent = parent
+        self.is_comprehension = is_comprehension
+        # names, bound in the scope: it does not matter where exactly
+        self.bound = set()
+        # names, used in the scope
+        self.loaded = set()
+        # names, used by nested scopes, which these scopes do not bind
         self.nested_nonlocal = set()
         self.nested_unclassified = set()
+        # variables of comprehensions (they only exist inside comprehensions)
+        self.comprehension_variables = set()
+        # all names, accessible within comprehensions
+        self.comprehension_names = set()
+
+    def bind(self, name):
+        declared = (self.names.explicitly_global_unbound_deep
+                    | self.names.explicitly_nonlocal_unbound_deep)
+        self.bound |= {name}
+        if name not in declared:
+            self.names.local |= {name}
 
     def add_arguments(self, args):
         all_args = args.posonlyargs + args.args + args.kwonlyargs
+        all_args += [arg for arg in (args.vararg, args.kwarg) if arg]
         for arg in all_args:
-            self.names.local |= {arg.arg}
-        if args.vararg:
-            self.names.local |= {args.vararg.arg}
-        if args.kwarg:
-            self.names.local |= {args.kwarg.arg}
-        self.names.accessible |= self.names.local
+            self.bind(arg.arg)
+
+    def visit_defaults(self, args):
+        for default in args.defaults + args.kw_defaults:
+            if default is not None:
+                self.visit(default)
+
+    def visit_all(self, nodes):
+        for node in nodes:
+            self.visit(node)
 
     def add_nested(self, nested):
         self.imported_packages_deep |= nested.imported_packages_deep
@@ -48,56 +73,75 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         # self.names.imported is not changing
         # self.n_yelds is not changing
 
-    def resolve_nested(self):
-        # A nested function is allowed to use names which
-        # the enclosing function binds after the nested one is defined.
+    def resolve_names(self, visible_to_nested=True):
+        # A scope, and the scopes nested in it, are allowed to use names which
+        # the scope binds later. Names, bound in the body of a class,
+        # are not visible to the scopes nested in it.
+        visible = self.bound if visible_to_nested else set()
         self.names.explicitly_nonlocal_unbound_deep |= (
-            self.nested_nonlocal - self.names.accessible)
+            self.nested_nonlocal - visible)
         self.names.unclassified_deep |= (
-            self.nested_unclassified - self.names.accessible)
+            (self.loaded - self.bound) | (self.nested_unclassified - visible))
+        self.names.local |= self.comprehension_variables - self.loaded
+        self.names.accessible |= (
+            self.bound | self.loaded | self.comprehension_names)
 
     def visit_FunctionDef(self, node):
         if self.func_nesting_level == 0:
             self.names.function = node.name
             self.func_nesting_level += 1
+            self.visit_all(node.decorator_list)
+            outer = NamesUsageAnalyzer(parent=self)
+            outer.visit_defaults(node.args)
+            outer.resolve_names()
             self.add_arguments(node.args)
-            self.generic_visit(node)
-            self.resolve_nested()
+            self.visit_all(node.body)
+            self.resolve_names()
+            self.names.explicitly_nonlocal_unbound_deep |= (
+                outer.names.explicitly_nonlocal_unbound_deep)
+            self.names.unclassified_deep |= outer.names.unclassified_deep
             self.func_nesting_level -= 1
         else:
-            nested = NamesUsageAnalyzer()
-            nested.visit(node)
+            self.visit_all(node.decorator_list)
+            self.visit_defaults(node.args)
+            nested = NamesUsageAnalyzer(parent=self)
+            nested.add_arguments(node.args)
+            nested.visit_all(node.body)
+            nested.resolve_names()
             self.add_nested(nested)
-            self.names.local |= {node.name}
-            self.names.accessible |= {node.name}
+            self.bind(node.name)
+
+    def visit_AsyncFunctionDef(self, node):
+        self.visit_FunctionDef(node)
 
     def visit_Lambda(self, node):
-        nested = NamesUsageAnalyzer()
-        nested.func_nesting_level = 1
+        self.visit_defaults(node.args)
+        nested = NamesUsageAnalyzer(parent=self)
         nested.add_arguments(node.args)
         nested.visit(node.body)
-        nested.resolve_nested()
+        nested.resolve_names()
         self.add_nested(nested)
-        self.visit(node.args)
 
     def visit_ClassDef(self, node):
-        self.names.local |= {node.name}
-        self.names.accessible |= {node.name}
-        self.generic_visit(node)
+        self.visit_all(node.decorator_list + node.bases + node.keywords)
+        nested = NamesUsageAnalyzer(parent=self)
+        nested.visit_all(node.body)
+        nested.resolve_names(visible_to_nested=False)
+        self.add_nested(nested)
+        self.bind(node.name)
 
     def visit_Name(self, node):
         if isinstance(node.ctx, ast.Load):
-            if node.id not in self.names.accessible:
-                self.names.unclassified_deep |= {node.id}
-                self.names.accessible |= {node.id}
-        if isinstance(node.ctx, ast.Store):
-            if node.id not in self.names.accessible:
-                self.names.local |= {node.id}
-                self.names.accessible |= {node.id}
-        self.generic_visit(node)
+            self.loaded |= {node.id}
+        elif isinstance(node.ctx, ast.Store):
+            self.bind(node.id)
 
-    def visit_Attribute(self, node):
-        self.generic_visit(node)
+    def visit_NamedExpr(self, node):
+        self.visit(node.value)
+        scope = self
+        while scope.is_comprehension:
+            scope = scope.parent
+        scope.bind(node.target.id)
 
     def visit_Yield(self, node):
         self.n_yelds += 1
@@ -107,46 +151,51 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         self.n_yelds += 1
         self.generic_visit(node)
 
-    def visit_Try(self, node):
-        for handler in node.handlers:
-            self.names.local |= {handler.name}
-            self.names.accessible |= {handler.name}
+    def visit_ExceptHandler(self, node):
+        if node.name:
+            self.bind(node.name)
         self.generic_visit(node)
 
-    def visit_comprehension(self, node):
-        if isinstance(node.target, (ast.Tuple, ast.List)):
-            all_targets =node.target.elts
-        else:
-            all_targets = [node.target]
-        for target in all_targets:
-            if isinstance(target, ast.Name):
-                if target.id not in self.names.accessible:
-                    self.names.local |= {target.id}
-        self.names.accessible |= self.names.local
+    def visit_MatchAs(self, node):
+        if node.name:
+            self.bind(node.name)
         self.generic_visit(node)
 
-    def visit_For(self, node):
-        self.visit_comprehension(node)
+    def visit_MatchStar(self, node):
+        if node.name:
+            self.bind(node.name)
 
-    def visit_ListComp(self, node):
-        for gen in node.generators:
-            self.visit_comprehension(gen)
+    def visit_MatchMapping(self, node):
+        if node.rest:
+            self.bind(node.rest)
         self.generic_visit(node)
 
+    def visit_any_comprehension(self, node, *results):
+        # The first iterable belongs to the enclosing scope.
+        self.visit(node.generators[0].iter)
+        nested = NamesUsageAnalyzer(parent=self, is_comprehension=True)
+        for i, generator in enumerate(node.generators):
+            nested.visit(generator.target)
+            if i > 0:
+                nested.visit(generator.iter)
+            nested.visit_all(generator.ifs)
+        nested.visit_all(results)
+        nested.resolve_names()
+        self.add_nested(nested)
+        self.comprehension_variables |= nested.names.local
+        self.comprehension_names |= nested.names.accessible
+
+    def visit_ListComp(self, node):
+        self.visit_any_comprehension(node, node.elt)
+
     def visit_SetComp(self, node):
-        for gen in node.generators:
-            self.visit_comprehension(gen)
-        self.generic_visit(node)
+        self.visit_any_comprehension(node, node.elt)
 
     def visit_DictComp(self, node):
-        for gen in node.generators:
-            self.visit_comprehension(gen)
-        self.generic_visit(node)
+        self.visit_any_comprehension(node, node.key, node.value)
 
     def visit_GeneratorExp(self, node):
-        for gen in node.generators:
-            self.visit_comprehension(gen)
-        self.generic_visit(node)
+        self.visit_any_comprehension(node, node.elt)
 
     def visit_Import(self, node):
         for alias in node.names:
@@ -154,28 +203,25 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
             name = alias.asname if alias.asname else alias.name.split('.')[0]
             self.names.imported |= {name}
             self.imported_packages_deep |= {alias.name.split('.')[0]}
-        self.names.accessible |= self.names.imported
-        self.generic_visit(node)
+        self.bound |= self.names.imported
 
     def visit_ImportFrom(self, node):
-        self.imported_packages_deep |= {node.module.split('.')[-1]}
+        if node.module:
+            self.imported_packages_deep |= {node.module.split('.')[-1]}
         for alias in node.names:
             name = alias.asname if alias.asname else alias.name
             self.names.imported |= {name}
-        self.names.accessible |= self.names.imported
-        self.generic_visit(node)
+        self.bound |= self.names.imported
 
     def visit_Nonlocal(self, node):
         nonlocals =  set(node.names)
         self.names.explicitly_nonlocal_unbound_deep |= nonlocals
-        self.names.accessible |= nonlocals
-        self.generic_visit(node)
+        self.bound |= nonlocals
 
     def visit_Global(self, node):
         globals = set(node.names)
         self.names.explicitly_global_unbound_deep |= globals
-        self.names.accessible |= globals
-        self.generic_visit(node)
+        self.bound |= globals
 
 def analyze_names_in_function(
         a_func: Union[Callable,str]
-- 
2.43.0


From ffc96604f94125304c8bd3707587028a0647ad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 18/55] fix: a function whose dependencies lack something must
 be refused until it is defined

---
 .../autonomous_core_classes.py                | 64 +++++++++++--------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index 4519a62..bfc8cc6 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -224,6 +224,38 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         return sorted(result)
 
 
+    def _external_names_required(self) -> set[str]:
+        """Names the function uses, but does not get from its own body."""
+        analyzer = analyze_names_in_function(self.fn_source_code)
+        normalized_source = analyzer["normalized_source"]
+        analyzer = analyzer["analyzer"]
+        assert self.fn_source_code == normalized_source
+
+        import_required = set(analyzer.names.explicitly_global_unbound_deep)
+        import_required |= analyzer.names.unclassified_deep
+        import_required -= set(pth.primary_decorators)
+        builtin_names = set(dir(builtins))
+        import_required -= builtin_names
+        pth_names = set(retrieve_objs_available_inside_autonomous_functions())
+        import_required -= pth_names
+        import_required -= {self.fn_name}
+        import_required -= {"self"} #TODO: replace with ._available_names() ???
+        return import_required
+
+
+    def _assert_autonomicity(self) -> None:
+        """Check that the function only uses names which it is allowed to use."""
+        import_required = self._external_names_required()
+        if not self._declared_strictly_autonomous:
+            import_required -= set(
+                self.portal.known_functions[self.island_name])
+
+        assert len(import_required) ==0, (f"Function {self.fn_name}"
+            + f" is not autonomous, it uses global"
+            + f" objects {import_required}"
+            + f" without importing them inside the function body")
+
+
     def _complete_fn_registration(self)-> None:
         if self._fn_fully_registered:
             return
@@ -252,31 +284,9 @@ class AutonomousFn(SafeFn, PortalAwareClass):
 
         SafeFn._complete_fn_registration(self)
 
-        analyzer = analyze_names_in_function(self.fn_source_code)
-        normalized_source = analyzer["normalized_source"]
-        analyzer = analyzer["analyzer"]
-        assert self.fn_source_code == normalized_source
-
-        import_required = analyzer.names.explicitly_global_unbound_deep
-        import_required |= analyzer.names.unclassified_deep
-        import_required -= set(pth.primary_decorators)
-        builtin_names = set(dir(builtins))
-        import_required -= builtin_names
-        pth_names = set(retrieve_objs_available_inside_autonomous_functions())
-        import_required -= pth_names
-        import_required -= {fn_name}
-        import_required -= {"self"} #TODO: replace with ._available_names() ???
-        if not self.strictly_autonomous:
-            island = portal.known_functions[self.island_name]
-            prev_len_import_required = len(import_required)
-            import_required -= set(island)
-            if len(import_required) == prev_len_import_required:
-                self.strictly_autonomous = True
-
-        assert len(import_required) ==0, (f"Function {self.fn_name}"
-            + f" is not autonomous, it uses global"
-            + f" objects {import_required}"
-            + f" without importing them inside the function body")
+        self._assert_autonomicity()
+        if self._external_names_required().isdisjoint(island):
+            self.strictly_autonomous = True
 
         all_functions_in_island = [f.fn_source_code for f in island.values()]
         deep_dependencies = explore_call_graph_deep(all_functions_in_island)
@@ -284,6 +294,10 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         assert isinstance(dependencies, set)
         assert len(dependencies) >= 1
         dependencies = sorted(dependencies)
+        # The set of dependencies is only known in full
+        # when each of them has everything it needs.
+        for dependency_name in dependencies:
+            island[dependency_name]._assert_autonomicity()
         island[fn_name]._autonomous_fn_dependencies = dependencies
         self._autonomous_fn_dependencies = dependencies
 
-- 
2.43.0


From cac54b025a0a066906dbd243525e75a8998fe10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 19/55] fix: consistency checks must see all of a data frame,
 and take equal values with NaNs as equal

---
 .../first_entry_dict.py                       | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_800_persidict_extensions/first_entry_dict.py b/pythagoras/_800_persidict_extensions/first_entry_dict.py
index e2e9e67..d987ece 100644
--- a/pythagoras/_800_persidict_extensions/first_entry_dict.py
+++ b/pythagoras/_800_persidict_extensions/first_entry_dict.py
@@ -1,12 +1,33 @@
 import time
 
+import pandas as pd
 from deepdiff import DeepDiff
+from deepdiff.operator import BaseOperator
 from persidict import PersiDict
 import random
 
 from persidict.persi_dict import PersiDictKey
 
 
+class _PandasComparison(BaseOperator):
+    """ Compares pandas objects by their entire content.
+
+    Without it, DeepDiff only looks at the column names of a DataFrame,
+    and does not look at the index of a Series.
+    """
+
+    def __init__(self):
+        super().__init__(types=[pd.DataFrame, pd.Series])
+
+    def give_up_diffing(self, level, diff_instance) -> bool:
+        if not level.t1.equals(level.t2):
+            diff_instance.custom_report_result("values_changed", level)
+        return True
+
+    def normalize_value_for_hashing(self, parent, obj):
+        return obj
+
+
 class FirstEntryDict(PersiDict):
     """ A dictionary that always keeps the first value assigned to a key.
     """
@@ -56,7 +77,9 @@ class FirstEntryDict(PersiDict):
             and self._p_consistency_checks is not None
             and self._p_consistency_checks > 0):
             if random.random() < self._p_consistency_checks:
-                diff_dict = DeepDiff(self._wrapped_dict[key], value)
+                diff_dict = DeepDiff(self._wrapped_dict[key], value
+                    , ignore_nan_inequality=True
+                    , custom_operators=[_PandasComparison()])
                 # We are using DeepDiff here to compare the values
                 # because the values can be complex objects,
                 # e.g. Pandas DataFrames
-- 
2.43.0


From 19fa7e9ab7d7a80864210a94d8c8c51b53397b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 20/55] fix: an address restored outside any portal, or made
 from an unready one, must not misbehave

---
 pythagoras/_030_data_portals/value_addresses.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pythagoras/_030_data_portals/value_addresses.py b/pythagoras/_030_data_portals/value_addresses.py
index 19cef26..57a9d21 100644
--- a/pythagoras/_030_data_portals/value_addresses.py
+++ b/pythagoras/_030_data_portals/value_addresses.py
@@ -44,7 +44,6 @@ class ValueAddr(HashAddr):
                         not self in portal.value_store):
                     data = data_value_addr.get()
                     portal.value_store[self] = data
-                self._ready = True
                 return
 
         assert not isinstance(data, HashAddr), (
@@ -71,7 +70,7 @@ class ValueAddr(HashAddr):
 
     @property
     def portal(self) -> DataPortal:
-        return self._portal
+        return super().portal
 
     @property
     def _ready_in_current_portal(self) -> bool:
-- 
2.43.0


From 3bc8e5b8951a1213cb1be0338920e6b8acf58e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:02 +0000
Subject: [PATCH 21/55] fix: an address must find its value in the current
 portal too, when it belongs to another one

---
 pythagoras/_030_data_portals/value_addresses.py     | 10 ++++++++--
 pythagoras/_070_pure_functions/pure_core_classes.py |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_030_data_portals/value_addresses.py b/pythagoras/_030_data_portals/value_addresses.py
index 57a9d21..847e6db 100644
--- a/pythagoras/_030_data_portals/value_addresses.py
+++ b/pythagoras/_030_data_portals/value_addresses.py
@@ -83,9 +83,15 @@ class ValueAddr(HashAddr):
         return True
 
 
+    def _other_portals(self) -> list[DataPortal]:
+        """All portals except the one the address belongs to"""
+        with self.portal:
+            return DataPortal.get_noncurrent_portals()
+
+
     @property
     def _ready_in_noncurrent_portals(self) -> bool:
-        for portal in DataPortal.get_noncurrent_portals():
+        for portal in self._other_portals():
             with portal:
                 if self in portal.value_store:
                     data = portal.value_store[self]
@@ -124,7 +130,7 @@ class ValueAddr(HashAddr):
 
     def get_from_noncurrent_portals(self, timeout:Optional[int] = None) -> Any:
         """Retrieve value, referenced by the address, from noncurrent portals"""
-        for portal in DataPortal.get_noncurrent_portals():
+        for portal in self._other_portals():
             try:
                 with portal:
                     result = portal.value_store[self]
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 0dfc10e..2922206 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -606,7 +606,9 @@ class PureFnExecutionResultAddr(HashAddr):
 
     @property
     def _ready_in_noncurrent_portals(self) -> bool:
-        for portal in PureCodePortal.get_noncurrent_portals():
+        with self.portal:
+            other_portals = PureCodePortal.get_noncurrent_portals()
+        for portal in other_portals:
             with portal:
                 if self in portal.execution_results:
                     addr = portal.execution_results[self]
-- 
2.43.0


From 0e01505f65485c481c35aa901a909a6357a5f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 22/55] fix: waiting for a result must look again before it
 times out

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 2922206..9bf7107 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -716,7 +716,7 @@ class PureFnExecutionResultAddr(HashAddr):
                         current_time = time.time()
                         if current_time + backoff_period > stop_time:
                             backoff_period = stop_time - current_time
-                        if current_time > stop_time:
+                        if current_time > stop_time and not self.ready:
                             raise TimeoutError
                     backoff_period = max(1.0, backoff_period)
 
-- 
2.43.0


From f2d660a4c8ada07013d2846df0d045802827244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 23/55] fix: what portals that share storage record must be
 recorded there once, not refused

---
 .../_020_logging_portals/logging_portals.py    | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index 1e19092..b05f580 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -183,6 +183,20 @@ class LoggingPortal(BasicPortal):
     def get_entered_portals(cls) -> list[LoggingPortal]:
         return BasicPortal._entered_portals(expected_class=cls)
 
+    @staticmethod
+    def _entered_portals_to_log_to() -> list[LoggingPortal]:
+        """Get all entered portals, but only one of those that share storage.
+
+        Records are immutable, so each storage gets each of them just once.
+        """
+        portals, storages = [], []
+        for portal in LoggingPortal.get_entered_portals():
+            storage = portal.crash_history.get_params()
+            if storage not in storages:
+                storages.append(storage)
+                portals.append(portal)
+        return portals
+
     @classmethod
     def _clear_all(cls) -> None:
         """Remove all information about all the portals from the system."""
@@ -251,7 +265,7 @@ class LoggingPortal(BasicPortal):
 
         for prefix in exception_prefixes:
             full_path = prefix + [exception_id]
-            for portal in LoggingPortal.get_entered_portals():
+            for portal in LoggingPortal._entered_portals_to_log_to():
                 portal.crash_history[full_path] = exception_data_to_persist
 
         LoggingPortal._mark_exception_as_processed(
@@ -342,5 +356,5 @@ class LoggingPortal(BasicPortal):
         event_to_log = LoggingPortal.add_execution_environment_summary(
             *args, **kwargs)
 
-        for portal in LoggingPortal.get_entered_portals():
+        for portal in LoggingPortal._entered_portals_to_log_to():
             portal.event_log[full_path] = event_to_log
\ No newline at end of file
-- 
2.43.0


From 3c37a3a1cc7dc2f5dd22d921a5254fa4459b4220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 24/55] fix: consistency checks must not take equal functions
 of different portals as different

---
 .../_800_persidict_extensions/first_entry_dict.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_800_persidict_extensions/first_entry_dict.py b/pythagoras/_800_persidict_extensions/first_entry_dict.py
index d987ece..30f44ae 100644
--- a/pythagoras/_800_persidict_extensions/first_entry_dict.py
+++ b/pythagoras/_800_persidict_extensions/first_entry_dict.py
@@ -8,6 +8,9 @@ import random
 
 from persidict.persi_dict import PersiDictKey
 
+from pythagoras._820_strings_signatures_converters.hash_signatures import (
+    get_hash_signature)
+
 
 class _PandasComparison(BaseOperator):
     """ Compares pandas objects by their entire content.
@@ -77,9 +80,15 @@ class FirstEntryDict(PersiDict):
             and self._p_consistency_checks is not None
             and self._p_consistency_checks > 0):
             if random.random() < self._p_consistency_checks:
-                diff_dict = DeepDiff(self._wrapped_dict[key], value
-                    , ignore_nan_inequality=True
-                    , custom_operators=[_PandasComparison()])
+                stored_value = self._wrapped_dict[key]
+                diff_dict = dict()
+                # Values with the same content may differ for DeepDiff:
+                # it also sees what is not a part of the content,
+                # e.g. a portal, which an object belongs to.
+                if get_hash_signature(stored_value) != get_hash_signature(value):
+                    diff_dict = DeepDiff(stored_value, value
+                        , ignore_nan_inequality=True
+                        , custom_operators=[_PandasComparison()])
                 # We are using DeepDiff here to compare the values
                 # because the values can be complex objects,
                 # e.g. Pandas DataFrames
-- 
2.43.0


From 4f32bc058dd9604d47a4decaf4c7cf1aaff36ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 25/55] fix: a value found in another portal must belong to the
 portal it was asked from

---
 pythagoras/_030_data_portals/value_addresses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythagoras/_030_data_portals/value_addresses.py b/pythagoras/_030_data_portals/value_addresses.py
index 847e6db..ca4aedc 100644
--- a/pythagoras/_030_data_portals/value_addresses.py
+++ b/pythagoras/_030_data_portals/value_addresses.py
@@ -136,6 +136,8 @@ class ValueAddr(HashAddr):
                     result = portal.value_store[self]
                 with self.portal:
                     self.portal.value_store[self] = result
+                    # a restored value belongs to the portal it's restored in
+                    result = self.portal.value_store[self]
                 self._value = result
                 return result
             except:
-- 
2.43.0


From e1bd45a8d2447d6106f47a8422fdd8067998fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:41 +0000
Subject: [PATCH 26/55] fix: source normalization must not escape braces in
 f-strings

---
 .../_040_ordinary_functions/code_normalizer_implementation.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index 782dcfb..c4c1fbb 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -150,7 +150,8 @@ def __get_normalized_function_source__(
     result = ast.unparse(code_ast)
     # E731 is excluded, as it rewrites a lambda into a function definition,
     # which would be normalized differently the next time.
+    # E201 is excluded, as it turns "{ {" in an f-string into an escaped brace.
     result = autopep8.fix_code(result, options=dict(
-        ignore=["E226", "E24", "W50", "W690", "E731"]))
+        ignore=["E201", "E226", "E24", "W50", "W690", "E731"]))
 
     return result
\ No newline at end of file
-- 
2.43.0


From e72f10260cf429fbce648a2e78e77c189dfed7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:41 +0000
Subject: [PATCH 27/55] fix: source text may start with a comment, and have any
 white space after def

---
 .../code_normalizer_implementation.py                  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index c4c1fbb..3cd932b 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -18,7 +18,6 @@ import inspect
 from typing import Callable
 import autopep8
 
-from pythagoras._040_ordinary_functions.function_name import get_function_name_from_source
 from pythagoras._040_ordinary_functions.long_infoname import get_long_infoname
 from pythagoras._040_ordinary_functions.assert_ordinarity import assert_ordinarity
 import pythagoras as pth
@@ -76,13 +75,11 @@ def __get_normalized_function_source__(
     else:
         assert callable(a_func) or isinstance(a_func, str)
 
-    if a_func_name is None:
-        a_func_name = get_function_name_from_source(code)
-
     # Fix indent for functions that are defined within other functions;
     # most frequently it is used for tests. The code itself is not changed,
     # as changing its lines would change multi-line strings.
-    first_line = [l for l in code.split("\n") if l.strip()][0]
+    first_line = [l for l in code.split("\n")
+                  if l.strip() and l.strip()[0] != "#"][0]
     if first_line[0] in " \t":
         code_ast = ast.parse("if True:\n" + code)
         code_ast.body = code_ast.body[0].body
@@ -93,6 +90,9 @@ def __get_normalized_function_source__(
     assert isinstance(code_ast.body[0], ast.FunctionDef),(
         f"{type(code_ast.body[0])=}")
 
+    if a_func_name is None:
+        a_func_name = code_ast.body[0].name
+
     #TODO: add support for multiple decorators???
     decorator_list = code_ast.body[0].decorator_list
     assert len(decorator_list) <= 1, (
-- 
2.43.0


From fcae7dff53c7ef55aae0a2554addbb8ee0f5f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:31 +0000
Subject: [PATCH 28/55] fix: a wrapped function may have a parameter called
 self

---
 .../_040_ordinary_functions/ordinary_core_classes.py   |  4 ++--
 .../autonomous_core_classes.py                         |  2 +-
 pythagoras/_070_pure_functions/kw_args.py              |  2 +-
 pythagoras/_070_pure_functions/pure_core_classes.py    | 10 +++++-----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
index e137ef2..6a8ba03 100644
--- a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
+++ b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
@@ -125,7 +125,7 @@ class OrdinaryFn(PortalAwareClass):
         if type(self) == OrdinaryFn:
             self._fn_fully_registered = True
 
-    def __call__(self,* args, **kwargs) -> Any:
+    def __call__(self, /,* args, **kwargs) -> Any:
         assert len(args) == 0, (f"Function {self.fn_name} can't"
             + " be called with positional arguments,"
             + " only keyword arguments are allowed.")
@@ -172,7 +172,7 @@ class OrdinaryFn(PortalAwareClass):
             , exception_prefixes=exception_prefixes
             , exception_extra_data_to_persist=exception_extra_data_to_persist)
 
-    def execute(self,**kwargs):
+    def execute(self, /,**kwargs):
         # Data needed for logging is not available before the registration.
         self._complete_fn_registration()
         try:
diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index bfc8cc6..e6955d7 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -332,7 +332,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         result |= super()._extra_exception_data()
         return result
 
-    def execute(self, **kwargs) -> Any:
+    def execute(self, /, **kwargs) -> Any:
         with self.portal as portal:
             return SafeFn.execute(self, **kwargs)
 
diff --git a/pythagoras/_070_pure_functions/kw_args.py b/pythagoras/_070_pure_functions/kw_args.py
index 4c8a255..18b43f4 100644
--- a/pythagoras/_070_pure_functions/kw_args.py
+++ b/pythagoras/_070_pure_functions/kw_args.py
@@ -12,7 +12,7 @@ class SortedKwArgs(dict):
     for the same lists of arguments.
     """
 
-    def __init__(self, **kargs):
+    def __init__(self, /, **kargs):
         """Sort the keys in the dictionary."""
         super().__init__()
         for k in sorted(kargs):
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 9bf7107..c5b8cd2 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -187,7 +187,7 @@ class PureFn(AutonomousFn):
         return result_names
 
 
-    def can_be_executed(self,**kwargs) -> bool:
+    def can_be_executed(self, /,**kwargs) -> bool:
         """Indicates if the function can be executed in the current environment.
         """
         with self.portal:
@@ -372,14 +372,14 @@ class PureFn(AutonomousFn):
         if not hasattr(island[name], "_augmented_source_code"):
             island[name]._augmented_source_code = None
 
-    def get_address(self, **kwargs) -> PureFnExecutionResultAddr:
+    def get_address(self, /, **kwargs) -> PureFnExecutionResultAddr:
         with self.portal:
             packed_kwargs = SortedKwArgs(**kwargs).pack(self.portal)
             result_address = PureFnExecutionResultAddr(self, packed_kwargs)
             return result_address
 
 
-    def swarm(self, **kwargs) -> PureFnExecutionResultAddr:
+    def swarm(self, /, **kwargs) -> PureFnExecutionResultAddr:
         """ Request execution of the function with the given arguments.
 
         The function is executed in the background. The result can be
@@ -390,7 +390,7 @@ class PureFn(AutonomousFn):
             result_address.request_execution()
             return result_address
 
-    def run(self, **kwargs) -> PureFnExecutionResultAddr:
+    def run(self, /, **kwargs) -> PureFnExecutionResultAddr:
         """ Execute the function with the given arguments.
 
         The function is executed immediately. The result can be
@@ -402,7 +402,7 @@ class PureFn(AutonomousFn):
             return result_address
 
 
-    def execute(self, **kwargs) -> Any:
+    def execute(self, /, **kwargs) -> Any:
         """ Execute the function with the given arguments.
 
         The function is executed immediately and the result is returned.
-- 
2.43.0


From 9fdf78c574a11833ab2c1808189abbcc66ae1a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:51 +0000
Subject: [PATCH 29/55] fix: source text must be one function without unlimited
 positional arguments, like a function

---
 .../code_normalizer_implementation.py                       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index 3cd932b..10c0941 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -89,6 +89,12 @@ def __get_normalized_function_source__(
     assert isinstance(code_ast, ast.Module)
     assert isinstance(code_ast.body[0], ast.FunctionDef),(
         f"{type(code_ast.body[0])=}")
+    assert len(code_ast.body) == 1, (
+        "The source code must consist of one function definition.")
+    assert code_ast.body[0].args.vararg is None, (
+        "Pythagoras only allows functions with named arguments."
+        f" But {code_ast.body[0].name} accepts unlimited (nameless)"
+        " positional arguments.")
 
     if a_func_name is None:
         a_func_name = code_ast.body[0].name
-- 
2.43.0


From 7c9559c78ee42537bc9dcb8574d2e815982b21c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 30/55] fix: an object that cannot be stored must not replace
 the exception being logged

---
 .../_020_logging_portals/logging_portals.py      | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index b05f580..13de23d 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -3,8 +3,9 @@ import os
 import sys
 import traceback
 import random
-from typing import Optional
+from typing import Any, Optional
 
+import jsonpickle
 import pandas as pd
 from persidict import PersiDict, FileDirDict
 
@@ -234,6 +235,17 @@ class LoggingPortal(BasicPortal):
         return kwargs
 
 
+    @staticmethod
+    def _storable(data:Any) -> Any:
+        """Replace what can't be stored (e.g. a portal) with its description."""
+        try:
+            jsonpickle.dumps(data)
+            return data
+        except Exception:
+            if type(data) is dict:
+                return {k: LoggingPortal._storable(v) for k,v in data.items()}
+            return f"<an object of type {type(data).__name__}, not stored>"
+
     @staticmethod
     def _persist_exception_information(
             exc_type, exc_value, trace_back
@@ -259,6 +271,8 @@ class LoggingPortal(BasicPortal):
         exception_data_to_persist = dict(exception=exc_value
             , exception_traceback=traceback_list_of_str)
         exception_data_to_persist |= exception_extra_data_to_persist
+        exception_data_to_persist = LoggingPortal._storable(
+            exception_data_to_persist)
 
         if isinstance(exception_id, NeedsRandomization):
             exception_id += "_"+get_random_signature()
-- 
2.43.0


From c137dd454dced7fa7a4a70079b672e61e5371bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 31/55] fix: an autonomous or pure function may be made of the
 wrapper of an ordinary one

---
 pythagoras/_040_ordinary_functions/ordinary_core_classes.py | 3 ++-
 pythagoras/_050_safe_functions/safe_core_classes.py         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
index 6a8ba03..dadb4c1 100644
--- a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
+++ b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
@@ -76,7 +76,8 @@ class OrdinaryFn(PortalAwareClass):
         PortalAwareClass.__init__(self, portal=portal)
         self._fn_fully_registered = False
         if isinstance(a_func, OrdinaryFn):
-            self.update(a_func)
+            # a_func may lack what the update() of a subclass expects.
+            OrdinaryFn.update(self, a_func)
         else:
             assert callable(a_func) or isinstance(a_func, str)
             self.fn_source_code = __get_normalized_function_source__(
diff --git a/pythagoras/_050_safe_functions/safe_core_classes.py b/pythagoras/_050_safe_functions/safe_core_classes.py
index 3ff2b35..1bd0b96 100644
--- a/pythagoras/_050_safe_functions/safe_core_classes.py
+++ b/pythagoras/_050_safe_functions/safe_core_classes.py
@@ -44,7 +44,7 @@ class SafeFn(OrdinaryFn):
                  , **_):
         OrdinaryFn.__init__(self, a_func = a_func, portal=portal, **_)
         if isinstance(a_func, SafeFn):
-            self.update(a_func)
+            SafeFn.update(self, a_func)
             return
 
     @property
-- 
2.43.0


From 3ca2c622b0d522cb5588465cd54e98038bc3b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:05 +0000
Subject: [PATCH 32/55] fix: what an address of a batch refers to must not
 change with the arguments it was made of

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index c5b8cd2..d754c05 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -453,7 +453,7 @@ class PureFn(AutonomousFn):
             list_to_return = []
             list_to_swarm = []
             for kwargs in list_of_kwargs:
-                new_addr = PureFnExecutionResultAddr(self, kwargs)
+                new_addr = self.get_address(**kwargs)
                 list_to_return.append(new_addr)
                 list_to_swarm.append(new_addr)
             self.portal.entropy_infuser.shuffle(list_to_swarm)
-- 
2.43.0


From 084b3219002690e31b508962c8ad694e4b244ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 33/55] fix: guards get values of arguments given as addresses

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index d754c05..8fa9352 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -193,6 +193,7 @@ class PureFn(AutonomousFn):
         with self.portal:
             try:
                 if self.guards is not None:
+                    kwargs = SortedKwArgs(**kwargs).unpack()
                     island = self.portal.known_functions[self.island_name]
                     for f in self.guards:
                         island[f].execute(**kwargs)
-- 
2.43.0


From 2532c1f63f1396c63a3b4e082a40f8d165a202de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:50 +0000
Subject: [PATCH 34/55] fix: guards of dependencies travel along, and are
 restored before what they guard

---
 .../process_augmented_func_src.py             | 19 ++++++++++++++++++-
 .../_070_pure_functions/pure_core_classes.py  |  4 ++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_070_pure_functions/process_augmented_func_src.py b/pythagoras/_070_pure_functions/process_augmented_func_src.py
index 16e0b3a..20136c5 100644
--- a/pythagoras/_070_pure_functions/process_augmented_func_src.py
+++ b/pythagoras/_070_pure_functions/process_augmented_func_src.py
@@ -35,6 +35,7 @@ def process_augmented_func_src(
     portal = DataPortal.get_best_portal_to_use(portal)
 
     tree = ast.parse(input_src)
+    functions = []
     for node in tree.body:
         assert isinstance(node, ast.FunctionDef), (
             "The augmented function code can only consist of"
@@ -58,4 +59,20 @@ def process_augmented_func_src(
             decorator_kwargs["portal"] = portal
 
         func_src = ast.unparse(func_no_decorators) # TODO: add ast passthrough
-        pth.primary_decorators[decorator_name](**decorator_kwargs)(func_src)
\ No newline at end of file
+        functions.append((node.name, decorator_name, decorator_kwargs, func_src))
+
+    while functions:
+        # A function can only be registered after its guards.
+        names = {name for name, *_ in functions}
+        postponed = []
+        for name, decorator_name, decorator_kwargs, func_src in functions:
+            guards = decorator_kwargs.get("guards") or []
+            if names.isdisjoint(guards):
+                pth.primary_decorators[decorator_name](
+                    **decorator_kwargs)(func_src)
+            else:
+                postponed.append(
+                    (name, decorator_name, decorator_kwargs, func_src))
+        assert len(postponed) < len(functions), (
+            "Functions can not guard each other.")
+        functions = postponed
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 8fa9352..50a1b35 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -232,6 +232,10 @@ class PureFn(AutonomousFn):
         if self.guards is not None:
             full_dependencies += self.guards
         full_dependencies += self.dependencies
+        for fn_name in full_dependencies:
+            for guard_name in getattr(island[fn_name], "guards", None) or []:
+                if guard_name not in full_dependencies:
+                    full_dependencies.append(guard_name)
         full_dependencies = sorted(full_dependencies)
 
         for fn_name in full_dependencies:
-- 
2.43.0


From 62fa7e8f760df31c4375b79dd0d2abdc967eb7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:55 +0000
Subject: [PATCH 35/55] fix: guards are strictly autonomous, however they are
 given

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 50a1b35..820b5f0 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -175,14 +175,15 @@ class PureFn(AutonomousFn):
         island = self.portal.known_functions[self.island_name]
         for f in guards_list:
             if isinstance(f, AutonomousFn):
-                assert f.strictly_autonomous
                 assert f.island_name == self.island_name
                 assert f.portal == self.portal
-                result_names.append(f.fn_name)
-            else:
-                assert isinstance(f, str)
-                assert f in island
-                result_names.append(f)
+                f = f.fn_name
+            assert isinstance(f, str)
+            assert f in island
+            # Autonomicity is only known after the registration is completed.
+            island[f]._complete_fn_registration()
+            assert island[f].strictly_autonomous
+            result_names.append(f)
         result_names = sorted(result_names)
         return result_names
 
-- 
2.43.0


From 9f3597965eb982b510db7bb520c5e37bd6d695ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:46 +0000
Subject: [PATCH 36/55] fix: background workers of the default local portal can
 re-create it

---
 .../default_local_portal.py                   | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pythagoras/_100_default_local_portals/default_local_portal.py b/pythagoras/_100_default_local_portals/default_local_portal.py
index e88b440..a49b68b 100644
--- a/pythagoras/_100_default_local_portals/default_local_portal.py
+++ b/pythagoras/_100_default_local_portals/default_local_portal.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
-from persidict import FileDirDict
+import parameterizable
+from persidict import FileDirDict, PersiDict
 
 from pythagoras._010_basic_portals import BasicPortal
 from pythagoras._090_swarming_portals.swarming_portals import SwarmingPortal
@@ -14,7 +15,7 @@ class DefaultLocalPortal(SwarmingPortal):
     _default_local_portal_instance: DefaultLocalPortal | None = None
     _calls_counter = 0
 
-    def __new__(cls):
+    def __new__(cls, *args, **kwargs):
         """ Singleton pattern implementation for DefaultLocalPortal class.
 
         Returns the same instance of DefaultLocalPortal class if it has been
@@ -26,15 +27,26 @@ class DefaultLocalPortal(SwarmingPortal):
                 DefaultLocalPortal, cls).__new__(cls)
         return cls._default_local_portal_instance
 
-    def __init__(self):
+    def __init__(self
+                 , root_dict: PersiDict | str | None = None
+                 , default_island_name: str = "Samos"
+                 , p_consistency_checks: float | None = 0
+                 , n_background_workers: int | None = 3
+                 , runtime_id: str | None = None
+                 ):
+        # The parameters are for background workers, which re-create
+        # the portal from the parameters get_params() returns.
         if DefaultLocalPortal._calls_counter > 0:
             return
         DefaultLocalPortal._calls_counter += 1
+        if root_dict is None:
+            root_dict = FileDirDict(BasicPortal.default_base_dir())
         SwarmingPortal.__init__(self
-            , root_dict = FileDirDict(BasicPortal.default_base_dir())
-            , default_island_name = "Samos"
-            , p_consistency_checks = 0
-            , n_background_workers=3
+            , root_dict = root_dict
+            , default_island_name = default_island_name
+            , p_consistency_checks = p_consistency_checks
+            , n_background_workers = n_background_workers
+            , runtime_id = runtime_id
             )
 
     def _clear(self) -> None:
@@ -49,3 +61,6 @@ class DefaultLocalPortal(SwarmingPortal):
         cls._default_local_portal_instance = None
         cls._calls_counter = 0
         super()._clear_all()
+
+
+parameterizable.register_parameterizable_class(DefaultLocalPortal)
-- 
2.43.0


From 1cb6a40fa84541a02945380ba7ad9970f048d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:46 +0000
Subject: [PATCH 37/55] fix: the runtime record is removed at exit, whichever
 portal was created first

---
 pythagoras/_090_swarming_portals/swarming_portals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_090_swarming_portals/swarming_portals.py b/pythagoras/_090_swarming_portals/swarming_portals.py
index f20f66e..405e167 100644
--- a/pythagoras/_090_swarming_portals/swarming_portals.py
+++ b/pythagoras/_090_swarming_portals/swarming_portals.py
@@ -64,8 +64,8 @@ class SwarmingPortal(PureCodePortal):
             # for portal in self.get_noncurrent_portals():
             #     portal.compute_nodes.pkl[address] = runtime_id
 
-            if len(BasicPortal.all_portals) == 1:
-                atexit.register(_clean_runtime_id)
+            atexit.unregister(_clean_runtime_id)
+            atexit.register(_clean_runtime_id)
 
             summary = build_execution_environment_summary()
             address = [self.node_id, "execution_environment"]
-- 
2.43.0


From f3bffd53bd38aea6823e37546ef31f5e3cf2f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:05 +0000
Subject: [PATCH 38/55] fix: a portal never removes the runtime record of a
 session that replaced it

---
 .../_090_swarming_portals/swarming_portals.py | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pythagoras/_090_swarming_portals/swarming_portals.py b/pythagoras/_090_swarming_portals/swarming_portals.py
index 405e167..32a044f 100644
--- a/pythagoras/_090_swarming_portals/swarming_portals.py
+++ b/pythagoras/_090_swarming_portals/swarming_portals.py
@@ -118,6 +118,13 @@ class SwarmingPortal(PureCodePortal):
         return False
 
 
+    def _remove_runtime_record(self) -> None:
+        """Remove the record of this runtime, but not of one that replaced it."""
+        address = [self.node_id, "runtime_id"]
+        if self.compute_nodes.pkl.get(address) == self.runtime_id:
+            self.compute_nodes.pkl.delete_if_exists(address)
+
+
     def _launch_background_worker(self):
         """Launch one background worker process."""
         init_params = self.__get_portable_params__()
@@ -129,8 +136,7 @@ class SwarmingPortal(PureCodePortal):
 
 
     def _clear(self):
-        address = [self.node_id, "runtime_id"]
-        self.compute_nodes.pkl.delete_if_exists(address)
+        self._remove_runtime_record()
         self.compute_nodes = None
         super()._clear()
 
@@ -232,12 +238,10 @@ def _clean_runtime_id():
     This function is called at the end of the program execution.
     It deletes the runtime_id record from all portals.
     """
-    node_id = get_node_signature()
-    address = [node_id, "runtime_id"]
-    for portal_id in BasicPortal.all_portals:
+    for portal in BasicPortal.all_portals.values():
+        if not isinstance(portal, SwarmingPortal):
+            continue
         try:
-            portal = BasicPortal.all_portals[portal_id]
-            with portal:
-                portal.compute_nodes.pkl.delete_if_exists(address)
+            portal._remove_runtime_record()
         except:
-            pass
\ No newline at end of file
+            pass
-- 
2.43.0


From e982f046381f21d89b95e37699dcc53c9f7ce81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:05 +0000
Subject: [PATCH 39/55] fix: requests which can't be restored don't stop the
 background workers

---
 .../_090_swarming_portals/swarming_portals.py | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pythagoras/_090_swarming_portals/swarming_portals.py b/pythagoras/_090_swarming_portals/swarming_portals.py
index 32a044f..3e38b44 100644
--- a/pythagoras/_090_swarming_portals/swarming_portals.py
+++ b/pythagoras/_090_swarming_portals/swarming_portals.py
@@ -215,19 +215,30 @@ def _process_random_execution_request(**portal_init_params):
             while len(candidate_addresses) == 0:
                 if not portal.parent_runtime_is_live():
                     return
-                for addr in portal.execution_requests:
-                    new_address = PureFnExecutionResultAddr.from_strings(
-                        prefix=addr[0], hash_signature=addr[1]
-                        , assert_readiness=False) # How does it handle portals?
-                    if not new_address.needs_execution:
-                        continue
-                    if not new_address.can_be_executed:
+                some_are_broken = False
+                requests = list(portal.execution_requests)
+                portal.entropy_infuser.shuffle(requests)
+                for addr in requests:
+                    try:
+                        new_address = PureFnExecutionResultAddr.from_strings(
+                            prefix=addr[0], hash_signature=addr[1]
+                            , assert_readiness=False) # How does it handle portals?
+                        if not new_address.needs_execution:
+                            continue
+                        if not new_address.can_be_executed:
+                            continue
+                    except Exception:
+                        # The function or the arguments can't be restored,
+                        # at least not within this process.
+                        some_are_broken = True
                         continue
                     candidate_addresses.append(new_address)
                     if len(candidate_addresses) > max_addresses_to_consider:
                         break
                 if len(candidate_addresses) == 0:
                     portal._randomly_delay_execution(p=1)
+                    if some_are_broken:
+                        return # a fresh process may be able to do more
             random_address = portal.entropy_infuser.choice(candidate_addresses)
             random_address.execute()
 
-- 
2.43.0


From cfea185d58e59584b114634ed8d9f203588f6e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:15 +0000
Subject: [PATCH 40/55] fix: failing calls don't make the background workers
 print tracebacks

---
 pythagoras/_090_swarming_portals/swarming_portals.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_090_swarming_portals/swarming_portals.py b/pythagoras/_090_swarming_portals/swarming_portals.py
index 3e38b44..5d28f76 100644
--- a/pythagoras/_090_swarming_portals/swarming_portals.py
+++ b/pythagoras/_090_swarming_portals/swarming_portals.py
@@ -240,7 +240,10 @@ def _process_random_execution_request(**portal_init_params):
                     if some_are_broken:
                         return # a fresh process may be able to do more
             random_address = portal.entropy_infuser.choice(candidate_addresses)
-            random_address.execute()
+            try:
+                random_address.execute()
+            except Exception:
+                pass # it has been logged
 
 
 def _clean_runtime_id():
-- 
2.43.0


From 9568a9b4b9bbfd31cb30d8eb089026b62726f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:52 +0000
Subject: [PATCH 41/55] fix: a function that can't be restored leaves nothing
 registered

---
 .../_070_pure_functions/pure_core_classes.py  | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 820b5f0..2f0878c 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -305,6 +305,30 @@ class PureFn(AutonomousFn):
         self._portal = None
         self.capture_portal()
         self.call_stack = list()
+
+        known_functions = self.portal.known_functions
+        known_before = {name: dict(island)
+            for name, island in known_functions.items()}
+        known_fn = known_before.get(self.island_name, {}).get(self.fn_name)
+        known_augmented_code = getattr(
+            known_fn, "_augmented_source_code", None)
+        try:
+            self._restore_registration(state["augmented_fn_source_code"])
+        except:
+            # A function that can't be restored leaves nothing behind.
+            for name in list(known_functions):
+                if name not in known_before:
+                    del known_functions[name]
+                    continue
+                known_functions[name].clear()
+                known_functions[name].update(known_before[name])
+            if known_fn is not None:
+                known_fn._augmented_source_code = known_augmented_code
+            raise
+
+
+    def _restore_registration(self, augmented_fn_source_code:str) -> None:
+        """Register an unpickled function and everything it depends on."""
         self._begin_fn_registration()
 
         with self.portal as portal:
@@ -313,11 +337,11 @@ class PureFn(AutonomousFn):
             fn_name = self.fn_name
             if not island[fn_name]._fn_fully_registered:
                 island[fn_name]._augmented_source_code = (
-                    state["augmented_fn_source_code"])
+                    augmented_fn_source_code)
                 process_augmented_func_src(
-                    state["augmented_fn_source_code"], portal=portal)
+                    augmented_fn_source_code, portal=portal)
             else:
-                assert state["augmented_fn_source_code"] == (
+                assert augmented_fn_source_code == (
                     island[fn_name]._augmented_source_code)
 
         self._complete_fn_registration()
-- 
2.43.0


From bc02224796eb454a6cb38fd7aac011c90da996ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:41 +0000
Subject: [PATCH 42/55] fix: an autonomous function wrapped again is
 registered, and has to agree, like any other

---
 .../_060_autonomous_functions/autonomous_core_classes.py       | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index e6955d7..fb5a8c4 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -130,8 +130,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
 
         if isinstance(a_fn, AutonomousFn):
             assert island_name == a_fn.island_name
-            self.update(a_fn)
-            return
+            AutonomousFn.update(self, a_fn)
 
         self.island_name = island_name
         self.strictly_autonomous = bool(strictly_autonomous)
-- 
2.43.0


From a3de318639e5d4f8e022419231f6a343b8d87e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:41 +0000
Subject: [PATCH 43/55] fix: a refused definition does not leave an empty
 island behind

---
 .../_060_autonomous_functions/autonomous_core_classes.py     | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index fb5a8c4..af51cde 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -153,9 +153,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         portal = self.portal
         island_name = self.island_name
         fn_name = self.fn_name
-        if island_name not in portal.known_functions:
-            portal.known_functions[island_name] = dict()
-        island = portal.known_functions[island_name]
+        island = portal.known_functions.get(island_name, dict())
 
         if fn_name in island:
             assert self.fn_source_code == island[fn_name].fn_source_code, (
@@ -189,6 +187,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
 
         # TODO: add checks for strict autonomicity
 
+        portal.known_functions[island_name] = island
         island[fn_name] = self
 
 
-- 
2.43.0


From 14e4c73139b54ed7e3ddce894d99372cee8a4487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:41 +0000
Subject: [PATCH 44/55] fix: an empty list of guards in an island that has no
 functions yet

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 2f0878c..69f0c97 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -172,7 +172,7 @@ class PureFn(AutonomousFn):
             guards_list = supporting_funcs
         assert isinstance(guards_list, list)
         result_names = []
-        island = self.portal.known_functions[self.island_name]
+        island = self.portal.known_functions.get(self.island_name, dict())
         for f in guards_list:
             if isinstance(f, AutonomousFn):
                 assert f.island_name == self.island_name
-- 
2.43.0


From 51e57760bfd318400ceafd0ac413f02b2fc95a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:41 +0000
Subject: [PATCH 45/55] fix: the node's signature is the same in all processes
 where there is no hardware address

---
 .../_820_strings_signatures_converters/node_signatures.py     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pythagoras/_820_strings_signatures_converters/node_signatures.py b/pythagoras/_820_strings_signatures_converters/node_signatures.py
index 54ab001..b41434c 100644
--- a/pythagoras/_820_strings_signatures_converters/node_signatures.py
+++ b/pythagoras/_820_strings_signatures_converters/node_signatures.py
@@ -7,6 +7,10 @@ def get_node_signature() -> str:
     """Returns a globally-unique signature for the current computing node.
     """
     mac = uuid.getnode()
+    if (mac >> 40) & 1:
+        # No hardware address was found, and the number is a random one,
+        # a different one in every process.
+        mac = platform.node()
     system = platform.system()
     release = platform.release()
     version = platform.version()
-- 
2.43.0


From 60fff694d78a01db70e825e24491a44161c373b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:27 +0000
Subject: [PATCH 46/55] fix: notice packages installed after the program had
 started

A package installed within one tick of the file system's clock was not found by
the import which follows, as import finders cache the contents of directories.
---
 pythagoras/_050_safe_functions/package_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pythagoras/_050_safe_functions/package_manager.py b/pythagoras/_050_safe_functions/package_manager.py
index 2246582..0fb2f6d 100644
--- a/pythagoras/_050_safe_functions/package_manager.py
+++ b/pythagoras/_050_safe_functions/package_manager.py
@@ -19,6 +19,8 @@ def install_package(package_name:str
     subprocess.run(command, check=True, stdout=subprocess.PIPE
         , stderr=subprocess.STDOUT, text=True)
 
+    # the package was created after the program had started
+    importlib.invalidate_caches()
     importlib.import_module(package_name)
 
 def uninstall_package(package_name:str)->None:
@@ -28,6 +30,7 @@ def uninstall_package(package_name:str)->None:
     subprocess.run(command, check=True, stdout=subprocess.PIPE
         , stderr=subprocess.STDOUT, text=True)
 
+    importlib.invalidate_caches()
     try:
         package = importlib.import_module(package_name)
         importlib.reload(package)
-- 
2.43.0


From f7707c7efbc3e8c25ea8ba6b9c7eeb9f61704ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:03 +0000
Subject: [PATCH 47/55] fix: restore the streams also when what is wrapped
 refuses the trace of an exception

---
 pythagoras/_810_output_manipulators/output_capturer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_810_output_manipulators/output_capturer.py b/pythagoras/_810_output_manipulators/output_capturer.py
index b7cbc18..148c842 100644
--- a/pythagoras/_810_output_manipulators/output_capturer.py
+++ b/pythagoras/_810_output_manipulators/output_capturer.py
@@ -113,7 +113,12 @@ class OutputCapturer:
         """Restore stdout, stderr, and logging output to their original state.
         """
         if exc_type is not None:
-            traceback.print_exc()
+            trace_text = traceback.format_exc()
+            try:
+                sys.stderr.write(trace_text)
+            except Exception:
+                # the original stream can't take it; the exception goes on
+                self.captured_buffer.write(trace_text)
         sys.stdout = self.original_stdout
         sys.stderr = self.original_stderr
         logging.root.handlers = self.original_log_handlers
-- 
2.43.0


From d22bb51ba28055750c82a6bb64ee223394f4506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:11 +0000
Subject: [PATCH 48/55] fix: describe the environment also without a working
 directory or a user name

---
 .../execution_environment_summary.py             | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_020_logging_portals/execution_environment_summary.py b/pythagoras/_020_logging_portals/execution_environment_summary.py
index 20e2764..57fe824 100644
--- a/pythagoras/_020_logging_portals/execution_environment_summary.py
+++ b/pythagoras/_020_logging_portals/execution_environment_summary.py
@@ -8,17 +8,27 @@ from datetime import datetime
 import torch
 from .notebook_checker import is_executed_in_notebook
 
+def _if_available(get_info, *args):
+    """What get_info returns, or None if the environment does not provide it.
+
+    The working directory, for example, may have been deleted.
+    """
+    try:
+        return get_info(*args)
+    except Exception:
+        return None
+
 def build_execution_environment_summary()-> Dict:
     """Capture core information about execution environment.
 
     The function is intended to be used to log environment information
     to help debug (distributed) applications.
     """
-    cwd = os.getcwd()
+    cwd = _if_available(os.getcwd)
 
     execution_environment_summary = dict(
         hostname = socket.gethostname()
-        ,user = getuser()
+        ,user = _if_available(getuser)
         ,pid = os.getpid()
         ,platform = platform.platform()
         ,python_implementation = platform.python_implementation()
@@ -27,7 +37,7 @@ def build_execution_environment_summary()-> Dict:
         ,cpu_count = psutil.cpu_count()
         ,cpu_load_avg = psutil.getloadavg()
         ,cuda_gpu_count=torch.cuda.device_count()
-        ,disk_usage = psutil.disk_usage(cwd)
+        ,disk_usage = _if_available(psutil.disk_usage, cwd)
         ,virtual_memory = psutil.virtual_memory()
         ,working_directory = cwd
         ,local_timezone = datetime.now().astimezone().tzname()
-- 
2.43.0


From 86b1cad41d66c96cd5a3fad8690c35789cc81825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:11 +0000
Subject: [PATCH 49/55] fix: sign the node also for a user without a name

---
 .../_820_strings_signatures_converters/node_signatures.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_820_strings_signatures_converters/node_signatures.py b/pythagoras/_820_strings_signatures_converters/node_signatures.py
index b41434c..39393c5 100644
--- a/pythagoras/_820_strings_signatures_converters/node_signatures.py
+++ b/pythagoras/_820_strings_signatures_converters/node_signatures.py
@@ -1,4 +1,4 @@
-import uuid, platform, getpass
+import os, uuid, platform, getpass
 
 from pythagoras._820_strings_signatures_converters.hash_signatures import get_hash_signature
 
@@ -16,7 +16,11 @@ def get_node_signature() -> str:
     version = platform.version()
     machine = platform.machine()
     processor = platform.processor()
-    user = getpass.getuser()
+    try:
+        user = getpass.getuser()
+    except Exception:
+        # The account has no name, which is common in containers.
+        user = os.getuid()
     id_string = f"{mac}{system}{release}{version}"
     id_string += f"{machine}{processor}{user}"
     return get_hash_signature(id_string)
\ No newline at end of file
-- 
2.43.0


From 8bbf0702d1701319a72c4b0baf24186c83f5fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:11 +0000
Subject: [PATCH 50/55] fix: log exceptions also in months whose name is not
 plain ASCII in the locale

---
 .../current_date_gmt_str.py                                | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_820_strings_signatures_converters/current_date_gmt_str.py b/pythagoras/_820_strings_signatures_converters/current_date_gmt_str.py
index 3bee96f..67c4df6 100644
--- a/pythagoras/_820_strings_signatures_converters/current_date_gmt_str.py
+++ b/pythagoras/_820_strings_signatures_converters/current_date_gmt_str.py
@@ -1,11 +1,16 @@
 from datetime import datetime, timezone
 
+# Unlike "%b", these do not depend on the locale.
+_MONTHS = ("Jan", "Feb", "Mar", "Apr", "May", "Jun"
+    , "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")
+
 
 def current_date_gmt_string():
     """ Return the current date and time in the format '2024_12Jan_22_utc'
     """
 
     utc_now = datetime.now(timezone.utc)
-    date_str = utc_now.strftime("%Y_%m%b_%d_utc")
+    month = _MONTHS[utc_now.month - 1]
+    date_str = utc_now.strftime(f"%Y_%m{month}_%d_utc")
 
     return date_str
\ No newline at end of file
-- 
2.43.0


From ca1eb58ed8e22d5ddfa3f4f70e87312354f601e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:11 +0000
Subject: [PATCH 51/55] fix: log exceptions also when names of classes,
 functions or islands are no valid keys

---
 pythagoras/_020_logging_portals/logging_portals.py     | 10 ++++++++--
 .../_040_ordinary_functions/ordinary_core_classes.py   |  4 ++--
 .../autonomous_core_classes.py                         |  6 ++++--
 pythagoras/_070_pure_functions/pure_core_classes.py    |  4 +++-
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index 13de23d..2b1f4f2 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -7,7 +7,7 @@ from typing import Any, Optional
 
 import jsonpickle
 import pandas as pd
-from persidict import PersiDict, FileDirDict
+from persidict import PersiDict, FileDirDict, replace_unsafe_chars
 
 from pythagoras._010_basic_portals.foundation import BasicPortal, _persistent
 from pythagoras._820_strings_signatures_converters.current_date_gmt_str import (
@@ -327,9 +327,15 @@ class LoggingPortal(BasicPortal):
     def _exception_prefixes() -> list[list[str]]:
         return [["__CATCH_ALL__", current_date_gmt_string()]]
 
+    @staticmethod
+    def _name_in_key(name:str) -> str:
+        """Adapt a name of a class, function or island to be a part of a key."""
+        return replace_unsafe_chars(name, replace_with="_")[:60]
+
     @staticmethod
     def _exception_id(exc_value) -> str:
-        return NeedsRandomization(exc_value.__class__.__name__)
+        return NeedsRandomization(
+            LoggingPortal._name_in_key(exc_value.__class__.__name__))
 
     @staticmethod
     def _extra_exception_data() -> dict:
diff --git a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
index dadb4c1..1fbbf87 100644
--- a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
+++ b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
@@ -142,13 +142,13 @@ class OrdinaryFn(PortalAwareClass):
         return names
 
     def _exception_prefixes(self) -> list[list[str]]:
-        return [[f"{self.fn_name}_ORD"]
+        return [[f"{LoggingPortal._name_in_key(self.fn_name)}_ORD"]
             ] + LoggingPortal._exception_prefixes()
 
     def _exception_id(self, exc_value) -> str:
         return NeedsRandomization(
             LoggingPortal._exception_id(exc_value)
-            + f"_{self.fn_name}")
+            + f"_{LoggingPortal._name_in_key(self.fn_name)}")
 
     def _extra_exception_data(self) -> dict:
         result = dict(
diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index af51cde..3548e6d 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -312,13 +312,15 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         return all_names
 
     def _exception_prefixes(self) -> list[list[str]]:
-        return [[f"{self.fn_name}_{self.island_name}_AUTON"]
+        fn_name = LoggingPortal._name_in_key(self.fn_name)
+        island_name = LoggingPortal._name_in_key(self.island_name)
+        return [[f"{fn_name}_{island_name}_AUTON"]
             ] + LoggingPortal._exception_prefixes()
 
     def _exception_id(self, exc_value) -> str:
         return NeedsRandomization(
             super()._exception_id(exc_value)
-            + f"_{self.island_name}")
+            + f"_{LoggingPortal._name_in_key(self.island_name)}")
 
 
     def _extra_exception_data(self) -> dict:
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 69f0c97..dfcf22e 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -348,7 +348,9 @@ class PureFn(AutonomousFn):
 
 
     def _exception_prefixes(self) -> list[list[str]]:
-        return [[f"{self.fn_name}_{self.island_name}_PURE"]
+        fn_name = LoggingPortal._name_in_key(self.fn_name)
+        island_name = LoggingPortal._name_in_key(self.island_name)
+        return [[f"{fn_name}_{island_name}_PURE"]
             ] + LoggingPortal._exception_prefixes()
 
     def _extra_exception_data(self) -> dict:
-- 
2.43.0


From 6e53161ed741b2e6719087a54dc41139ebf85185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:37 +0000
Subject: [PATCH 52/55] fix: give addresses to values of classes with long or
 not plain ASCII names

---
 pythagoras/_030_data_portals/hash_addresses.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythagoras/_030_data_portals/hash_addresses.py b/pythagoras/_030_data_portals/hash_addresses.py
index 40ed84c..50dc036 100644
--- a/pythagoras/_030_data_portals/hash_addresses.py
+++ b/pythagoras/_030_data_portals/hash_addresses.py
@@ -44,6 +44,7 @@ class HashAddr(SafeStrTuple, PortalAwareClass, ABC):
         """Create a short human-readable summary of an object."""
 
         prfx = x.__class__.__name__.lower()
+        prfx = replace_unsafe_chars(prfx, replace_with="_")[:100]
 
         return prfx
 
-- 
2.43.0


From 4d2d24d2da37df1d2f5a8af653a6735c235d4458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:37 +0000
Subject: [PATCH 53/55] fix: tell ordered dictionaries with another order of
 keys apart

---
 .../hash_signatures.py                         | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pythagoras/_820_strings_signatures_converters/hash_signatures.py b/pythagoras/_820_strings_signatures_converters/hash_signatures.py
index f97c00e..02a9d90 100644
--- a/pythagoras/_820_strings_signatures_converters/hash_signatures.py
+++ b/pythagoras/_820_strings_signatures_converters/hash_signatures.py
@@ -1,4 +1,5 @@
 import sys
+from collections import OrderedDict
 from typing import Any
 
 import joblib.hashing
@@ -22,14 +23,31 @@ class _UnorderedItems:
             items = items.items()
         self.items_hashes = sorted(get_base16_hash_signature(i) for i in items)
 
+class _OrderedItems:
+    """What a dictionary is replaced with when the order of items matters."""
+    def __init__(self, items):
+        self.dict_type = type(items)
+        self.items = list(items.items())
+        self.attributes = vars(items)
+
 class _FrozensetsHasher:
     """A mixin which makes hashes independent of the order of frozensets.
 
     Joblib sorts elements of sets and keys of dicts, but it does not do it for
     frozensets, and it can't do it for elements and keys that are frozensets,
     as comparing frozensets does not define any specific order.
+    It also sorts keys of ordered dicts, for which the order does matter.
     """
+    def _get_ordered_items(self, obj):
+        # An object which is met again must be replaced with the same one.
+        known = self.__dict__.setdefault("_known_ordered_items", dict())
+        if id(obj) not in known:
+            known[id(obj)] = (obj, _OrderedItems(obj))
+        return known[id(obj)][1]
+
     def save(self, obj):
+        if isinstance(obj, OrderedDict):
+            obj = self._get_ordered_items(obj)
         if type(obj) is frozenset or (type(obj) in (set, dict)
                 and any(_is_partially_ordered(i) for i in obj)):
             obj = _UnorderedItems(obj)
-- 
2.43.0


From 1727daa843ad22e33354960429babf5041056088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:37 +0000
Subject: [PATCH 54/55] fix: compare names, time zones, and arrays of strings
 and objects of first entries

---
 .../first_entry_dict.py                       | 82 ++++++++++++++++++-
 1 file changed, 79 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_800_persidict_extensions/first_entry_dict.py b/pythagoras/_800_persidict_extensions/first_entry_dict.py
index 30f44ae..9f707d3 100644
--- a/pythagoras/_800_persidict_extensions/first_entry_dict.py
+++ b/pythagoras/_800_persidict_extensions/first_entry_dict.py
@@ -1,5 +1,9 @@
 import time
+from collections import OrderedDict
+from datetime import datetime
+from types import BuiltinFunctionType
 
+import numpy as np
 import pandas as pd
 from deepdiff import DeepDiff
 from deepdiff.operator import BaseOperator
@@ -20,10 +24,79 @@ class _PandasComparison(BaseOperator):
     """
 
     def __init__(self):
-        super().__init__(types=[pd.DataFrame, pd.Series])
+        super().__init__(types=[pd.DataFrame, pd.Series, pd.Index])
+
+    @staticmethod
+    def _names(x) -> list:
+        if isinstance(x, pd.Index):
+            return list(x.names)
+        names = list(x.index.names)
+        names += [x.name] if isinstance(x, pd.Series) else x.columns.names
+        return names
+
+    def give_up_diffing(self, level, diff_instance) -> bool:
+        if not (level.t1.equals(level.t2)
+                and self._names(level.t1) == self._names(level.t2)):
+            diff_instance.custom_report_result("values_changed", level)
+        return True
+
+    def normalize_value_for_hashing(self, parent, obj):
+        return obj
+
+
+class _ArrayComparison(BaseOperator):
+    """ Compares arrays of strings, records and objects.
+
+    Without it, DeepDiff looks for NaNs in them, and fails.
+    """
+
+    def __init__(self):
+        super().__init__(types=[np.ndarray])
+
+    def give_up_diffing(self, level, diff_instance) -> bool:
+        if any(x.dtype.kind not in "USVO" for x in (level.t1, level.t2)):
+            return False
+        hashes = [get_hash_signature(x.copy(order="C"))
+            for x in (level.t1, level.t2)]
+        if hashes[0] != hashes[1]:
+            diff_instance.custom_report_result("values_changed", level)
+        return True
+
+    def normalize_value_for_hashing(self, parent, obj):
+        return obj
+
+
+class _OrderComparison(BaseOperator):
+    """ Compares the order of keys in ordered dictionaries.
+
+    Their values are compared by DeepDiff, which does not look at the order.
+    """
+
+    def __init__(self):
+        super().__init__(types=[OrderedDict])
+
+    def give_up_diffing(self, level, diff_instance) -> bool:
+        if list(level.t1) == list(level.t2):
+            return False
+        diff_instance.custom_report_result("values_changed", level)
+        return True
+
+    def normalize_value_for_hashing(self, parent, obj):
+        return obj
+
+
+class _PlainComparison(BaseOperator):
+    """ Compares objects the way they compare themselves.
+
+    Without it, DeepDiff does not look at the time zone of a datetime,
+    and takes all built-in functions for the same one.
+    """
+
+    def __init__(self):
+        super().__init__(types=[datetime, BuiltinFunctionType])
 
     def give_up_diffing(self, level, diff_instance) -> bool:
-        if not level.t1.equals(level.t2):
+        if not level.t1 == level.t2:
             diff_instance.custom_report_result("values_changed", level)
         return True
 
@@ -88,7 +161,10 @@ class FirstEntryDict(PersiDict):
                 if get_hash_signature(stored_value) != get_hash_signature(value):
                     diff_dict = DeepDiff(stored_value, value
                         , ignore_nan_inequality=True
-                        , custom_operators=[_PandasComparison()])
+                        , ignore_private_variables=False
+                        , custom_operators=[
+                            _PandasComparison(), _ArrayComparison()
+                            , _OrderComparison(), _PlainComparison()])
                 # We are using DeepDiff here to compare the values
                 # because the values can be complex objects,
                 # e.g. Pandas DataFrames
-- 
2.43.0


From 88d60cb2fd36384afdedb3d9962989d1a4788138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:01 +0000
Subject: [PATCH 55/55] fix: normalize functions with several modules in one
 import statement in one step

---
 .../code_normalizer_implementation.py               | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index 10c0941..e85ab31 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -51,6 +51,18 @@ class _VariableAnnotationsRemover(ast.NodeTransformer):
         return node
 
 
+class _ImportsSplitter(ast.NodeTransformer):
+    """Split "import a, b" into separate statements.
+
+    Autopep8 does it too, but only after it has formatted other lines
+    in a way that depends on there being something to split.
+    """
+
+    def visit_Import(self, node):
+        return [ast.copy_location(ast.Import(names=[name]), node)
+            for name in node.names]
+
+
 def __get_normalized_function_source__(
         a_func:Callable|str
         , drop_pth_decorators:bool = False
@@ -124,6 +136,7 @@ def __get_normalized_function_source__(
         code_ast.body[0].decorator_list = []
 
     code_ast = _VariableAnnotationsRemover().visit(code_ast)
+    code_ast = _ImportsSplitter().visit(code_ast)
 
     # Remove docstrings.
     for node in ast.walk(code_ast):
-- 
2.43.0

