From 08c937b12e539b8628e5a06f82f9d406dbc0ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 1/6] fix: looking a unit up no longer undoes a later
 replacement

Resolving a lazily defined unit re-registered it under all of its names with
replace=True, so that looking up one alias of an old definition silently took
back the names which had since been given to another unit. The resolved unit
is remembered by the lazy definition itself, so nothing needs to be written
back.
---
 pyudunits2/_unit_system.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 59f0a2d..d623f63 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -202,14 +202,12 @@ class UnitSystem:
         unit = self._names.get(name, None) or self._alias_names.get(name, None)
         if isinstance(unit, LazilyDefinedUnit):
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def _unit_by_symbol(self, symbol: str) -> Unit | None:
         unit = self._symbols.get(symbol, None) or self._alias_symbols.get(symbol, None)
         if isinstance(unit, LazilyDefinedUnit):
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def unit_by_name_or_symbol(self, name_or_symbol: str) -> Unit:
-- 
2.43.0


From b4ae8060f61f2b032225fb9d5b84f76f000abc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 2/6] fix: adding a prefix no longer breaks a lookup in
 progress

The search for a prefix iterated over the live registry, so a prefix added by
another thread (or a signal handler) in the middle of it made the lookup fail
with 'dictionary changed size during iteration'.
---
 pyudunits2/_unit_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index d623f63..bf87cc8 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -224,7 +224,7 @@ class UnitSystem:
             result = unit
 
         if result is None:
-            for prefix_name, prefix in self._prefix_names.items():
+            for prefix_name, prefix in tuple(self._prefix_names.items()):
                 if name_or_symbol.startswith(prefix_name):
                     unit = self._unit_by_name(
                         name_or_symbol[len(prefix_name) :]
@@ -248,7 +248,7 @@ class UnitSystem:
                         break
 
         if result is None:
-            for prefix_symbol, prefix in self._prefix_symbols.items():
+            for prefix_symbol, prefix in tuple(self._prefix_symbols.items()):
                 if name_or_symbol.startswith(prefix_symbol):
                     unit = self._unit_by_name(
                         name_or_symbol[len(prefix_symbol) :]
-- 
2.43.0


From b7bfc054e74816c76d751f3e0ed98a1125f30b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 3/6] fix: read the unit database as bytes, whatever the locale

The XML file was opened in text mode, so it was decoded with the locale's
encoding: under an ASCII locale loading failed, under latin-1 the symbols came
out mangled. The XML declaration states the encoding; leave it to the parser.
---
 pyudunits2/_udunits2_xml_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index ffbb713..7ac9bbf 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -135,7 +135,7 @@ class UDUNITS2XMLParser:
 
     @classmethod
     def parse_file(cls, path: Path) -> UnitSystem:
-        with path.open("rt") as fh:
+        with path.open("rb") as fh:
             tree = etree.parse(fh)
         root = tree.getroot()
 
-- 
2.43.0


From 8a96438f5d1c37a3e78ce4a700beaea5efe021ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:54 +0000
Subject: [PATCH 4/6] fix: report the same error for a query in every process

The identifiers of an expression were resolved in the order of a set, so
which of several unresolvable ones was reported (and with which type of
error) depended on the hash seed of the process.
---
 pyudunits2/_expr/atoms.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyudunits2/_expr/atoms.py b/pyudunits2/_expr/atoms.py
index 1cdc531..9603d1c 100644
--- a/pyudunits2/_expr/atoms.py
+++ b/pyudunits2/_expr/atoms.py
@@ -1,5 +1,4 @@
 from .graph import Visitor
-import typing
 from . import graph as unit_graph
 
 
@@ -59,13 +58,19 @@ from . import graph as unit_graph
 
 
 class ExtractIdentifiers(Visitor):
+    # The identifiers are the keys of a dict, and not the elements of a set, so
+    # that they come in their order of appearance (and not in an order which is
+    # different in each process).
+
     def visit_Identifier(
         self, node: unit_graph.Identifier
-    ) -> typing.Set[unit_graph.Identifier]:
-        return {node}
+    ) -> dict[unit_graph.Identifier, None]:
+        return {node: None}
 
-    def generic_visit(self, node: unit_graph.Node) -> typing.Set[unit_graph.Identifier]:
-        result = set()
+    def generic_visit(
+        self, node: unit_graph.Node
+    ) -> dict[unit_graph.Identifier, None]:
+        result: dict[unit_graph.Identifier, None] = {}
 
         for child in node.children():
             result |= self.visit(child)
-- 
2.43.0


From 9518b0f7aeea26dc71c2d0125e09863f8b0a432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:39 +0000
Subject: [PATCH 5/6] fix: what a definition resolved to first stays what it is

While a unit was looked up whose definition (wrongly) referred to itself,
another thread could replace the definition. The unit was then resolved
correctly in the innermost call, but the outer calls overwrote the result
with a definition expanded many times over, for good.
---
 pyudunits2/_unit_system.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index bf87cc8..3500dbc 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -53,6 +53,12 @@ class LazilyDefinedUnit:
                 for identifier in identifiers
             }
 
+            if self._resolved_unit is not None:
+                # Resolved while the identifiers were being looked up: either by
+                # another thread, or because a definition which (indirectly)
+                # referred to itself has been replaced since the look up began.
+                return self._resolved_unit
+
             self._resolved_unit = NamedUnit(
                 definition=unit_expr,
                 identifier_references=identifier_references,
-- 
2.43.0


From 1853e5eb4bb29d535243f6cff71085d06583a796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:45 +0000
Subject: [PATCH 6/6] fix: do not report success when there is no standard
 output

Started with standard output closed (command >&-, some daemons and task
schedulers), the interpreter's sys.stdout is None and print() silently does
nothing: the command line exited with status 0 without an answer.
---
 pyudunits2/__main__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyudunits2/__main__.py b/pyudunits2/__main__.py
index 3878dbe..d23e41a 100644
--- a/pyudunits2/__main__.py
+++ b/pyudunits2/__main__.py
@@ -80,6 +80,10 @@ def debug_parsing_handler(args: argparse.Namespace) -> None:
 
 
 def main() -> None:
+    if sys.stdout is None:
+        # The process was started without one. Printing would silently do
+        # nothing, and then the exit status would claim success.
+        sys.exit("There is no standard output to write to")
     parser = argparse.ArgumentParser()
     configure_parser(parser)
     args = parser.parse_args(sys.argv)
-- 
2.43.0

