From 4744ebb8ff9ac24fa859901142df279c3577db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 01/16] fix: serializer must only indent after line feeds

---
 fluent.syntax/fluent/syntax/serializer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/serializer.py b/fluent.syntax/fluent/syntax/serializer.py
index 3659154..1d5c627 100644
--- a/fluent.syntax/fluent/syntax/serializer.py
+++ b/fluent.syntax/fluent/syntax/serializer.py
@@ -4,7 +4,11 @@ from . import ast
 
 
 def indent_except_first_line(content: str) -> str:
-    return "    ".join(content.splitlines(True))
+    # Only LF ends a line in Fluent. str.splitlines() would also split on other
+    # characters (CR, VT, FF, NEL, U+2028, ...) which are regular text.
+    head, sep, last = content.rpartition("\n")
+    indented = head.replace("\n", "\n    ") + sep
+    return f"{indented}    {last}" if sep and last else f"{indented}{last}"
 
 
 def includes_new_line(elem: Union[ast.TextElement, ast.Placeable]) -> bool:
-- 
2.43.0


From de78239d79e264123cb75cca017150b7821c3e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 02/16] fix: unescape out-of-range code points to U+FFFD

---
 fluent.syntax/fluent/syntax/ast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/ast.py b/fluent.syntax/fluent/syntax/ast.py
index c47244e..a8ca2ff 100644
--- a/fluent.syntax/fluent/syntax/ast.py
+++ b/fluent.syntax/fluent/syntax/ast.py
@@ -217,11 +217,11 @@ class StringLiteral(Literal):
             if c:
                 return cast(str, c)
             codepoint = int(codepoint4 or codepoint6, 16)
-            if codepoint <= 0xD7FF or 0xE000 <= codepoint:
+            if codepoint <= 0xD7FF or 0xE000 <= codepoint <= 0x10FFFF:
                 return chr(codepoint)
-            # Escape sequences reresenting surrogate code points are
-            # well-formed but invalid in Fluent. Replace them with U+FFFD
-            # REPLACEMENT CHARACTER.
+            # Escape sequences reresenting surrogate code points, or values
+            # above U+10FFFF, are well-formed but invalid in Fluent. Replace
+            # them with U+FFFD REPLACEMENT CHARACTER.
             return "�"
 
         value = re.sub(
-- 
2.43.0


From 00b86f1b478970542d729df935ca4b997a7ab953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 03/16] fix: transformer can remove single-valued fields

---
 fluent.syntax/fluent/syntax/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/visitor.py b/fluent.syntax/fluent/syntax/visitor.py
index 2f637af..f7d15c0 100644
--- a/fluent.syntax/fluent/syntax/visitor.py
+++ b/fluent.syntax/fluent/syntax/visitor.py
@@ -48,7 +48,7 @@ class Transformer(Visitor):
         return visit(node)
 
     def generic_visit(self, node: Node) -> Node:  # type: ignore
-        for propname, propvalue in vars(node).items():
+        for propname, propvalue in list(vars(node).items()):
             if isinstance(propvalue, list):
                 new_vals: List[Any] = []
                 for child in propvalue:
-- 
2.43.0


From b2aa6b374daa359bdd9423d8e6a898e242393a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 04/16] fix: nodes of different types are never equal

---
 fluent.syntax/fluent/syntax/ast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluent.syntax/fluent/syntax/ast.py b/fluent.syntax/fluent/syntax/ast.py
index a8ca2ff..b436583 100644
--- a/fluent.syntax/fluent/syntax/ast.py
+++ b/fluent.syntax/fluent/syntax/ast.py
@@ -75,6 +75,9 @@ class BaseNode:
         taken into account.
         """
 
+        if type(self) is not type(other):
+            return False
+
         self_keys = set(vars(self).keys())
         other_keys = set(vars(other).keys())
 
-- 
2.43.0


From 477f4d68d667833e88f1b48fdfea56d13d250dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 05/16] fix: overriding a looked-up entry takes effect

---
 fluent.runtime/fluent/runtime/bundle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 6a0f254..5ec8a1d 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -69,6 +69,9 @@ class FluentBundle:
             full_id = item.id.name
             if full_id not in map_ or allow_overrides:
                 map_[full_id] = item
+                # Drop the compiled form of an overridden entry.
+                compiled_id = full_id if map_ is self._messages else "-" + full_id
+                self._compiled.pop(compiled_id, None)
 
     def has_message(self, message_id: str) -> bool:
         return message_id in self._messages
-- 
2.43.0


From f1858c14656746941e01165d916af6e9fc3565ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 06/16] fix: FluentDateTime keeps the fold of the datetime

---
 fluent.runtime/fluent/runtime/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 697a18b..11e243f 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -420,6 +420,7 @@ class FluentDateTime(FluentDateType, datetime):
             dt_obj.second,
             dt_obj.microsecond,
             tzinfo=dt_obj.tzinfo,
+            fold=dt_obj.fold,
         )
         obj._init_options(dt_obj, kwargs)
         return obj
-- 
2.43.0


From a943bd3b3166cd6668a71515170b9f72a147f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 07/16] fix: detect cycles and bombs made of lone placeables

---
 fluent.runtime/fluent/runtime/resolver.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 1961a96..13bfcb1 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -199,7 +199,19 @@ class NeverIsolatingPlaceable(FTL.Placeable, BaseResolver):
     expression: Union["InlineExpression", Placeable, "SelectExpression"]
 
     def __call__(self, env: ResolverEnvironment) -> Any:
+        # This is a whole pattern, so it's subject to the same protection
+        # against cycles and expansion bombs as Pattern.
+        if self in env.active_patterns:
+            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
+            return FluentNone()
+        if env.part_count >= Pattern.MAX_PARTS:
+            raise ValueError(
+                "Too many parts in message (> {}), aborting.".format(Pattern.MAX_PARTS)
+            )
+        env.active_patterns.add(self)
         inner = resolve(self.expression(env), env)
+        env.part_count += 1
+        env.active_patterns.remove(self)
         return inner
 
 
-- 
2.43.0


From f0f25d1037218ef775a898fcb3ad99c95c30551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 08/16] fix: errors while formatting a value are reported, not
 raised

---
 fluent.runtime/fluent/runtime/resolver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 13bfcb1..fa48c4b 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -168,7 +168,12 @@ class Pattern(FTL.Pattern, BaseResolver):
 
 def resolve(fluentish: Any, env: ResolverEnvironment) -> Any:
     if isinstance(fluentish, FluentType):
-        return fluentish.format(env.context._babel_locale)
+        try:
+            return fluentish.format(env.context._babel_locale)
+        except Exception as e:
+            # For example, formatting options that the value doesn't support.
+            env.errors.append(e)
+            return FluentNone().format(env.context._babel_locale)
     if isinstance(fluentish, str):
         if len(fluentish) > MAX_PART_LENGTH:
             raise ValueError(
-- 
2.43.0


From 1db315ff4f8d58086f84728efd0258418b1e3656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 09/16] fix: non-finite numbers can be used as selectors

---
 fluent.runtime/fluent/runtime/resolver.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index fa48c4b..16a167d 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -357,13 +357,17 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
     if is_number(val1):
         if not is_number(val2):
             # Could be plural rule match
-            if (
-                isinstance(val1, (FluentInt, FluentFloat))
-                and val1.options.type == "ordinal"
-            ):
-                val1_form = env.context._ordinal_form(val1)
-            else:
-                val1_form = env.context._plural_form(val1)
+            try:
+                if (
+                    isinstance(val1, (FluentInt, FluentFloat))
+                    and val1.options.type == "ordinal"
+                ):
+                    val1_form = env.context._ordinal_form(val1)
+                else:
+                    val1_form = env.context._plural_form(val1)
+            except (ArithmeticError, ValueError):
+                # Infinity and NaN don't have a plural category.
+                return False
             return cast(bool, val1_form == val2)
     elif is_number(val2):
         return match(val2, val1, env)
-- 
2.43.0


From 3937bfda528580865788ec130dcaca452dd934d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 10/16] fix: decimals select plural categories like other
 numbers

---
 fluent.runtime/fluent/runtime/resolver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 16a167d..e6d3d00 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -1,11 +1,12 @@
 import contextlib
+from decimal import Decimal
 from typing import TYPE_CHECKING, Any, Dict, Generator, List, Set, Union, cast
 
 import attr
 from fluent.syntax import ast as FTL
 
 from .errors import FluentCyclicReferenceError, FluentFormatError, FluentReferenceError
-from .types import FluentFloat, FluentInt, FluentNone, FluentType
+from .types import FluentDecimal, FluentFloat, FluentInt, FluentNone, FluentType
 from .utils import reference_to_id, unknown_reference_error_obj
 
 if TYPE_CHECKING:
@@ -346,7 +347,7 @@ class SelectExpression(FTL.SelectExpression, BaseResolver):
 
 
 def is_number(val: Any) -> bool:
-    return isinstance(val, (int, float))
+    return isinstance(val, (int, float, Decimal))
 
 
 def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
@@ -359,7 +360,7 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
             # Could be plural rule match
             try:
                 if (
-                    isinstance(val1, (FluentInt, FluentFloat))
+                    isinstance(val1, (FluentInt, FluentFloat, FluentDecimal))
                     and val1.options.type == "ordinal"
                 ):
                     val1_form = env.context._ordinal_form(val1)
-- 
2.43.0


From 1bf5d2a9b8acd857f661ea56394dae162d3b61dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 11/16] fix: signaling NaN can be used as a selector

---
 fluent.runtime/fluent/runtime/resolver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index e6d3d00..10991b5 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -373,7 +373,11 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
     elif is_number(val2):
         return match(val2, val1, env)
 
-    return cast(bool, val1 == val2)
+    try:
+        return cast(bool, val1 == val2)
+    except ArithmeticError:
+        # A signaling NaN can't be compared to numbers.
+        return False
 
 
 class Variant(FTL.Variant, BaseResolver):
-- 
2.43.0


From b8270249309e16e40ce2b648405eb926a2be47ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 12/16] fix: string selectors don't match the plural category
 of number keys

---
 fluent.runtime/fluent/runtime/resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 10991b5..3c92403 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -371,7 +371,8 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
                 return False
             return cast(bool, val1_form == val2)
     elif is_number(val2):
-        return match(val2, val1, env)
+        # Plural categories are for numeric selectors only.
+        return False
 
     try:
         return cast(bool, val1 == val2)
-- 
2.43.0


From abe004d53890c8680929c26e0524eeb83dd4d1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 13/16] fix: empty comment lines continue a comment with CRLF
 line endings

---
 fluent.syntax/fluent/syntax/stream.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/stream.py b/fluent.syntax/fluent/syntax/stream.py
index 0e276fc..2ecf9ad 100644
--- a/fluent.syntax/fluent/syntax/stream.py
+++ b/fluent.syntax/fluent/syntax/stream.py
@@ -205,8 +205,9 @@ class FluentParserStream(ParserStream):
                 break
             i += 1
 
-        # The first char after #, ## or ###.
-        if self.peek() in (" ", EOL):
+        # The first char after #, ## or ###. Use current_peek for CRLF.
+        self.peek()
+        if self.current_peek in (" ", EOL):
             self.reset_peek()
             return True
 
-- 
2.43.0


From 8b383141060bea0c98790df107fc6a4d94093642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 14/16] fix: an empty comment line may end at the end of the
 file

---
 fluent.syntax/fluent/syntax/parser.py | 4 ++--
 fluent.syntax/fluent/syntax/stream.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/parser.py b/fluent.syntax/fluent/syntax/parser.py
index 5999f97..e2ef599 100644
--- a/fluent.syntax/fluent/syntax/parser.py
+++ b/fluent.syntax/fluent/syntax/parser.py
@@ -3,7 +3,7 @@ from typing import Any, Callable, List, Set, TypeVar, Union, cast
 
 from . import ast
 from .errors import ParseError
-from .stream import EOL, FluentParserStream
+from .stream import EOF, EOL, FluentParserStream
 
 R = TypeVar("R", bound=ast.SyntaxNode)
 
@@ -169,7 +169,7 @@ class FluentParser:
             if level == -1:
                 level = i
 
-            if ps.current_char != EOL:
+            if ps.current_char != EOL and ps.current_char is not EOF:
                 ps.expect_char(" ")
                 ch = ps.take_char(lambda x: x != EOL)
                 while ch:
diff --git a/fluent.syntax/fluent/syntax/stream.py b/fluent.syntax/fluent/syntax/stream.py
index 2ecf9ad..6db1602 100644
--- a/fluent.syntax/fluent/syntax/stream.py
+++ b/fluent.syntax/fluent/syntax/stream.py
@@ -207,7 +207,7 @@ class FluentParserStream(ParserStream):
 
         # The first char after #, ## or ###. Use current_peek for CRLF.
         self.peek()
-        if self.current_peek in (" ", EOL):
+        if self.current_peek in (" ", EOL, EOF):
             self.reset_peek()
             return True
 
-- 
2.43.0


From 495bde2ffbfc54b9a83244e90c85e23962de4b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 15/16] fix: transformer keeps the items of lists which are
 None

---
 fluent.syntax/fluent/syntax/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/visitor.py b/fluent.syntax/fluent/syntax/visitor.py
index f7d15c0..5318e8a 100644
--- a/fluent.syntax/fluent/syntax/visitor.py
+++ b/fluent.syntax/fluent/syntax/visitor.py
@@ -53,7 +53,7 @@ class Transformer(Visitor):
                 new_vals: List[Any] = []
                 for child in propvalue:
                     new_val = self.visit(child)
-                    if new_val is not None:
+                    if new_val is not None or child is None:
                         new_vals.append(new_val)
                 # in-place manipulation
                 propvalue[:] = new_vals
-- 
2.43.0


From 9a8599a3907615bb88732571a657d1047d24cb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 16/16] fix: message lookup never returns a compiled term

---
 fluent.runtime/fluent/runtime/bundle.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 5ec8a1d..150f46a 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -43,7 +43,7 @@ class FluentBundle:
         self.use_isolating = use_isolating
         self._messages: Dict[str, Union[FTL.Message, FTL.Term]] = {}
         self._terms: Dict[str, Union[FTL.Message, FTL.Term]] = {}
-        self._compiled: Dict[str, Message] = {}
+        self._compiled: Dict[Tuple[str, bool], Message] = {}
         # The compiler is not typed, and this cast is only valid for the public API
         self._compiler = cast(
             Callable[[Union[FTL.Message, FTL.Term]], Message], Compiler()
@@ -70,8 +70,7 @@ class FluentBundle:
             if full_id not in map_ or allow_overrides:
                 map_[full_id] = item
                 # Drop the compiled form of an overridden entry.
-                compiled_id = full_id if map_ is self._messages else "-" + full_id
-                self._compiled.pop(compiled_id, None)
+                self._compiled.pop((full_id, map_ is self._terms), None)
 
     def has_message(self, message_id: str) -> bool:
         return message_id in self._messages
@@ -80,10 +79,8 @@ class FluentBundle:
         return self._lookup(message_id)
 
     def _lookup(self, entry_id: str, term: bool = False) -> Message:
-        if term:
-            compiled_id = "-" + entry_id
-        else:
-            compiled_id = entry_id
+        # Terms and messages are separate, get_message("-id") is not a term.
+        compiled_id = (entry_id, term)
         try:
             return self._compiled[compiled_id]
         except LookupError:
-- 
2.43.0

