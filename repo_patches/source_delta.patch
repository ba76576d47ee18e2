From 065923c39b6af3ae3a6740b41dee0220204640d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 01/31] fix: keep empty comment lines ending in CRLF or at end
 of file

---
 fluent.syntax/fluent/syntax/parser.py | 4 ++--
 fluent.syntax/fluent/syntax/stream.py | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/parser.py b/fluent.syntax/fluent/syntax/parser.py
index 5999f97..e2ef599 100644
--- a/fluent.syntax/fluent/syntax/parser.py
+++ b/fluent.syntax/fluent/syntax/parser.py
@@ -3,7 +3,7 @@ from typing import Any, Callable, List, Set, TypeVar, Union, cast
 
 from . import ast
 from .errors import ParseError
-from .stream import EOL, FluentParserStream
+from .stream import EOF, EOL, FluentParserStream
 
 R = TypeVar("R", bound=ast.SyntaxNode)
 
@@ -169,7 +169,7 @@ class FluentParser:
             if level == -1:
                 level = i
 
-            if ps.current_char != EOL:
+            if ps.current_char != EOL and ps.current_char is not EOF:
                 ps.expect_char(" ")
                 ch = ps.take_char(lambda x: x != EOL)
                 while ch:
diff --git a/fluent.syntax/fluent/syntax/stream.py b/fluent.syntax/fluent/syntax/stream.py
index 0e276fc..ed94b30 100644
--- a/fluent.syntax/fluent/syntax/stream.py
+++ b/fluent.syntax/fluent/syntax/stream.py
@@ -205,8 +205,10 @@ class FluentParserStream(ParserStream):
                 break
             i += 1
 
-        # The first char after #, ## or ###.
-        if self.peek() in (" ", EOL):
+        # The first char after #, ## or ###. Use current_peek, which knows
+        # about CRLF; the comment may also be empty and end with the file.
+        self.peek()
+        if self.current_peek in (" ", EOL, EOF):
             self.reset_peek()
             return True
 
-- 
2.43.0


From 34357f59192fc6a8666838ea67d6215c0d912246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 02/31] fix: indent serialized lines at line feeds only

---
 fluent.syntax/fluent/syntax/serializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/serializer.py b/fluent.syntax/fluent/syntax/serializer.py
index 3659154..4955f67 100644
--- a/fluent.syntax/fluent/syntax/serializer.py
+++ b/fluent.syntax/fluent/syntax/serializer.py
@@ -1,10 +1,13 @@
+import re
 from typing import List, Union
 
 from . import ast
 
 
 def indent_except_first_line(content: str) -> str:
-    return "    ".join(content.splitlines(True))
+    # Only LF ends a line in Fluent; str.splitlines breaks at many other
+    # characters, too.
+    return re.sub(r"\n(?!\Z)", "\n    ", content)
 
 
 def includes_new_line(elem: Union[ast.TextElement, ast.Placeable]) -> bool:
-- 
2.43.0


From b66d4223125b9aea99877dffb7edc6f41ba07fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 03/31] fix: detect reference cycles through lone placeables

---
 fluent.runtime/fluent/runtime/resolver.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 1961a96..b45cba3 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -53,7 +53,7 @@ class ResolverEnvironment:
     context: "FluentBundle" = attr.ib()
     errors: List[Exception] = attr.ib()
     part_count: int = attr.ib(default=0, init=False)
-    active_patterns: Set[FTL.Pattern] = attr.ib(factory=set, init=False)
+    active_patterns: Set[FTL.SyntaxNode] = attr.ib(factory=set, init=False)
     current: CurrentEnvironment = attr.ib(factory=CurrentEnvironment)
 
     @contextlib.contextmanager
@@ -199,7 +199,13 @@ class NeverIsolatingPlaceable(FTL.Placeable, BaseResolver):
     expression: Union["InlineExpression", Placeable, "SelectExpression"]
 
     def __call__(self, env: ResolverEnvironment) -> Any:
+        # This stands for a Pattern, so it can be part of a reference cycle.
+        if self in env.active_patterns:
+            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
+            return FluentNone()
+        env.active_patterns.add(self)
         inner = resolve(self.expression(env), env)
+        env.active_patterns.remove(self)
         return inner
 
 
-- 
2.43.0


From b03d1950237fc3b12dcb4ad7065b33446807c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 04/31] fix: report errors raised while formatting a value

---
 fluent.runtime/fluent/runtime/resolver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index b45cba3..c982901 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -168,7 +168,11 @@ class Pattern(FTL.Pattern, BaseResolver):
 
 def resolve(fluentish: Any, env: ResolverEnvironment) -> Any:
     if isinstance(fluentish, FluentType):
-        return fluentish.format(env.context._babel_locale)
+        try:
+            return fluentish.format(env.context._babel_locale)
+        except Exception as e:
+            env.errors.append(e)
+            return FluentNone().format(env.context._babel_locale)
     if isinstance(fluentish, str):
         if len(fluentish) > MAX_PART_LENGTH:
             raise ValueError(
-- 
2.43.0


From a1fd80402b4b87029f0a7c2bcf885b181126aa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 05/31] fix: match Decimal selectors as numbers

---
 fluent.runtime/fluent/runtime/resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index c982901..a6f9271 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -1,4 +1,5 @@
 import contextlib
+from decimal import Decimal
 from typing import TYPE_CHECKING, Any, Dict, Generator, List, Set, Union, cast
 
 import attr
@@ -339,7 +340,7 @@ class SelectExpression(FTL.SelectExpression, BaseResolver):
 
 
 def is_number(val: Any) -> bool:
-    return isinstance(val, (int, float))
+    return isinstance(val, (int, float, Decimal))
 
 
 def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
-- 
2.43.0


From 5e7984595e57cc388e71592f5edff49e72167d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 06/31] fix: select the "other" variant for infinity and NaN

---
 fluent.runtime/fluent/runtime/resolver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index a6f9271..1d08f42 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -1,4 +1,5 @@
 import contextlib
+import math
 from decimal import Decimal
 from typing import TYPE_CHECKING, Any, Dict, Generator, List, Set, Union, cast
 
@@ -351,6 +352,9 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
     if is_number(val1):
         if not is_number(val2):
             # Could be plural rule match
+            if not math.isfinite(val1):
+                # CLDR's plural rules are not defined for these.
+                return cast(bool, val2 == "other")
             if (
                 isinstance(val1, (FluentInt, FluentFloat))
                 and val1.options.type == "ordinal"
-- 
2.43.0


From 4306b9daf258df37806329644e2654f4ceb20a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 07/31] fix: never return a term from get_message

---
 fluent.runtime/fluent/runtime/bundle.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 6a0f254..dda265a 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -43,7 +43,7 @@ class FluentBundle:
         self.use_isolating = use_isolating
         self._messages: Dict[str, Union[FTL.Message, FTL.Term]] = {}
         self._terms: Dict[str, Union[FTL.Message, FTL.Term]] = {}
-        self._compiled: Dict[str, Message] = {}
+        self._compiled: Dict[Tuple[str, bool], Message] = {}
         # The compiler is not typed, and this cast is only valid for the public API
         self._compiler = cast(
             Callable[[Union[FTL.Message, FTL.Term]], Message], Compiler()
@@ -77,10 +77,7 @@ class FluentBundle:
         return self._lookup(message_id)
 
     def _lookup(self, entry_id: str, term: bool = False) -> Message:
-        if term:
-            compiled_id = "-" + entry_id
-        else:
-            compiled_id = entry_id
+        compiled_id = (entry_id, term)
         try:
             return self._compiled[compiled_id]
         except LookupError:
-- 
2.43.0


From 35871e1d85cfe5f1f38a9a7cbd785f7c6441d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 08/31] fix: apply overrides to entries that have been used
 before

---
 fluent.runtime/fluent/runtime/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index dda265a..7a86302 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -69,6 +69,8 @@ class FluentBundle:
             full_id = item.id.name
             if full_id not in map_ or allow_overrides:
                 map_[full_id] = item
+                # Forget the entry that has just been overridden.
+                self._compiled.pop((full_id, map_ is self._terms), None)
 
     def has_message(self, message_id: str) -> bool:
         return message_id in self._messages
-- 
2.43.0


From 747d46aa4e40e9334b704469bd1af539846a2acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 09/31] fix: let all threads use the same compiled entry

---
 fluent.runtime/fluent/runtime/bundle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 7a86302..4ecf8dd 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -85,8 +85,9 @@ class FluentBundle:
         except LookupError:
             pass
         entry = self._terms[entry_id] if term else self._messages[entry_id]
-        self._compiled[compiled_id] = self._compiler(entry)
-        return self._compiled[compiled_id]
+        # If another thread was faster, use what it compiled: cycles are
+        # detected by the identity of patterns.
+        return self._compiled.setdefault(compiled_id, self._compiler(entry))
 
     def format_pattern(
         self, pattern: Pattern, args: Union[Dict[str, Any], None] = None
-- 
2.43.0


From 3d974ca9a514f30cf107e739ddda0bce53853a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 10/31] fix: report references that are nested too deeply

---
 fluent.runtime/fluent/runtime/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 4ecf8dd..2bb72f7 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -106,7 +106,7 @@ class FluentBundle:
         )
         try:
             result = pattern(env)
-        except ValueError as e:
+        except (ValueError, RecursionError) as e:
             errors.append(e)
             result = "{???}"
         return (result, errors)
-- 
2.43.0


From 0aaa75883cb05284854d4ae0dd7c45eb13493788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 11/31] fix: load the bundles of a localization under a lock

---
 fluent.runtime/fluent/runtime/fallback.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/fallback.py b/fluent.runtime/fluent/runtime/fallback.py
index f39bbf8..1371504 100644
--- a/fluent.runtime/fluent/runtime/fallback.py
+++ b/fluent.runtime/fluent/runtime/fallback.py
@@ -1,5 +1,6 @@
 import codecs
 import os
+import threading
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -47,6 +48,7 @@ class FluentLocalization:
         self.functions = functions
         self._bundle_cache: List[FluentBundle] = []
         self._bundle_it = self._iterate_bundles()
+        self._bundle_lock = threading.RLock()
 
     def format_value(
         self, msg_id: str, args: Union[Dict[str, Any], None] = None
@@ -71,11 +73,12 @@ class FluentLocalization:
     def _bundles(self) -> Generator[FluentBundle, None, None]:
         bundle_pointer = 0
         while True:
-            if bundle_pointer == len(self._bundle_cache):
-                try:
-                    self._bundle_cache.append(next(self._bundle_it))
-                except StopIteration:
-                    return
+            with self._bundle_lock:
+                if bundle_pointer == len(self._bundle_cache):
+                    try:
+                        self._bundle_cache.append(next(self._bundle_it))
+                    except StopIteration:
+                        return
             yield self._bundle_cache[bundle_pointer]
             bundle_pointer += 1
 
-- 
2.43.0


From 55c7a2b3d1372d3b657eadebaae9ff1d2d3cffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 12/31] fix: keep the fold of wrapped datetimes

---
 fluent.runtime/fluent/runtime/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 697a18b..11e243f 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -420,6 +420,7 @@ class FluentDateTime(FluentDateType, datetime):
             dt_obj.second,
             dt_obj.microsecond,
             tzinfo=dt_obj.tzinfo,
+            fold=dt_obj.fold,
         )
         obj._init_options(dt_obj, kwargs)
         return obj
-- 
2.43.0


From f7480bc5b541f072ddaedbb63249cbeb0a1adbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 13/31] fix: do not match text selectors with number keys by
 plural category

---
 fluent.runtime/fluent/runtime/resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 1d08f42..8db4cc1 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -364,7 +364,7 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
                 val1_form = env.context._plural_form(val1)
             return cast(bool, val1_form == val2)
     elif is_number(val2):
-        return match(val2, val1, env)
+        return False
 
     return cast(bool, val1 == val2)
 
-- 
2.43.0


From bd00fb984692918765df2d1af19cc5fa774deaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 14/31] fix: widen the default fraction digits to the given
 minimum or maximum

---
 fluent.runtime/fluent/runtime/types.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 11e243f..a4c923a 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -193,16 +193,16 @@ class FluentNumber(FluentType):
                     self.options.minimumIntegerDigits,
                     pattern.int_prec[1],
                 )
-            if self.options.minimumFractionDigits is not None:
-                pattern.frac_prec = (
-                    self.options.minimumFractionDigits,
-                    pattern.frac_prec[1],
-                )
-            if self.options.maximumFractionDigits is not None:
-                pattern.frac_prec = (
-                    pattern.frac_prec[0],
-                    self.options.maximumFractionDigits,
-                )
+            minFD = self.options.minimumFractionDigits
+            maxFD = self.options.maximumFractionDigits
+            # An option that isn't given gives way to the one that is, as in
+            # ECMA-402's SetNumberFormatDigitOptions.
+            if minFD is not None:
+                pattern.frac_prec = (minFD, max(pattern.frac_prec[1], minFD))
+            if maxFD is not None:
+                if minFD is None:
+                    minFD = min(pattern.frac_prec[0], maxFD)
+                pattern.frac_prec = (minFD, maxFD)
 
         return pattern
 
-- 
2.43.0


From f35777eca24991cbb36a30d622def34191df1c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 15/31] fix: honour fraction digit options for currencies

---
 fluent.runtime/fluent/runtime/types.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index a4c923a..82da2f1 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -7,7 +7,7 @@ import attr
 import pytz
 from babel import Locale
 from babel.dates import format_date, format_time, get_datetime_format, get_timezone
-from babel.numbers import NumberPattern, parse_pattern
+from babel.numbers import NumberPattern, get_currency_precision, parse_pattern
 from typing_extensions import Literal
 
 FORMAT_STYLE_DECIMAL = "decimal"
@@ -135,7 +135,13 @@ class FluentNumber(FluentType):
         elif self.options.style == FORMAT_STYLE_CURRENCY:
             base_pattern = locale.currency_formats["standard"]
             pattern = self._apply_options(base_pattern)
-            return pattern.apply(selfnum, locale, currency=self.options.currency)
+            return pattern.apply(
+                selfnum,
+                locale,
+                currency=self.options.currency,
+                # The pattern has the right digits already
+                currency_digits=False,
+            )
         # never happens
         return "???"
 
@@ -193,6 +199,9 @@ class FluentNumber(FluentType):
                     self.options.minimumIntegerDigits,
                     pattern.int_prec[1],
                 )
+            if self.options.style == FORMAT_STYLE_CURRENCY:
+                precision = get_currency_precision(cast(str, self.options.currency))
+                pattern.frac_prec = (precision, precision)
             minFD = self.options.minimumFractionDigits
             maxFD = self.options.maximumFractionDigits
             # An option that isn't given gives way to the one that is, as in
-- 
2.43.0


From f6f29d10060f11a323086e638539dea9c0a57e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 16/31] fix: do not round to the minimum number of significant
 digits

---
 fluent.runtime/fluent/runtime/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 82da2f1..67d12d5 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -191,7 +191,7 @@ class FluentNumber(FluentType):
             pattern.pattern = "@"
             # We then manually set int_prec, and leave the rest as they are.
             min_digits = minSD if minSD is not None else 1
-            max_digits = maxSD if maxSD is not None else min_digits
+            max_digits = maxSD if maxSD is not None else max(min_digits, 21)
             pattern.int_prec = (min_digits, max_digits)
         else:
             if self.options.minimumIntegerDigits is not None:
-- 
2.43.0


From 61ebb58021a88cfb7fcecbb5b05fb94ccbebe455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 17/31] fix: let transformers remove nodes from fields

---
 fluent.syntax/fluent/syntax/visitor.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/visitor.py b/fluent.syntax/fluent/syntax/visitor.py
index 2f637af..0b0c4f3 100644
--- a/fluent.syntax/fluent/syntax/visitor.py
+++ b/fluent.syntax/fluent/syntax/visitor.py
@@ -58,9 +58,7 @@ class Transformer(Visitor):
                 # in-place manipulation
                 propvalue[:] = new_vals
             elif isinstance(propvalue, BaseNode):
-                new_val = self.visit(propvalue)
-                if new_val is None:
-                    delattr(node, propname)
-                else:
-                    setattr(node, propname, new_val)
+                # None is how a missing node looks like. Don't delete the
+                # attribute, that breaks this iteration and later users.
+                setattr(node, propname, self.visit(propvalue))
         return node
-- 
2.43.0


From 2c4e3308f859f12a06cbe81f2a65404e42a2d214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 18/31] fix: tell apart nodes of different types

---
 fluent.syntax/fluent/syntax/ast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluent.syntax/fluent/syntax/ast.py b/fluent.syntax/fluent/syntax/ast.py
index c47244e..d7a8db2 100644
--- a/fluent.syntax/fluent/syntax/ast.py
+++ b/fluent.syntax/fluent/syntax/ast.py
@@ -75,6 +75,9 @@ class BaseNode:
         taken into account.
         """
 
+        if type(self) is not type(other):
+            return False
+
         self_keys = set(vars(self).keys())
         other_keys = set(vars(other).keys())
 
-- 
2.43.0


From 659596e800c7a2013606949464e5b0e80a910884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 19/31] fix: decode escapes past the last code point

---
 fluent.syntax/fluent/syntax/ast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/ast.py b/fluent.syntax/fluent/syntax/ast.py
index d7a8db2..c97db1a 100644
--- a/fluent.syntax/fluent/syntax/ast.py
+++ b/fluent.syntax/fluent/syntax/ast.py
@@ -220,11 +220,11 @@ class StringLiteral(Literal):
             if c:
                 return cast(str, c)
             codepoint = int(codepoint4 or codepoint6, 16)
-            if codepoint <= 0xD7FF or 0xE000 <= codepoint:
+            if codepoint <= 0xD7FF or 0xE000 <= codepoint <= 0x10FFFF:
                 return chr(codepoint)
-            # Escape sequences reresenting surrogate code points are
-            # well-formed but invalid in Fluent. Replace them with U+FFFD
-            # REPLACEMENT CHARACTER.
+            # Escape sequences reresenting surrogate code points, or none at
+            # all, are well-formed but invalid in Fluent. Replace them with
+            # U+FFFD REPLACEMENT CHARACTER.
             return "�"
 
         value = re.sub(
-- 
2.43.0


From 73bc709a5b1e832e6cacb55d1ad13c398f1f4840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 20/31] fix: significant digits when rounding carries over, for
 zero, and with minimumIntegerDigits

---
 fluent.runtime/fluent/runtime/types.py | 53 +++++++++++++++++---------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 67d12d5..7b3d79c 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -1,7 +1,7 @@
 import warnings
 from datetime import date, datetime
-from decimal import Decimal
-from typing import Any, Dict, Type, TypeVar, Union, cast
+from decimal import Context, Decimal
+from typing import Any, Dict, Tuple, Type, TypeVar, Union, cast
 
 import attr
 import pytz
@@ -123,7 +123,7 @@ class FluentNumber(FluentType):
         return self
 
     def format(self, locale: Locale) -> str:
-        selfnum = cast(float, self)
+        selfnum = self._round_to_significant_digits()
         if self.options.style == FORMAT_STYLE_DECIMAL:
             base_pattern = cast(NumberPattern, locale.decimal_formats.get(None))
             pattern = self._apply_options(base_pattern)
@@ -184,21 +184,25 @@ class FluentNumber(FluentType):
                         CURRENCY_DISPLAY_NAME, CURRENCY_DISPLAY_SYMBOL
                     )
                 )
-        minSD = self.options.minimumSignificantDigits
-        maxSD = self.options.maximumSignificantDigits
-        if minSD is not None or maxSD is not None:
-            # This triggers babel routines into 'significant digits' mode:
-            pattern.pattern = "@"
-            # We then manually set int_prec, and leave the rest as they are.
-            min_digits = minSD if minSD is not None else 1
-            max_digits = maxSD if maxSD is not None else max(min_digits, 21)
-            pattern.int_prec = (min_digits, max_digits)
+        if self.options.minimumIntegerDigits is not None:
+            pattern.int_prec = (
+                self.options.minimumIntegerDigits,
+                pattern.int_prec[1],
+            )
+        significant_digits = self._significant_digits()
+        if significant_digits is not None:
+            # Babel's own mode for significant digits ignores the minimum of
+            # integer digits, and misplaces the decimal point when rounding
+            # carries over to another digit (0.0999 to 0.01). So we have it show
+            # as many fraction digits as the rounded number takes.
+            rounded = self._round_to_significant_digits()
+            exponent = rounded.adjusted() + pattern.scale if rounded else 0
+            min_digits, max_digits = significant_digits
+            pattern.frac_prec = (
+                max(min_digits - 1 - exponent, 0),
+                max(max_digits - 1 - exponent, 0),
+            )
         else:
-            if self.options.minimumIntegerDigits is not None:
-                pattern.int_prec = (
-                    self.options.minimumIntegerDigits,
-                    pattern.int_prec[1],
-                )
             if self.options.style == FORMAT_STYLE_CURRENCY:
                 precision = get_currency_precision(cast(str, self.options.currency))
                 pattern.frac_prec = (precision, precision)
@@ -215,6 +219,21 @@ class FluentNumber(FluentType):
 
         return pattern
 
+    def _significant_digits(self) -> Union[Tuple[int, int], None]:
+        minSD = self.options.minimumSignificantDigits
+        maxSD = self.options.maximumSignificantDigits
+        if minSD is None and maxSD is None:
+            return None
+        min_digits = minSD if minSD is not None else 1
+        max_digits = maxSD if maxSD is not None else max(min_digits, 21)
+        return min_digits, max_digits
+
+    def _round_to_significant_digits(self) -> Any:
+        significant_digits = self._significant_digits()
+        if significant_digits is None:
+            return self
+        return Context(prec=significant_digits[1]).create_decimal(str(self))
+
 
 Options = TypeVar("Options", bound=Union[NumberFormatOptions, "DateFormatOptions"])
 
-- 
2.43.0


From 3c98c554bcc9c1cde9f14b23fd1ca15ed4cd8245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 21/31] fix: a Decimal selector matches a fractional variant
 key

---
 fluent.runtime/fluent/runtime/resolver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 8db4cc1..3c2847d 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -363,6 +363,9 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
             else:
                 val1_form = env.context._plural_form(val1)
             return cast(bool, val1_form == val2)
+        if isinstance(val1, Decimal) and isinstance(val2, float):
+            # A float literal stands for the number it is written as.
+            val2 = Decimal(str(val2))
     elif is_number(val2):
         return False
 
-- 
2.43.0


From f965bca15d8599c7b6e8a86e0f20176859417dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:48 +0000
Subject: [PATCH 22/31] fix: a function returning an unsupported type is an
 error, not an exception

---
 fluent.runtime/fluent/runtime/resolver.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 3c2847d..1e5b792 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -407,7 +407,14 @@ class FunctionReference(FTL.FunctionReference, BaseResolver):
             return FluentNone(function_name + "()")
 
         try:
-            return function(*args, **kwargs)
+            result = function(*args, **kwargs)
+            if not isinstance(result, (FluentType, str)):
+                raise TypeError(
+                    "Unsupported return type: {}(), {}".format(
+                        function_name, type(result)
+                    )
+                )
+            return result
         except Exception as e:
             env.errors.append(e)
             return FluentNone(function_name + "()")
-- 
2.43.0


From 048ce2cb522a88077a94b6513e417d4b864e393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 23/31] fix: selecting on huge numbers and signalling NaNs no
 longer raises

---
 fluent.runtime/fluent/runtime/resolver.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 1e5b792..70b7bef 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -328,7 +328,13 @@ class SelectExpression(FTL.SelectExpression, BaseResolver):
             if variant.default:
                 default = variant
 
-            if match(key, variant.key(env), env):
+            try:
+                matched = match(key, variant.key(env), env)
+            except ArithmeticError as e:
+                # The number is beyond what Decimal arithmetic can handle.
+                env.errors.append(e)
+                matched = False
+            if matched:
                 found = variant
                 break
 
@@ -344,6 +350,12 @@ def is_number(val: Any) -> bool:
     return isinstance(val, (int, float, Decimal))
 
 
+def is_finite(val: Any) -> bool:
+    if isinstance(val, Decimal):
+        return val.is_finite()
+    return isinstance(val, int) or math.isfinite(val)
+
+
 def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
     if val1 is None or isinstance(val1, FluentNone):
         return False
@@ -352,7 +364,7 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
     if is_number(val1):
         if not is_number(val2):
             # Could be plural rule match
-            if not math.isfinite(val1):
+            if not is_finite(val1):
                 # CLDR's plural rules are not defined for these.
                 return cast(bool, val2 == "other")
             if (
-- 
2.43.0


From 8e3ab6ac5fe8f8db4424e65c2fb5e75d29ce2f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 24/31] fix: ordinal categories for Decimal numbers

---
 fluent.runtime/fluent/runtime/resolver.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 70b7bef..3c5d9f1 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -7,7 +7,7 @@ import attr
 from fluent.syntax import ast as FTL
 
 from .errors import FluentCyclicReferenceError, FluentFormatError, FluentReferenceError
-from .types import FluentFloat, FluentInt, FluentNone, FluentType
+from .types import FluentFloat, FluentInt, FluentNone, FluentNumber, FluentType
 from .utils import reference_to_id, unknown_reference_error_obj
 
 if TYPE_CHECKING:
@@ -367,10 +367,7 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
             if not is_finite(val1):
                 # CLDR's plural rules are not defined for these.
                 return cast(bool, val2 == "other")
-            if (
-                isinstance(val1, (FluentInt, FluentFloat))
-                and val1.options.type == "ordinal"
-            ):
+            if isinstance(val1, FluentNumber) and val1.options.type == "ordinal":
                 val1_form = env.context._ordinal_form(val1)
             else:
                 val1_form = env.context._plural_form(val1)
-- 
2.43.0


From 2e17bb28f88bb1936c7b750ca083ef015b9958e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 25/31] fix: count the parts of patterns being expanded against
 the limit

---
 fluent.runtime/fluent/runtime/resolver.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 3c5d9f1..8014cd9 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -156,18 +156,24 @@ class Pattern(FTL.Pattern, BaseResolver):
             return FluentNone()
         env.active_patterns.add(self)
         elements = self.elements
-        remaining_parts = self.MAX_PARTS - env.part_count
-        if len(self.elements) > remaining_parts:
-            env.active_patterns.remove(self)
-            raise ValueError(
-                "Too many parts in message (> {}), " "aborting.".format(self.MAX_PARTS)
-            )
+        count_parts(len(elements), env)
         retval = "".join(resolve(element(env), env) for element in elements)
-        env.part_count += len(elements)
         env.active_patterns.remove(self)
         return retval
 
 
+def count_parts(number: int, env: ResolverEnvironment) -> None:
+    """
+    Account for the parts of a pattern that is about to be expanded. Doing so
+    afterwards would leave out those that are still being expanded.
+    """
+    env.part_count += number
+    if env.part_count > Pattern.MAX_PARTS:
+        raise ValueError(
+            "Too many parts in message (> {}), aborting.".format(Pattern.MAX_PARTS)
+        )
+
+
 def resolve(fluentish: Any, env: ResolverEnvironment) -> Any:
     if isinstance(fluentish, FluentType):
         try:
@@ -210,6 +216,7 @@ class NeverIsolatingPlaceable(FTL.Placeable, BaseResolver):
             env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
             return FluentNone()
         env.active_patterns.add(self)
+        count_parts(1, env)
         inner = resolve(self.expression(env), env)
         env.active_patterns.remove(self)
         return inner
-- 
2.43.0


From b856cc1d94a0d1e1e489a7a2ba12bf27521728bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 26/31] fix: a failed load no longer hides the remaining
 bundles

The generators behind FluentLocalization end when the resource loader
raises, so that the first call raised and all later ones silently
returned identifiers.
---
 fluent.runtime/fluent/runtime/fallback.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/fallback.py b/fluent.runtime/fluent/runtime/fallback.py
index 1371504..efdc2ae 100644
--- a/fluent.runtime/fluent/runtime/fallback.py
+++ b/fluent.runtime/fluent/runtime/fallback.py
@@ -1,12 +1,14 @@
 import codecs
 import os
 import threading
+from itertools import islice
 from typing import (
     TYPE_CHECKING,
     Any,
     Callable,
     Dict,
     Generator,
+    Iterator,
     List,
     Type,
     Union,
@@ -47,7 +49,7 @@ class FluentLocalization:
         self.bundle_class = bundle_class
         self.functions = functions
         self._bundle_cache: List[FluentBundle] = []
-        self._bundle_it = self._iterate_bundles()
+        self._bundle_it: Iterator[FluentBundle] = self._iterate_bundles()
         self._bundle_lock = threading.RLock()
 
     def format_value(
@@ -79,6 +81,13 @@ class FluentLocalization:
                         self._bundle_cache.append(next(self._bundle_it))
                     except StopIteration:
                         return
+                    except BaseException:
+                        # The iterators end with an error. Start over, so that
+                        # the next call doesn't silently miss these bundles.
+                        self._bundle_it = islice(
+                            self._iterate_bundles(), bundle_pointer, None
+                        )
+                        raise
             yield self._bundle_cache[bundle_pointer]
             bundle_pointer += 1
 
-- 
2.43.0


From 639c5e1728a4b30e8eee9030a2717d5eeddb624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 27/31] fix: stop the docs build if a release can't be checked
 out

---
 fluent.docs/fluent/docs/build.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fluent.docs/fluent/docs/build.py b/fluent.docs/fluent/docs/build.py
index fbdfe52..1902c56 100644
--- a/fluent.docs/fluent/docs/build.py
+++ b/fluent.docs/fluent/docs/build.py
@@ -49,9 +49,13 @@ def build(repo_name, projects, releases_after=None):
     for tag in tagged_versions:
         if worktree is None:
             worktree = tempfile.mkdtemp()
-            subprocess.run(["git", "worktree", "add", "--detach", worktree])
+            subprocess.run(
+                ["git", "worktree", "add", "--detach", worktree], check=True
+            )
         subprocess.run(
-            ["git", "checkout", f"{tag.project}@{tag.version}"], cwd=worktree
+            ["git", "checkout", f"{tag.project}@{tag.version}"],
+            cwd=worktree,
+            check=True,
         )
         with ProjectBuilder(
             repo_name,
-- 
2.43.0


From f7b41cce34e4246ab90b23c19e43937849f91ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 28/31] fix: keep None items when transforming lists

A junk annotation's arguments can hold a None ('a = { "\' at the end of
the text), which a transformer that changes nothing dropped.
---
 fluent.syntax/fluent/syntax/visitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/visitor.py b/fluent.syntax/fluent/syntax/visitor.py
index 0b0c4f3..38716ac 100644
--- a/fluent.syntax/fluent/syntax/visitor.py
+++ b/fluent.syntax/fluent/syntax/visitor.py
@@ -53,7 +53,8 @@ class Transformer(Visitor):
                 new_vals: List[Any] = []
                 for child in propvalue:
                     new_val = self.visit(child)
-                    if new_val is not None:
+                    # A None that was there already isn't a removed node.
+                    if new_val is not None or child is None:
                         new_vals.append(new_val)
                 # in-place manipulation
                 propvalue[:] = new_vals
-- 
2.43.0


From 3e6b6987434ce0123ae8fca820f207f950ae77ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 29/31] fix: report Fluent types that don't format to text

format_pattern raised TypeError, or returned None, when an argument's
or function result's format() returned anything but a string.
---
 fluent.runtime/fluent/runtime/resolver.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 8014cd9..d9965c3 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -177,7 +177,14 @@ def count_parts(number: int, env: ResolverEnvironment) -> None:
 def resolve(fluentish: Any, env: ResolverEnvironment) -> Any:
     if isinstance(fluentish, FluentType):
         try:
-            return fluentish.format(env.context._babel_locale)
+            formatted: Any = fluentish.format(env.context._babel_locale)
+            if not isinstance(formatted, str):
+                raise TypeError(
+                    "Unsupported format result: {}, {}".format(
+                        type(fluentish), type(formatted)
+                    )
+                )
+            return formatted
         except Exception as e:
             env.errors.append(e)
             return FluentNone().format(env.context._babel_locale)
-- 
2.43.0


From d064e82ff0a4cb858816d89c9bdb987ce5c002ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 30/31] fix: report custom types that fail to compare to a
 variant key

---
 fluent.runtime/fluent/runtime/resolver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index d9965c3..ce808a0 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -344,8 +344,11 @@ class SelectExpression(FTL.SelectExpression, BaseResolver):
 
             try:
                 matched = match(key, variant.key(env), env)
-            except ArithmeticError as e:
-                # The number is beyond what Decimal arithmetic can handle.
+            except RecursionError:
+                raise
+            except Exception as e:
+                # The number is beyond what Decimal arithmetic can handle, or
+                # a custom type failed to compare itself.
                 env.errors.append(e)
                 matched = False
             if matched:
-- 
2.43.0


From 07ee0545591d3122711bd1a9ae2be80eb663c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 31/31] fix: docs build for annotated release tags

---
 fluent.docs/fluent/docs/tags.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fluent.docs/fluent/docs/tags.py b/fluent.docs/fluent/docs/tags.py
index a5dd7b1..084e284 100644
--- a/fluent.docs/fluent/docs/tags.py
+++ b/fluent.docs/fluent/docs/tags.py
@@ -4,7 +4,9 @@ from datetime import date
 
 def get_tag_infos(cut_off_date):
     """Get fluent.* tags newer than cut_off_date.
-    TagInfo objects are ordered by committer date, newest first.
+    TagInfo objects are ordered by date, newest first. That's the committer
+    date of the commit for lightweight tags, and the date of the tag itself for
+    annotated ones, which have no committer date.
     """
     taglines = subprocess.run(
         [
@@ -12,8 +14,8 @@ def get_tag_infos(cut_off_date):
             "tag",
             "--list",
             "fluent.*",
-            "--sort=-committerdate",
-            "--format=%(refname:lstrip=2) %(committerdate:short)",
+            "--sort=-creatordate",
+            "--format=%(refname:lstrip=2) %(creatordate:short)",
         ],
         encoding="utf-8",
         stdout=subprocess.PIPE,
-- 
2.43.0

