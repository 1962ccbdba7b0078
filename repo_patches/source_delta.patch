From 525841d38cb6fddb4de9aaf96aa6b17354bc71d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:18 +0000
Subject: [PATCH 1/9] fix: handle the escaped backslash in piece length and
 pattern parsing

The piece of a literal backslash is '[\\\\]'. Its closing bracket follows a
backslash but is not escaped by it: piece_length counted it as 2 characters
(so the made pattern did not match the URLs), and parse_pattern_string
rejected it as a missing ']'.
---
 src/os_urlpattern/parse_utils.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 56a46e5..43709dc 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -451,11 +451,11 @@ class ParsedPiece(object):
             while idx < length_base:
                 c = piece[idx]
                 if c == Symbols.BRACKETS_L or c == Symbols.BRACKETS_R:
-                    if idx == 0 or piece[idx - 1] != Symbols.BACKSLASH:
-                        length += -1
+                    length += -1
                 elif c == Symbols.BACKSLASH:
-                    if piece[idx + 1] != Symbols.BACKSLASH:
-                        length += -1
+                    # skip the escaped char, which is literal
+                    length += -1
+                    idx += 1
                 elif c == Symbols.BRACES_L:
                     if piece[idx - 1] == Symbols.BRACKETS_R:
                         e = piece.index(Symbols.BRACES_R, idx)
@@ -650,14 +650,13 @@ def parse_pattern_string(pattern_string):
                 last_rule = None
 
             idx_s = idx
-            while True:
-                idx = pattern_string.find(Symbols.BRACKETS_R, idx + 1)
-                if idx < 0:
-                    raise InvalidPatternException(
-                        "Missing '%s'" % Symbols.BRACKETS_R)
-                elif pattern_string[idx - 1] == Symbols.BACKSLASH:
-                    continue
-                break
+            idx += 1
+            while idx < l and pattern_string[idx] != Symbols.BRACKETS_R:
+                # skip the escaped char
+                idx += 2 if pattern_string[idx] == Symbols.BACKSLASH else 1
+            if idx >= l:
+                raise InvalidPatternException(
+                    "Missing '%s'" % Symbols.BRACKETS_R)
             if idx + 1 < l:
                 if pattern_string[idx + 1] == Symbols.BRACES_L:
                     old_idx = idx + 2
-- 
2.43.0


From 0f341cdf0c71ce9d0f0e0776f980f14724fca0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:18 +0000
Subject: [PATCH 2/9] fix: pattern-make -c works where ConfigParser has no
 readfp

ConfigParser.readfp was removed in python3.12, so any use of -c/--config
aborted with AttributeError.
---
 src/os_urlpattern/cmdline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/cmdline.py b/src/os_urlpattern/cmdline.py
index cad3e69..dbdaadf 100644
--- a/src/os_urlpattern/cmdline.py
+++ b/src/os_urlpattern/cmdline.py
@@ -91,7 +91,10 @@ class MakePatternCommand(Command):
     def process_args(self, args):
         super(MakePatternCommand, self).process_args(args)
         if args.config:
-            self._config.readfp(args.config[0])
+            # ConfigParser.readfp was removed in python3.12
+            read_file = getattr(self._config, 'read_file', None) \
+                or self._config.readfp
+            read_file(args.config[0])
 
     def add_argument(self, parser):
         super(MakePatternCommand, self).add_argument(parser)
-- 
2.43.0


From 152d04b82799a2dfd0ab50e2ff9bd5f3ba7dbdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:28 +0000
Subject: [PATCH 3/9] fix: match the patterns whose mixed sub-piece is literal

The sub-piece views of MixedView and LastDotSplitFuzzyView join consecutive
letters, digits and '%', but their patterns were filed by single units, so a
made pattern like /[0-9a-z]{6}[\-]a1b2 never matched its own URLs. Use
MixedPatternViewMatcher, which joins the literal units the same way.
---
 src/os_urlpattern/pattern_matcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 7c57c06..440cfbe 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -156,8 +156,8 @@ class FuzzyPatternViewMatcher(ViewMatcher):
 VIEW_MATCHERS = [
     (PieceView, PiecePatternViewMatcher),
     (MultiView, MultiPatternViewMatcher),
-    (MixedView, MultiPatternViewMatcher),
-    (LastDotSplitFuzzyView, MultiPatternViewMatcher),
+    (MixedView, MixedPatternViewMatcher),
+    (LastDotSplitFuzzyView, MixedPatternViewMatcher),
     (LengthView, LengthPatternViewMatcher),
     (FuzzyView, FuzzyPatternViewMatcher),
 ]
-- 
2.43.0


From 583ea0f99374d87da0164dcfd2fd8cebc733a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:10 +0000
Subject: [PATCH 4/9] fix: match the last path patterns split by a dot

Patterns made by the last-dot split of the last path were only recognised
when they had exactly 3 units ('[...]+[\.]html'), so those ending with '[\.]'
or with a literal of two units ('[...]+[\.]mp3') did not match their own URLs;
and a 3 units pattern with a mixed wildcard tail ('[0-9a-z]+[\.][0-9a-z]+'),
which only the mixed view can make, was taken for one.
---
 src/os_urlpattern/parsed_piece_view.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/os_urlpattern/parsed_piece_view.py b/src/os_urlpattern/parsed_piece_view.py
index 00bcb75..2b830ec 100644
--- a/src/os_urlpattern/parsed_piece_view.py
+++ b/src/os_urlpattern/parsed_piece_view.py
@@ -2,7 +2,8 @@
 """
 from __future__ import unicode_literals
 
-from .definition import DIGIT_AND_ASCII_RULE_SET, BasePatternRule
+from .definition import (DIGIT_AND_ASCII_RULE_SET, MIXED_RULE_SET,
+                         BasePatternRule)
 from .parse_utils import ParsedPiece, fuzzy_join, mix
 from .utils import pick
 
@@ -138,6 +139,19 @@ class FuzzyView(ParsedPieceView):
         return self._parsed_pieces
 
 
+def _is_last_dot_tail(head, tail):
+    # LastDotSplitFuzzyView only looks for the dot in the last 3 sub-pieces.
+    if len(tail) > 2 \
+            or any([u.rules - DIGIT_AND_ASCII_RULE_SET for u in tail]):
+        return False
+    if all([u.is_literal() for u in tail]):
+        return True
+    # A mixed tail may have more sub-pieces, prefer MixedView if it can be used.
+    return len(tail) == 1 \
+        and (len(tail[0].rules) == 1
+             or (len(head.rules) > 1 and bool(head.rules - MIXED_RULE_SET)))
+
+
 def view_cls_from_pattern(pattern, is_last_path=False):
     """Get ParsedPieceView class from pattern.
 
@@ -169,11 +183,10 @@ def view_cls_from_pattern(pattern, is_last_path=False):
                 else:
                     view_cls = MultiView
         if is_last_path \
-                and len(pattern_units) == 3 \
                 and view_cls != PieceView \
                 and len(pattern_units[1].rules) == 1 \
                 and pick(pattern_units[1].rules) == BasePatternRule.DOT \
-                and not (set(pattern_units[-1].rules) - DIGIT_AND_ASCII_RULE_SET):
+                and _is_last_dot_tail(pattern_units[0], pattern_units[2:]):
             view_cls = LastDotSplitFuzzyView
 
     return view_cls
-- 
2.43.0


From 88c5c3a2ea57da761a99cc92473208afae9ab43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:37 +0000
Subject: [PATCH 5/9] fix: reject the query keys with invalid chars

Invalid chars were only rejected in the path, query values and fragment. In a
query key they were normalized to the text '[None]', so different keys got the
same URL structure and a pattern which matches none of their URLs.
---
 src/os_urlpattern/parse_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 43709dc..e339b45 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -100,6 +100,9 @@ def normalize(raw_string, reserved_chars=None):
         reserved_chars ([type], optional): Defaults to None. Reserved chars
             which are not to be normalized.
 
+    Raises:
+        InvalidCharException: If there is an invalid char.
+
     Returns:
         str: The normalized string.
 
@@ -114,6 +117,8 @@ def normalize(raw_string, reserved_chars=None):
     frag = StringIO()
     last_c = None
     for c in raw_string:
+        if c not in CHAR_RULE_DICT:
+            raise InvalidCharException("Invalid char %r" % c)
         if c in ASCII_DIGIT_SET:
             if last_c and last_c not in ASCII_DIGIT_SET:
                 frag.seek(0)
-- 
2.43.0


From c832502fe41c329ca7d4c6d5a012aca914c95bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:27 +0000
Subject: [PATCH 6/9] fix: reject the non-ascii digits in the pattern number

---
 src/os_urlpattern/parse_utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index e339b45..abfe8d3 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -9,7 +9,7 @@ from collections import namedtuple
 from .compat import ParseResult, StringIO, urlparse
 from .definition import (ASCII_DIGIT_SET, BLANK_TUPLE, CHAR_RULE_DICT,
                          DEFAULT_ENCODING, DIGIT_AND_ASCII_RULE_SET,
-                         EMPTY_TUPLE, MIXED_RULE_SET,
+                         DIGIT_SET, EMPTY_TUPLE, MIXED_RULE_SET,
                          QUERY_PART_RESERVED_CHARS, RULE_SET, SIGN_RULE_SET,
                          BasePatternRule, Symbols)
 from .exceptions import (InvalidCharException, InvalidPatternException,
@@ -629,6 +629,11 @@ def analyze_url_pattern_string(url_pattern_string):
     return unpack(result, False)
 
 
+def _is_number(num_str):
+    # str.isdigit accepts non-ascii digits, which re does not
+    return bool(num_str) and all([c in DIGIT_SET for c in num_str])
+
+
 def parse_pattern_string(pattern_string):
     """Parse a pattern string into pattern unit strings.
 
@@ -670,7 +675,7 @@ def parse_pattern_string(pattern_string):
                         raise InvalidPatternException(
                             "Missing '%s'" % Symbols.BRACES_R)
                     num_str = pattern_string[old_idx:idx]
-                    if not num_str.isdigit():
+                    if not _is_number(num_str):
                         raise InvalidPatternException(
                             "Invalid num %r" % num_str)
 
@@ -726,7 +731,7 @@ def parse_pattern_unit_string(pattern_unit_string):
         elif pattern_unit_string[-1] == Symbols.BRACES_R:
             t = pattern_unit_string.rfind(Symbols.BRACES_L)
             num_str = pattern_unit_string[t + 1:-1]
-            if not num_str.isdigit():
+            if not _is_number(num_str):
                 raise InvalidPatternException("Invalid num %r" % num_str)
             num = int(num_str)
         elif pattern_unit_string[-1] == Symbols.PLUS:
-- 
2.43.0


From b262eb4aa17d4fbaddea5010e561f0d64c4f1ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:27 +0000
Subject: [PATCH 7/9] fix: reject the pattern unit without rule

---
 src/os_urlpattern/parse_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index abfe8d3..b19c762 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -739,6 +739,8 @@ def parse_pattern_unit_string(pattern_unit_string):
         t = pattern_unit_string.rfind(Symbols.BRACKETS_R)
         p_str = pattern_unit_string[1:t]
         l = len(p_str)
+        if l <= 0:
+            raise InvalidPatternException('Missing rule')
         idx = 0
         while idx < l:
             c = p_str[idx]
-- 
2.43.0


From fe589bc368dd908b4a9c70eb470431121f4bc9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:27 +0000
Subject: [PATCH 8/9] fix: matching a URL pattern instead of a URL raises
 ValueError

---
 src/os_urlpattern/pattern_matcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 440cfbe..9a4e471 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -305,6 +305,8 @@ class PatternMatcher(object):
               Bound meta data can be accessed with node.meta.
         """
         url_meta, parsed_pieces = parse(url)
+        if isinstance(parsed_pieces[0], MatchPattern):
+            raise ValueError('Invalid URL')
         sid = fuzzy_digest(url_meta, parsed_pieces)
         if sid in self._matchers:
             return self._matchers[sid].match(parsed_pieces)
-- 
2.43.0


From 7dea2ce1b39d461309a1cb94f138cf575a4491a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:30 +0000
Subject: [PATCH 9/9] fix: rank match results by the last position where they
 differ in specificity

Equally specific patterns with different texts, like [0-9a-z]+ and
[a-z0-9]+, ended the comparison, so the order was not transitive and the
best result depended on the load order.
---
 src/os_urlpattern/pattern_matcher.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 9a4e471..6bcf39c 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -256,9 +256,12 @@ class PatternMatchNode(TreeNode):
     def __lt__(self, other):
         if id(self) == id(other) or self.parrent is None:
             return False
-        if self.pattern == other.pattern:
-            return self.parrent < other.parrent
-        return self.pattern < other.pattern
+        if self.pattern < other.pattern:
+            return True
+        if other.pattern < self.pattern:
+            return False
+        # same or equally specific patterns
+        return self.parrent < other.parrent
 
 
 class PatternMatcher(object):
-- 
2.43.0

