From a99579bd1f9c24a53202983a5b7dcce139b49911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 01/39] fix: escape quotes and backslashes inside English
 emphasis tokens

---
 tn/english/rules/punctuation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tn/english/rules/punctuation.py b/tn/english/rules/punctuation.py
index 5ab4488..f28dfb2 100644
--- a/tn/english/rules/punctuation.py
+++ b/tn/english/rules/punctuation.py
@@ -15,7 +15,7 @@
 import sys
 from unicodedata import category
 
-from pynini import accep, closure, compose, cross, union
+from pynini import accep, closure, compose, cross, invert, union
 from pynini.examples import plurals
 from pynini.lib.pynutil import add_weight, delete, insert
 
@@ -56,9 +56,10 @@ class Punctuation(Processor):
         self.punct = union(*self.punct_marks)
         punct = (self.punct | cross("\\", "\\\\\\") | cross('"', '\\"')).plus
 
+        emphasis_char = (self.NOT_SPACE - union("<", ">")) @ self.CHAR
         self.emphasis = (
-            accep("<") + (((self.NOT_SPACE - union("<", ">")).plus + closure(accep("/"), 0, 1))  # noqa
-                          | (accep("/") + (self.NOT_SPACE - union("<", ">")).plus)) + accep(">"))  # noqa
+            accep("<") + ((emphasis_char.plus + closure(accep("/"), 0, 1))  # noqa
+                          | (accep("/") + emphasis_char.plus)) + accep(">"))  # noqa
         punct = plurals._priority_union(self.emphasis, punct, self.VCHAR.star)
 
         self.graph = punct
@@ -72,7 +73,7 @@ class Punctuation(Processor):
         self.tagger = self.add_tokens(final_graph)
 
     def build_verbalizer(self):
-        punct = closure(self.punct | self.emphasis | cross("\\\\\\", "\\") | cross('\\"', '"'), 1)
+        punct = closure(self.punct | invert(self.emphasis) | cross("\\\\\\", "\\") | cross('\\"', '"'), 1)
         verbalizer = (delete('v: "') + add_weight(accep(" "), -1.0).star + punct + add_weight(accep(" "), -1.0).star +
                       delete('"'))
         self.verbalizer = self.delete_tokens(verbalizer)
-- 
2.43.0


From 4cb1bc137aaf49644b54d2ba8bf01e1b2ba1df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 02/39] fix: read a zero or grouped money fraction before an
 English quantity

---
 tn/english/rules/money.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tn/english/rules/money.py b/tn/english/rules/money.py
index d46eeb0..bfe0108 100644
--- a/tn/english/rules/money.py
+++ b/tn/english/rules/money.py
@@ -104,12 +104,18 @@ class Money(Processor):
         graph_integer |= integer_other + zero_fraction.ques + keep_space + maj_plural
 
         trimmed_fraction = (self.DIGIT.star + (self.DIGIT - "0") + pynutil.delete("0").star) @ decimal.graph
-        fractional = (pynutil.insert("point ") + pynutil.delete("fractional_part:") + self.DELETE_SPACE + pynutil.delete('"') +
-                      trimmed_fraction + pynutil.delete('"'))
+        fractional_prefix = (pynutil.insert("point ") + pynutil.delete("fractional_part:") + self.DELETE_SPACE +
+                             pynutil.delete('"'))
+        fractional = fractional_prefix + trimmed_fraction + pynutil.delete('"')
+        # $1.0 billion: a fraction which can not be trimmed is read in full before a quantity
+        other_fraction = pynini.difference(self.input_projection(decimal.graph),
+                                           self.input_projection(trimmed_fraction)) @ decimal.graph
+        other_fractional = fractional_prefix + other_fraction + pynutil.delete('"')
         optional_integer = (decimal.integer + self.DELETE_SPACE + self.INSERT_SPACE).ques
         money_decimal = (decimal.integer
                          | decimal.integer + decimal.quantity
-                         | optional_integer + fractional + decimal.optional_quantity)
+                         | optional_integer + fractional + decimal.optional_quantity
+                         | optional_integer + other_fractional + decimal.quantity)
         graph_decimal = money_decimal + keep_space + maj_plural
 
         graph = graph_integer | graph_decimal
-- 
2.43.0


From 89a0855cb2ca199f685bdbe00bf659ad1a2e1f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 03/39] fix: decode escaped characters in the English date
 month field

---
 tn/english/rules/date.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/english/rules/date.py b/tn/english/rules/date.py
index 96b2f48..d3f2b5d 100644
--- a/tn/english/rules/date.py
+++ b/tn/english/rules/date.py
@@ -254,7 +254,7 @@ class Date(Processor):
         day = day_cardinal @ ordinal.suffix
         period = (pynutil.delete("text:") + self.DELETE_SPACE + pynutil.delete('"') + self.period_graph + pynutil.delete('"'))
         month = (pynutil.delete("month:") + self.DELETE_SPACE + pynutil.delete('"') +
-                 (self.month_graph | self.month_numbers_graph) + pynutil.delete('"'))
+                 self.SIGMA @ (self.month_graph | self.month_numbers_graph) + pynutil.delete('"'))
 
         year = (pynutil.delete("year:") + self.DELETE_SPACE + pynutil.delete('"') +
                 (self.year_graph | self.year_after_graph | self.two_digit_year_graph) + self.DELETE_SPACE +
-- 
2.43.0


From 6fdde6a8a80d435bbf4f05537bd96377d5fa0a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 04/39] fix: keep trailing symbols out of bare English domains

---
 tn/english/rules/electronic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tn/english/rules/electronic.py b/tn/english/rules/electronic.py
index 917c65e..2c910f9 100644
--- a/tn/english/rules/electronic.py
+++ b/tn/english/rules/electronic.py
@@ -82,8 +82,9 @@ class Electronic(Processor):
         protocol_start_and_end = protocol_start + protocol_end
         self.protocol_graph = protocol_start_only | protocol_end | protocol_start_and_end
 
+        domain_end = self.ALPHA | self.DIGIT | pynini.accep("/")
         self.domain_graph = pynini.compose(
-            self.ALPHA + self.NOT_SPACE.star + (self.ALPHA | self.DIGIT | pynini.accep("/")),
+            self.ALPHA + self.NOT_SPACE.star + domain_end,
             domain_graph,
         ).optimize()
         domain_graph_with_class_tags = self.tag_field("domain", self.domain_graph)
@@ -105,7 +106,7 @@ class Electronic(Processor):
         graph |= (self.tag_field(
             "domain",
             pynini.compose(
-                self.ALPHA + self.NOT_SPACE.star + accepted_common_domains + self.NOT_SPACE.star,
+                self.ALPHA + self.NOT_SPACE.star + accepted_common_domains + (self.NOT_SPACE.star + domain_end).ques,
                 domain_graph,
             ).optimize(),
         ))
-- 
2.43.0


From 5a9d4fc9c702a8cb17754c3f9ecc8a20113edc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 05/39] fix: accept quotes, backslashes and edge whitespace in
 English ITN

---
 itn/english/inverse_normalizer.py | 2 +-
 itn/english/rules/word.py         | 7 +------
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/itn/english/inverse_normalizer.py b/itn/english/inverse_normalizer.py
index a617d6b..22559ca 100644
--- a/itn/english/inverse_normalizer.py
+++ b/itn/english/inverse_normalizer.py
@@ -81,7 +81,7 @@ class InverseNormalizer(Processor):
         punct = add_weight(punctuation.tagger, 1.1)
         token = closure(punct + delete(" ").ques) + classify + closure(delete(" ").ques + punct)
         graph = token + closure(self.DELETE_EXTRA_SPACE + token)
-        self.tagger = delete(" ").star + graph + delete(" ").star
+        self.tagger = self.DELETE_SPACE + graph + self.DELETE_SPACE
 
         verbalizer_rules = list(rules)
         verbalizer_rules.append(RuleSpec(punctuation))
diff --git a/itn/english/rules/word.py b/itn/english/rules/word.py
index 46c82bc..31f8f20 100644
--- a/itn/english/rules/word.py
+++ b/itn/english/rules/word.py
@@ -12,9 +12,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import difference, union
-from pynini.lib.pynutil import insert
-
 from tn.processor import Processor
 
 
@@ -26,6 +23,4 @@ class Word(Processor):
         self.build_verbalizer()
 
     def build_tagger(self):
-        valid_char = difference(self.NOT_SPACE, union('"', "\\"))
-        tagger = insert('value: "') + valid_char.plus + insert('"')
-        self.tagger = self.add_tokens(tagger)
+        self.tagger = self.add_tokens(self.tag_field("value", self.NOT_SPACE.plus))
-- 
2.43.0


From e0c9aeb0e9f4d3d89623d2702bba80d752ff2be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 06/39] fix: accept every text in English TN

---
 tn/english/normalizer.py |  4 +++-
 tn/english/rules/word.py | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/tn/english/normalizer.py b/tn/english/normalizer.py
index 0d1933f..1a786af 100644
--- a/tn/english/normalizer.py
+++ b/tn/english/normalizer.py
@@ -83,7 +83,9 @@ class Normalizer(Processor):
         punct = pynutil.add_weight(punctuation.tagger, 2.00)
         token = pynini.closure(punct) + classify + pynini.closure(punct)
         separator = pynutil.delete(self.SPACE) | punct
-        graph = (self.DELETE_SPACE + token + pynini.closure(separator + token) + self.DELETE_SPACE) | punct
+        separators = pynini.closure(separator)
+        graph = separators + (token + pynini.closure(separators + separator + token) | punct) + separators
+        graph |= word.blank
         self.tagger = graph.optimize() @ self.build_rule(pynutil.delete(" "), r="[EOS]")
 
         classify = self.verbalizer_union(rules)
diff --git a/tn/english/rules/word.py b/tn/english/rules/word.py
index 4cedf05..d216197 100644
--- a/tn/english/rules/word.py
+++ b/tn/english/rules/word.py
@@ -38,8 +38,13 @@ class Word(Processor):
         default_graph = difference(self.NOT_SPACE, punct.project("input"))
         symbols_to_exclude = union("$", "€", "₩", "£", "¥", "#", "%") | self.DIGIT
         self.char = difference(default_graph, symbols_to_exclude)
-        graph = (pynutil.insert('v: "') + self.char.plus + pynutil.insert('"')).optimize()
+        # Last resort for text no other rule covers, e.g. a digit next to a foreign letter
+        self.mixed = difference((default_graph | symbols_to_exclude).plus, self.char.plus).optimize()
+        value = self.char.plus | pynutil.add_weight(self.mixed, 10000)
+        graph = (pynutil.insert('v: "') + value + pynutil.insert('"')).optimize()
         final_graph = self.add_tokens(graph)
+        # The only token of a blank text
+        self.blank = self.add_tokens(pynutil.insert('v: "') + self.SPACE.plus + pynutil.insert('"'))
         self.tagger = final_graph.optimize()
 
     def build_verbalizer(self):
@@ -47,6 +52,7 @@ class Word(Processor):
         Finite state transducer for verbalizing word
             e.g. w { v: "sleep" } -> sleep
         """
-        graph = pynutil.delete("v: ") + pynutil.delete('"') + self.char.plus + pynutil.delete('"')
+        value = self.char.plus | self.mixed | pynutil.delete(self.SPACE.plus)
+        graph = pynutil.delete("v: ") + pynutil.delete('"') + value + pynutil.delete('"')
         final_graph = self.delete_tokens(graph)
         self.verbalizer = final_graph.optimize()
-- 
2.43.0


From 99fffcf80edb133a2b82b775438c39bc64f0134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 07/39] fix: Japanese TN with remove_interjections and an empty
 blacklist rejected every text

---
 tn/japanese/rules/postprocessor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tn/japanese/rules/postprocessor.py b/tn/japanese/rules/postprocessor.py
index 8898f32..a0f0453 100644
--- a/tn/japanese/rules/postprocessor.py
+++ b/tn/japanese/rules/postprocessor.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import difference, string_file
+from pynini import NO_STATE_ID, difference, string_file
 from pynini.lib.pynutil import delete
 from pynini.lib.tagger import Tagger
 
@@ -36,7 +36,8 @@ class PostProcessor(Processor):
             full2half = string_file(get_abs_path("japanese/data/char/fullwidth_to_halfwidth.tsv"))
             processor @= self.build_rule(full2half)
 
-        if remove_interjections:
+        # A rule deleting the empty language would reject every text
+        if remove_interjections and blacklist.start() != NO_STATE_ID:
             processor @= self.build_rule(delete(blacklist))
 
         if remove_puncts:
-- 
2.43.0


From 56d8f4ca758d0525d022c8592999da0f572d1b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 08/39] fix: C++ token parser keeps extra fields, rejects
 duplicates and knows the Japanese orders

---
 runtime/processor/wetext_token_parser.cc |  6 +++++-
 runtime/processor/wetext_token_parser.h  | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/runtime/processor/wetext_token_parser.cc b/runtime/processor/wetext_token_parser.cc
index d05dbc7..df2895e 100644
--- a/runtime/processor/wetext_token_parser.cc
+++ b/runtime/processor/wetext_token_parser.cc
@@ -35,7 +35,11 @@ const std::unordered_map<std::string, std::vector<std::string>> ZH_TN_ORDERS = {
     {"money", {"value", "currency"}},
     {"time", {"noon", "hour", "minute", "second"}}};
 const std::unordered_map<std::string, std::vector<std::string>> JA_TN_ORDERS = {
-    {"date", {"year", "month", "day"}}, {"money", {"value", "currency"}}};
+    {"date", {"year", "month", "day"}},
+    {"fraction", {"denominator", "numerator"}},
+    {"measure", {"denominator", "numerator", "value"}},
+    {"money", {"value", "currency"}},
+    {"time", {"noon", "hour", "minute", "second"}}};
 
 const std::unordered_map<std::string, std::vector<std::string>> EN_TN_ORDERS = {
     {"date", {"preserve_order", "text", "day", "month", "year"}},
diff --git a/runtime/processor/wetext_token_parser.h b/runtime/processor/wetext_token_parser.h
index 0ef83bf..608d45f 100644
--- a/runtime/processor/wetext_token_parser.h
+++ b/runtime/processor/wetext_token_parser.h
@@ -15,7 +15,9 @@
 #ifndef PROCESSOR_WETEXT_TOKEN_PARSER_H_
 #define PROCESSOR_WETEXT_TOKEN_PARSER_H_
 
+#include <algorithm>
 #include <set>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <vector>
@@ -40,8 +42,11 @@ struct Token {
   explicit Token(const std::string& name) : name(name) {}
 
   void Append(const std::string& key, const std::string& value) {
+    if (!members.emplace(key, value).second) {
+      throw std::invalid_argument("duplicate field " + key + " in token " +
+                                  name);
+    }
     order.emplace_back(key);
-    members[key] = value;
   }
 
   std::string String(
@@ -49,7 +54,13 @@ struct Token {
     std::string output = name + " {";
     if (orders.count(name) > 0 && (members.count("preserve_order") == 0 ||
                                    members.at("preserve_order") != "true")) {
-      order = orders.at(name);
+      std::vector<std::string> fields = orders.at(name);
+      for (const auto& key : order) {
+        if (std::find(fields.begin(), fields.end(), key) == fields.end()) {
+          fields.emplace_back(key);
+        }
+      }
+      order = fields;
     }
 
     for (const auto& key : order) {
-- 
2.43.0


From c39d06e83d54daac7782924567c7a1db429a918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 09/39] fix: strip only thousands separators from Chinese
 measure numbers

---
 tn/chinese/rules/measure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tn/chinese/rules/measure.py b/tn/chinese/rules/measure.py
index 6bb26a1..a57ddb6 100644
--- a/tn/chinese/rules/measure.py
+++ b/tn/chinese/rules/measure.py
@@ -39,7 +39,9 @@ class Measure(Processor):
         to = cross("-", "到") | cross("~", "到") | accep("到")
 
         number = self.cardinal.number
-        strip_comma = self.build_rule(delete(",") | delete("，"), self.DIGIT, self.DIGIT)
+        # thousands separators only: 1,234个, but not 2,3个
+        group_end = self.DIGIT**3 + ((self.VCHAR - self.DIGIT) | "[EOS]")
+        strip_comma = self.build_rule(delete(",") | delete("，"), self.DIGIT, group_end)
         number = strip_comma @ number
         number @= self.build_rule(cross("二", "两"), "[BOS]", "[EOS]")
         # 1-11个，1个-11个
-- 
2.43.0


From 120fe2f2fffd9d13e2f68bc997d4b524300e00c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 10/39] fix: break ties between readings alike in normalize,
 tag and verbalize

---
 tn/processor.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tn/processor.py b/tn/processor.py
index 954b751..2634eeb 100644
--- a/tn/processor.py
+++ b/tn/processor.py
@@ -69,6 +69,8 @@ class _UniqueOutputPathStream:
     """Lazily expands exact unique-output shortest paths without a fixed beam."""
 
     def __init__(self, lattice):
+        # Ties for the best path are broken as in a single-path search.
+        self._best = shortestpath(lattice, nshortest=1, unique=True)
         self._lattice = lattice.copy()
         self._lattice.project("output").rmepsilon()
         self._items = []
@@ -81,7 +83,7 @@ class _UniqueOutputPathStream:
         if self._exhausted:
             return
         limit = 1 if self._limit == 0 else self._limit * 2
-        shortest = shortestpath(self._lattice, nshortest=limit, unique=True)
+        shortest = self._best if limit == 1 else shortestpath(self._lattice, nshortest=limit, unique=True)
         paths = shortest.paths()
         items = []
         seen = set()
@@ -302,15 +304,17 @@ class Processor:
             return "" if nbest == 1 else [""]
         input = escape(input)
         lattice = input @ self.tagger
+        best = shortestpath(lattice, nshortest=1, unique=True).string()
         if nbest == 1:
-            return shortestpath(lattice, nshortest=1, unique=True).string()
+            return best
         lattice = shortestpath(lattice.project("output").rmepsilon(), nshortest=nbest, unique=True)
         paths = lattice.paths()
-        results = []
+        results = [best]
         while not paths.done():
-            results.append(paths.ostring())
+            if paths.ostring() != best:
+                results.append(paths.ostring())
             paths.next()
-        return results
+        return results[:nbest]
 
     def verbalize(self, input):
         if len(input) == 0:
-- 
2.43.0


From 25f466e03dabc36346c873685449a87acfa29b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:57 +0000
Subject: [PATCH 11/39] fix: treat a deeply nested cache manifest as corrupt

---
 tn/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/cache.py b/tn/cache.py
index 62f6c96..52f7cab 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -549,7 +549,7 @@ class CacheBundle:
                 manifest = json.loads(manifest_bytes.decode("utf-8"))
             except FileNotFoundError:
                 return None
-            except (OSError, UnicodeError, ValueError):
+            except (OSError, RecursionError, UnicodeError, ValueError):
                 return None
             if not isinstance(manifest, dict):
                 return None
-- 
2.43.0


From a8598f6e27b4eaa1384dc3e25d690ad7d4547b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:03 +0000
Subject: [PATCH 12/39] fix: do not wait for a writer when a FIFO stands in the
 cache

---
 tn/cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tn/cache.py b/tn/cache.py
index 52f7cab..4ec0b57 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -274,6 +274,7 @@ def _read_regular_file(path, expected_size=None, max_size=None):
         raise CachePathError("cache file is not a regular non-link file: {}".format(path))
 
     flags = os.O_RDONLY | getattr(os, "O_CLOEXEC", 0) | getattr(os, "O_NOFOLLOW", 0)
+    flags |= getattr(os, "O_NONBLOCK", 0)  # a FIFO is rejected, not waited for
     descriptor = os.open(os.fspath(path), flags)
     try:
         return _read_open_regular(
@@ -289,6 +290,7 @@ def _read_regular_file(path, expected_size=None, max_size=None):
 
 def _read_regular_at(directory_fd, basename, expected_size=None, max_size=None):
     flags = os.O_RDONLY | getattr(os, "O_CLOEXEC", 0) | getattr(os, "O_NOFOLLOW", 0)
+    flags |= getattr(os, "O_NONBLOCK", 0)  # a FIFO is rejected, not waited for
     try:
         descriptor = os.open(basename, flags, dir_fd=directory_fd)
     except OSError as error:
-- 
2.43.0


From bf5b48606b64bd7d753715631d1283f1087300d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:26 +0000
Subject: [PATCH 13/39] fix: frame file contents in the cache source
 fingerprint

---
 tn/cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tn/cache.py b/tn/cache.py
index 4ec0b57..9b8e172 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -118,9 +118,11 @@ def production_source_fingerprint(project_root=None):
         relative_path = source.relative_to(project_root).as_posix().encode("utf-8")
         digest.update(len(relative_path).to_bytes(8, "big"))
         digest.update(relative_path)
+        content = hashlib.sha256()
         with open(source, "rb") as source_file:
             for chunk in iter(lambda: source_file.read(1024 * 1024), b""):
-                digest.update(chunk)
+                content.update(chunk)
+        digest.update(content.digest())
     return digest.hexdigest()
 
 
-- 
2.43.0


From d31b71f339c3e2f189db7a699094a4ddbe938fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:44 +0000
Subject: [PATCH 14/39] fix: read Chinese numbers beyond twelve digits digit by
 digit
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'1000000000000' came out as '十零零零零零零零零零零零' and '1234567890123'
as '幺二三四五六千七百…': longer numbers were cut into smaller ones.
---
 tn/chinese/rules/cardinal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tn/chinese/rules/cardinal.py b/tn/chinese/rules/cardinal.py
index 1241259..a914fd8 100644
--- a/tn/chinese/rules/cardinal.py
+++ b/tn/chinese/rules/cardinal.py
@@ -65,7 +65,10 @@ class Cardinal(Processor):
                                                                                               | (insert("零") + thousand))
                                                                                | rmzero**8))
 
-        number = digits | ten | hundred | thousand | ten_thousand | hundred_million
+        # beyond 12 digits: read digit by digit
+        long_digits = digits**(13, ...)
+
+        number = digits | ten | hundred | thousand | ten_thousand | hundred_million | long_digits
         number = sign.ques + number + (dot + digits.plus).ques
         number @= self.build_rule(cross("二百", "两百") | cross("二千", "两千") | cross("二万", "两万") | cross("二亿", "两亿"),
                                   "[BOS]").optimize()
-- 
2.43.0


From 3404a4baee916e2269a2a3372af4ed7ea78e512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:44 +0000
Subject: [PATCH 15/39] fix: keep 'and' away from hundreds of billions and
 trillions

'400000000400' came out as 'four hundred and billion four hundred'.
---
 tn/english/rules/cardinal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tn/english/rules/cardinal.py b/tn/english/rules/cardinal.py
index 6be580a..03e7f62 100644
--- a/tn/english/rules/cardinal.py
+++ b/tn/english/rules/cardinal.py
@@ -111,10 +111,10 @@ class Cardinal(Processor):
 
         graph_with_and = pynutil.add_weight(graph, 0.00001)
         not_quote = self.NOT_QUOTE.star
-        no_thousand_million = pynini.difference(not_quote,
-                                                not_quote + pynini.union("thousand", "million") + not_quote).optimize()
+        scales = pynini.union("thousand", "million", "billion", "trillion")
+        no_scale = pynini.difference(not_quote, not_quote + scales + not_quote).optimize()
         integer = (not_quote +
-                   pynutil.add_weight(pynini.cross("hundred ", "hundred and ") + no_thousand_million, -0.0001)).optimize()
+                   pynutil.add_weight(pynini.cross("hundred ", "hundred and ") + no_scale, -0.0001)).optimize()
 
         no_hundred = pynini.difference(self.VCHAR.star, not_quote + pynini.accep("hundred") + not_quote).optimize()
         integer |= (not_quote +
-- 
2.43.0


From e3cfdd0d29af3fa84b0c6833cf37933c23c9358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:02 +0000
Subject: [PATCH 16/39] fix: read 'negative' before English ITN decimals

'negative twenty point one' came out as '-20 .1'.
---
 itn/english/rules/decimal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/english/rules/decimal.py b/itn/english/rules/decimal.py
index 00db369..6a77938 100644
--- a/itn/english/rules/decimal.py
+++ b/itn/english/rules/decimal.py
@@ -37,7 +37,7 @@ class Decimal(Processor):
         frac_digit = digit | zero | cross("o", "0")
         frac_graph = closure(frac_digit + ds) + frac_digit
 
-        self.negative = cross("minus", "-")
+        self.negative = cross("minus", "-") | cross("negative", "-")
         self.integer = self.cardinal.graph
         self.fractional = delete("point") + ds + frac_graph
         optional_negative = closure(self.tag_field("negative", self.negative) + ds + insert(" "), 0, 1)
-- 
2.43.0


From 3941c77345f4e5c226596fb4f36229c073066cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:02 +0000
Subject: [PATCH 17/39] fix: read 'oh' in English ITN decimals

English TN says 'zero point oh five' for 0.05, which ITN left as words.
---
 itn/english/rules/decimal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/itn/english/rules/decimal.py b/itn/english/rules/decimal.py
index 6a77938..e2eb814 100644
--- a/itn/english/rules/decimal.py
+++ b/itn/english/rules/decimal.py
@@ -33,8 +33,8 @@ class Decimal(Processor):
         zero = string_file(get_abs_path("english/data/numbers/zero.tsv"))
         ds = delete(" ")
 
-        # fractional part: digit by digit, "o" => 0
-        frac_digit = digit | zero | cross("o", "0")
+        # fractional part: digit by digit, "o" and "oh" => 0
+        frac_digit = digit | zero | cross("o", "0") | cross("oh", "0")
         frac_graph = closure(frac_digit + ds) + frac_digit
 
         self.negative = cross("minus", "-") | cross("negative", "-")
-- 
2.43.0


From 580296be0de577b3352d101bed131375fbcaed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:02 +0000
Subject: [PATCH 18/39] fix: read a zero between ten thousands and thousands in
 Chinese ITN
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'七十万零四千' came out as '700004千' instead of 704000.
---
 itn/chinese/rules/cardinal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/itn/chinese/rules/cardinal.py b/itn/chinese/rules/cardinal.py
index f98a2f3..a2f21fc 100644
--- a/itn/chinese/rules/cardinal.py
+++ b/itn/chinese/rules/cardinal.py
@@ -65,6 +65,7 @@ class Cardinal(Processor):
         if self.enable_million:
             ten_thousand = ((thousand | hundred | teen | tens | digit) + delete("万") +
                             (thousand
+                             | add_weight(delete("零") + thousand, 0.1)
                              | add_weight(zero + hundred, 0.1)
                              | add_weight(addzero + zero + (tens | teen), 0.5)
                              | add_weight(addzero + addzero + zero + digit, 0.5)
@@ -72,6 +73,7 @@ class Cardinal(Processor):
                              | add_weight(addzero**4, 1.0)))
         else:
             ten_thousand = ((teen | tens | digit) + delete("万") + (thousand
+                                                                   | add_weight(delete("零") + thousand, 0.1)
                                                                    | add_weight(zero + hundred, 0.1)
                                                                    | add_weight(addzero + zero + (tens | teen), 0.5)
                                                                    | add_weight(addzero + addzero + zero + digit, 0.5)
-- 
2.43.0


From 4988e2e89068a6d80b4b6389dd06f60fa5222a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:11 +0000
Subject: [PATCH 19/39] =?UTF-8?q?fix:=20read=20the=20day=20in=20Chinese=20?=
 =?UTF-8?q?dates=20such=20as=201=E6=9C=882=E6=97=A5?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'1月2日' came out as '一月两日', two days, since only the parts were known.
---
 tn/chinese/rules/measure.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tn/chinese/rules/measure.py b/tn/chinese/rules/measure.py
index a57ddb6..cc8f73e 100644
--- a/tn/chinese/rules/measure.py
+++ b/tn/chinese/rules/measure.py
@@ -52,6 +52,13 @@ class Measure(Processor):
             measure @= self.build_rule(cross("两" + unit, "二" + unit), l="[BOS]")
             measure @= self.build_rule(cross("到两" + unit, "到二" + unit), r="[EOS]")
 
+        # 1月2日, 1月2日-3日, 1月2-3日, 1月2日-2月3日
+        month = string_file(get_abs_path("chinese/data/date/m.tsv")) | string_file(get_abs_path("chinese/data/date/mm.tsv"))
+        day = string_file(get_abs_path("chinese/data/date/d.tsv")) | string_file(get_abs_path("chinese/data/date/dd.tsv"))
+        first = (day @ self.build_rule(delete("日"))) | (day + delete("日"))
+        month_day = month + delete("月") + (first + to).ques + day + delete("日")
+        measure |= month_day + (to + month_day).ques
+
         # xxxx年, xxxx-xxxx年
         digits = self.cardinal.digits
         yyyy = digits**4
-- 
2.43.0


From 33699794f059b695576c4c8b161854e0f6dcd3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:02 +0000
Subject: [PATCH 20/39] fix: keep the plural of 21, 31, ... hours, minutes and
 seconds in English times

---
 tn/english/rules/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/english/rules/time.py b/tn/english/rules/time.py
index 8aeee1c..3a46057 100644
--- a/tn/english/rules/time.py
+++ b/tn/english/rules/time.py
@@ -125,7 +125,7 @@ class Time(Processor):
             | pynini.cross("one minutes", "one minute")
             | pynini.cross("one seconds", "one second")
             | pynini.cross("one hours", "one hour"),
-            pynini.union(" ", "[BOS]"),
+            pynini.union("[BOS]", "hour ", "hours ", "and "),
             "",
             self.VCHAR.star,
         )
-- 
2.43.0


From d1c6c890e3e3658d37ea876854207ca786ece104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:36 +0000
Subject: [PATCH 21/39] fix: read the hour 0 in Chinese times such as 0:10

---
 tn/chinese/data/time/hour.tsv | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tn/chinese/data/time/hour.tsv b/tn/chinese/data/time/hour.tsv
index 9dd4a15..61c61c8 100644
--- a/tn/chinese/data/time/hour.tsv
+++ b/tn/chinese/data/time/hour.tsv
@@ -7,6 +7,7 @@
 7	七点
 8	八点
 9	九点
+0	零点
 00	零点
 01	一点
 02	两点
-- 
2.43.0


From 931bac029e5537c6e68576549341bef6b2620eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:36 +0000
Subject: [PATCH 22/39] fix: read the capitalised month May in English dates

---
 tn/english/data/date/month_name.tsv | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tn/english/data/date/month_name.tsv b/tn/english/data/date/month_name.tsv
index 45f04fd..4ca2867 100644
--- a/tn/english/data/date/month_name.tsv
+++ b/tn/english/data/date/month_name.tsv
@@ -18,6 +18,8 @@ March	march
 MARCH	march
 April	april
 APRIL	april
+May	may
+MAY	may
 June	june
 JUNE	june
 July	july
-- 
2.43.0


From 88097e412a5076bade97aa880f3d6839b8fb1ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:48 +0000
Subject: [PATCH 23/39] fix: read Japanese dates such as 10/05 with a two-digit
 month

---
 tn/japanese/rules/date.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tn/japanese/rules/date.py b/tn/japanese/rules/date.py
index f290c18..81bca36 100644
--- a/tn/japanese/rules/date.py
+++ b/tn/japanese/rules/date.py
@@ -58,11 +58,18 @@ class Date(Processor):
             "month",
             self.apply_input_processor(mm, self.input_normalizer),
         )
+        # mm/0d, e.g. 10/05: no fraction has such a denominator
+        day_two_digit = self.tag_field(
+            "day",
+            self.apply_input_processor(dd, self.input_normalizer),
+        )
+        slash = self.apply_input_processor(delete("/"), self.input_normalizer) + insert(" ")
         date = ((year + rmsign + month + rmsign + day)
                 | (day + rmsign + month + rmsign + year)
                 | (year + rmsign + month_two_digit)
                 | (month_two_digit + rmsign + year)
-                | (month_two_digit + rmsign + day))
+                | (month_two_digit + rmsign + day)
+                | (month + slash + day_two_digit))
         # yyyy/0m | 0m/yyyy | 0m/dd
         simple_date = (year + rmsign + month) | (month + rmsign + year) | (month + rmsign + day)
 
-- 
2.43.0


From 57f061f767c5d5e58e4fd7da03613d2e9f6a99a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:32 +0000
Subject: [PATCH 24/39] =?UTF-8?q?fix:=20read=20=E4=BA=8C=E6=99=82=20in=20J?=
 =?UTF-8?q?apanese=20ITN=20times?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/data/time/hour.tsv | 1 +
 1 file changed, 1 insertion(+)

diff --git a/itn/japanese/data/time/hour.tsv b/itn/japanese/data/time/hour.tsv
index 39c6325..f165d67 100644
--- a/itn/japanese/data/time/hour.tsv
+++ b/itn/japanese/data/time/hour.tsv
@@ -1,4 +1,5 @@
 一時	1
+二時	2
 两時	2
 三時	3
 四時	4
-- 
2.43.0


From f9e3decf64501d60457b6ca1c627de815cb7ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:45 +0000
Subject: [PATCH 25/39] =?UTF-8?q?fix:=20correct=20=E4=BA=94=E5=8D=81?=
 =?UTF-8?q?=E4=BA=8C=20in=20Japanese=20ITN=20minutes=20and=20seconds?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/data/time/minute.tsv | 2 +-
 itn/japanese/data/time/second.tsv | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/itn/japanese/data/time/minute.tsv b/itn/japanese/data/time/minute.tsv
index a60da05..999d0ff 100644
--- a/itn/japanese/data/time/minute.tsv
+++ b/itn/japanese/data/time/minute.tsv
@@ -49,7 +49,7 @@
 四十九分	49
 五十分	50
 五十一分	51
-五二十分	52
+五十二分	52
 五十三分	53
 五十四分	54
 五十五分	55
diff --git a/itn/japanese/data/time/second.tsv b/itn/japanese/data/time/second.tsv
index baf926e..2722fc0 100644
--- a/itn/japanese/data/time/second.tsv
+++ b/itn/japanese/data/time/second.tsv
@@ -49,7 +49,7 @@
 四十九秒	49
 五十秒	50
 五十一秒	51
-五二十秒	52
+五十二秒	52
 五十三秒	53
 五十四秒	54
 五十五秒	55
-- 
2.43.0


From be7962e55a189e69087cfdc1c93cc66afadc8332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:02 +0000
Subject: [PATCH 26/39] fix: escape # in lexicon rows, where it starts a
 comment

---
 itn/english/data/electronic/symbols.tsv           | 2 +-
 itn/english/data/whitelist.tsv                    | 4 ++--
 itn/japanese/data/char/fullwidth_to_halfwidth.tsv | 2 +-
 tn/chinese/data/char/fullwidth_to_halfwidth.tsv   | 2 +-
 tn/english/data/electronic/symbol.tsv             | 2 +-
 tn/japanese/data/char/fullwidth_to_halfwidth.tsv  | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/itn/english/data/electronic/symbols.tsv b/itn/english/data/electronic/symbols.tsv
index 5be8da8..093867a 100644
--- a/itn/english/data/electronic/symbols.tsv
+++ b/itn/english/data/electronic/symbols.tsv
@@ -3,7 +3,7 @@
 -	hyphen
 _	underscore
 !	exclamation mark
-#	number sign
+\#	number sign
 $	dollar sign
 %	percent sign
 &	ampersand
diff --git a/itn/english/data/whitelist.tsv b/itn/english/data/whitelist.tsv
index c7201ae..698cd51 100644
--- a/itn/english/data/whitelist.tsv
+++ b/itn/english/data/whitelist.tsv
@@ -64,7 +64,7 @@ BSP	b s p
 BasePOD	base pod
 BasePOD	basepod
 Billion-X	billion X
-C#	c sharp
+C\#	c sharp
 C++	c plus plus
 CAT5	cat five
 CAT5e	cat five e
@@ -385,7 +385,7 @@ XML	x m l
 Zen 2	zen two
 Zen 3	zen three
 Zen 4	zen four
-c#	c sharp
+c\#	c sharp
 c++	c plus plus
 cuBLAS	cue blah
 cuBLAS	cue blahs
diff --git a/itn/japanese/data/char/fullwidth_to_halfwidth.tsv b/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..5f629f6 100644
--- a/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
+++ b/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
diff --git a/tn/chinese/data/char/fullwidth_to_halfwidth.tsv b/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..5f629f6 100644
--- a/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
+++ b/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
diff --git a/tn/english/data/electronic/symbol.tsv b/tn/english/data/electronic/symbol.tsv
index 5e8973f..b25385a 100644
--- a/tn/english/data/electronic/symbol.tsv
+++ b/tn/english/data/electronic/symbol.tsv
@@ -2,7 +2,7 @@
 -	dash
 _	underscore
 !	exclamation mark
-#	number sign
+\#	number sign
 $	dollar sign
 %	percent
 &	ampersand
diff --git a/tn/japanese/data/char/fullwidth_to_halfwidth.tsv b/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..5f629f6 100644
--- a/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
+++ b/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
-- 
2.43.0


From 295d2e6958b6f0e3def26c6a5fc447f0ed230656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:02 +0000
Subject: [PATCH 27/39] fix: read HK$ with a half-width dollar sign

---
 tn/chinese/data/money/code.tsv  | 1 +
 tn/japanese/data/money/code.tsv | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tn/chinese/data/money/code.tsv b/tn/chinese/data/money/code.tsv
index e03ff19..25b44d9 100644
--- a/tn/chinese/data/money/code.tsv
+++ b/tn/chinese/data/money/code.tsv
@@ -9,6 +9,7 @@ CNY	人民币
 EUR	欧元成员国
 GBP	英镑
 HK＄	港元
+HK$	港元
 HKD	港元
 INR	印度卢比
 J￥	日元
diff --git a/tn/japanese/data/money/code.tsv b/tn/japanese/data/money/code.tsv
index 8f7fa9e..5915ae7 100644
--- a/tn/japanese/data/money/code.tsv
+++ b/tn/japanese/data/money/code.tsv
@@ -9,6 +9,7 @@ CNY	人民元
 EUR	ユーロ
 GBP	ポンド
 HK＄	香港ドル
+HK$	香港ドル
 HKD	香港ドル
 INR	インドルピー
 J￥	円
-- 
2.43.0


From 865e4d13c8491f6a8fd35642ec82582f4934ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:36 +0000
Subject: [PATCH 28/39] =?UTF-8?q?fix:=20write=20=E5=85=86=E8=B5=AB?=
 =?UTF-8?q?=E5=85=B9=20as=20MHz=20in=20Chinese=20ITN,=20not=20as=20tera-he?=
 =?UTF-8?q?rtz?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/chinese/rules/measure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/itn/chinese/rules/measure.py b/itn/chinese/rules/measure.py
index 7edf092..481d195 100644
--- a/itn/chinese/rules/measure.py
+++ b/itn/chinese/rules/measure.py
@@ -43,6 +43,9 @@ class Measure(Processor):
         units = add_weight((accep("亿") | accep("兆") | accep("万")), -0.5).ques + units_zh
         units |= add_weight((cross("亿", "00M") | cross("兆", "T") | cross("万", "W")), -0.5).ques + (add_weight(units_en, -1.0))
 
+        # 兆赫兹 is one unit, not 兆 and 赫兹
+        units |= add_weight((union("亿", "兆", "万") + self.VCHAR.star) @ units_en, -2.0)
+
         number = self.cardinal.number if self.enable_0_to_9 else self.cardinal.number_exclude_0_to_9
         # 百分之三十, 百分三十, 百分之百，百分之三十到四十, 百分之三十到百分之五十五
         percent = ((sign + delete("的").ques).ques + delete("百分") + delete("之").ques +
-- 
2.43.0


From 41f5a3fc26dbb8257c6597487b42fbb1af80a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:55 +0000
Subject: [PATCH 29/39] fix: drop the blank behind TOS and TTS in the English
 ITN whitelist

---
 itn/english/data/whitelist.tsv | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/itn/english/data/whitelist.tsv b/itn/english/data/whitelist.tsv
index 698cd51..05b1fc0 100644
--- a/itn/english/data/whitelist.tsv
+++ b/itn/english/data/whitelist.tsv
@@ -345,13 +345,13 @@ TCP	t c p
 TCP/IP	t c p i p
 TFTP	t f t p
 TJ	t j
-TOS 	t o s
+TOS	t o s
 TPM	t p m
 TPMS	t p m s
 TPN	t p n
 TSL	t s l
 TSMC	t s m c
-TTS 	t t s
+TTS	t t s
 Telnet	tell net
 TensorRT	tensor r t
 Tick-Tock	tick tock
-- 
2.43.0


From 236ff51023b2bd382823a9cc97c6808de2f6110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:28 +0000
Subject: [PATCH 30/39] fix: read 'degrees celsius' and 'revolutions per
 minute' in English ITN

---
 itn/english/rules/measure.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/itn/english/rules/measure.py b/itn/english/rules/measure.py
index f57a00e..2286a7e 100644
--- a/itn/english/rules/measure.py
+++ b/itn/english/rules/measure.py
@@ -54,6 +54,12 @@ class Measure(Processor):
             "ounce": "ounces",
         }
         for name, symbol in singular_names.items():
+            # the plural of these is not at their end: degrees celsius, revolutions per minute
+            if name.startswith("degree "):
+                plural_pairs.append(("degrees" + name[len("degree"):], symbol))
+            elif " per " in name and "s per " not in name:
+                head, tail = name.split(" per ", 1)
+                plural_pairs.append((head.strip() + "s per " + tail, symbol))
             if name in irregular_plurals:
                 plural_pairs.append((irregular_plurals[name], symbol))
             elif name.endswith(("s", "z", "sh", "ch", "x")):
-- 
2.43.0


From 96edf2652873c54c44027b3c31db16378f76d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:46 +0000
Subject: [PATCH 31/39] fix: keep measures and times from ending inside a Latin
 word

---
 tn/chinese/normalizer.py  | 2 +-
 tn/japanese/normalizer.py | 2 +-
 tn/processor.py           | 7 +++++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/tn/chinese/normalizer.py b/tn/chinese/normalizer.py
index bdbdd76..3f6822c 100644
--- a/tn/chinese/normalizer.py
+++ b/tn/chinese/normalizer.py
@@ -97,7 +97,7 @@ class Normalizer(Processor):
             RuleSpec(char, 100),
             RuleSpec(range_rule),
         )
-        tagger = self.tagger_union(rules).star
+        tagger = self.whole_words(self.tagger_union(rules).star)
         self.tagger = tagger @ self.build_rule(delete(" "), r="[EOS]")
 
         verbalizer = self.verbalizer_union(rules)
diff --git a/tn/japanese/normalizer.py b/tn/japanese/normalizer.py
index b775246..50c17c0 100644
--- a/tn/japanese/normalizer.py
+++ b/tn/japanese/normalizer.py
@@ -100,7 +100,7 @@ class Normalizer(Processor):
         if self.transliterate:
             transliteration = Transliteration(input_normalizer=input_normalizer)
             rules.append(RuleSpec(transliteration, 1.04))
-        tagger = self.tagger_union(rules).star
+        tagger = self.whole_words(self.tagger_union(rules).star)
         self.tagger = tagger @ self.build_rule(delete(" "), r="[EOS]")
 
         verbalizer = self.verbalizer_union(rules)
diff --git a/tn/processor.py b/tn/processor.py
index 2634eeb..9095db6 100644
--- a/tn/processor.py
+++ b/tn/processor.py
@@ -184,6 +184,13 @@ class Processor:
         verbalizer = delete(f"{self.name}") + delete(" { ") + verbalizer + delete(" }") + delete(" ").ques
         return verbalizer.optimize()
 
+    def whole_words(self, tagger):
+        """Keeps measures and times from ending inside a Latin word, as in '5 hello'."""
+
+        inside = self.VSIGMA + union("measure", "time") + " { " + difference(self.VCHAR, "}").star
+        inside += self.ALPHA + '" } ' + self.NOT_QUOTE.star + '"' + self.ALPHA + self.VSIGMA
+        return tagger @ difference(self.VSIGMA, inside.optimize())
+
     @staticmethod
     def input_projection(graph):
         """Returns the minimum-weight acceptor for a field's source side.
-- 
2.43.0


From 3d65b7949288e4cf598381d6f075b0b45ad0cd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:38 +0000
Subject: [PATCH 32/39] fix: take the dot of 'p.m.' as part of it before
 punctuation in English TN

---
 tn/english/data/time/suffix.tsv | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tn/english/data/time/suffix.tsv b/tn/english/data/time/suffix.tsv
index 026a6a9..3620980 100644
--- a/tn/english/data/time/suffix.tsv
+++ b/tn/english/data/time/suffix.tsv
@@ -1,12 +1,12 @@
 p.m.	PM
-p.m	PM
+p.m	PM	0.1
 pm	PM
 P.M.	PM
-P.M	PM
+P.M	PM	0.1
 PM	PM
 a.m.	AM
-a.m	AM
+a.m	AM	0.1
 am	AM
 A.M.	AM
-A.M	AM
+A.M	AM	0.1
 AM	AM
-- 
2.43.0


From b1585e30b23e96aa66edc5e6a444c0c3f9c42fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:38 +0000
Subject: [PATCH 33/39] fix: drop the empty second from Chinese ITN times,
 which tied with no second

---
 itn/chinese/data/time/second.tsv | 1 -
 1 file changed, 1 deletion(-)

diff --git a/itn/chinese/data/time/second.tsv b/itn/chinese/data/time/second.tsv
index 3a0116a..41fcc7d 100644
--- a/itn/chinese/data/time/second.tsv
+++ b/itn/chinese/data/time/second.tsv
@@ -1,4 +1,3 @@
-	00
 一秒	01
 二秒	02
 三秒	03
-- 
2.43.0


From 84a57a40d758c2503260fe799fa476fb6d77ed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:38 +0000
Subject: [PATCH 34/39] =?UTF-8?q?fix:=20prefer=20the=20time=20over=20the?=
 =?UTF-8?q?=20decimal=20for=20=E5=8D=81=E5=85=AB=E7=82=B9=E9=9B=B6?=
 =?UTF-8?q?=E4=BA=94=E5=88=86=20in=20Chinese=20ITN?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/chinese/inverse_normalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/chinese/inverse_normalizer.py b/itn/chinese/inverse_normalizer.py
index 28eac8c..e7e6a6d 100644
--- a/itn/chinese/inverse_normalizer.py
+++ b/itn/chinese/inverse_normalizer.py
@@ -86,7 +86,7 @@ class InverseNormalizer(Processor):
             RuleSpec(fraction, 1.05),
             RuleSpec(measure, 1.05),
             RuleSpec(money, 1.04),
-            RuleSpec(time, 1.05),
+            RuleSpec(time, 1.04),
             RuleSpec(cardinal, 1.06),
             RuleSpec(math, 1.10),
             RuleSpec(license_plate, 1.0),
-- 
2.43.0


From 8f88764f7738d3f2143dac2dbf878bd39b393000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:47 +0000
Subject: [PATCH 35/39] fix: keep dates and fractions from taking a part of a
 number in zh and ja TN

---
 tn/chinese/normalizer.py  | 2 +-
 tn/japanese/normalizer.py | 2 +-
 tn/processor.py           | 9 +++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/tn/chinese/normalizer.py b/tn/chinese/normalizer.py
index 3f6822c..286ca66 100644
--- a/tn/chinese/normalizer.py
+++ b/tn/chinese/normalizer.py
@@ -97,7 +97,7 @@ class Normalizer(Processor):
             RuleSpec(char, 100),
             RuleSpec(range_rule),
         )
-        tagger = self.whole_words(self.tagger_union(rules).star)
+        tagger = self.whole_numbers(self.whole_words(self.tagger_union(rules).star))
         self.tagger = tagger @ self.build_rule(delete(" "), r="[EOS]")
 
         verbalizer = self.verbalizer_union(rules)
diff --git a/tn/japanese/normalizer.py b/tn/japanese/normalizer.py
index 50c17c0..5b4a86f 100644
--- a/tn/japanese/normalizer.py
+++ b/tn/japanese/normalizer.py
@@ -100,7 +100,7 @@ class Normalizer(Processor):
         if self.transliterate:
             transliteration = Transliteration(input_normalizer=input_normalizer)
             rules.append(RuleSpec(transliteration, 1.04))
-        tagger = self.whole_words(self.tagger_union(rules).star)
+        tagger = self.whole_numbers(self.whole_words(self.tagger_union(rules).star))
         self.tagger = tagger @ self.build_rule(delete(" "), r="[EOS]")
 
         verbalizer = self.verbalizer_union(rules)
diff --git a/tn/processor.py b/tn/processor.py
index 9095db6..eaeb6cb 100644
--- a/tn/processor.py
+++ b/tn/processor.py
@@ -191,6 +191,15 @@ class Processor:
         inside += self.ALPHA + '" } ' + self.NOT_QUOTE.star + '"' + self.ALPHA + self.VSIGMA
         return tagger @ difference(self.VSIGMA, inside.optimize())
 
+    def whole_numbers(self, tagger):
+        """Keeps dates and fractions from taking a part of a number, as in 'No.12/13'."""
+
+        structured = union("date", "fraction") + " { "
+        boundary = self.DIGIT + '" } ' + self.NOT_QUOTE.star + '"' + self.DIGIT + self.VSIGMA
+        inside = self.VSIGMA + structured + difference(self.VCHAR, "}").star + boundary
+        inside |= self.VSIGMA + self.DIGIT + '" } ' + structured + self.NOT_QUOTE.star + '"' + self.DIGIT + self.VSIGMA
+        return tagger @ difference(self.VSIGMA, inside.optimize())
+
     @staticmethod
     def input_projection(graph):
         """Returns the minimum-weight acceptor for a field's source side.
-- 
2.43.0


From 3e82f03883a4715174bd422a50fab5c5bf68c675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:47 +0000
Subject: [PATCH 36/39] =?UTF-8?q?fix:=20keep=20numbers=20whole=20in=20Japa?=
 =?UTF-8?q?nese=20ITN,=20as=20in=20=E7=AC=AC=E4=B8=89=E5=8D=83=E5=86=86?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/inverse_normalizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/itn/japanese/inverse_normalizer.py b/itn/japanese/inverse_normalizer.py
index 2c6b16a..8c1310b 100644
--- a/itn/japanese/inverse_normalizer.py
+++ b/itn/japanese/inverse_normalizer.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from pynini import difference, union
 from pynini.lib.pynutil import delete
 
 from itn.japanese.rules.cardinal import Cardinal
@@ -105,7 +106,10 @@ class InverseNormalizer(Processor):
             RuleSpec(time, 1.04),
             RuleSpec(whitelist, 1.01),
         )
-        tagger = self.tagger_union(rules).star
+        # 第三千円: no token starts at the unit of a number
+        split = self.VSIGMA + (union(*"一二三四五六七八九") | self.DIGIT) + '" } ' + difference(self.LOWER.plus, "char") + " { "
+        split += self.NOT_QUOTE.star + '"' + union(*"十百千") + self.VSIGMA
+        tagger = self.tagger_union(rules).star @ difference(self.VSIGMA, split.optimize())
         self.tagger = tagger @ self.build_rule(delete(" "), "", "[EOS]")
 
         self.verbalizer = self.verbalizer_union(rules).star
-- 
2.43.0


From 83be3a8d188e7933a27ed7dc69ebd1b8ac6ac821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:03 +0000
Subject: [PATCH 37/39] =?UTF-8?q?fix:=20take=20zeros=20in=20the=20first=20?=
 =?UTF-8?q?part=20of=20an=20IP=20in=20Japanese=20ITN=20(=E4=B8=80=E3=80=87?=
 =?UTF-8?q?=E7=82=B9=E4=B8=80=E3=80=87=E7=82=B9=E4=B8=80=E3=80=87=E7=82=B9?=
 =?UTF-8?q?=E4=B8=80)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/rules/cardinal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/japanese/rules/cardinal.py b/itn/japanese/rules/cardinal.py
index df8bc7e..db7d6d6 100644
--- a/itn/japanese/rules/cardinal.py
+++ b/itn/japanese/rules/cardinal.py
@@ -116,7 +116,7 @@ class Cardinal(Processor):
         self.big_integer = number | big_integer
 
         # cardinal string like 127.0.0.1, used in ID, IP, etc.
-        cardinal = digit.plus + (dot + digits.plus).plus
+        cardinal = digits.plus + (dot + digits.plus).plus
         # float number like 1.11
         cardinal |= decimal
         # cardinal string like 110 or 12306 or 13125617878, used in phone
-- 
2.43.0


From c686ccc1d612e9bbd2e331e12292d6339000f196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:03 +0000
Subject: [PATCH 38/39] fix: read sixteen digits as a card number, not a
 country code and fourteen, in English ITN

---
 itn/english/rules/telephone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/english/rules/telephone.py b/itn/english/rules/telephone.py
index f994f83..88b0f1a 100644
--- a/itn/english/rules/telephone.py
+++ b/itn/english/rules/telephone.py
@@ -115,7 +115,7 @@ class Telephone(Processor):
                      | D**4 + space + D**6 + space + D**5)
         cc = seq @ cc_format
         self.number_parts["credit_card"] = cc
-        graph |= optional_cc + number_field(cc, "credit_card")
+        graph |= number_field(cc, "credit_card")
 
         # serial: mixed alpha+digits, at least one digit, length >= 3
         # Exclude "a" as first char to avoid "a thirty six" -> "a36"
-- 
2.43.0


From 630823f4608e66e076e062896338838719a7b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:03 +0000
Subject: [PATCH 39/39] fix: leave the words around an address as they are in
 English ITN ('please visit nvidia dot com today')

---
 itn/english/rules/electronic.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/itn/english/rules/electronic.py b/itn/english/rules/electronic.py
index a1aa98d..c574d56 100644
--- a/itn/english/rules/electronic.py
+++ b/itn/english/rules/electronic.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import accep, closure, cross, difference, invert, string_file
+from pynini import closure, cross, difference, invert, string_file, union
 from pynini.lib.pynutil import add_weight, delete, insert
 
 from tn.processor import Processor
@@ -32,16 +32,22 @@ class Electronic(Processor):
         zero = string_file(get_abs_path("english/data/numbers/zero.tsv"))
         symbols = invert(string_file(get_abs_path("english/data/electronic/symbols.tsv")))
 
+        # A part is spelled out or one word; symbols join parts. Words that only
+        # stand side by side belong to the sentence around the address.
         char = self.ALPHA | digit | zero
-        word = add_weight(closure(self.ALPHA, 2), 0.1)
-        token = char | symbols | word
-        first_token = char | difference(word, accep("dot"))
-        component = first_token + closure(ds + token)
+        spelled = char + closure(ds + char)
+        word = add_weight(difference(closure(self.ALPHA, 2), union("at", "dot")), 0.1)
+        word |= add_weight(string_file(get_abs_path("english/data/electronic/server_name.tsv")), -0.001)
 
+        def joined(part):
+            return part + closure(closure(ds + symbols, 1) + ds + part) + closure(ds + symbols)
+
+        component = joined(spelled | word)
         dot = cross("dot", ".")
         domain = component + (ds + dot + ds + component).plus
 
-        self.username = component
+        # A name may end in digits: john one two at gmail dot com
+        self.username = joined(spelled | word + closure(ds + (digit | zero)))
         self.domain = delete("at") + ds + domain
         username = self.tag_field("username", self.username)
         domain_field = self.tag_field("domain", self.domain)
-- 
2.43.0

