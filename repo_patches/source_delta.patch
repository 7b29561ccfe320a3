From e086975e52df8021efacb55a867f2b91b4103f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 01/44] fix: accept quotes, backslashes and surrounding
 whitespace in English ITN

Word tokens could not hold a quote or a backslash, so any chunk with one
of them next to another character raised 'no normalization path'.
Leading and trailing whitespace other than the plain space did as well.
---
 itn/english/inverse_normalizer.py | 2 +-
 itn/english/rules/word.py         | 7 +------
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/itn/english/inverse_normalizer.py b/itn/english/inverse_normalizer.py
index a617d6b..22559ca 100644
--- a/itn/english/inverse_normalizer.py
+++ b/itn/english/inverse_normalizer.py
@@ -81,7 +81,7 @@ class InverseNormalizer(Processor):
         punct = add_weight(punctuation.tagger, 1.1)
         token = closure(punct + delete(" ").ques) + classify + closure(delete(" ").ques + punct)
         graph = token + closure(self.DELETE_EXTRA_SPACE + token)
-        self.tagger = delete(" ").star + graph + delete(" ").star
+        self.tagger = self.DELETE_SPACE + graph + self.DELETE_SPACE
 
         verbalizer_rules = list(rules)
         verbalizer_rules.append(RuleSpec(punctuation))
diff --git a/itn/english/rules/word.py b/itn/english/rules/word.py
index 46c82bc..31f8f20 100644
--- a/itn/english/rules/word.py
+++ b/itn/english/rules/word.py
@@ -12,9 +12,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import difference, union
-from pynini.lib.pynutil import insert
-
 from tn.processor import Processor
 
 
@@ -26,6 +23,4 @@ class Word(Processor):
         self.build_verbalizer()
 
     def build_tagger(self):
-        valid_char = difference(self.NOT_SPACE, union('"', "\\"))
-        tagger = insert('value: "') + valid_char.plus + insert('"')
-        self.tagger = self.add_tokens(tagger)
+        self.tagger = self.add_tokens(self.tag_field("value", self.NOT_SPACE.plus))
-- 
2.43.0


From 846c844cd6a4c7486120af075d47302ea7ce7da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 02/44] fix: keep text that no English TN class covers instead
 of raising

Digits next to brackets, symbols or non-ASCII letters ('[32]', '5+'),
and whitespace-only text raised 'no normalization path'.
---
 tn/english/normalizer.py |  3 +++
 tn/english/rules/char.py | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+)
 create mode 100644 tn/english/rules/char.py

diff --git a/tn/english/normalizer.py b/tn/english/normalizer.py
index 0d1933f..1d67420 100644
--- a/tn/english/normalizer.py
+++ b/tn/english/normalizer.py
@@ -17,6 +17,7 @@ import pynini
 from pynini.lib import pynutil
 
 from tn.english.rules.cardinal import Cardinal
+from tn.english.rules.char import Char
 from tn.english.rules.date import Date
 from tn.english.rules.decimal import Decimal
 from tn.english.rules.electronic import Electronic
@@ -60,6 +61,7 @@ class Normalizer(Processor):
         serial = Serial(cardinal=cardinal, ordinal=ordinal)
         word = Word(punctuation=punctuation)
         whitelist = WhiteList()
+        char = Char()
         rang = Range(date=date, time=time)
 
         rules = (
@@ -77,6 +79,7 @@ class Normalizer(Processor):
             RuleSpec(serial, 1.01),
             RuleSpec(whitelist, 1.0),
             RuleSpec(rang, 1.0),
+            RuleSpec(char, 1.0),
         )
         classify = self.tagger_union(rules)
 
diff --git a/tn/english/rules/char.py b/tn/english/rules/char.py
new file mode 100644
index 0000000..5dae22a
--- /dev/null
+++ b/tn/english/rules/char.py
@@ -0,0 +1,34 @@
+# Copyright (c) 2021, NVIDIA CORPORATION.  All rights reserved.
+# Copyright (c) 2024, WENET COMMUNITY.  Xingchen Song (sxc19@tsinghua.org.cn).
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#     http://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+
+from pynini.lib.pynutil import add_weight
+
+from tn.processor import Processor
+
+
+class Char(Processor):
+
+    def __init__(self):
+        super().__init__(name="char", ordertype="en_tn")
+        self.build_tagger()
+        self.build_verbalizer()
+
+    def build_tagger(self):
+        """
+        Last resort for text that no other class can split into tokens, which is kept as it is.
+            e.g. [32] -> char { value: "[32]" }
+        Each character costs more than any other token, so that a path without it is always preferred.
+        """
+        self.tagger = self.add_tokens(self.tag_field("value", add_weight(self.VCHAR, 200).plus))
-- 
2.43.0


From b5f073d51eb9ad733b33e5052ceb502a217e1890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 03/44] fix: escape quotes and backslashes inside English TN
 emphasis tags

'<a="b">' was serialized without escaping and raised TokenParseError.
---
 tn/english/rules/punctuation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tn/english/rules/punctuation.py b/tn/english/rules/punctuation.py
index 5ab4488..b30e572 100644
--- a/tn/english/rules/punctuation.py
+++ b/tn/english/rules/punctuation.py
@@ -59,7 +59,7 @@ class Punctuation(Processor):
         self.emphasis = (
             accep("<") + (((self.NOT_SPACE - union("<", ">")).plus + closure(accep("/"), 0, 1))  # noqa
                           | (accep("/") + (self.NOT_SPACE - union("<", ">")).plus)) + accep(">"))  # noqa
-        punct = plurals._priority_union(self.emphasis, punct, self.VCHAR.star)
+        punct = plurals._priority_union(self.emphasis @ self.CHAR.star, punct, self.VCHAR.star)
 
         self.graph = punct
         # Adjacent punctuation is one lexical unit. Keep that classification
@@ -72,7 +72,8 @@ class Punctuation(Processor):
         self.tagger = self.add_tokens(final_graph)
 
     def build_verbalizer(self):
-        punct = closure(self.punct | self.emphasis | cross("\\\\\\", "\\") | cross('\\"', '"'), 1)
+        emphasis = self.SIGMA @ self.emphasis
+        punct = closure(self.punct | emphasis | cross("\\\\\\", "\\") | cross('\\"', '"'), 1)
         verbalizer = (delete('v: "') + add_weight(accep(" "), -1.0).star + punct + add_weight(accep(" "), -1.0).star +
                       delete('"'))
         self.verbalizer = self.delete_tokens(verbalizer)
-- 
2.43.0


From 7881e6fcb64b48bb3b2642f2c83ecfc5775a911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 04/44] fix: select the same path in tag, verbalize and
 normalize

tag() and verbalize() broke weight ties differently from normalize(), so
the command line printed 'ten hundred' for '1000' where normalize()
returned 'one thousand'.
---
 tn/processor.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tn/processor.py b/tn/processor.py
index 954b751..f0618ad 100644
--- a/tn/processor.py
+++ b/tn/processor.py
@@ -22,7 +22,7 @@ from pynini import accep, cdrewrite, cross, difference, escape, invert, shortest
 from pynini.lib import byte, utf8
 from pynini.lib.pynutil import add_weight, delete, insert
 
-from tn.alignment import NormalizationMapping, NormalizationResult, trace_input_spans, transduce_with_spans
+from tn.alignment import AlignmentError, NormalizationMapping, NormalizationResult, trace_input_spans, transduce_with_spans
 from tn.cache import CacheBundle, default_cache_dir, production_source_fingerprint
 from tn.token_parser import TokenParser
 
@@ -301,10 +301,10 @@ class Processor:
         if len(input) == 0:
             return "" if nbest == 1 else [""]
         input = escape(input)
-        lattice = input @ self.tagger
+        lattice = (input @ self.tagger).project("output").rmepsilon()
+        lattice = shortestpath(lattice, nshortest=nbest, unique=True)
         if nbest == 1:
-            return shortestpath(lattice, nshortest=1, unique=True).string()
-        lattice = shortestpath(lattice.project("output").rmepsilon(), nshortest=nbest, unique=True)
+            return lattice.string()
         paths = lattice.paths()
         results = []
         while not paths.done():
@@ -315,8 +315,11 @@ class Processor:
     def verbalize(self, input):
         if len(input) == 0:
             return ""
-        output, _, _ = self._verbalize_tagged(input)
-        return output
+        reordered = self.token_parser().reorder(input)
+        path = _UniqueOutputPathStream(accep(escape(reordered)) @ self.verbalizer).pop()
+        if path is None:
+            raise AlignmentError("no WFST path for the requested input")
+        return path.text
 
     def _verbalize_tagged(self, tagged, trace_tokens=False, output_text=None):
         parser = self.token_parser()
-- 
2.43.0


From 76d59dbebae332bd012bec307eee901d1e235160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 05/44] fix: keep Japanese TN working with remove_interjections

The Japanese blacklist is empty, and cdrewrite() with an empty relation
only accepts ASCII, so every Japanese text raised or never returned.
---
 tn/japanese/rules/postprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tn/japanese/rules/postprocessor.py b/tn/japanese/rules/postprocessor.py
index 8898f32..b46cfdf 100644
--- a/tn/japanese/rules/postprocessor.py
+++ b/tn/japanese/rules/postprocessor.py
@@ -36,7 +36,8 @@ class PostProcessor(Processor):
             full2half = string_file(get_abs_path("japanese/data/char/fullwidth_to_halfwidth.tsv"))
             processor @= self.build_rule(full2half)
 
-        if remove_interjections:
+        # An empty list has nothing to delete, and would turn the rule into one that rejects non-ASCII text.
+        if remove_interjections and blacklist.num_states():
             processor @= self.build_rule(delete(blacklist))
 
         if remove_puncts:
-- 
2.43.0


From db22e9ee270711b3f181080143e67175ad65bf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:15 +0000
Subject: [PATCH 06/44] =?UTF-8?q?fix:=20read=20"HK$"=20and=20full-width=20?=
 =?UTF-8?q?"HK=EF=BC=84"=20as=20Hong=20Kong=20dollars=20in=20Japanese=20TN?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 tn/japanese/data/money/code.tsv | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tn/japanese/data/money/code.tsv b/tn/japanese/data/money/code.tsv
index 8f7fa9e..79d8ee8 100644
--- a/tn/japanese/data/money/code.tsv
+++ b/tn/japanese/data/money/code.tsv
@@ -8,6 +8,7 @@ CHF	スイスフラン
 CNY	人民元
 EUR	ユーロ
 GBP	ポンド
+HK$	香港ドル
 HK＄	香港ドル
 HKD	香港ドル
 INR	インドルピー
-- 
2.43.0


From 0c61ecb1b581ecbfa90181166911eda3f704e4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:15 +0000
Subject: [PATCH 07/44] =?UTF-8?q?fix:=20read=20Japanese=20numbers=20of=201?=
 =?UTF-8?q?0=E5=84=84=20and=20up=20with=20separators,=20and=20prefer=20the?=
 =?UTF-8?q?=20number=20reading?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 tn/japanese/rules/cardinal.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tn/japanese/rules/cardinal.py b/tn/japanese/rules/cardinal.py
index 4e1d3bb..e415743 100644
--- a/tn/japanese/rules/cardinal.py
+++ b/tn/japanese/rules/cardinal.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 
 from pynini import accep, cross, string_file
-from pynini.lib.pynutil import delete, insert
+from pynini.lib.pynutil import add_weight, delete, insert
 
 from tn.processor import Processor
 from tn.utils import get_abs_path
@@ -72,13 +72,22 @@ class Cardinal(Processor):
                          | (rmzero + rmpunct + rmzero + ten)
                          | (rmzero + rmpunct + rmzero + rmzero + digit)
                          | rmzero + rmpunct + rmzero**3))
+        # 億 group, where the last digit may follow a "," like "1,2" in "1,200,000,000"
+        ten_last = teen + insert("十") + rmpunct + (digit | rmzero)
+        hundred_last = teen + insert("百") + (ten_last | (rmzero + rmpunct + digit) | rmzero + rmpunct + rmzero)
+        thousand_last = (digit + insert("千") + (hundred_last
+                                                | (rmzero + ten_last)
+                                                | (rmzero**2 + rmpunct + digit)
+                                                | rmzero**2 + rmpunct + rmzero))
         # 100,000,000+
-        hundred_millon = ((thousand_prefix | hundred_prefix | ten | digit) + insert("億") + rmzero**2 + rmpunct + rmzero**2 +
+        hundred_millon = ((thousand_last | hundred_last | ten_last | digit) + insert("億") + rmzero**2 + rmpunct + rmzero**2 +
                           (thousand
                            | (rmzero + rmpunct + hundred)
                            | (rmzero + rmpunct + rmzero + ten)
                            | (rmzero + rmpunct + rmzero + rmzero + digit)
                            | rmzero + rmpunct + rmzero**3))
+        # read as a number rather than digit by digit like others below
+        hundred_millon = add_weight(hundred_millon, self.MIN_NEG_WEIGHT)
         # 0-99999999
         number = digits | ten | hundred | thousand | ten_thousand | hundred_millon
         self.positive_integer = self.apply_input_processor(number, self.input_normalizer)
-- 
2.43.0


From 2e20c2c90dbcf2842cf8930262843d3c0090018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:36 +0000
Subject: [PATCH 08/44] fix: put a space after "approximately" when English TN
 reads "~5"

---
 tn/english/rules/range.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tn/english/rules/range.py b/tn/english/rules/range.py
index d256f17..5665b7b 100644
--- a/tn/english/rules/range.py
+++ b/tn/english/rules/range.py
@@ -51,7 +51,8 @@ class Range(Processor):
 
         # TIME
         time_graph = time + delete_space + pynini.cross("-", " to ") + delete_space + time
-        self.graph = time_graph | (approx + time) | week_graph
+        approx_prefix = pynini.cross("~", "approximately ")
+        self.graph = time_graph | (approx_prefix + time) | week_graph
 
         # YEAR
         date_year_four_digit = (self.DIGIT**4 + pynini.accep("s").ques) @ date
@@ -66,7 +67,7 @@ class Range(Processor):
         # ADDITION
         range_graph = cardinal + (pynini.cross("+", " plus ") + cardinal).plus
         range_graph |= cardinal + (pynini.cross(" + ", " plus ") + cardinal).plus
-        range_graph |= approx + cardinal
+        range_graph |= approx_prefix + cardinal
         range_graph |= cardinal + (pynini.cross("...", " ... ") | pynini.accep(" ... ")) + cardinal
 
         # The canonical cardinal range is deterministic; only alternative
-- 
2.43.0


From fb8e23627684f3377333e03e7c645d27f19276cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 09/44] fix: read "No. 5" and "No5" as "Number five" in English
 TN

---
 tn/english/rules/range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/english/rules/range.py b/tn/english/rules/range.py
index 5665b7b..97d2084 100644
--- a/tn/english/rules/range.py
+++ b/tn/english/rules/range.py
@@ -97,7 +97,7 @@ class Range(Processor):
 
             # supports "No. 12" -> "Number 12"
             range_graph |= ((pynini.cross(pynini.union("NO", "No"), "Number") | pynini.cross("no", "number")) +
-                            pynini.union(". ", " ").ques + cardinal)
+                            pynini.cross(pynini.union(". ", " ", ""), " ") + cardinal)
 
             for x in ["/", " / "]:
                 range_graph |= cardinal + (pynini.cross(x, " divided by ") + cardinal).plus
-- 
2.43.0


From 2ae507ed965811aa0d183b20a06f49a9c0bd86a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:43 +0000
Subject: [PATCH 10/44] fix: keep the plural after "twenty one" in English TN
 clock readings with seconds

---
 tn/english/rules/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/english/rules/time.py b/tn/english/rules/time.py
index 8aeee1c..3a46057 100644
--- a/tn/english/rules/time.py
+++ b/tn/english/rules/time.py
@@ -125,7 +125,7 @@ class Time(Processor):
             | pynini.cross("one minutes", "one minute")
             | pynini.cross("one seconds", "one second")
             | pynini.cross("one hours", "one hour"),
-            pynini.union(" ", "[BOS]"),
+            pynini.union("[BOS]", "hour ", "hours ", "and "),
             "",
             self.VCHAR.star,
         )
-- 
2.43.0


From 40e2fb17f555a738fce68f69db1cba7564bedd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 11/44] fix: read "$2.0 million" as money in English TN

---
 tn/english/rules/money.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/english/rules/money.py b/tn/english/rules/money.py
index d46eeb0..d07001e 100644
--- a/tn/english/rules/money.py
+++ b/tn/english/rules/money.py
@@ -108,7 +108,7 @@ class Money(Processor):
                       trimmed_fraction + pynutil.delete('"'))
         optional_integer = (decimal.integer + self.DELETE_SPACE + self.INSERT_SPACE).ques
         money_decimal = (decimal.integer
-                         | decimal.integer + decimal.quantity
+                         | decimal.integer + zero_fraction.ques + decimal.quantity
                          | optional_integer + fractional + decimal.optional_quantity)
         graph_decimal = money_decimal + keep_space + maj_plural
 
-- 
2.43.0


From 050bb9b52dd84fa4f6db9b38d35200f6d98fb739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:54 +0000
Subject: [PATCH 12/44] fix: leave a sentence-final "." out of dotted English
 phone numbers

---
 tn/english/rules/telephone.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tn/english/rules/telephone.py b/tn/english/rules/telephone.py
index 7a57b65..4bace98 100644
--- a/tn/english/rules/telephone.py
+++ b/tn/english/rules/telephone.py
@@ -79,9 +79,11 @@ class Telephone(Processor):
         number_part = self.tag_field("number_part", phone_number_graph)
         self.extension_graph = pynini.closure(digit + self.INSERT_SPACE, 0, 3) + digit
         extension = self.tag_field("extension", self.extension_graph)
-        extension = (self.INSERT_SPACE + extension).ques
+        extension = self.INSERT_SPACE + extension
 
-        graph = plurals._priority_union(country_code + number_part, number_part, self.VCHAR.star).optimize()
+        # Without an extension, a final "." ends the sentence and is not part of the number.
+        whole_number = self.tag_field("number_part", (self.VCHAR.star + (self.VCHAR - ".")) @ phone_number_graph)
+        graph = plurals._priority_union(country_code + whole_number, whole_number, self.VCHAR.star).optimize()
         graph = plurals._priority_union(country_code + number_part + extension, graph, self.VCHAR.star).optimize()
         graph = plurals._priority_union(number_part + extension, graph, self.VCHAR.star).optimize()
 
-- 
2.43.0


From 9fa357ee762881a16ff5c45be7b1109a4d3bcded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:52 +0000
Subject: [PATCH 13/44] fix: accept "degrees celsius" and "revolutions per
 minute" in English ITN measures

---
 itn/english/rules/measure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/itn/english/rules/measure.py b/itn/english/rules/measure.py
index f57a00e..72ae501 100644
--- a/itn/english/rules/measure.py
+++ b/itn/english/rules/measure.py
@@ -54,8 +54,13 @@ class Measure(Processor):
             "ounce": "ounces",
         }
         for name, symbol in singular_names.items():
+            head, per, denominator = name.partition(" per ")
             if name in irregular_plurals:
                 plural_pairs.append((irregular_plurals[name], symbol))
+            elif name.startswith("degree "):
+                plural_pairs.append((name.replace("degree ", "degrees ", 1), symbol))
+            elif denominator and head != "miles":
+                plural_pairs.append((head.rstrip() + "s" + per + denominator, symbol))
             elif name.endswith(("s", "z", "sh", "ch", "x")):
                 plural_pairs.append((name + "es", symbol))
             elif name.endswith("y") and len(name) > 1 and name[-2] not in "aeiou":
-- 
2.43.0


From 32cc1ea28668b106496ecb9c97e4741478f6b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:17 +0000
Subject: [PATCH 14/44] fix: write two-digit minutes for "fifty one to two am"
 in English ITN

---
 itn/english/data/time/minute_to.tsv | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/itn/english/data/time/minute_to.tsv b/itn/english/data/time/minute_to.tsv
index edab4d5..07ad9fc 100644
--- a/itn/english/data/time/minute_to.tsv
+++ b/itn/english/data/time/minute_to.tsv
@@ -48,12 +48,12 @@
 48	12
 49	11
 50	10
-51	9
-52	8
-53	7
-54	6
-55	5
-56	4
-57	3
-58	2
-59	1
+51	09
+52	08
+53	07
+54	06
+55	05
+56	04
+57	03
+58	02
+59	01
-- 
2.43.0


From 2bfde669d5a35fa61c7bc0202a1971b782462aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 15/44] =?UTF-8?q?fix:=20read=20=E4=BA=8C=E6=99=82,=20?=
 =?UTF-8?q?=E4=BA=94=E5=8D=81=E4=BA=8C=E5=88=86=20and=20=E4=BA=94=E5=8D=81?=
 =?UTF-8?q?=E4=BA=8C=E7=A7=92=20in=20Japanese=20ITN?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/data/time/hour.tsv   | 2 +-
 itn/japanese/data/time/minute.tsv | 2 +-
 itn/japanese/data/time/second.tsv | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/itn/japanese/data/time/hour.tsv b/itn/japanese/data/time/hour.tsv
index 39c6325..1d714a1 100644
--- a/itn/japanese/data/time/hour.tsv
+++ b/itn/japanese/data/time/hour.tsv
@@ -1,5 +1,5 @@
 一時	1
-两時	2
+二時	2
 三時	3
 四時	4
 五時	5
diff --git a/itn/japanese/data/time/minute.tsv b/itn/japanese/data/time/minute.tsv
index a60da05..999d0ff 100644
--- a/itn/japanese/data/time/minute.tsv
+++ b/itn/japanese/data/time/minute.tsv
@@ -49,7 +49,7 @@
 四十九分	49
 五十分	50
 五十一分	51
-五二十分	52
+五十二分	52
 五十三分	53
 五十四分	54
 五十五分	55
diff --git a/itn/japanese/data/time/second.tsv b/itn/japanese/data/time/second.tsv
index baf926e..2722fc0 100644
--- a/itn/japanese/data/time/second.tsv
+++ b/itn/japanese/data/time/second.tsv
@@ -49,7 +49,7 @@
 四十九秒	49
 五十秒	50
 五十一秒	51
-五二十秒	52
+五十二秒	52
 五十三秒	53
 五十四秒	54
 五十五秒	55
-- 
2.43.0


From 4af050a68d7a5e2e9117722f34b23e0eee31afdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:53 +0000
Subject: [PATCH 16/44] =?UTF-8?q?fix:=20read=20=E8=B2=A0=E3=81=AE=20(not?=
 =?UTF-8?q?=20the=20simplified=20=E8=B4=9F=E3=81=AE)=20as=20a=20minus=20si?=
 =?UTF-8?q?gn=20in=20Japanese=20ITN?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/data/number/sign.tsv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/japanese/data/number/sign.tsv b/itn/japanese/data/number/sign.tsv
index 49ec76f..4d051bd 100644
--- a/itn/japanese/data/number/sign.tsv
+++ b/itn/japanese/data/number/sign.tsv
@@ -1,4 +1,4 @@
 プラス	+
 プラスマイナス	±
 マイナス	-
-负の	-
\ No newline at end of file
+負の	-
\ No newline at end of file
-- 
2.43.0


From 6d58a4921e12341d558fce327e504f76eb0755c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:54 +0000
Subject: [PATCH 17/44] =?UTF-8?q?fix:=20keep=20the=20sign=20of=20Japanese?=
 =?UTF-8?q?=20ITN=20measures=20and=20money=20("=E3=83=9E=E3=82=A4=E3=83=8A?=
 =?UTF-8?q?=E3=82=B9=E4=B8=89=E7=99=BE=E3=83=A1=E3=83=BC=E3=83=88=E3=83=AB?=
 =?UTF-8?q?")?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/rules/cardinal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/japanese/rules/cardinal.py b/itn/japanese/rules/cardinal.py
index df8bc7e..3808102 100644
--- a/itn/japanese/rules/cardinal.py
+++ b/itn/japanese/rules/cardinal.py
@@ -100,7 +100,7 @@ class Cardinal(Processor):
         # ±0~99999999
         number = (sign.ques + positive_integer).optimize()
         self.number = number
-        self.number_exclude_0_to_9 = teen | tens | hundred | thousand | ten_thousand
+        self.number_exclude_0_to_9 = sign.ques + (teen | tens | hundred | thousand | ten_thousand)
 
         # ±0.0~99999999.99...
         decimal = sign.ques + positive_integer + dot + digits.plus
-- 
2.43.0


From 851bed6ac3c75891315d4ff1721a24a66447f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:54 +0000
Subject: [PATCH 18/44] =?UTF-8?q?fix:=20accept=20a=20zero=20in=20the=20fir?=
 =?UTF-8?q?st=20group=20of=20Japanese=20ITN=20dotted=20addresses=20("?=
 =?UTF-8?q?=E4=B8=80=E3=80=87=E7=82=B9=E3=80=87=E7=82=B9=E3=80=87=E7=82=B9?=
 =?UTF-8?q?=E4=B8=80")?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/rules/cardinal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/japanese/rules/cardinal.py b/itn/japanese/rules/cardinal.py
index 3808102..ca697f6 100644
--- a/itn/japanese/rules/cardinal.py
+++ b/itn/japanese/rules/cardinal.py
@@ -116,7 +116,7 @@ class Cardinal(Processor):
         self.big_integer = number | big_integer
 
         # cardinal string like 127.0.0.1, used in ID, IP, etc.
-        cardinal = digit.plus + (dot + digits.plus).plus
+        cardinal = digit + digits.star + (dot + digits.plus).plus
         # float number like 1.11
         cardinal |= decimal
         # cardinal string like 110 or 12306 or 13125617878, used in phone
-- 
2.43.0


From 5ea48878ffd5e6087037d972119383ddb4034be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:53 +0000
Subject: [PATCH 19/44] =?UTF-8?q?fix:=20write=20the=20sign=20of=20a=20Japa?=
 =?UTF-8?q?nese=20ITN=20fraction=20in=20front=20("=E3=83=9E=E3=82=A4?=
 =?UTF-8?q?=E3=83=8A=E3=82=B9=E5=9B=9B=E5=88=86=E3=81=AE=E4=B8=89"=20is=20?=
 =?UTF-8?q?-3/4,=20not=203/-4)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/rules/cardinal.py | 5 ++++-
 itn/japanese/rules/fraction.py | 8 +++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/itn/japanese/rules/cardinal.py b/itn/japanese/rules/cardinal.py
index ca697f6..9edaacf 100644
--- a/itn/japanese/rules/cardinal.py
+++ b/itn/japanese/rules/cardinal.py
@@ -97,13 +97,16 @@ class Cardinal(Processor):
         # 0~99999999
         positive_integer = ten_thousand_minus | ten_thousand
 
+        self.positive_integer = positive_integer  # used for denominator of fraction
+
         # ±0~99999999
         number = (sign.ques + positive_integer).optimize()
         self.number = number
         self.number_exclude_0_to_9 = sign.ques + (teen | tens | hundred | thousand | ten_thousand)
 
         # ±0.0~99999999.99...
-        decimal = sign.ques + positive_integer + dot + digits.plus
+        self.positive_decimal = positive_integer + dot + digits.plus  # used for denominator of fraction
+        decimal = sign.ques + self.positive_decimal
         self.decimal = decimal
         # % like -27.00%
         percent = (number | decimal) + cross("パーセント", "%")
diff --git a/itn/japanese/rules/fraction.py b/itn/japanese/rules/fraction.py
index 31b1762..a4e6934 100644
--- a/itn/japanese/rules/fraction.py
+++ b/itn/japanese/rules/fraction.py
@@ -32,6 +32,8 @@ class Fraction(Processor):
     def build_tagger(self):
         cardinal = self.cardinal.number
         decimal = self.cardinal.decimal
+        positive_integer = self.cardinal.positive_integer
+        positive_decimal = self.cardinal.positive_decimal
         self.sign = self.apply_input_processor(
             string_file(get_abs_path("japanese/data/number/sign.tsv")),
             self.input_processor,
@@ -40,10 +42,10 @@ class Fraction(Processor):
         fraction_word = delete("分の") | delete(" 分 の　") | delete("分 の　") | delete("分 の")
         root_word = accep("√") | cross("ルート", "√")
 
-        # denominator
+        # denominator, whose sign belongs to the whole fraction
         self.denominator = self.apply_input_processor(
-            (decimal | (cardinal + root_word + cardinal) | (root_word + cardinal) | cardinal) + delete(" ").ques +
-            fraction_word,
+            (positive_decimal | (positive_integer + root_word + cardinal) | (root_word + cardinal) | positive_integer) +
+            delete(" ").ques + fraction_word,
             self.input_processor,
         )
 
-- 
2.43.0


From 8b4c67f025a10a7de4ac880ff2126e1cefcb28e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:33 +0000
Subject: [PATCH 20/44] =?UTF-8?q?fix:=20let=20one=20sign,=20not=20two,=20l?=
 =?UTF-8?q?ead=20a=20large=20Japanese=20ITN=20number=20("=E3=83=97?=
 =?UTF-8?q?=E3=83=A9=E3=82=B9=E3=83=9E=E3=82=A4=E3=83=8A=E3=82=B9=E5=8D=81?=
 =?UTF-8?q?=E5=85=AB=E5=84=84"=20is=20=C2=B118=E5=84=84)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/rules/cardinal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/japanese/rules/cardinal.py b/itn/japanese/rules/cardinal.py
index 9edaacf..25c099a 100644
--- a/itn/japanese/rules/cardinal.py
+++ b/itn/japanese/rules/cardinal.py
@@ -135,7 +135,7 @@ class Cardinal(Processor):
             else:
                 # 一 => 一   四 => 四   一秒 => 1秒   一万二 => 一万二 二三 => 23
                 number_two_plus = sign.ques + (
-                    (digits + digits.plus) | teen | tens | hundred | thousand | ten_thousand | big_integer)
+                    (digits + digits.plus) | teen | tens | hundred | thousand | ten_thousand) | big_integer
 
                 cardinal |= number_two_plus
 
-- 
2.43.0


From 3c4d9e565594fea53d09bd290d3fe3d85148a65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:04 +0000
Subject: [PATCH 21/44] =?UTF-8?q?fix:=20Japanese=20ITN=20=E4=BA=94?=
 =?UTF-8?q?=E5=8D=83=E3=82=AD=E3=83=AD=E3=83=A1=E3=83=BC=E3=83=88=E3=83=AB?=
 =?UTF-8?q?=20keeps=20its=20thousands=20with=20the=20number?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

九万三千キロメートル was read as 九万三 of 千キロメートル (90003km): both
splittings cost the same. The unit 千キロメートル now costs a little, so it is
used only where the number cannot take the 千 (三点五千キロメートル).
---
 itn/japanese/data/measure/unit_en.tsv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/japanese/data/measure/unit_en.tsv b/itn/japanese/data/measure/unit_en.tsv
index 4de2ba3..49ccc45 100644
--- a/itn/japanese/data/measure/unit_en.tsv
+++ b/itn/japanese/data/measure/unit_en.tsv
@@ -1,7 +1,7 @@
 華氏	f
 摂氏	c
 キロメートル	km
-千キロメートル	km
+千キロメートル	km	0.01
 メートル	m
 センチ	cm
 インチ	インチ
-- 
2.43.0


From b604b94b98c173232106b8ff546f30235f713848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 22/44] fix: a FIFO in a cache bundle cannot hang the reader

Opening a FIFO for reading blocks until a writer comes, so one in place of a
bundle file stopped every processor for good. Open without blocking; the
regular-file check that follows rejects it.
---
 tn/cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tn/cache.py b/tn/cache.py
index 62f6c96..14fbba2 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -274,6 +274,7 @@ def _read_regular_file(path, expected_size=None, max_size=None):
         raise CachePathError("cache file is not a regular non-link file: {}".format(path))
 
     flags = os.O_RDONLY | getattr(os, "O_CLOEXEC", 0) | getattr(os, "O_NOFOLLOW", 0)
+    flags |= getattr(os, "O_NONBLOCK", 0)
     descriptor = os.open(os.fspath(path), flags)
     try:
         return _read_open_regular(
@@ -289,6 +290,7 @@ def _read_regular_file(path, expected_size=None, max_size=None):
 
 def _read_regular_at(directory_fd, basename, expected_size=None, max_size=None):
     flags = os.O_RDONLY | getattr(os, "O_CLOEXEC", 0) | getattr(os, "O_NOFOLLOW", 0)
+    flags |= getattr(os, "O_NONBLOCK", 0)
     try:
         descriptor = os.open(basename, flags, dir_fd=directory_fd)
     except OSError as error:
-- 
2.43.0


From b8b42f8cc0033d71c69b5cd532d36cab4091cb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 23/44] fix: a manifest nested too deeply is a corrupt manifest

json.loads raises RecursionError for it, which escaped instead of leading to a
rebuild like every other unreadable manifest.
---
 tn/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/cache.py b/tn/cache.py
index 14fbba2..5afd7d8 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -551,7 +551,7 @@ class CacheBundle:
                 manifest = json.loads(manifest_bytes.decode("utf-8"))
             except FileNotFoundError:
                 return None
-            except (OSError, UnicodeError, ValueError):
+            except (OSError, UnicodeError, ValueError, RecursionError):
                 return None
             if not isinstance(manifest, dict):
                 return None
-- 
2.43.0


From e91933d069b3c3c340e8d87d01a0abec048778a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 24/44] fix: the source fingerprint frames file contents

Only the path length was hashed, so content moved from one file to the end of
the one before it could keep the fingerprint and reuse a stale bundle.
---
 tn/cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tn/cache.py b/tn/cache.py
index 5afd7d8..24a4348 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -118,9 +118,9 @@ def production_source_fingerprint(project_root=None):
         relative_path = source.relative_to(project_root).as_posix().encode("utf-8")
         digest.update(len(relative_path).to_bytes(8, "big"))
         digest.update(relative_path)
-        with open(source, "rb") as source_file:
-            for chunk in iter(lambda: source_file.read(1024 * 1024), b""):
-                digest.update(chunk)
+        contents = source.read_bytes()
+        digest.update(len(contents).to_bytes(8, "big"))
+        digest.update(contents)
     return digest.hexdigest()
 
 
-- 
2.43.0


From 99e0e32bfd56597435d3bb6830e9b288f8166477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:34 +0000
Subject: [PATCH 25/44] fix: an unreadable lock owner never hides the lock
 timeout

The owner payload is diagnostic only; json.loads can also raise
RecursionError for it.
---
 tn/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/cache.py b/tn/cache.py
index 24a4348..fa9c843 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -646,7 +646,7 @@ class CacheBundle:
             if not isinstance(payload, dict):
                 return "non-dict owner payload"
             return repr(payload)
-        except (OSError, UnicodeError, ValueError, TypeError) as error:
+        except (OSError, UnicodeError, ValueError, TypeError, RecursionError) as error:
             return "unreadable owner payload {!r}".format(error)
 
     @staticmethod
-- 
2.43.0


From fb8915c7ad31d523379c777f52b3f002bae1867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:05 +0000
Subject: [PATCH 26/44] fix: give the C++ runtime the Japanese TN field orders
 of the Python pipeline

---
 runtime/processor/wetext_token_parser.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/processor/wetext_token_parser.cc b/runtime/processor/wetext_token_parser.cc
index d05dbc7..df2895e 100644
--- a/runtime/processor/wetext_token_parser.cc
+++ b/runtime/processor/wetext_token_parser.cc
@@ -35,7 +35,11 @@ const std::unordered_map<std::string, std::vector<std::string>> ZH_TN_ORDERS = {
     {"money", {"value", "currency"}},
     {"time", {"noon", "hour", "minute", "second"}}};
 const std::unordered_map<std::string, std::vector<std::string>> JA_TN_ORDERS = {
-    {"date", {"year", "month", "day"}}, {"money", {"value", "currency"}}};
+    {"date", {"year", "month", "day"}},
+    {"fraction", {"denominator", "numerator"}},
+    {"measure", {"denominator", "numerator", "value"}},
+    {"money", {"value", "currency"}},
+    {"time", {"noon", "hour", "minute", "second"}}};
 
 const std::unordered_map<std::string, std::vector<std::string>> EN_TN_ORDERS = {
     {"date", {"preserve_order", "text", "day", "month", "year"}},
-- 
2.43.0


From 1efe590fb7b1dfc7d5085f9d8f532bade0a9ae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:05 +0000
Subject: [PATCH 27/44] fix: keep fields outside the schema in the C++ token
 parser, as Python does

---
 runtime/processor/wetext_token_parser.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/runtime/processor/wetext_token_parser.h b/runtime/processor/wetext_token_parser.h
index 0ef83bf..0a7d84e 100644
--- a/runtime/processor/wetext_token_parser.h
+++ b/runtime/processor/wetext_token_parser.h
@@ -15,6 +15,7 @@
 #ifndef PROCESSOR_WETEXT_TOKEN_PARSER_H_
 #define PROCESSOR_WETEXT_TOKEN_PARSER_H_
 
+#include <algorithm>
 #include <set>
 #include <string>
 #include <unordered_map>
@@ -49,7 +50,15 @@ struct Token {
     std::string output = name + " {";
     if (orders.count(name) > 0 && (members.count("preserve_order") == 0 ||
                                    members.at("preserve_order") != "true")) {
-      order = orders.at(name);
+      std::vector<std::string> canonical = orders.at(name);
+      const size_t known = canonical.size();
+      for (const auto& key : order) {
+        const auto end = canonical.begin() + known;
+        if (std::find(canonical.begin(), end, key) == end) {
+          canonical.emplace_back(key);
+        }
+      }
+      order = canonical;
     }
 
     for (const auto& key : order) {
-- 
2.43.0


From 9bd0cc5a1db74cbb5effb56e8f32473a76fae4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:05 +0000
Subject: [PATCH 28/44] fix: refuse duplicate token fields in the C++ token
 parser, as Python does

---
 runtime/processor/wetext_token_parser.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/processor/wetext_token_parser.h b/runtime/processor/wetext_token_parser.h
index 0a7d84e..fb6e3ba 100644
--- a/runtime/processor/wetext_token_parser.h
+++ b/runtime/processor/wetext_token_parser.h
@@ -17,6 +17,7 @@
 
 #include <algorithm>
 #include <set>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <vector>
@@ -41,8 +42,11 @@ struct Token {
   explicit Token(const std::string& name) : name(name) {}
 
   void Append(const std::string& key, const std::string& value) {
+    if (!members.emplace(key, value).second) {
+      throw std::invalid_argument("duplicate field " + key + " in token " +
+                                  name);
+    }
     order.emplace_back(key);
-    members[key] = value;
   }
 
   std::string String(
-- 
2.43.0


From eeac5a62c952d317538bfac32f838d91af1686c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:33 +0000
Subject: [PATCH 29/44] fix: let no C++ exception escape through the C API

---
 runtime/processor/wetext_processor_c_api.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/runtime/processor/wetext_processor_c_api.cc b/runtime/processor/wetext_processor_c_api.cc
index ec172fe..2fc334f 100644
--- a/runtime/processor/wetext_processor_c_api.cc
+++ b/runtime/processor/wetext_processor_c_api.cc
@@ -44,8 +44,12 @@ void wetext_destroy_processor(WetextProcessorHandle handle) {
 #define WETEXT_RETURN_STRING(expr)                    \
   if (!handle || !input) return nullptr;              \
   Processor* proc = static_cast<Processor*>(handle);  \
-  std::string result = (expr);                        \
-  return CopyToCString(result);
+  try {                                               \
+    std::string result = (expr);                      \
+    return CopyToCString(result);                     \
+  } catch (...) {                                     \
+    return nullptr;                                   \
+  }
 
 const char* wetext_tag(WetextProcessorHandle handle, const char* input) {
   WETEXT_RETURN_STRING(proc->Tag(input));
-- 
2.43.0


From 99814c67e1bd8ace643f3b51550902b1c7664e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:33 +0000
Subject: [PATCH 30/44] fix: refuse to make a C++ processor whose graphs cannot
 be read

---
 runtime/processor/wetext_processor.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/processor/wetext_processor.cc b/runtime/processor/wetext_processor.cc
index 96077b1..9922662 100644
--- a/runtime/processor/wetext_processor.cc
+++ b/runtime/processor/wetext_processor.cc
@@ -14,6 +14,8 @@
 
 #include "processor/wetext_processor.h"
 
+#include <stdexcept>
+
 #include "utils/wetext_log.h"
 
 namespace wetext {
@@ -21,6 +23,9 @@ Processor::Processor(const std::string& tagger_path,
                      const std::string& verbalizer_path) {
   tagger_.reset(StdVectorFst::Read(tagger_path));
   verbalizer_.reset(StdVectorFst::Read(verbalizer_path));
+  if (!tagger_ || !verbalizer_) {
+    throw std::runtime_error("cannot read the tagger or verbalizer fst");
+  }
   compiler_ = std::make_shared<StringCompiler<StdArc>>();
   printer_ = std::make_shared<StringPrinter<StdArc>>();
 
-- 
2.43.0


From e5d4767d04159b0438d1a8fc066b2f68d6845875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:09 +0000
Subject: [PATCH 31/44] fix: pass real UTF-8 through JNI and leak no strings

---
 runtime/bindings/android/wetextprocessing.cc | 43 ++++++++++++++++----
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/runtime/bindings/android/wetextprocessing.cc b/runtime/bindings/android/wetextprocessing.cc
index 3544cfc..c573123 100644
--- a/runtime/bindings/android/wetextprocessing.cc
+++ b/runtime/bindings/android/wetextprocessing.cc
@@ -22,32 +22,57 @@ namespace wetextprocessing {
 std::shared_ptr<wetext::Processor> processorTN;
 std::shared_ptr<wetext::Processor> processorITN;
 
+// JNI's own UTF functions speak modified UTF-8, in which characters outside the
+// BMP are surrogate pairs that no grammar accepts, so Java does the encoding.
+std::string ToUtf8(JNIEnv* env, jstring text) {
+  jclass cls = env->FindClass("java/lang/String");
+  jmethodID get_bytes =
+      env->GetMethodID(cls, "getBytes", "(Ljava/lang/String;)[B");
+  jbyteArray bytes = static_cast<jbyteArray>(
+      env->CallObjectMethod(text, get_bytes, env->NewStringUTF("UTF-8")));
+  std::string output(env->GetArrayLength(bytes), '\0');
+  env->GetByteArrayRegion(bytes, 0, output.size(),
+                          reinterpret_cast<jbyte*>(output.data()));
+  return output;
+}
+
+jstring ToJava(JNIEnv* env, const std::string& text) {
+  jclass cls = env->FindClass("java/lang/String");
+  jmethodID constructor =
+      env->GetMethodID(cls, "<init>", "([BLjava/lang/String;)V");
+  jbyteArray bytes = env->NewByteArray(text.size());
+  env->SetByteArrayRegion(bytes, 0, text.size(),
+                          reinterpret_cast<const jbyte*>(text.data()));
+  return static_cast<jstring>(
+      env->NewObject(cls, constructor, bytes, env->NewStringUTF("UTF-8")));
+}
+
 void init(JNIEnv* env, jobject, jstring jModelDir) {
-  const char* pModelDir = env->GetStringUTFChars(jModelDir, nullptr);
+  std::string modelDir = ToUtf8(env, jModelDir);
 
-  std::string tnTagger = std::string(pModelDir) + "/zh_tn_tagger.fst";
-  std::string tnVerbalizer = std::string(pModelDir) + "/zh_tn_verbalizer.fst";
+  std::string tnTagger = modelDir + "/zh_tn_tagger.fst";
+  std::string tnVerbalizer = modelDir + "/zh_tn_verbalizer.fst";
   processorTN = std::make_shared<wetext::Processor>(tnTagger, tnVerbalizer);
 
-  std::string itnTagger = std::string(pModelDir) + "/zh_itn_tagger.fst";
-  std::string itnVerbalizer = std::string(pModelDir) + "/zh_itn_verbalizer.fst";
+  std::string itnTagger = modelDir + "/zh_itn_tagger.fst";
+  std::string itnVerbalizer = modelDir + "/zh_itn_verbalizer.fst";
   processorITN = std::make_shared<wetext::Processor>(itnTagger, itnVerbalizer);
 }
 
 jstring normalize(JNIEnv* env, jobject, jstring input) {
-  std::string input_text = std::string(env->GetStringUTFChars(input, nullptr));
+  std::string input_text = ToUtf8(env, input);
   std::string tagged_text = processorTN->Tag(input_text);
   std::string normalized_text = processorTN->Verbalize(tagged_text);
 
-  return env->NewStringUTF(normalized_text.c_str());
+  return ToJava(env, normalized_text);
 }
 
 jstring inverse_normalize(JNIEnv* env, jobject, jstring input) {
-  std::string input_text = std::string(env->GetStringUTFChars(input, nullptr));
+  std::string input_text = ToUtf8(env, input);
   std::string tagged_text = processorITN->Tag(input_text);
   std::string normalized_text = processorITN->Verbalize(tagged_text);
 
-  return env->NewStringUTF(normalized_text.c_str());
+  return ToJava(env, normalized_text);
 }
 }  // namespace wetextprocessing
 
-- 
2.43.0


From cb39d30242a675decce3a8c1d07ca61aeaaac967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:26 +0000
Subject: [PATCH 32/44] fix: report unreadable graphs to Java as an exception

---
 runtime/bindings/android/wetextprocessing.cc | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/runtime/bindings/android/wetextprocessing.cc b/runtime/bindings/android/wetextprocessing.cc
index c573123..8626e0f 100644
--- a/runtime/bindings/android/wetextprocessing.cc
+++ b/runtime/bindings/android/wetextprocessing.cc
@@ -50,13 +50,19 @@ jstring ToJava(JNIEnv* env, const std::string& text) {
 void init(JNIEnv* env, jobject, jstring jModelDir) {
   std::string modelDir = ToUtf8(env, jModelDir);
 
-  std::string tnTagger = modelDir + "/zh_tn_tagger.fst";
-  std::string tnVerbalizer = modelDir + "/zh_tn_verbalizer.fst";
-  processorTN = std::make_shared<wetext::Processor>(tnTagger, tnVerbalizer);
-
-  std::string itnTagger = modelDir + "/zh_itn_tagger.fst";
-  std::string itnVerbalizer = modelDir + "/zh_itn_verbalizer.fst";
-  processorITN = std::make_shared<wetext::Processor>(itnTagger, itnVerbalizer);
+  try {
+    std::string tnTagger = modelDir + "/zh_tn_tagger.fst";
+    std::string tnVerbalizer = modelDir + "/zh_tn_verbalizer.fst";
+    processorTN = std::make_shared<wetext::Processor>(tnTagger, tnVerbalizer);
+
+    std::string itnTagger = modelDir + "/zh_itn_tagger.fst";
+    std::string itnVerbalizer = modelDir + "/zh_itn_verbalizer.fst";
+    processorITN =
+        std::make_shared<wetext::Processor>(itnTagger, itnVerbalizer);
+  } catch (const std::exception& e) {
+    env->ThrowNew(env->FindClass("java/lang/IllegalArgumentException"),
+                  e.what());
+  }
 }
 
 jstring normalize(JNIEnv* env, jobject, jstring input) {
-- 
2.43.0


From e685040814ae9699ce1df226067a9a530212d148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 33/44] fix: full_to_half converts the full-width number sign
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

pynini.string_file takes an unescaped # as the start of a comment, so the row made ＃ stand for itself.
---
 itn/japanese/data/char/fullwidth_to_halfwidth.tsv | 2 +-
 tn/chinese/data/char/fullwidth_to_halfwidth.tsv   | 2 +-
 tn/japanese/data/char/fullwidth_to_halfwidth.tsv  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/itn/japanese/data/char/fullwidth_to_halfwidth.tsv b/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..5f629f6 100644
--- a/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
+++ b/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
diff --git a/tn/chinese/data/char/fullwidth_to_halfwidth.tsv b/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..5f629f6 100644
--- a/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
+++ b/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
diff --git a/tn/japanese/data/char/fullwidth_to_halfwidth.tsv b/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..5f629f6 100644
--- a/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
+++ b/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
-- 
2.43.0


From 94d1a9409d7d5df740fab5733b9628e6742cf2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 34/44] fix: read the number sign in English e-mail and web
 addresses

pynini.string_file takes an unescaped # as the start of a comment, so the row was skipped.
---
 itn/english/data/electronic/symbols.tsv | 2 +-
 tn/english/data/electronic/symbol.tsv   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/itn/english/data/electronic/symbols.tsv b/itn/english/data/electronic/symbols.tsv
index 5be8da8..093867a 100644
--- a/itn/english/data/electronic/symbols.tsv
+++ b/itn/english/data/electronic/symbols.tsv
@@ -3,7 +3,7 @@
 -	hyphen
 _	underscore
 !	exclamation mark
-#	number sign
+\#	number sign
 $	dollar sign
 %	percent sign
 &	ampersand
diff --git a/tn/english/data/electronic/symbol.tsv b/tn/english/data/electronic/symbol.tsv
index 5e8973f..b25385a 100644
--- a/tn/english/data/electronic/symbol.tsv
+++ b/tn/english/data/electronic/symbol.tsv
@@ -2,7 +2,7 @@
 -	dash
 _	underscore
 !	exclamation mark
-#	number sign
+\#	number sign
 $	dollar sign
 %	percent
 &	ampersand
-- 
2.43.0


From f52ee10edeafa41bcd976384b8fa2d9b7ad56708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 35/44] fix: write c sharp as C# in English ITN

pynini.string_file takes an unescaped # as the start of a comment, so the rows only listed the letter c.
---
 itn/english/data/whitelist.tsv | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/itn/english/data/whitelist.tsv b/itn/english/data/whitelist.tsv
index c7201ae..698cd51 100644
--- a/itn/english/data/whitelist.tsv
+++ b/itn/english/data/whitelist.tsv
@@ -64,7 +64,7 @@ BSP	b s p
 BasePOD	base pod
 BasePOD	basepod
 Billion-X	billion X
-C#	c sharp
+C\#	c sharp
 C++	c plus plus
 CAT5	cat five
 CAT5e	cat five e
@@ -385,7 +385,7 @@ XML	x m l
 Zen 2	zen two
 Zen 3	zen three
 Zen 4	zen four
-c#	c sharp
+c\#	c sharp
 c++	c plus plus
 cuBLAS	cue blah
 cuBLAS	cue blahs
-- 
2.43.0


From 1e3d1a6a211e372985d7d9647edc22198913d5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:05 +0000
Subject: [PATCH 36/44] fix: a clock time in a sentence is not read as a range

The two readings of 9:20 differed by 2e-5, which single-precision path weights
lose after three ordinary words: 'the meeting starts at 9:20' was read 'nine to
twenty'.
---
 tn/english/rules/range.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tn/english/rules/range.py b/tn/english/rules/range.py
index 97d2084..833d832 100644
--- a/tn/english/rules/range.py
+++ b/tn/english/rules/range.py
@@ -78,7 +78,8 @@ class Range(Processor):
         if not self.deterministic:
             cardinal_minus_cardinal_graph = (cardinal + delete_space + pynini.cross("-", " minus ") + delete_space + cardinal)
             range_graph |= pynutil.add_weight(cardinal_minus_cardinal_graph, 0.0001)
-            range_graph |= cardinal + delete_space + pynini.cross(":", " to ") + delete_space + cardinal
+            # A clock time keeps precedence: the margin has to survive the rounding of a whole sentence's path weight.
+            range_graph |= pynutil.add_weight(cardinal + delete_space + pynini.cross(":", " to ") + delete_space + cardinal, 0.1)
 
             # MULTIPLY
             for x in [" x ", "x"]:
-- 
2.43.0


From 2417b70f7b2d11b32f66c1ef285f5e5d60123e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:26 +0000
Subject: [PATCH 37/44] fix: a Chinese time without seconds is not given any

---
 itn/chinese/data/time/second.tsv | 1 -
 itn/chinese/rules/time.py        | 5 +++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/itn/chinese/data/time/second.tsv b/itn/chinese/data/time/second.tsv
index 3a0116a..41fcc7d 100644
--- a/itn/chinese/data/time/second.tsv
+++ b/itn/chinese/data/time/second.tsv
@@ -1,4 +1,3 @@
-	00
 一秒	01
 二秒	02
 三秒	03
diff --git a/itn/chinese/rules/time.py b/itn/chinese/rules/time.py
index 2af3084..7f736a4 100644
--- a/itn/chinese/rules/time.py
+++ b/itn/chinese/rules/time.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 
 from pynini import string_file
-from pynini.lib.pynutil import delete, insert
+from pynini.lib.pynutil import add_weight, delete, insert
 
 from tn.processor import Processor
 from itn.utils import get_abs_path
@@ -34,7 +34,8 @@ class Time(Processor):
         noon = string_file(get_abs_path("chinese/data/time/noon.tsv"))
 
         self.hour = h
-        self.minute_tagger = m + delete("分").ques | m_zero + delete("分")
+        # "X点零Y分" is a time rather than a score of X.0Y points
+        self.minute_tagger = m + delete("分").ques | add_weight(m_zero + delete("分"), -0.1)
         self.minute = self.minute_tagger | m_zero
         self.minute_zero_no_fen = m_zero
         self.second = s
-- 
2.43.0


From a81fa59575586f955734b5a1431d2bf53783e7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:34 +0000
Subject: [PATCH 38/44] =?UTF-8?q?fix:=20write=20three=20point=20five=20hun?=
 =?UTF-8?q?dred=20million=20metres=20with=20=E4=BA=BF=20in=20Chinese=20ITN?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

三点五亿米 came out as 3.500Mm: the zeros of 亿 can only continue a plain integer.
---
 itn/chinese/rules/measure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/itn/chinese/rules/measure.py b/itn/chinese/rules/measure.py
index 7edf092..c4fbbf4 100644
--- a/itn/chinese/rules/measure.py
+++ b/itn/chinese/rules/measure.py
@@ -41,7 +41,7 @@ class Measure(Processor):
         to = cross("到", "~") | cross("到百分之", "~")
 
         units = add_weight((accep("亿") | accep("兆") | accep("万")), -0.5).ques + units_zh
-        units |= add_weight((cross("亿", "00M") | cross("兆", "T") | cross("万", "W")), -0.5).ques + (add_weight(units_en, -1.0))
+        units |= add_weight((accep("亿") | cross("兆", "T") | cross("万", "W")), -0.5).ques + (add_weight(units_en, -1.0))
 
         number = self.cardinal.number if self.enable_0_to_9 else self.cardinal.number_exclude_0_to_9
         # 百分之三十, 百分三十, 百分之百，百分之三十到四十, 百分之三十到百分之五十五
@@ -51,6 +51,9 @@ class Measure(Processor):
 
         # 十千米每小时 => 10km/h, 十一到一百千米每小时 => 11~100km/h
         measure = number + (to + number).ques + units
+        # 三十亿米 => 3000Mm, the two zeros only continue a plain integer
+        integer = number @ (union("+", "-", "±").ques + self.DIGIT.plus)
+        measure |= integer + add_weight(cross("亿", "00M"), -0.6) + add_weight(units_en, -1.0)
 
         # XXX: 特殊case处理, ignore enable_standalone_number
         # digit + union("百", "千", "万") + digit + unit
-- 
2.43.0


From 307b2a39388155afca3f7ba45332e9b63acf78fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:32 +0000
Subject: [PATCH 39/44] fix: give three hundred and seventy or eighty its tens
 in Chinese ITN
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

三百七八公里 came out as 37-8km instead of 370-80km.
---
 itn/chinese/rules/cardinal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/itn/chinese/rules/cardinal.py b/itn/chinese/rules/cardinal.py
index f98a2f3..fbb26a9 100644
--- a/itn/chinese/rules/cardinal.py
+++ b/itn/chinese/rules/cardinal.py
@@ -37,6 +37,10 @@ class Cardinal(Processor):
         special_tilde = string_file(get_abs_path("chinese/data/number/special_tilde.tsv"))  # 七八十->70~80
         special_tilde = special_tilde + add_weight((accep("万") | accep("亿")), -0.1).ques
         special_dash = string_file(get_abs_path("chinese/data/number/special_dash.tsv"))  # 七八十->70-80
+        # 七八 after 百: 三百七八 => 370-80
+        hundred_dash = special_dash @ (self.DIGIT + insert("0") + accep("-") + self.DIGIT + insert("0") | self.DIGIT**2 +
+                                       accep("-") + self.DIGIT**2)
+        hundred_dash = hundred_dash + add_weight((accep("万") | accep("亿")), -0.1).ques
         special_dash = special_dash + add_weight((accep("万") | accep("亿")), -0.1).ques
         sign = string_file(get_abs_path("chinese/data/number/sign.tsv"))  # + -
         dot = string_file(get_abs_path("chinese/data/number/dot.tsv"))  # .
@@ -92,7 +96,7 @@ class Cardinal(Processor):
         # 十七八 => 17-8, 四十五六 => 45-6, 三百七八十 => 370-80, 四十五六万 => 45-6万, 一万六七 => 16000-7000
         _special_dash = cross("十", "1") + special_dash
         _special_dash |= digit + delete("十") + special_dash
-        _special_dash |= digit + delete("百") + special_dash
+        _special_dash |= digit + delete("百") + hundred_dash
         _special_dash |= digit + delete("万") + digit + insert("000-") + digit + insert("000")
         number |= _special_dash
 
-- 
2.43.0


From f1e0f82857f23951d8b8d79ed2771bf4e30a33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:03 +0000
Subject: [PATCH 40/44] fix: read three thousand seven or eight hundred as one
 range in Chinese ITN
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

三千七八百米 came out as 3000700~800m.
---
 itn/chinese/rules/cardinal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/itn/chinese/rules/cardinal.py b/itn/chinese/rules/cardinal.py
index fbb26a9..5006fa0 100644
--- a/itn/chinese/rules/cardinal.py
+++ b/itn/chinese/rules/cardinal.py
@@ -41,6 +41,10 @@ class Cardinal(Processor):
         hundred_dash = special_dash @ (self.DIGIT + insert("0") + accep("-") + self.DIGIT + insert("0") | self.DIGIT**2 +
                                        accep("-") + self.DIGIT**2)
         hundred_dash = hundred_dash + add_weight((accep("万") | accep("亿")), -0.1).ques
+        # 七八百 or 七八 after 千: 三千七八百 => 3700-800
+        thousand_dash = special_dash @ (self.DIGIT + insert("00") + accep("-") + self.DIGIT + insert("00") | self.DIGIT**3 +
+                                        accep("-") + self.DIGIT**3)
+        thousand_dash = thousand_dash + add_weight((accep("万") | accep("亿")), -0.1).ques
         special_dash = special_dash + add_weight((accep("万") | accep("亿")), -0.1).ques
         sign = string_file(get_abs_path("chinese/data/number/sign.tsv"))  # + -
         dot = string_file(get_abs_path("chinese/data/number/dot.tsv"))  # .
@@ -97,6 +101,7 @@ class Cardinal(Processor):
         _special_dash = cross("十", "1") + special_dash
         _special_dash |= digit + delete("十") + special_dash
         _special_dash |= digit + delete("百") + hundred_dash
+        _special_dash |= digit + delete("千") + thousand_dash
         _special_dash |= digit + delete("万") + digit + insert("000-") + digit + insert("000")
         number |= _special_dash
 
-- 
2.43.0


From 408a63260c55f8b2e5d1cbc8cac19bb7380ea3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:48 +0000
Subject: [PATCH 41/44] fix: write an IP address with a part like thirty in
 digits in English ITN

seven two dot two three dot thirty dot three five came out as
72.23.thirty.35: the reading as a host name was cheaper.
---
 itn/english/rules/telephone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itn/english/rules/telephone.py b/itn/english/rules/telephone.py
index f994f83..7d1290d 100644
--- a/itn/english/rules/telephone.py
+++ b/itn/english/rules/telephone.py
@@ -100,7 +100,7 @@ class Telephone(Processor):
         ip_token = (single + closure(ds + single, 0, 2)
                     | double
                     | triple
-                    | add_weight(two_digit, 0.002)
+                    | add_weight(two_digit, 0.0001)
                     | single + ds + two_digit
                     | two_digit + ds + single)
         ip = ip_token + (cross(" dot ", ".") + ip_token)**3
-- 
2.43.0


From b9f043ef237fa24551f223b92cf6e4ba20b83e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:56 +0000
Subject: [PATCH 42/44] fix: read decades such as 1980s as decades in English
 TN

The rewrite that turns the reading of a decade into a plural was built over a
single character instead of any string, so it accepted nothing and 1980s was
read as a number of seconds. Decades of this century take the same path.
---
 tn/english/rules/date.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tn/english/rules/date.py b/tn/english/rules/date.py
index 96b2f48..941dafc 100644
--- a/tn/english/rules/date.py
+++ b/tn/english/rules/date.py
@@ -56,9 +56,8 @@ def get_four_digit_year_graph(deterministic: bool = False):
     """
     graph_ties = get_ties_graph(deterministic)
 
-    graph_with_s = ((graph_ties + Processor("tmp").INSERT_SPACE + graph_ties)
-                    | (graph_teen + Processor("tmp").INSERT_SPACE +
-                       (ties_graph | pynini.cross("1", "ten")))) + pynutil.delete("0s")
+    graph_with_s = (graph_ties + Processor("tmp").INSERT_SPACE +
+                    (ties_graph | pynini.cross("1", "ten"))) + pynutil.delete("0s")
 
     graph_with_s |= ((graph_teen | graph_ties) + Processor("tmp").INSERT_SPACE + pynini.cross("00", "hundred") +
                      pynutil.delete("s"))
@@ -66,8 +65,8 @@ def get_four_digit_year_graph(deterministic: bool = False):
         pynini.cross("y", "ies") | pynutil.insert("s"),
         "",
         "[EOS]",
-        Processor("tmp").VCHAR,
-    ).star)
+        Processor("tmp").VCHAR.star,
+    ))
 
     graph = graph_ties + Processor("tmp").INSERT_SPACE + graph_ties
     graph |= (graph_teen | graph_ties) + Processor("tmp").INSERT_SPACE + pynini.cross("00", "hundred")
@@ -77,7 +76,7 @@ def get_four_digit_year_graph(deterministic: bool = False):
     thousand_graph |= (graph_digit + Processor("tmp").INSERT_SPACE + pynini.cross("000", "thousand") +
                        pynutil.delete(" ").ques + pynini.accep("s"))
 
-    graph |= graph_with_s
+    graph |= pynutil.add_weight(graph_with_s, 0.0001)
     if deterministic:
         graph = plurals._priority_union(thousand_graph, graph, Processor("tmp").VCHAR.star)
     else:
-- 
2.43.0


From b81796b9c51437a81f93db679932b281d30b287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:34 +0000
Subject: [PATCH 43/44] fix: read an address on a numbered street in English TN

The number of the street was composed with the ordinal verbalizer, which expects
the digits and not their reading, so no address with 5th Ave or 42nd Street matched.
---
 tn/english/rules/measure.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/tn/english/rules/measure.py b/tn/english/rules/measure.py
index 2128420..b8f476d 100644
--- a/tn/english/rules/measure.py
+++ b/tn/english/rules/measure.py
@@ -203,12 +203,7 @@ class Measure(Processor):
                 integer: "2788 San Tomas Expy, Santa Clara, CA 95051"
         """
         ordinal = self.ordinal
-        ordinal_verbalizer = ordinal.graph_v
-        ordinal_tagger = ordinal.graph
-        ordinal_num = pynini.compose(
-            pynutil.insert('integer: "') + ordinal_tagger + pynutil.insert('"'),
-            ordinal_verbalizer,
-        )
+        ordinal_num = pynini.compose(ordinal.graph, ordinal.suffix)
 
         address_num = self.DIGIT**(1, 2) @ cardinal.graph_hundred_component_at_least_one_none_zero_digit
         address_num += self.INSERT_SPACE + self.DIGIT**2 @ (pynini.cross("0", "zero ").ques +
-- 
2.43.0


From 522ff948222a04b195b85bd7ebb3906d9d437957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:34 +0000
Subject: [PATCH 44/44] fix: read the base of a square or a cube in English TN

5^2 was read as "5 squared", with the digits left as they were.
---
 tn/english/rules/serial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tn/english/rules/serial.py b/tn/english/rules/serial.py
index fafd048..4f43e5b 100644
--- a/tn/english/rules/serial.py
+++ b/tn/english/rules/serial.py
@@ -65,8 +65,9 @@ class Serial(Processor):
         serial_graph = pynini.compose(pynini.difference(self.VSIGMA, pynini.project(self.ordinal.graph, "input")),
                                       serial_graph).optimize()
 
-        serial_graph |= (pynini.closure(self.NOT_SPACE, 1) +
-                         (pynini.cross("^2", " squared") | pynini.cross("^3", " cubed")).optimize())
+        base = pynini.closure(pynini.difference(self.NOT_SPACE, self.DIGIT), 1) | num_graph
+        power = pynini.cross("^2", " squared") | pynini.cross("^3", " cubed")
+        serial_graph |= pynutil.add_weight((base + power).optimize(), -0.0001)
 
         serial_graph = (pynini.closure((serial_graph | num_graph | alphas) + delimiter) + serial_graph +
                         pynini.closure(delimiter + (serial_graph | num_graph | alphas)))
-- 
2.43.0

