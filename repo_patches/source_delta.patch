From 94dc666aa7704d5f93a6e17618d598f1c3092d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:03 +0000
Subject: [PATCH 01/14] fix: treat a too deeply nested cache manifest as a miss

---
 tn/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/cache.py b/tn/cache.py
index 62f6c96..69b831c 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -549,7 +549,7 @@ class CacheBundle:
                 manifest = json.loads(manifest_bytes.decode("utf-8"))
             except FileNotFoundError:
                 return None
-            except (OSError, UnicodeError, ValueError):
+            except (OSError, UnicodeError, ValueError, RecursionError):
                 return None
             if not isinstance(manifest, dict):
                 return None
-- 
2.43.0


From 428338bc63a34f792c0a60eaa66b296a08b241d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:55 +0000
Subject: [PATCH 02/14] fix: delimit file contents in the source fingerprint

---
 tn/cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tn/cache.py b/tn/cache.py
index 69b831c..1348bab 100644
--- a/tn/cache.py
+++ b/tn/cache.py
@@ -118,9 +118,11 @@ def production_source_fingerprint(project_root=None):
         relative_path = source.relative_to(project_root).as_posix().encode("utf-8")
         digest.update(len(relative_path).to_bytes(8, "big"))
         digest.update(relative_path)
+        contents = hashlib.sha256()
         with open(source, "rb") as source_file:
             for chunk in iter(lambda: source_file.read(1024 * 1024), b""):
-                digest.update(chunk)
+                contents.update(chunk)
+        digest.update(contents.digest())
     return digest.hexdigest()
 
 
-- 
2.43.0


From 0e2e43439b49e349d349f116fb2cf792e3f2eb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:51 +0000
Subject: [PATCH 03/14] fix: escape quotes and backslashes inside emphasis tags

---
 tn/english/rules/punctuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tn/english/rules/punctuation.py b/tn/english/rules/punctuation.py
index 5ab4488..c8cba72 100644
--- a/tn/english/rules/punctuation.py
+++ b/tn/english/rules/punctuation.py
@@ -59,7 +59,7 @@ class Punctuation(Processor):
         self.emphasis = (
             accep("<") + (((self.NOT_SPACE - union("<", ">")).plus + closure(accep("/"), 0, 1))  # noqa
                           | (accep("/") + (self.NOT_SPACE - union("<", ">")).plus)) + accep(">"))  # noqa
-        punct = plurals._priority_union(self.emphasis, punct, self.VCHAR.star)
+        punct = plurals._priority_union(self.emphasis @ self.CHAR.star, punct, self.VCHAR.star)
 
         self.graph = punct
         # Adjacent punctuation is one lexical unit. Keep that classification
@@ -72,7 +72,7 @@ class Punctuation(Processor):
         self.tagger = self.add_tokens(final_graph)
 
     def build_verbalizer(self):
-        punct = closure(self.punct | self.emphasis | cross("\\\\\\", "\\") | cross('\\"', '"'), 1)
+        punct = closure(self.punct | (self.SIGMA @ self.emphasis) | cross("\\\\\\", "\\") | cross('\\"', '"'), 1)
         verbalizer = (delete('v: "') + add_weight(accep(" "), -1.0).star + punct + add_weight(accep(" "), -1.0).star +
                       delete('"'))
         self.verbalizer = self.delete_tokens(verbalizer)
-- 
2.43.0


From 0a54cf787297ff2c8739b6674b965d57ddd2a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:51 +0000
Subject: [PATCH 04/14] fix: tag only domains the electronic verbalizer reads

---
 tn/english/rules/electronic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/english/rules/electronic.py b/tn/english/rules/electronic.py
index 917c65e..928a24f 100644
--- a/tn/english/rules/electronic.py
+++ b/tn/english/rules/electronic.py
@@ -106,7 +106,7 @@ class Electronic(Processor):
             "domain",
             pynini.compose(
                 self.ALPHA + self.NOT_SPACE.star + accepted_common_domains + self.NOT_SPACE.star,
-                domain_graph,
+                self.domain_graph,
             ).optimize(),
         ))
         # www.abc.com/sdafsdf, or https://www.abc.com/asdfad or www.abc.abc/asdfad
-- 
2.43.0


From f498ff59a528ffb45c0b1f7291d1404972dd490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:51 +0000
Subject: [PATCH 05/14] fix: tag only money fractions the verbalizer reads, and
 read a zero fraction before a quantity

---
 tn/english/rules/money.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tn/english/rules/money.py b/tn/english/rules/money.py
index d46eeb0..7563677 100644
--- a/tn/english/rules/money.py
+++ b/tn/english/rules/money.py
@@ -65,7 +65,8 @@ class Money(Processor):
         graph_integer_one = self.tag_field("integer_part", self.integer_one_graph)
         decimal_nonzero = ((self.DIGIT | pynini.accep(",")).star + pynini.accep(".") + self.DIGIT.star + (self.DIGIT - "0") +
                            self.DIGIT.star)
-        decimal_with_quantity = self.VCHAR.star + self.ALPHA
+        decimal_with_quantity = pynini.difference(self.VCHAR.star + self.ALPHA,
+                                                  self.VCHAR.star + "." + self.VCHAR.star + "," + self.VCHAR.star)
 
         graph_decimal = (graph_maj_plural + self.INSERT_SPACE +
                          (decimal_nonzero | decimal_with_quantity) @ graph_decimal_final)
@@ -107,8 +108,12 @@ class Money(Processor):
         fractional = (pynutil.insert("point ") + pynutil.delete("fractional_part:") + self.DELETE_SPACE + pynutil.delete('"') +
                       trimmed_fraction + pynutil.delete('"'))
         optional_integer = (decimal.integer + self.DELETE_SPACE + self.INSERT_SPACE).ques
+        # $5.0 million keeps its zero fraction: there is no nonzero digit to trim it to
+        zero_fractional = (pynutil.insert("point ") + pynutil.delete('fractional_part: "') +
+                           pynini.accep("0").plus @ decimal.graph + pynutil.delete('"'))
         money_decimal = (decimal.integer
                          | decimal.integer + decimal.quantity
+                         | optional_integer + zero_fractional + decimal.quantity
                          | optional_integer + fractional + decimal.optional_quantity)
         graph_decimal = money_decimal + keep_space + maj_plural
 
-- 
2.43.0


From 989d66a8254c3c04d2442b25bcc4c3933e8ca8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:51 +0000
Subject: [PATCH 06/14] fix: decode the month field before reading it

---
 tn/english/rules/date.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/english/rules/date.py b/tn/english/rules/date.py
index 96b2f48..2865e93 100644
--- a/tn/english/rules/date.py
+++ b/tn/english/rules/date.py
@@ -254,7 +254,7 @@ class Date(Processor):
         day = day_cardinal @ ordinal.suffix
         period = (pynutil.delete("text:") + self.DELETE_SPACE + pynutil.delete('"') + self.period_graph + pynutil.delete('"'))
         month = (pynutil.delete("month:") + self.DELETE_SPACE + pynutil.delete('"') +
-                 (self.month_graph | self.month_numbers_graph) + pynutil.delete('"'))
+                 (self.SIGMA @ (self.month_graph | self.month_numbers_graph)) + pynutil.delete('"'))
 
         year = (pynutil.delete("year:") + self.DELETE_SPACE + pynutil.delete('"') +
                 (self.year_graph | self.year_after_graph | self.two_digit_year_graph) + self.DELETE_SPACE +
-- 
2.43.0


From 821ef8be987cf71d9702ba877694c5147dde52a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:04 +0000
Subject: [PATCH 07/14] fix: apply the plural rule of years to any text, so
 that 1980s reads nineteen eighties

---
 tn/english/rules/date.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tn/english/rules/date.py b/tn/english/rules/date.py
index 2865e93..b9806b7 100644
--- a/tn/english/rules/date.py
+++ b/tn/english/rules/date.py
@@ -60,14 +60,15 @@ def get_four_digit_year_graph(deterministic: bool = False):
                     | (graph_teen + Processor("tmp").INSERT_SPACE +
                        (ties_graph | pynini.cross("1", "ten")))) + pynutil.delete("0s")
 
-    graph_with_s |= ((graph_teen | graph_ties) + Processor("tmp").INSERT_SPACE + pynini.cross("00", "hundred") +
-                     pynutil.delete("s"))
+    # 2000s stays two thousands: thousands win over the equally possible twenty hundreds
+    graph_with_s |= pynutil.add_weight((graph_teen | graph_ties) + Processor("tmp").INSERT_SPACE +
+                                       pynini.cross("00", "hundred") + pynutil.delete("s"), 0.0001)
     graph_with_s = (graph_with_s @ pynini.cdrewrite(
         pynini.cross("y", "ies") | pynutil.insert("s"),
         "",
         "[EOS]",
-        Processor("tmp").VCHAR,
-    ).star)
+        Processor("tmp").VCHAR.star,
+    ))
 
     graph = graph_ties + Processor("tmp").INSERT_SPACE + graph_ties
     graph |= (graph_teen | graph_ties) + Processor("tmp").INSERT_SPACE + pynini.cross("00", "hundred")
-- 
2.43.0


From a1adf75436e525eebfa6fc3c043ef001c58ef442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:23 +0000
Subject: [PATCH 08/14] fix: decode the serial field before reading it

---
 tn/english/rules/serial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tn/english/rules/serial.py b/tn/english/rules/serial.py
index fafd048..e5a27cd 100644
--- a/tn/english/rules/serial.py
+++ b/tn/english/rules/serial.py
@@ -85,5 +85,5 @@ class Serial(Processor):
         self.tagger = self.add_tokens(graph)
 
     def build_verbalizer(self):
-        graph = (pynutil.delete("name:") + self.DELETE_SPACE + pynutil.delete('"') + self.graph + pynutil.delete('"'))
+        graph = (pynutil.delete("name:") + self.DELETE_SPACE + pynutil.delete('"') + self.SIGMA @ self.graph + pynutil.delete('"'))
         self.verbalizer = self.delete_tokens(graph)
-- 
2.43.0


From a44bd4da6277be0a47ad547d625da2350c19d073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:41 +0000
Subject: [PATCH 09/14] fix: let English words hold quotes and backslashes, and
 drop any white space around the text in English ITN

---
 itn/english/inverse_normalizer.py | 2 +-
 itn/english/rules/word.py         | 7 +------
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/itn/english/inverse_normalizer.py b/itn/english/inverse_normalizer.py
index a617d6b..22559ca 100644
--- a/itn/english/inverse_normalizer.py
+++ b/itn/english/inverse_normalizer.py
@@ -81,7 +81,7 @@ class InverseNormalizer(Processor):
         punct = add_weight(punctuation.tagger, 1.1)
         token = closure(punct + delete(" ").ques) + classify + closure(delete(" ").ques + punct)
         graph = token + closure(self.DELETE_EXTRA_SPACE + token)
-        self.tagger = delete(" ").star + graph + delete(" ").star
+        self.tagger = self.DELETE_SPACE + graph + self.DELETE_SPACE
 
         verbalizer_rules = list(rules)
         verbalizer_rules.append(RuleSpec(punctuation))
diff --git a/itn/english/rules/word.py b/itn/english/rules/word.py
index 46c82bc..31f8f20 100644
--- a/itn/english/rules/word.py
+++ b/itn/english/rules/word.py
@@ -12,9 +12,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from pynini import difference, union
-from pynini.lib.pynutil import insert
-
 from tn.processor import Processor
 
 
@@ -26,6 +23,4 @@ class Word(Processor):
         self.build_verbalizer()
 
     def build_tagger(self):
-        valid_char = difference(self.NOT_SPACE, union('"', "\\"))
-        tagger = insert('value: "') + valid_char.plus + insert('"')
-        self.tagger = self.add_tokens(tagger)
+        self.tagger = self.add_tokens(self.tag_field("value", self.NOT_SPACE.plus))
-- 
2.43.0


From 0a648370fd1ddb04a7cc7deb62fcbb33955e3d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:41 +0000
Subject: [PATCH 10/14] fix: read any text in English TN: repeated or only
 white space, and runs of characters no rule reads

---
 tn/english/normalizer.py        | 4 ++--
 tn/english/rules/punctuation.py | 4 +++-
 tn/english/rules/word.py        | 8 ++++----
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/tn/english/normalizer.py b/tn/english/normalizer.py
index 0d1933f..619c1a3 100644
--- a/tn/english/normalizer.py
+++ b/tn/english/normalizer.py
@@ -82,8 +82,8 @@ class Normalizer(Processor):
 
         punct = pynutil.add_weight(punctuation.tagger, 2.00)
         token = pynini.closure(punct) + classify + pynini.closure(punct)
-        separator = pynutil.delete(self.SPACE) | punct
-        graph = (self.DELETE_SPACE + token + pynini.closure(separator + token) + self.DELETE_SPACE) | punct
+        separator = pynutil.delete(self.SPACE.plus) | punct
+        graph = (self.DELETE_SPACE + token + pynini.closure(separator + token) + self.DELETE_SPACE) | punct | punctuation.blank
         self.tagger = graph.optimize() @ self.build_rule(pynutil.delete(" "), r="[EOS]")
 
         classify = self.verbalizer_union(rules)
diff --git a/tn/english/rules/punctuation.py b/tn/english/rules/punctuation.py
index c8cba72..548f6bd 100644
--- a/tn/english/rules/punctuation.py
+++ b/tn/english/rules/punctuation.py
@@ -70,9 +70,11 @@ class Punctuation(Processor):
         final_graph = (insert('v: "') + add_weight(accep(" "), -1.0).star + tagger_punct + add_weight(accep(" "), -1.0).star +
                        insert('"'))
         self.tagger = self.add_tokens(final_graph)
+        # A text of nothing but spaces has no token to attach them to.
+        self.blank = self.add_tokens(insert('v: "') + cross(self.SPACE.plus, " ") + insert('"'))
 
     def build_verbalizer(self):
-        punct = closure(self.punct | (self.SIGMA @ self.emphasis) | cross("\\\\\\", "\\") | cross('\\"', '"'), 1)
+        punct = closure(self.punct | (self.SIGMA @ self.emphasis) | cross("\\\\\\", "\\") | cross('\\"', '"'))
         verbalizer = (delete('v: "') + add_weight(accep(" "), -1.0).star + punct + add_weight(accep(" "), -1.0).star +
                       delete('"'))
         self.verbalizer = self.delete_tokens(verbalizer)
diff --git a/tn/english/rules/word.py b/tn/english/rules/word.py
index 4cedf05..b93e241 100644
--- a/tn/english/rules/word.py
+++ b/tn/english/rules/word.py
@@ -38,8 +38,9 @@ class Word(Processor):
         default_graph = difference(self.NOT_SPACE, punct.project("input"))
         symbols_to_exclude = union("$", "€", "₩", "£", "¥", "#", "%") | self.DIGIT
         self.char = difference(default_graph, symbols_to_exclude)
-        graph = (pynutil.insert('v: "') + self.char.plus + pynutil.insert('"')).optimize()
-        final_graph = self.add_tokens(graph)
+        # A run of characters no rule reads, e.g. digits next to non-ASCII letters, is still a word.
+        self.graph = (self.char.plus | pynutil.add_weight(self.NOT_SPACE, 200).plus).optimize()
+        final_graph = self.add_tokens(self.tag_field("v", self.graph))
         self.tagger = final_graph.optimize()
 
     def build_verbalizer(self):
@@ -47,6 +48,5 @@ class Word(Processor):
         Finite state transducer for verbalizing word
             e.g. w { v: "sleep" } -> sleep
         """
-        graph = pynutil.delete("v: ") + pynutil.delete('"') + self.char.plus + pynutil.delete('"')
-        final_graph = self.delete_tokens(graph)
+        final_graph = self.delete_tokens(self.verbalize_field("v", self.NOT_SPACE.plus))
         self.verbalizer = final_graph.optimize()
-- 
2.43.0


From d077b24cbfe998f0395ee49c03ea455ddfe9915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:15 +0000
Subject: [PATCH 11/14] fix: leave graphs of other rules unchanged while
 building a rule

---
 itn/chinese/rules/money.py  | 2 +-
 itn/japanese/rules/math.py  | 4 +---
 tn/english/rules/measure.py | 2 +-
 tn/english/rules/word.py    | 2 +-
 4 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/itn/chinese/rules/money.py b/itn/chinese/rules/money.py
index 5ff30de..5c35535 100644
--- a/itn/chinese/rules/money.py
+++ b/itn/chinese/rules/money.py
@@ -36,7 +36,7 @@ class Money(Processor):
 
         number = self.cardinal.number if self.enable_0_to_9 else self.cardinal.number_exclude_0_to_9
         # 七八美元 => $7~8
-        number |= digit + insert("~") + digit
+        number = number | digit + insert("~") + digit
         # 三千三百八十元五毛八分 => ¥3380.58
         self.value = number
         self.currency = symbol | add_weight(code, 1)
diff --git a/itn/japanese/rules/math.py b/itn/japanese/rules/math.py
index ef7dca9..7058b3a 100644
--- a/itn/japanese/rules/math.py
+++ b/itn/japanese/rules/math.py
@@ -30,9 +30,7 @@ class Math(Processor):
     def build_tagger(self):
         operator = string_file(get_abs_path("japanese/data/math/operator.tsv"))
 
-        number = self.cardinal.big_integer
-        decimal = self.cardinal.decimal
-        number |= decimal
+        number = self.cardinal.big_integer | self.cardinal.decimal
         self.graph = self.apply_input_processor(number + (operator + number).plus, self.input_processor)
         self.tagger = self.add_tokens(self.tag_field("value", self.graph))
 
diff --git a/tn/english/rules/measure.py b/tn/english/rules/measure.py
index 2128420..3510d57 100644
--- a/tn/english/rules/measure.py
+++ b/tn/english/rules/measure.py
@@ -270,7 +270,7 @@ class Measure(Processor):
                                    | pynini.cross(" point two five", " and a quarter")
                                    | pynini.cross("zero point two five", "quarter")),
             ).optimize()
-            graph_decimal |= pynutil.add_weight(colloquial_fraction, 0.0001)
+            graph_decimal = graph_decimal | pynutil.add_weight(colloquial_fraction, 0.0001)
 
         fraction = self.fraction
         graph_fraction = fraction.graph_v
diff --git a/tn/english/rules/word.py b/tn/english/rules/word.py
index b93e241..de70f12 100644
--- a/tn/english/rules/word.py
+++ b/tn/english/rules/word.py
@@ -35,7 +35,7 @@ class Word(Processor):
             e.g. sleep -> w { v: "sleep" }
         """
         punct = self.punctuation.graph
-        default_graph = difference(self.NOT_SPACE, punct.project("input"))
+        default_graph = difference(self.NOT_SPACE, punct.copy().project("input"))
         symbols_to_exclude = union("$", "€", "₩", "£", "¥", "#", "%") | self.DIGIT
         self.char = difference(default_graph, symbols_to_exclude)
         # A run of characters no rule reads, e.g. digits next to non-ASCII letters, is still a word.
-- 
2.43.0


From 19f2090181fbf51b70d8b3ca562227655baec8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:06 +0000
Subject: [PATCH 12/14] fix: read table rows that contain a number sign whole

---
 itn/english/data/electronic/symbols.tsv           | 2 +-
 itn/english/data/whitelist.tsv                    | 4 ++--
 itn/japanese/data/char/fullwidth_to_halfwidth.tsv | 2 +-
 tn/chinese/data/char/fullwidth_to_halfwidth.tsv   | 2 +-
 tn/english/data/electronic/symbol.tsv             | 2 +-
 tn/english/rules/serial.py                        | 6 +++---
 tn/japanese/data/char/fullwidth_to_halfwidth.tsv  | 2 +-
 7 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/itn/english/data/electronic/symbols.tsv b/itn/english/data/electronic/symbols.tsv
index 5be8da8..093867a 100644
--- a/itn/english/data/electronic/symbols.tsv
+++ b/itn/english/data/electronic/symbols.tsv
@@ -3,7 +3,7 @@
 -	hyphen
 _	underscore
 !	exclamation mark
-#	number sign
+\#	number sign
 $	dollar sign
 %	percent sign
 &	ampersand
diff --git a/itn/english/data/whitelist.tsv b/itn/english/data/whitelist.tsv
index c7201ae..698cd51 100644
--- a/itn/english/data/whitelist.tsv
+++ b/itn/english/data/whitelist.tsv
@@ -64,7 +64,7 @@ BSP	b s p
 BasePOD	base pod
 BasePOD	basepod
 Billion-X	billion X
-C#	c sharp
+C\#	c sharp
 C++	c plus plus
 CAT5	cat five
 CAT5e	cat five e
@@ -385,7 +385,7 @@ XML	x m l
 Zen 2	zen two
 Zen 3	zen three
 Zen 4	zen four
-c#	c sharp
+c\#	c sharp
 c++	c plus plus
 cuBLAS	cue blah
 cuBLAS	cue blahs
diff --git a/itn/japanese/data/char/fullwidth_to_halfwidth.tsv b/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..5f629f6 100644
--- a/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
+++ b/itn/japanese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
diff --git a/tn/chinese/data/char/fullwidth_to_halfwidth.tsv b/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..5f629f6 100644
--- a/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
+++ b/tn/chinese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
diff --git a/tn/english/data/electronic/symbol.tsv b/tn/english/data/electronic/symbol.tsv
index 5e8973f..b25385a 100644
--- a/tn/english/data/electronic/symbol.tsv
+++ b/tn/english/data/electronic/symbol.tsv
@@ -2,7 +2,7 @@
 -	dash
 _	underscore
 !	exclamation mark
-#	number sign
+\#	number sign
 $	dollar sign
 %	percent
 &	ampersand
diff --git a/tn/english/rules/serial.py b/tn/english/rules/serial.py
index e5a27cd..4076346 100644
--- a/tn/english/rules/serial.py
+++ b/tn/english/rules/serial.py
@@ -38,11 +38,11 @@ class Serial(Processor):
         num_graph |= pynini.compose(self.DIGIT**(1, 5), cardinal.graph).optimize()
         num_graph |= pynini.compose(pynini.accep("0") + pynini.closure(self.DIGIT), cardinal.single_digits_graph).optimize()
 
-        symbols_graph = pynini.string_file(get_abs_path("english/data/whitelist/symbol.tsv")).optimize()
-        symbols_graph |= pynini.cross("#", "hash")
+        labels = load_labels(get_abs_path("english/data/whitelist/symbol.tsv"))
+        symbols_graph = pynini.string_map(labels).optimize()
         num_graph |= symbols_graph
 
-        symbols = [x[0] for x in load_labels(get_abs_path("english/data/whitelist/symbol.tsv"))]
+        symbols = [x[0] for x in labels]
         symbols = pynini.union(*symbols)
         digit_symbol = self.DIGIT | symbols
 
diff --git a/tn/japanese/data/char/fullwidth_to_halfwidth.tsv b/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
index 068c215..5f629f6 100644
--- a/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
+++ b/tn/japanese/data/char/fullwidth_to_halfwidth.tsv
@@ -5,7 +5,7 @@
 ”	"
 ！	!
 ＂	"
-＃	#
+＃	\#
 ％	%
 ＆	&
 ＇	'
-- 
2.43.0


From 8b184a248aa76603fe8c8358328099134079f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:06 +0000
Subject: [PATCH 13/14] fix: ship the Japanese text normalization rules with
 the package

---
 tn/japanese/rules/__init__.py | 0
 1 file changed, 0 insertions(+), 0 deletions(-)
 create mode 100644 tn/japanese/rules/__init__.py

diff --git a/tn/japanese/rules/__init__.py b/tn/japanese/rules/__init__.py
new file mode 100644
index 0000000..e69de29
-- 
2.43.0


From d859e6162c96f19d2f6f6b62198cb13f8fec2d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:56 +0000
Subject: [PATCH 14/14] =?UTF-8?q?fix:=20spell=2052=20minutes=20and=20secon?=
 =?UTF-8?q?ds=20as=20=E4=BA=94=E5=8D=81=E4=BA=8C=20in=20the=20Japanese=20I?=
 =?UTF-8?q?TN=20time=20tables?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 itn/japanese/data/time/minute.tsv | 2 +-
 itn/japanese/data/time/second.tsv | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/itn/japanese/data/time/minute.tsv b/itn/japanese/data/time/minute.tsv
index a60da05..999d0ff 100644
--- a/itn/japanese/data/time/minute.tsv
+++ b/itn/japanese/data/time/minute.tsv
@@ -49,7 +49,7 @@
 四十九分	49
 五十分	50
 五十一分	51
-五二十分	52
+五十二分	52
 五十三分	53
 五十四分	54
 五十五分	55
diff --git a/itn/japanese/data/time/second.tsv b/itn/japanese/data/time/second.tsv
index baf926e..2722fc0 100644
--- a/itn/japanese/data/time/second.tsv
+++ b/itn/japanese/data/time/second.tsv
@@ -49,7 +49,7 @@
 四十九秒	49
 五十秒	50
 五十一秒	51
-五二十秒	52
+五十二秒	52
 五十三秒	53
 五十四秒	54
 五十五秒	55
-- 
2.43.0

