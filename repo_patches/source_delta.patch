From 319ef6d1aa6d90e2b408433825d065b0dde1a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:30 +0000
Subject: [PATCH 01/34] fix: error replies 'not understood' and 'no sentence'
 crashed for lack of an output relation

---
 richard/module/BasicOutputBuffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/richard/module/BasicOutputBuffer.py b/richard/module/BasicOutputBuffer.py
index 75eea77..cea16cf 100644
--- a/richard/module/BasicOutputBuffer.py
+++ b/richard/module/BasicOutputBuffer.py
@@ -15,6 +15,8 @@ class BasicOutputBuffer(SimpleMemoryModule):
         self.add_relation(Relation("output_list", arguments=["elements"]))
         self.add_relation(Relation("output_name_not_found", arguments=["name"]))
         self.add_relation(Relation("output_unknown_word", arguments=["word"]))
+        self.add_relation(Relation("output_not_understood", arguments=[]))
+        self.add_relation(Relation("output_no_sentence", arguments=[]))
 
 
     def clear(self):
-- 
2.43.0


From 0c053dc982d2aae4248d7335481ff0686535117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:30 +0000
Subject: [PATCH 02/34] fix: learn_grammar_rule always raised a TypeError

---
 richard/module/GrammarModule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/module/GrammarModule.py b/richard/module/GrammarModule.py
index 3a917c2..6b5aeec 100644
--- a/richard/module/GrammarModule.py
+++ b/richard/module/GrammarModule.py
@@ -28,7 +28,7 @@ class GrammarModule(SomeModule):
     def learn_grammar_rule(self, values: list, context: ExecutionContext) -> list[list]:
         simple_rule = values[0]
 
-        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule)
+        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule, False)
         self.grammar.add_rule(rule)
 
         return [
-- 
2.43.0


From f8f5df358cd91df79d46eba156166af58bb1f2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:52 +0000
Subject: [PATCH 03/34] fix: inference rules with a zero constant were
 rejected, and a rule cut off in its arguments raised a TypeError

---
 richard/module/helper/SimpleInferenceRuleParser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 54995f1..771a09d 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -204,7 +204,7 @@ class SimpleInferenceRuleParser:
         while True:
 
             term, new_pos = self.parse_term(tokens, pos)
-            if not term:
+            if term is None:
                 break
             pos = new_pos
             terms.append(term)
@@ -237,6 +237,9 @@ class SimpleInferenceRuleParser:
 
     def parse_term(self, tokens: list[str], pos: int):
         token, new_pos = self.parse_token(tokens, pos)
+        if token is None:
+            return None, pos
+
         if token[0] == "'":
             pos = new_pos
             return token[1:-1].replace("\\'", "'"), pos
-- 
2.43.0


From da14637bcbbb10fb58e0e077ed79921434f1670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:04 +0000
Subject: [PATCH 04/34] fix: inference rules lost minus signs, empty strings
 and a last comment without newline

---
 richard/module/helper/SimpleInferenceRuleParser.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 771a09d..de5b6b7 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -20,18 +20,18 @@ class SimpleInferenceRuleParser:
             ':-',
             '\(',
             '\)',
-            '\d+\.\d+',
-            '\d+',
-            "'(?:\\\\'|[^'])+'",
-            '"(?:\\\\"|[^"])+"',
+            '-?\d+\.\d+',
+            '-?\d+',
+            "'(?:\\\\'|[^'])*'",
+            '"(?:\\\\"|[^"])*"',
             '[A-Z]\w*',
             '\w+',
-            '#.*\n',
+            '#.*',
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
-        self.re_float = re.compile("^\d+\.\d+$")
-        self.re_int = re.compile("^\d+$")
+        self.re_float = re.compile("^-?\d+\.\d+$")
+        self.re_int = re.compile("^-?\d+$")
 
 
     def parse(self, text: str):
-- 
2.43.0


From f2b0f79977251d5718cf4c1e727091c22c6d7d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:24 +0000
Subject: [PATCH 05/34] fix: FindOne reported the last error, not the first one

---
 richard/block/FindOne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/block/FindOne.py b/richard/block/FindOne.py
index 38ca12b..8709cad 100644
--- a/richard/block/FindOne.py
+++ b/richard/block/FindOne.py
@@ -27,7 +27,7 @@ class FindOne(ControlBlock):
             if next_block_result.error_type == "":
                # first successful product found: quit
                return BlockResult('')
-            else:
+            elif error_type == "":
                 error_type = next_block_result.error_type
                 error_args = next_block_result.error_args
 
-- 
2.43.0


From b164fb8c34205e6f4141c2f14a00ac9327df1ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:28 +0000
Subject: [PATCH 06/34] fix: the generator used a rule with the binding of
 another rule that did not match

---
 richard/core/BasicGenerator.py | 36 ++++++++++++++--------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 7444237..8fd1d05 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -102,35 +102,29 @@ class BasicGenerator(SomeGenerator):
             # if: [('output_type', 'declarative'), ('output_subject', E1, E2)]
 
             # rule_antecedent_variable = rule.antecedent.arguments[0]
-            binding = {}
+            rule_binding = {}
             for rule_antecedent_variable, antecedent_value in zip(rule.antecedent.arguments, antecedent_values):
-                binding[rule_antecedent_variable] = antecedent_value
+                rule_binding[rule_antecedent_variable] = antecedent_value
 
             # start the binding with the antecedent variable (in the example: E1)
             # if antecedent_values is not None:
             #     binding[rule_antecedent_variable] = antecedent_values
 
-            if not rule.sem:
-                # no condition
-                result_rule = rule
-                found = True
-
-            else:
-
+            if rule.sem:
                 # match the condition
                 # will bind the E2 in the example ([('output_type', 'declarative'), ('output_subject', E1, E2)])
-                match_bindings = self.solver.solve(rule.sem, binding)
-
-                if len(match_bindings) > 0:
-                    binding = match_bindings[0]
-                    result_rule = rule
-                    found = True
-
-
-            if found:
-                # make sure the same rule is not executed again and again
-                if rule.hash not in used_rules:
-                    break
+                match_bindings = self.solver.solve(rule.sem, rule_binding)
+                if len(match_bindings) == 0:
+                    continue
+                rule_binding = match_bindings[0]
+
+            result_rule = rule
+            binding = rule_binding
+            found = True
+
+            # make sure the same rule is not executed again and again
+            if rule.hash not in used_rules:
+                break
 
         return result_rule, binding, found
 
-- 
2.43.0


From 751597b08cc339672404cad86282d839987795b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:35 +0000
Subject: [PATCH 07/34] fix: output that could not be generated leaked into the
 next reply

---
 richard/core/BasicGenerator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 8fd1d05..24bb211 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -21,9 +21,10 @@ class BasicGenerator(SomeGenerator):
 
 
     def generate_output(self):
-        output = self.generate_node([], "s", [], False)
-        self.output_buffer.clear()
-        return output
+        try:
+            return self.generate_node([], "s", [], False)
+        finally:
+            self.output_buffer.clear()
 
 
     def generate_node(self, used_rules: list[int], antecedent_cat: str, antecedent_values: list[any], optional: bool) -> list[str]:
-- 
2.43.0


From 04a3f69fba4a64b71f10dfdfbe09be980e60af9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:51 +0000
Subject: [PATCH 08/34] fix: a regexp constituent accepted prefixes that do not
 match the regexp

---
 richard/processor/parser/earley/EarleyParser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index bad3c35..e26ea24 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -129,8 +129,10 @@ class EarleyParser:
             if word is not None:
                 for i in range(1, len(word)+1):
                     sub_word = word[0:i]
+                    # the prefix must match the regular expression by itself
+                    if sub_word != word and not re.fullmatch(next_consequent.predicate, sub_word):
+                        continue
                     sem = self.create_semantic_function_for_scanned_state(sub_word)
-# todo check if match regexp
                     self.add_scanned_state(chart, state, sub_word, sem)
 
         # match a string constant over multiple tokens
-- 
2.43.0


From 9d10ae40d1d92c9bfd1ec769064825f9090492d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:55 +0000
Subject: [PATCH 09/34] fix: each parsed sentence added rules to the grammar

---
 richard/processor/parser/earley/EarleyParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index e26ea24..09ad78f 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -62,11 +62,13 @@ class EarleyParser:
         # ...
         for c in grammar_rules.find_argument_counts(ROOT_CATEGORY):
             variables = ["P" + str(j) for j in range(1, c+1)]
-            grammar_rules.add_rule(GrammarRule(
+            delta_rule = GrammarRule(
                 RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION),
                 [RuleConstituent(ROOT_CATEGORY, variables, POS_TYPE_RELATION)],
                 sem=lambda s: s
-            ))
+            )
+            # the rule belongs to this chart only; the grammar is not affected by parsing
+            chart.enqueue(ChartState(delta_rule, 1, 0, 0), 0)
 
 
         for i in range(charCount + 1):
-- 
2.43.0


From cb27c715d1c3cb4e90b57fd935d3e1a275f56311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:18 +0000
Subject: [PATCH 10/34] fix: of two grammar rules with the same syntax and
 different meanings, one was ignored

---
 richard/processor/parser/earley/entity/ChartState.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/richard/processor/parser/earley/entity/ChartState.py b/richard/processor/parser/earley/entity/ChartState.py
index 7881547..902e9f5 100644
--- a/richard/processor/parser/earley/entity/ChartState.py
+++ b/richard/processor/parser/earley/entity/ChartState.py
@@ -23,7 +23,9 @@ class ChartState:
 
 
     def __eq__(self, other_state: object) -> bool:
-        return self.rule.equals(other_state.rule) and \
+        # grammar rules with the same syntax may differ in meaning; rules made for scanned words are created on the fly
+        same_rule = self.rule is other_state.rule or (self.is_terminal() and self.rule.equals(other_state.rule))
+        return same_rule and \
                self.dot_position == other_state.dot_position and \
                self.start_char_index == other_state.start_char_index and \
                self.end_char_index == other_state.end_char_index
-- 
2.43.0


From 60838904af338af98fdd30a7e213fe89e4dc2ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:22 +0000
Subject: [PATCH 11/34] fix: variables nested in the semantics of a rule were
 not renamed, and got mixed up with those of other rules

---
 .../semantic_composer/SemanticComposer.py        | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/richard/processor/semantic_composer/SemanticComposer.py b/richard/processor/semantic_composer/SemanticComposer.py
index f672cf7..fe86243 100644
--- a/richard/processor/semantic_composer/SemanticComposer.py
+++ b/richard/processor/semantic_composer/SemanticComposer.py
@@ -128,13 +128,15 @@ class SemanticComposer(SomeProcessor):
 
 
     def extend_map_with_semantics(self, map: dict, semantics: list[tuple]):
-        # only lists of atoms for now
-        if isinstance(semantics, list):
-            for atom in semantics:
-                for arg in atom:
-                    # since we're late in the game, don't replace variables that have already been replaced
-                    if isinstance(arg, Variable) and arg.name not in map and not self.variable_generator.isinstance(arg):
-                        map[arg.name] = self.variable_generator.next()
+        # variables may be nested: in the arguments of arguments, and in the body of a template
+        if isinstance(semantics, (list, tuple)):
+            for term in semantics:
+                self.extend_map_with_semantics(map, term)
+        elif isinstance(semantics, SemanticTemplate):
+            self.extend_map_with_semantics(map, semantics.body)
+        # since we're late in the game, don't replace variables that have already been replaced
+        elif isinstance(semantics, Variable) and semantics.name not in map and not self.variable_generator.isinstance(semantics):
+            map[semantics.name] = self.variable_generator.next()
 
 
     def unify_variables(self, semantics: any, map: dict[str, str]) -> any:
-- 
2.43.0


From 17806b16eca47d8e2e37aeaf65f189bb14697eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:26 +0000
Subject: [PATCH 12/34] fix: with_context ended an enclosing context, and did
 not end its own when its body failed with an exception

---
 richard/module/BasicDialogContext.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/richard/module/BasicDialogContext.py b/richard/module/BasicDialogContext.py
index b7dc6d9..40adbec 100644
--- a/richard/module/BasicDialogContext.py
+++ b/richard/module/BasicDialogContext.py
@@ -21,9 +21,16 @@ class BasicDialogContext(SimpleMemoryModule):
     def with_context(self, values: list, context: ExecutionContext) -> list[list]:
         name = values[0]
         body = values[1]
-        self.data_source.insert('context', ['name'], [name])
-        context.solver.solve(body, context.binding)
-        self.data_source.delete('context', ['name'], [name])
+        # an enclosing context by the same name must remain active
+        already_active = len(self.data_source.select('context', ['name'], [name])) > 0
+        if not already_active:
+            self.data_source.insert('context', ['name'], [name])
+        try:
+            context.solver.solve(body, context.binding)
+        finally:
+            if not already_active:
+                self.data_source.delete('context', ['name'], [name])
+
         return [
             [None, None]
         ]
-- 
2.43.0


From 47a9adb1a5b5dc6925ed2721bb0d65cce58b3cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:42 +0000
Subject: [PATCH 13/34] fix: SimpleDataSource raised a KeyError on, or wrongly
 matched, a record with an absent value

---
 richard/data_source/SimpleDataSource.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/richard/data_source/SimpleDataSource.py b/richard/data_source/SimpleDataSource.py
index 783bf6a..3262ae6 100644
--- a/richard/data_source/SimpleDataSource.py
+++ b/richard/data_source/SimpleDataSource.py
@@ -38,11 +38,10 @@ class SimpleDataSource(SomeDataSource):
         for record in self.store[table]:
             ok = True
             for key, value in values.items():
-                if key in record:
-                    if record[key] != value:
-                        ok = False
+                if record.get(key) != value:
+                    ok = False
             if ok:
-                result = [record[column] for column in columns]
+                result = [record.get(column) for column in columns]
                 results.append(result)
 
         return results
-- 
2.43.0


From 8bf1b4ca7978764360cfebf6bdb5d424836f6332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:47 +0000
Subject: [PATCH 14/34] fix: CsvImporter changed line breaks inside quoted
 values

---
 richard/data_source/CsvImporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/data_source/CsvImporter.py b/richard/data_source/CsvImporter.py
index 7c04749..541c9f9 100644
--- a/richard/data_source/CsvImporter.py
+++ b/richard/data_source/CsvImporter.py
@@ -4,7 +4,7 @@ from richard.interface.SomeDataSource import SomeDataSource
 
 class CsvImporter:
     def import_table_from_file(self, table_name: str, file_path: str, data_source: SomeDataSource):
-        with open(file_path) as csvfile:
+        with open(file_path, newline='') as csvfile:
             reader = csv.reader(csvfile, delimiter=',')
             line = 0
             headers = []
-- 
2.43.0


From 9285daf54a769fe9b2bee19440200cd9a880cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:33 +0000
Subject: [PATCH 15/34] fix: a partly written file in the Sparql result cache
 made its query fail forever

---
 richard/data_source/SparqlDataSource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index d374455..5134639 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -34,7 +34,8 @@ class SparqlDataSource(SomeDataSource):
                 with open(file_name, 'rb') as file:
                     result = pickle.load(file)
                     return result
-            except OSError:
+            except (OSError, EOFError, pickle.UnpicklingError):
+                # no cached result, or an incompletely written one
                 pass
 
         # the actual select
-- 
2.43.0


From 9d24d106a706a0552a5924f27d30d5d59cd7383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:37 +0000
Subject: [PATCH 16/34] fix: quotes and backslashes in text values broke the
 Sparql query

---
 richard/data_source/SparqlDataSource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/data_source/SparqlDataSource.py b/richard/data_source/SparqlDataSource.py
index 5134639..0a4a9b3 100644
--- a/richard/data_source/SparqlDataSource.py
+++ b/richard/data_source/SparqlDataSource.py
@@ -122,7 +122,8 @@ class SparqlDataSource(SomeDataSource):
                 prepared = term
             else:
                 # todo: locale
-                prepared = "'{}'@{}".format(term, self.lang)
+                escaped = term.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n").replace("\r", "\\r")
+                prepared = "'{}'@{}".format(escaped, self.lang)
         else:
             prepared = str(term)
         return prepared
-- 
2.43.0


From 973b9c6957e949655d7a446d9379e35141f882ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:10 +0000
Subject: [PATCH 17/34] fix: several optional words at the start of a rule, and
 optional spaces next to an optional word, lost variants of the rule

---
 richard/entity/GrammarRules.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/richard/entity/GrammarRules.py b/richard/entity/GrammarRules.py
index e7d6fb7..52146ec 100644
--- a/richard/entity/GrammarRules.py
+++ b/richard/entity/GrammarRules.py
@@ -56,26 +56,21 @@ class GrammarRules:
         if index == len(rule.consequents):
             return variants
 
+        separator = None
         consequent = rule.consequents[index]
-        look_ahead_consequent = rule.consequents[index+1] if index+1 < len(rule.consequents) else None
+        if consequent.separator and index+1 < len(rule.consequents):
+            separator = consequent
+            index += 1
+            consequent = rule.consequents[index]
 
-        skip = 1
-
-        # 'the'?_...
-        if index == 0 and consequent.optional and not consequent.separator and look_ahead_consequent and look_ahead_consequent.separator:
-            new_variants = [v + [consequent, look_ahead_consequent] for v in variants]
-            new_variants.extend(variants)
-            skip = 2
-        # ... _'the'? ...
-        elif consequent.separator and look_ahead_consequent and look_ahead_consequent.optional and not look_ahead_consequent.separator:
-            new_variants = [v + [consequent, look_ahead_consequent] for v in variants]
-            new_variants.extend(variants)
-            skip = 2
+        # at the start of a variant there is nothing to separate
+        new_variants = [v + [separator, consequent] if separator and v else v + [consequent] for v in variants]
         # ... ~ ...
-        elif consequent.optional:
-            new_variants = [v + [consequent] for v in variants]
+        if separator and separator.optional:
+            new_variants.extend([v + [consequent] for v in variants if v])
+        # ... 'the'? ...
+        if consequent.optional:
+            # an optional consequent is left out together with its separator
             new_variants.extend(variants)
-        else:
-            new_variants = [v + [consequent] for v in variants]
 
-        return self.create_rule_variants_rest(rule, index+skip, new_variants)
+        return self.create_rule_variants_rest(rule, index+1, new_variants)
-- 
2.43.0


From 87b86f0d8a7eed77507546d3187d3b0f7ec841b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:24 +0000
Subject: [PATCH 18/34] fix: words written with capitals in a read grammar
 never matched

---
 richard/processor/parser/earley/EarleyParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 09ad78f..a50d676 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -210,5 +210,5 @@ class EarleyParser:
 
     def read_word(self, text: str, start_index: int, word: str):
         part = text[start_index:].lower()
-        return part[:len(word)] == word
+        return part[:len(word)] == word.lower()
 
-- 
2.43.0


From b46c73c79cb7b2442c52c0108a6abfaf073aea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:35 +0000
Subject: [PATCH 19/34] fix: a grammar with a category named 'delta' was mixed
 up with the parser's own rules

---
 richard/core/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/core/constants.py b/richard/core/constants.py
index 90eb0ae..b8b780d 100644
--- a/richard/core/constants.py
+++ b/richard/core/constants.py
@@ -4,8 +4,8 @@ from richard.entity.Variable import Variable
 
 # abstract word categories
 TERMINAL = "terminal"
-GAMMA = "gamma"
-DELTA = "delta"
+GAMMA = "$gamma"
+DELTA = "$delta"
 ROOT_CATEGORY = "s"
 
 # output types
-- 
2.43.0


From ddcf1fb28bcc952533c9c8d58d56f9cc8c2daa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:03 +0000
Subject: [PATCH 20/34] fix: a completed category was taken for one with the
 same name and another number of variables

---
 richard/processor/parser/earley/EarleyParser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index a50d676..477a755 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -174,7 +174,6 @@ class EarleyParser:
         - now proceed all other states in the chart that are waiting for an NP at the current position
         """
 
-        completed_antecedent = completed_state.rule.antecedent.predicate
 
         # index the completed state for fast lookup in the tree extraction phase
         chart.index_completed_state(completed_state)
@@ -184,11 +183,11 @@ class EarleyParser:
             dot_position = charted_state.dot_position
             rule = charted_state.rule
 
-            if (dot_position > len(rule.consequents)) or (rule.consequents[dot_position-1].predicate != completed_antecedent):
+            if dot_position > len(rule.consequents):
                 continue
 
-            # check if the types match
-            if charted_state.rule.consequents[dot_position-1].position_type != completed_state.rule.antecedent.position_type:
+            # check if the name, the number of arguments, and the position type match
+            if not rule.consequents[dot_position-1].equals(completed_state.rule.antecedent):
                 continue
 
             # create a new state that is a dot-advancement of an older state
-- 
2.43.0


From ef6a0c8582679f07201cf2b2661cc131304d2cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:51 +0000
Subject: [PATCH 21/34] fix: a word spelled like a category was expanded by the
 rules of that category

---
 richard/processor/parser/earley/EarleyParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 477a755..9a3e81c 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -109,6 +109,10 @@ class EarleyParser:
         next_consequent_variables = state.rule.consequents[consequentIndex].arguments
         end_char_index = state.end_char_index
 
+        # only categories have rules; a word may happen to be spelled like a category
+        if nextConsequent.position_type != POS_TYPE_RELATION:
+            return
+
         for rule in grammar_rules.find_rules(nextConsequent.predicate, len(next_consequent_variables)) :
 
             predicted_state = ChartState(rule, 1, end_char_index, end_char_index)
-- 
2.43.0


From cdea3675eab3eecd617dcfb1343cb60f09d4253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:53 +0000
Subject: [PATCH 22/34] fix: the optimizer multiplied atoms that occur more
 than once in a question

---
 .../optimizer/IsolateIndependentParts.py                  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
index 3297f03..4a7050b 100644
--- a/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
+++ b/richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py
@@ -81,12 +81,12 @@ class IsolateIndependentParts:
         creates a new batch, based on `batch`, with the atoms in the order of `atoms`
         """
         ordered_atoms = []
+        remaining = list(batch.atoms)
 
         for atom in atoms:
-            for batch_atom in batch.atoms:
-                if batch_atom == atom:
-                    ordered_atoms.append(batch_atom)
-                    break
+            # the same atom may occur several times; each occurrence is used once
+            if atom in remaining:
+                ordered_atoms.append(remaining.pop(remaining.index(atom)))
 
         ordered_batch = AtomBatch(ordered_atoms, batch.variables)
         return ordered_batch
-- 
2.43.0


From 6da564b8216194221893b62123782c61faa5febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:08 +0000
Subject: [PATCH 23/34] fix: a computed number was not compared with the value
 its variable already had

---
 richard/module/CoreModule.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/richard/module/CoreModule.py b/richard/module/CoreModule.py
index 5c8daa1..7a48f4c 100644
--- a/richard/module/CoreModule.py
+++ b/richard/module/CoreModule.py
@@ -103,6 +103,10 @@ class CoreModule(SomeModule):
         if e2 is None:
             raise Exception("* second argument is unbound")
 
+        # the result was bound already: it must be the same value
+        if values[2] is not None and values[2] != e3:
+            return []
+
         return [
             [None, None, e3]
         ]
@@ -117,6 +121,10 @@ class CoreModule(SomeModule):
         results = context.solver.solve(body, context.binding)
         count = len(results)
 
+        # the result was bound already: it must be the same value
+        if values[0] is not None and values[0] != count:
+            return []
+
         return [
             [count, None]
         ]
@@ -134,6 +142,10 @@ class CoreModule(SomeModule):
         for result in results:
             s += result[element_var.name]
 
+        # the result was bound already: it must be the same value
+        if values[0] is not None and values[0] != s:
+            return []
+
         return [
             [s, None, None]
         ]
@@ -209,6 +221,10 @@ class CoreModule(SomeModule):
 
         average = s / n
 
+        # the result was bound already: it must be the same value
+        if values[0] is not None and values[0] != average:
+            return []
+
         return [
             [average, None, None]
         ]
@@ -229,6 +245,10 @@ class CoreModule(SomeModule):
 
         percentage = (len(nominator_results) / len(denominator_results)) * 100.0
 
+        # the result was bound already: it must be the same value
+        if values[0] is not None and values[0] != percentage:
+            return []
+
         return [
             [percentage, None, None]
         ]
-- 
2.43.0


From 9b86983b45252c7a09fe5526c4f85d1b60aa86cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:06 +0000
Subject: [PATCH 24/34] fix: characters outside the notation of inference rules
 were skipped instead of refused

---
 richard/module/helper/SimpleInferenceRuleParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index de5b6b7..02c535e 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -27,6 +27,8 @@ class SimpleInferenceRuleParser:
             '[A-Z]\w*',
             '\w+',
             '#.*',
+            # anything else: not part of the notation, to be refused by the parser
+            '\S',
         ]) + ")")
         self.re_identifier = re.compile("^\w+$")
         self.re_variable = re.compile("^[A-Z]\w*$")
@@ -240,11 +242,11 @@ class SimpleInferenceRuleParser:
         if token is None:
             return None, pos
 
-        if token[0] == "'":
+        if token[0] == "'" and len(token) > 1:
             pos = new_pos
             return token[1:-1].replace("\\'", "'"), pos
 
-        if token[0] == '"':
+        if token[0] == '"' and len(token) > 1:
             pos = new_pos
             return token[1:-1].replace('\\"', '"'), pos
 
-- 
2.43.0


From c64491d56037d0f2ce2bff2f39fefbc04b1180fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:51 +0000
Subject: [PATCH 25/34] fix: the generator left out optional parts of a rule
 that was used before, and mixed up rules with the same syntax

---
 richard/core/BasicGenerator.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/richard/core/BasicGenerator.py b/richard/core/BasicGenerator.py
index 24bb211..d42506b 100644
--- a/richard/core/BasicGenerator.py
+++ b/richard/core/BasicGenerator.py
@@ -34,8 +34,7 @@ class BasicGenerator(SomeGenerator):
 
         if found:
 
-            hash = rule.hash
-            used_rules.append(hash)
+            used_rules.append(self.get_rule_id(rule))
 
             for i, consequent in enumerate(rule.consequents):
                 consequent_vals = self.get_consequent_values(rule, i, binding)
@@ -98,6 +97,10 @@ class BasicGenerator(SomeGenerator):
 
         for rule in rules:
 
+            # a variant without optional parts; the complete rule was found already
+            if found and self.get_rule_id(rule) == self.get_rule_id(result_rule):
+                continue
+
             # example rule:
             # syn: s(E1) -> np(E2) vp(E1)
             # if: [('output_type', 'declarative'), ('output_subject', E1, E2)]
@@ -124,12 +127,17 @@ class BasicGenerator(SomeGenerator):
             found = True
 
             # make sure the same rule is not executed again and again
-            if rule.hash not in used_rules:
+            if self.get_rule_id(rule) not in used_rules:
                 break
 
         return result_rule, binding, found
 
 
+    def get_rule_id(self, rule: GrammarRule) -> int:
+        # the variants of a rule share the antecedent; different rules may have the same syntax
+        return id(rule.antecedent)
+
+
     def generate_single_consequent(self, rule: GrammarRule, used_rules: list[str], category: str, values: list[any], position_type: str, optional: bool) -> list[str]:
 
         if position_type == POS_TYPE_WORD_FORM:
-- 
2.43.0


From 8246e242181c5d64ec458e7d60c92413f7c3c129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:28 +0000
Subject: [PATCH 26/34] fix: a test that equals the last one was logged when
 only the last test was asked for

---
 richard/core/DialogTester.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/richard/core/DialogTester.py b/richard/core/DialogTester.py
index f963a41..88d24f8 100644
--- a/richard/core/DialogTester.py
+++ b/richard/core/DialogTester.py
@@ -42,12 +42,12 @@ class DialogTester:
 
 
     def do_run(self):
-        last = self.tests[-1] if len(self.tests) > 0 else None
+        last = len(self.tests) - 1
         for i, test in enumerate(self.tests):
 
             question, expected = test
 
-            log_this = self.logger.which_tests == ALL or (self.logger.which_tests == LAST and test == last)
+            log_this = self.logger.which_tests == ALL or (self.logger.which_tests == LAST and i == last)
             self.logger.is_last_test = log_this
 
             request = SentenceRequest(question, logger=self.logger)
-- 
2.43.0


From 5a9575b3ba5f4085e59d92dc9211a458e1adae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:32 +0000
Subject: [PATCH 27/34] fix: the language selector logged the letters of a
 locale instead of the locale

---
 richard/processor/language_selector/LanguageSelectorProduct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/richard/processor/language_selector/LanguageSelectorProduct.py b/richard/processor/language_selector/LanguageSelectorProduct.py
index 81757a7..6083eac 100644
--- a/richard/processor/language_selector/LanguageSelectorProduct.py
+++ b/richard/processor/language_selector/LanguageSelectorProduct.py
@@ -10,7 +10,7 @@ class LanguageSelectorProduct(SomeProduct):
 
 
     def log(self, logger: Logger):
-        logger.add(", ".join(self.locale))
+        logger.add(self.locale)
 
 
     def get_output(self) -> any:
-- 
2.43.0


From 769a791cf80f43b6f86c6e654981e54cb736ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:05 +0000
Subject: [PATCH 28/34] fix: variables that occur only in the exec or dialog of
 a rule were not made unique

---
 richard/processor/semantic_composer/SemanticComposer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/richard/processor/semantic_composer/SemanticComposer.py b/richard/processor/semantic_composer/SemanticComposer.py
index fe86243..de35ec9 100644
--- a/richard/processor/semantic_composer/SemanticComposer.py
+++ b/richard/processor/semantic_composer/SemanticComposer.py
@@ -97,8 +97,10 @@ class SemanticComposer(SomeProcessor):
         else:
             inferences.extend(node.rule.dialog)
 
-        # extend the map with variables found in the result of the semantics function
+        # extend the map with variables found in the results of the functions
         self.extend_map_with_semantics(map, semantics)
+        self.extend_map_with_semantics(map, inferences)
+        self.extend_map_with_semantics(map, executable)
 
         # replace the formal parameters in the semantics with the unified variables
         unified_semantics = self.unify_variables(semantics, map)
-- 
2.43.0


From d3fb5a80df2c9196aa7b432e74a603bc544d5bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:57 +0000
Subject: [PATCH 29/34] fix: a read rule that matches an empty text is refused
 instead of crashing the parser

---
 richard/processor/parser/helper/SimpleGrammarRulesParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/richard/processor/parser/helper/SimpleGrammarRulesParser.py b/richard/processor/parser/helper/SimpleGrammarRulesParser.py
index 7c3e9fd..d3c90d9 100644
--- a/richard/processor/parser/helper/SimpleGrammarRulesParser.py
+++ b/richard/processor/parser/helper/SimpleGrammarRulesParser.py
@@ -156,6 +156,10 @@ class SimpleGrammarRulesParser:
         if pos != len(tokens):
             raise Exception("Could not complete parsing the consequents: " + syntax)
 
+        # the parser cannot handle rules that match an empty text
+        if not write_rules and all(consequent.optional or consequent.separator for consequent in consequents):
+            raise Exception("At least one of the consequents must not be optional: " + syntax)
+
         return antecedent, consequents
 
 
-- 
2.43.0


From a59d5907145b17e350282271dfde91fb6ce86b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 30/34] fix: any number of comment lines may follow each other
 in a rule file

---
 richard/module/helper/SimpleInferenceRuleParser.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/richard/module/helper/SimpleInferenceRuleParser.py b/richard/module/helper/SimpleInferenceRuleParser.py
index 02c535e..77303c6 100644
--- a/richard/module/helper/SimpleInferenceRuleParser.py
+++ b/richard/module/helper/SimpleInferenceRuleParser.py
@@ -271,14 +271,13 @@ class SimpleInferenceRuleParser:
 
 
     def parse_token(self, tokens: list[str], pos: int):
+        # skip comments
+        while pos < len(tokens) and tokens[pos][0] == '#':
+            pos += 1
+
         if pos >= len(tokens):
             return None, pos
 
-        # skip comment
-        token = tokens[pos]
-        if token[0] == '#':
-            return self.parse_token(tokens, pos+1)
-
         return tokens[pos], pos + 1
 
 
-- 
2.43.0


From b61bf021cf1a15a89b32b9b4ff41ac3246bcba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:40 +0000
Subject: [PATCH 31/34] fix: destructure let a bound variable in the pattern
 match any part

---
 richard/module/CoreModule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/richard/module/CoreModule.py b/richard/module/CoreModule.py
index 7a48f4c..d89ee2a 100644
--- a/richard/module/CoreModule.py
+++ b/richard/module/CoreModule.py
@@ -417,7 +417,8 @@ class CoreModule(SomeModule):
         unbound_atoms = values[0]
         atoms = bind_variables(unbound_atoms, context.binding)
         atom = atoms[0]
-        structure = context.arguments[1:]
+        # the variables of the structure that are bound stand for their values
+        structure = [bind_variables(term, context.binding) for term in context.arguments[1:]]
         fail_structure = [None] + [None] * len(structure)
 
         if len(atom) != len(structure):
-- 
2.43.0


From 339d995b8e19aeeb5a61332f7f5831d0a1acd922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:45 +0000
Subject: [PATCH 32/34] fix: a rule's solution without a value for a head
 variable dropped its other solutions

---
 richard/module/InferenceModule.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/richard/module/InferenceModule.py b/richard/module/InferenceModule.py
index eac8877..1e8ca1f 100644
--- a/richard/module/InferenceModule.py
+++ b/richard/module/InferenceModule.py
@@ -98,17 +98,17 @@ class InferenceModule(SomeModule):
             for rule_argument, value in zip(rule_arguments, arguments):
                 if isinstance(value, Variable):
                     if isinstance(rule_argument, Variable):
-                        # check if the results are not bound (completely)
+                        # check if this result is not bound (completely)
                         # this happens when r(X). is matches against r(Y).
                         if not rule_argument.name in solution:
-                            return []
+                            break
                         result.append(solution[rule_argument.name])
                     else:
                         result.append(rule_argument)
                 else:
                     result.append(value)
-
-            results.append(result)
+            else:
+                results.append(result)
 
         return results
 
-- 
2.43.0


From 288c129cd3627a305ad1ff1a4bdb805a5a9a4ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:49 +0000
Subject: [PATCH 33/34] fix: rules with another number of arguments were
 applied to a query

---
 richard/module/InferenceModule.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/richard/module/InferenceModule.py b/richard/module/InferenceModule.py
index 1e8ca1f..3785daf 100644
--- a/richard/module/InferenceModule.py
+++ b/richard/module/InferenceModule.py
@@ -52,6 +52,10 @@ class InferenceModule(SomeModule):
     def solve_rule(self, rule: InferenceRule, arguments: list, solver: SomeSolver, binding: dict):
 
         rule_arguments = rule.head[1:]
+        # a rule with another number of arguments is about another relation
+        if len(rule_arguments) != len(arguments):
+            return []
+
         # initialize with binding variables that do not affect this rule (but may be used later on)
         rule_binding = {key: value for (key, value) in binding.items() if key not in rule.get_all_variables()}
 
-- 
2.43.0


From b6b3a23e1c976d5a294c766529ddc6ca9c2b30b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 34/34] fix: a word with a letter whose lower case has another
 length was never recognised

---
 richard/processor/parser/earley/EarleyParser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/richard/processor/parser/earley/EarleyParser.py b/richard/processor/parser/earley/EarleyParser.py
index 9a3e81c..46c03d9 100644
--- a/richard/processor/parser/earley/EarleyParser.py
+++ b/richard/processor/parser/earley/EarleyParser.py
@@ -212,6 +212,7 @@ class EarleyParser:
 
 
     def read_word(self, text: str, start_index: int, word: str):
-        part = text[start_index:].lower()
-        return part[:len(word)] == word.lower()
+        # compare the part as a whole; lower case may have another length than the text
+        part = text[start_index:start_index + len(word)]
+        return len(part) == len(word) and part.casefold() == word.casefold()
 
-- 
2.43.0

