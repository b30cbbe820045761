"""Writes /verif/properties.jsonl (kept so that the file can be edited comfortably)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A sentence is read in exactly the ways the grammar derives it",
  "For every grammar and every text, the parser returns every derivation of the whole text from the start category exactly once, and nothing else: no reading is invented, dropped or repeated. Words of the grammar match regardless of the letter case of the text, each run of whitespace in the text counts as one space, a regular expression covers only text that it matches, and categories with the same name and a different number of variables are different categories.",
  ["inputs", "programs"], "for all cycle-free grammars without empty productions, and all texts",
  "Tests parse about a dozen sentences with hand-written grammars and look at one tree each; ambiguity, recursion, shared substrings, regexp splits and arity overloading combine in ways no sample reaches.",
  ["richard/processor/parser/BasicParser.py", "richard/processor/parser/earley/EarleyParser.py", "richard/processor/parser/earley/tree_extract.py", "richard/processor/parser/earley/entity/Chart.py", "richard/processor/parser/earley/entity/ChartState.py"],
  [("predict / scan / complete over character positions", "EarleyParser.buildChart"), ("chart state identity (rule, dot, start, end)", "ChartState"), ("enumeration of child state sequences", "tree_extract")],
  ["BasicParser.process"])
p("C02", "What was parsed before never influences a parse; learned grammar does, at once",
  "The readings of a text depend only on the text and on the rules the grammar has at that moment, whatever was parsed before, in whatever order, and by whichever parser sharing that grammar. A grammar rule learned in the course of a dialogue takes effect from the next sentence on, exactly as if it had been in the grammar from the start, and parsing itself never changes the grammar.",
  ["histories"], "for all sequences of parsing and rule-learning operations on a shared grammar",
  "Tests build a fresh grammar per sentence list and never learn a grammar rule; state leaking between parses needs particular sequences.",
  ["richard/processor/parser/earley/EarleyParser.py", "richard/entity/GrammarRules.py", "richard/module/GrammarModule.py"],
  [("a fresh chart per parse", "EarleyParser.buildChart"), ("rule index extended in place", "GrammarRules.add_rule"), ("learn_grammar_rule predicate", "GrammarModule")],
  ["BasicParser.process", "Solver.solve"], [("grammar index", "rules by category and arity", "GrammarRules.index")])
p("C03", "An unreadable sentence is diagnosed, answered, and then forgotten",
  "A text that has no reading always yields an error and no products: 'unknown word' with the (at most nine characters of) text that follows the furthest position the grammar could recognise anything up to, 'no sentence' for an empty text, and 'not understood' when everything was recognised but no reading exists. That diagnosis becomes the reply to the user, and the sentence leaves no trace in later replies.",
  ["inputs", "histories"], "for all grammars and texts without a reading, and all dialogues in which such texts occur",
  "Tests check two error messages; furthest-position logic and the reply path for each error kind need systematic variation of where a text stops making sense.",
  ["richard/processor/parser/earley/unknown_word.py", "richard/processor/parser/earley/EarleyParser.py", "richard/core/System.py", "richard/grammar/en_us_write.py", "richard/module/BasicOutputBuffer.py"],
  [("furthest completed chart state", "find_unknown_word"), ("error stored as output facts", "System.enter"), ("standard replies", "en_us_write")],
  ["System.enter", "System.read_output"])
p("C04", "Readings are offered in order of preference and none gets lost in sorting",
  "The alternative readings of an ambiguous text are offered sorted by: higher total boost of the rules used, then fewer parts matched by a regular expression, then greater depth; readings that tie keep the parser's order. Sorting neither drops nor repeats readings, and processing tries them in precisely that order.",
  ["inputs", "programs"], "for all ambiguous grammars with any assignment of boosts, and all texts",
  "Tests have one ambiguous sentence; the lexicographic priority of three criteria shows only when they disagree pairwise.",
  ["richard/processor/parser/tree_sort_heuristics/BasicParseTreeSortHeuristics.py", "richard/processor/parser/tree_sort_heuristics/SortByBoost.py", "richard/processor/parser/tree_sort_heuristics/SortByRegExpCount.py", "richard/processor/parser/tree_sort_heuristics/SortByTreeDepth.py"],
  [("stable sorts in increasing priority", "BasicParseTreeSortHeuristics.sort_trees")], ["BasicParser.process"])
p("C05", "Grammar notation denotes exactly the texts it is documented to denote",
  "A rule written in the grammar notation accepts exactly the texts it denotes: parts separated by a space, glued with '+', or optionally spaced with '~'; optional words present or absent together with the space that belongs to them; words and regular expressions in quotes or slashes with the quote or slash escaped; variables and arity as written. A rule that is not well formed is refused with an error rather than read as something else.",
  ["programs", "inputs"], "for all rules over the notation up to a length bound, and all texts",
  "Tests have a handful of rules; interactions between optional words, separators and escapes multiply.",
  ["richard/processor/parser/helper/SimpleGrammarRulesParser.py", "richard/entity/GrammarRules.py", "richard/entity/GrammarRule.py"],
  [("tokenizer and recursive descent", "SimpleGrammarRulesParser.parse_syntax"), ("expansion of optional parts into variants", "GrammarRules.create_rule_variants")],
  ["SimpleGrammarRulesParser.parse_read_grammar", "BasicParser.process"])
p("C06", "Composition joins meanings without mixing up or losing variables",
  "In the meaning composed for a reading, two variables are the same exactly when the rules identify them (a part's variable with the variable it is given by the rule above it); variables local to a rule, wherever they occur in its meaning, differ from those of every other rule instance, also across sentences. Each rule's meaning function gets the meanings of its parts in order, matched text gets its actual form, constants and structure survive unchanged, and templates are filled with exactly the supplied arguments.",
  ["programs", "inputs"], "for all parse trees over a rule alphabet with shared, local, nested and reified variables and templates",
  "Tests compose five sentences; capture needs two rule instances reusing a name at particular nesting.",
  ["richard/processor/semantic_composer/SemanticComposer.py", "richard/processor/semantic_composer/helper/VariableGenerator.py", "richard/processor/parser/helper/grammar_functions.py"],
  [("formal-to-unified variable map per node", "SemanticComposer.compose"), ("fresh variable numbering", "VariableGenerator"), ("token replacement", "grammar_functions.apply")],
  ["SemanticComposer.process"])
p("C07", "Queries return exactly the answers of the conjunction",
  "Solving a list of atoms against a model returns exactly the variable bindings that satisfy all atoms together, each once, extending the binding it was given and leaving that binding and the model unchanged. A variable that occurs more than once stands for one value, constants must match, answers of all modules offering a predicate are combined, and a predicate no module offers is an error.",
  ["inputs", "programs"], "for all models, and all lists of atoms and initial bindings up to the bound",
  "Tests solve four queries; joins with repeated variables, constants, falsy values and several modules only go wrong in combination.",
  ["richard/core/Solver.py", "richard/core/Model.py"],
  [("depth-first join with de-duplication", "Solver.solve"), ("row to binding conversion", "Solver.create_solve_single_results"), ("lookup over modules", "Model.find_relations")],
  ["Solver.solve"])
p("C08", "Quantifiers, negation, disjunction and scoping mean what they say",
  "The logical built-ins decide exactly their definition over the solutions of their bodies: negation and 'none' succeed iff there is no solution, numeric quantifiers compare the number of solutions, 'all' succeeds iff every element of a non-empty range satisfies the body and then returns the range, scoping succeeds iff a solution exists and keeps its variables local, disjunction gives the solutions of its first alternative that has any, and collecting gives each distinct value once in order. Their bodies see the variables bound around them, and nothing bound inside leaks out except the stated results.",
  ["inputs", "programs"], "for all bodies (nested up to a depth), all small models and all incoming bindings",
  "Tests sample a few quantified sentences; zero, one, equal and all counts with nesting and shared variables need exhaustive small worlds.",
  ["richard/module/CoreModule.py", "richard/core/Solver.py"],
  [("body solved under the current binding", "CoreModule"), ("committed disjunction", "Solver.solve_disjunction")], ["Solver.solve"])
p("C09", "Aggregates, comparisons and assignment compute their definition",
  "Count, sum, average, percentage, minimum and maximum are computed over precisely the distinct solutions of their body, with an absent answer (not a crash, not zero) for an average, percentage, minimum or maximum over nothing; comparisons and arithmetic hold by value; equality binds an unbound side. Results are correct for zero, negative, fractional and repeated values, for ties (the first solution with the minimum or maximum counts), and for result sets given only by their size.",
  ["inputs"], "for all value assignments over a small alphabet, all models, and all binding patterns",
  "Tests use one data set of positive numbers; falsy and negative values, ties and empty sets are unsampled.",
  ["richard/module/CoreModule.py", "richard/entity/ResultIterator.py", "richard/core/Solver.py"],
  [("loops over solutions", "CoreModule"), ("size-only result sets", "ResultIterator")], ["Solver.solve"])
p("C10", "Optimising a question never changes its answer",
  "For every question made of look-ups, negations, quantifiers and aggregates over any model, the optimised form has the same set of values for the variables asked for as the unoptimised form, whatever size hints the relations carry. Every atom of the question is kept exactly once.",
  ["programs", "configurations"], "for all questions up to a bound, all size hints, and all small models",
  "Tests check the isolated form of one query; reordering and isolation are wrong only for specific sharing patterns of variables.",
  ["richard/processor/semantic_composer/optimizer/BasicQueryOptimizer.py", "richard/processor/semantic_composer/optimizer/SortByCost.py", "richard/processor/semantic_composer/optimizer/IsolateIndependentParts.py", "richard/processor/semantic_composer/optimizer/FrontResolveName.py"],
  [("reordering by estimated cost", "SortByCost"), ("wrapping independent parts", "IsolateIndependentParts"), ("name resolution first", "FrontResolveName")],
  ["BasicQueryOptimizer.optimize", "Solver.solve"])
p("C11", "Inference rules yield exactly the logical consequences of rules and facts",
  "A query on a predicate defined by facts and (non-circular) rules returns exactly the tuples that follow from them, each once, for every combination of bound, constant, unbound and repeated arguments in the query. The names of a rule's own variables never matter, and rules, stored data and code-defined relations of the same name combine; rules of one name with different numbers of arguments are about different relations.",
  ["programs", "inputs"], "for all small rule sets, fact bases, and query modes",
  "Tests query one family rule file; variable-name collisions between caller and rule and query modes with repeated variables are not sampled.",
  ["richard/module/InferenceModule.py", "richard/core/Solver.py"],
  [("head unification per rule", "InferenceModule.solve_rule"), ("body solved with a rule-local binding", "InferenceModule.solve_rule")], ["Solver.solve"])
p("C12", "A rule file is loaded as written, or refused as a whole",
  "Every well-formed text of facts and rules is read as precisely the heads, bodies, disjunctions, nested atoms, variables, strings (with escaped quotes) and signed numbers written there, in order, with comments and layout ignored. A text with a malformed rule anywhere is refused with an error and none of it is loaded.",
  ["inputs"], "for all rule texts over the token alphabet up to a length bound, and all their truncations and single-token corruptions",
  "Tests parse one example; truncation points and constants such as 0, '' and negative numbers need enumeration.",
  ["richard/module/helper/SimpleInferenceRuleParser.py", "richard/module/InferenceModule.py"],
  [("tokenizer and recursive descent", "SimpleInferenceRuleParser"), ("all-or-nothing import", "InferenceModule.import_rules")],
  ["SimpleInferenceRuleParser.parse", "InferenceModule.import_rules"])
p("C13", "What was told is remembered: stored facts and learned rules answer later queries",
  "After any sequence of storing facts, learning rules and querying, each query returns exactly what follows from everything stored and learned so far and nothing else; queries, failing ones included, change nothing. Variables bound at the time of storing or learning are replaced by their values, and storing goes to every module that can hold the predicate, once per solution.",
  ["histories"], "for all operation sequences up to a depth",
  "Tests store and query once; order effects (learn before store, repeated learning, queries in between) need histories.",
  ["richard/module/SimpleMemoryModule.py", "richard/module/InferenceModule.py", "richard/module/CoreModule.py", "richard/core/Solver.py", "richard/data_source/Sqlite3DataSource.py"],
  [("store via write functions", "CoreModule.store / Solver.write_atom"), ("rules appended per predicate", "InferenceModule.insert_rule")],
  ["Solver.solve"], [("memory tables", "stored facts", "SimpleMemoryModule.data_source"), ("rules", "learned rules", "InferenceModule.rules")])
p("C14", "Dialogue contexts are active exactly while they are open",
  "A context is active from its start until its end, and a block run within a context sees it active; after the block the active contexts are what they were before it, whether the block succeeded, had no solutions or raised an error, and however blocks and contexts nest. Facts about the entities of the dialogue stay known until the dialogue context is cleared, which removes everything and nothing else.",
  ["histories", "fault_sequences"], "for all sequences and nestings of start, end, with-blocks, failures, facts and clears up to a depth",
  "Tests open one context once; nesting, repetition and failing bodies are histories no test runs.",
  ["richard/module/BasicDialogContext.py", "richard/module/SimpleMemoryModule.py"],
  [("context table rows", "BasicDialogContext.with_context / start_context / end_context")], ["Solver.solve"],
  [("context", "names of active contexts", "BasicDialogContext tables"), ("dialog_isa", "types of dialogue entities", "BasicDialogContext tables")])
p("C15", "Each reply is made from this turn's output only",
  "The reply to a sentence depends only on what was put in the output buffer since the previous reply: generating a reply, also one that fails with an error, empties the buffer, and no output of earlier sentences ever shows up in, or suppresses, a later reply. The two entries of a turn (entering a sentence, reading the reply) may be repeated or omitted in any pattern with the same guarantee.",
  ["histories", "fault_sequences"], "for all sequences of entering sentences of every outcome kind and reading output, up to a depth",
  "Tests read the output after each sentence on the happy path only; stale output needs a failure followed by another turn.",
  ["richard/core/BasicGenerator.py", "richard/module/BasicOutputBuffer.py", "richard/core/System.py"],
  [("buffer cleared around generation", "BasicGenerator.generate_output"), ("facts in memory", "BasicOutputBuffer")], ["System.enter", "System.read_output"],
  [("output buffer", "output facts of this turn", "BasicOutputBuffer")])
p("C16", "The reply text is the one the write grammar prescribes",
  "A reply is generated by the first rule of the category whose condition holds for the given values (preferring one not used yet in this reply), with the values its condition binds; its parts are generated in order with those values, literal words, spaces and values appear as written, optional parts disappear when no rule applies to them, and formatting functions receive exactly the values named. When a required part has no applicable rule, generation fails with an error instead of giving wrong text.",
  ["programs", "inputs"], "for all small write grammars and all contents of the output buffer up to a bound",
  "Tests generate three sentences; rule choice depends on order, conditions, previous use and bindings jointly.",
  ["richard/core/BasicGenerator.py", "richard/processor/parser/helper/SimpleGrammarRulesParser.py"],
  [("rule choice", "BasicGenerator.find_rule"), ("recursive generation", "BasicGenerator.generate_node")], ["BasicGenerator.generate_output"])
p("C17", "The pipeline tries alternatives exactly as its blocks promise",
  "With find-one blocks, processing tries the alternative products of each step depth-first in order and stops at the first complete success, whose products become the result; try-first tries only the first alternative; find-all tries every alternative and succeeds if any succeeds. The alternatives of a step stay available from the request (with find-all those of all its runs together, otherwise those of its last run). If nothing succeeds the first error met is reported; each step sees the current products of the steps before it, is run exactly once per combination reached, and a later sentence is unaffected by an earlier one.",
  ["configurations", "inputs"], "for all pipelines up to three blocks of all kinds and all outcome tables of their processors",
  "Tests run pipelines in which the first or second product succeeds; backtracking behaviour is determined by the whole success/failure matrix.",
  ["richard/block/FindOne.py", "richard/block/FindAll.py", "richard/block/TryFirst.py", "richard/block/Succeed.py", "richard/core/System.py", "richard/entity/SentenceRequest.py"],
  [("nested processing through next block", "block/*"), ("current and alternative products", "SentenceRequest")], ["System.enter"])
p("C18", "SQL data sources return exactly the matching rows and treat values as data",
  "For every table content and every combination of bound and unbound columns, selecting returns exactly the rows whose bound columns equal the given values, with the columns in the order asked; inserting adds exactly the given row (and changes nothing if the table has room for that row only once and holds it), and deleting removes exactly the matching rows. Values are never interpreted as SQL, and the supported database back-ends agree.",
  ["inputs", "histories"], "for all tables, column lists, values (including quotes, SQL fragments, zero and empty string) and operation sequences up to a bound",
  "Tests select one row; bound/unbound patterns, falsy values and hostile strings are not covered, and MySQL/PostgreSQL are not reached without a server.",
  ["richard/data_source/Sqlite3DataSource.py", "richard/data_source/MySqlDataSource.py", "richard/data_source/PsycoPg2DataSource.py", "richard/data_source/PsycoPg3DataSource.py"],
  [("conditions only for bound columns, with placeholders", "*DataSource.select")], ["select", "insert", "delete"])
p("C19", "SPARQL queries ask exactly what was meant, and answers are matched back",
  "For every property, column kinds and pattern of bound and unbound arguments, the query sent asks for exactly the unbound ones, restricted to the bound ones as identifiers, constants, numbers or language-tagged text in which every character stands for itself, with text results restricted to the configured language. Each returned row has the bound values unchanged and the found values in their own positions, and a refusal by the server is an error, never an empty answer.",
  ["inputs", "fault_sequences"], "for all argument patterns, value alphabets, languages and server answers up to a bound",
  "The Wikidata test replays cached results only and never forms a query.",
  ["richard/data_source/SparqlDataSource.py", "richard/data_source/WikidataDataSource.py"],
  [("term preparation and query text", "SparqlDataSource.do_select"), ("result conversion", "SparqlDataSource.prepare_results")], ["HTTP request and returned rows"])
p("C20", "The SPARQL result cache is invisible except for speed, through crashes too",
  "With a result cache, every query answers exactly as without it: a repeated query is answered from the cache without a request, different queries never share an answer, failed requests are not cached, and an unusable cache directory only costs speed. After a crash at any point of writing a cache entry, later queries still answer correctly and the entry recovers.",
  ["crash_points", "histories", "fault_sequences"], "for all query sequences with server failures, and every prefix of a cache write being what survives a crash",
  "Tests read an intact cache; no test writes one, crashes during a write, or varies the query.",
  ["richard/data_source/SparqlDataSource.py"],
  [("pickle file per hashed query", "SparqlDataSource.select")], ["select"], [("cache files", "pickled results", "result_cache_path")])
p("C21", "CSV import stores every row under its own headings",
  "Importing a CSV file inserts one record per data row, in order, with each value exactly as CSV defines it (quotes, separators, doubled quotes, line breaks inside quotes, any characters) under the heading of its column, for any order and number of columns; blank lines are ignored and nothing else is dropped or altered. Imported data is found by queries for any combination of bound columns.",
  ["inputs"], "for all files over a small alphabet of cell values, column counts, quoting styles and line endings",
  "Tests import well-behaved files only.",
  ["richard/data_source/CsvImporter.py", "richard/data_source/Sqlite3DataSource.py", "richard/data_source/SimpleDataSource.py"],
  [("csv reader, headers from the first line", "CsvImporter.import_table_from_file")], ["data source contents"])
p("C22", "The in-memory data source is a faithful multiset of records",
  "After any sequence of insertions into any tables, selecting returns exactly the inserted records that agree with all given values, in insertion order, with repetitions, and with the columns in the order asked; values of any type come back as they were put in, an absent value is returned as absent, and tables do not affect each other. Clearing removes everything.",
  ["histories"], "for all sequences of insert, select and clear up to a depth over a value alphabet with falsy and structured values",
  "It has no tests of its own.",
  ["richard/data_source/SimpleDataSource.py"], [("list of records per table", "SimpleDataSource")], ["select"])
p("C23", "Each sentence is handled in the first language that can process it",
  "With several languages configured, the locales are tried in the configured order with exactly the processor registered for each, and the reading is that of the first locale whose whole processing succeeds; if none succeeds the error of the first locale is reported, and a locale without a processor is an error. Nothing of a locale that was tried and failed remains in the result.",
  ["configurations", "inputs"], "for all orders of locales, all assignments of processors, and all sentences",
  "The test has two languages with disjoint vocabularies in one order.",
  ["richard/processor/language_selector/LanguageSelector.py", "richard/processor/language_selector/Multilingual.py", "richard/block/FindOne.py"],
  [("one product per locale", "LanguageSelector.process"), ("dispatch on current locale", "Multilingual.process")], ["System.enter"])
p("C24", "Logging shows what it is asked to and never changes the outcome",
  "The answers of the system are the same under every logging configuration and for every sentence, including ambiguous and failing ones. The log contains the products of precisely the processors asked for, and only for the tests asked for; with logging off it stays empty.",
  ["configurations"], "for all logger configurations and all sentences of a dialogue with every outcome kind",
  "Tests run with logging off.",
  ["richard/core/Logger.py", "richard/entity/SentenceRequest.py", "richard/processor/semantic_executor/AtomExecutor.py", "richard/processor/semantic_executor/AtomExecutorProduct.py", "richard/processor/semantic_composer/SemanticComposerProduct.py"],
  [("product logging around each processor", "SentenceRequest.exec_process"), ("which tests and which products", "Logger")], ["System.enter", "str(logger)"])
p("C25", "Two systems in one process do not influence each other",
  "When two independently constructed systems are used side by side, every interleaving of their sentences, learned rules, stored facts, contexts and replies gives each of them exactly the replies it gives alone.",
  ["schedules", "histories"], "for all interleavings of two dialogue scripts and all orders of construction",
  "Each test uses one system; state shared by accident (class attributes, mutable defaults, module globals) shows only when two are interleaved.",
  ["richard/core/System.py", "richard/core/Model.py", "richard/core/Solver.py", "richard/entity/Relation.py", "richard/interface/SomeModule.py", "richard/module/InferenceModule.py", "richard/module/BasicOutputBuffer.py", "richard/module/BasicDialogContext.py"],
  [("all state kept in instances", "constructors")], ["System.enter", "System.read_output"])
p("C26", "Answers to questions are true of the data",
  "For every content of the database, a question in the fragment (existence, how many, which, every, no, number comparison, and combinations with relative clauses) is answered with exactly what is true of that data; with and without query optimisation the answer is the same. Asking changes nothing, so the same question asked again gets the same answer.",
  ["inputs", "configurations"], "for all small worlds, all sentences of the fragment up to a nesting depth, with and without optimiser",
  "Integration tests ask fixed questions to one fixed world.",
  ["richard/core/System.py", "richard/processor/parser/BasicParser.py", "richard/processor/semantic_composer/SemanticComposer.py", "richard/processor/semantic_executor/AtomExecutor.py", "richard/core/Solver.py", "richard/core/BasicGenerator.py"],
  [("parse, compose, optimise, execute, generate", "System")], ["System.enter", "System.read_output"])
p("C27", "A dialogue of statements and questions keeps a consistent belief state",
  "In any dialogue of statements, rule-teaching sentences and questions, every answer equals what follows from the statements and rules accepted so far; a statement takes effect from the next sentence on, exactly one time; and a sentence that is not understood or fails changes nothing.",
  ["histories"], "for all dialogues up to a depth over a fixed sentence alphabet",
  "Integration tests run one linear script each.",
  ["richard/core/System.py", "richard/processor/semantic_executor/AtomExecutor.py", "richard/module/InferenceModule.py", "richard/module/SimpleMemoryModule.py", "richard/core/BasicGenerator.py"],
  [("executable atoms and dialogue facts run before the meaning", "AtomExecutor.process")], ["System.enter", "System.read_output"])
p("C28", "A dialogue test passes exactly when every reply is the expected one",
  "Running a dialogue test enters its sentences in order, one by one, and reads one reply after each. It passes, printing nothing, exactly when every reply equals its expectation character for character; otherwise it ends with an error at the first turn with another reply, or at which processing raised an error, and enters no later sentence. The wrong reply is in the log, and the log is printed, whatever the log setting. Log setting and profiling make no difference to which dialogues pass.",
  ["histories", "configurations"], "for all dialogues up to a depth, all placements of right and wrong expectations and of crashes, all log settings, with and without profiling and output generator",
  "The integration tests themselves rest on it: a tester that lets a wrong reply pass makes them all pass.",
  ["richard/core/DialogTester.py", "richard/core/Logger.py"],
  [("comparison of each reply with its expectation", "DialogTester.do_run"), ("logging of the wrong reply, printing of the log", "DialogTester.do_run")], ["DialogTester.run"])
p("C29", "A sentence is carried out in full: its facts, then its actions, then its meaning",
  "Carrying out a reading first stores its dialogue facts, each one, in order, in every module that offers their predicate and can store it; then performs its actions, as a query, whether or not they succeed; and then solves its meaning against everything known by then. The result is exactly the answers of the meaning: nothing bound by the actions restricts or enters them. Each of the three happens exactly once per reading that is tried, and no reading that is not tried has any effect. An error in any of them is the error of the sentence.",
  ["inputs", "histories"], "for all combinations of dialogue facts, actions and meanings over menus of effects (storing, learning, several or no solutions, errors), one or two readings under each kind of block, and sequences of sentences",
  "The tests look at replies only; an effect that is lost, doubled, or happens in another order shows only for particular combinations.",
  ["richard/processor/semantic_executor/AtomExecutor.py", "richard/core/Solver.py", "richard/processor/semantic_composer/SemanticComposerProduct.py"],
  [("facts, actions, meaning in this order", "AtomExecutor.process"), ("writes to all modules", "Solver.write_atom")], ["System.enter"])
p("C30", "A query handed on as data keeps its meaning, and an atom taken apart gives its parts",
  "Atoms can be handed on as the value of an argument - to an inference rule, through any chain of rules, whatever the names of their variables - and used there as the body of a scope, negation, count, quantifier comparison, collection, percentage or store. The result is exactly what it is with the atoms written out in place: variables that have a value at the time of the call keep it inside, the rule's own variables make no difference, and nothing bound inside comes out except the stated results. Taking an atom apart (destructure) binds the variables of the pattern to precisely the corresponding parts of the atom, with the values known at that time, when name, number of parts and all known parts agree, and otherwise gives them no value.",
  ["inputs"], "for all bodies of a menu handed to all rules of a library (built-ins, chains, two bodies, generators, several rules, constants) in four namings, between look-ups before and after, with given bindings, over small databases; all patterns for all small atoms",
  "Intents, the way every sentence is carried out, rest on it; variable capture and lost bindings show only for particular names and combinations.",
  ["richard/module/InferenceModule.py", "richard/core/Solver.py", "richard/module/CoreModule.py", "richard/core/atoms.py"],
  [("rule called with a body", "InferenceModule.solve_rule"), ("the body gets the binding of the rule", "CoreModule"), ("atoms taken apart", "CoreModule.destructure")], ["Solver.solve"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
