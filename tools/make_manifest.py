"""Writes /verif/MANIFEST.json from the check modules and the notes below."""
import importlib, json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.environ.get("RICHARD_REPO", "/repo"))

T = {
 "C01": ("bounded exhaustive exploration of the real parser over all grammars of a family and all texts up to a length, against a span enumerator",
         "Every reading, with multiplicity, of every text over the alphabet up to the bound for every grammar of the family. Trusts the reference enumerator (mc/grammar.py, memoised recursion over spans, written from the definition)."),
 "C02": ("explicit-state exploration of all histories of parsing and rule learning, replayed on the real parsers and grammar",
         "All operation sequences up to the depth; each parse is compared with the reference and with a fresh parser."),
 "C03": ("bounded exhaustive exploration of unreadable texts and of dialogues that contain them, against a reference recogniser",
         "All texts without a reading up to a length for all grammars of the family of C01; all dialogues up to four turns over a menu of sentences."),
 "C04": ("bounded exhaustive exploration of all boost assignments to ambiguous grammars", "All assignments of three boost values to the rules; the order is the stable lexicographic order of the definition."),
 "C05": ("bounded exhaustive exploration of all grammar rules over the notation up to a length and all texts, against their denotation",
         "All part and separator combinations up to the bound in two layouts; all token sequences up to the bound for refusal."),
 "C06": ("bounded exhaustive exploration of grammars over menus of meaning functions, against composition by renaming apart",
         "Equality up to a one-to-one renaming of variables."),
 "C07": ("bounded exhaustive exploration of all conjunctions, databases and bindings up to a bound, against a naive join", "All conjunctions of up to three atoms of the menu."),
 "C08": ("bounded exhaustive exploration of nested logical formulas over small models, against a naive evaluator", "All formulas over the menus with up to three built-ins nested or in sequence, on all databases of a family."),
 "C09": ("bounded exhaustive exploration of value tables, bodies and binding patterns, against exact arithmetic", "All tables up to the bound over negative, zero, fractional and repeated values."),
 "C10": ("bounded exhaustive exploration of questions, size hints and models: optimised against written form, on the real solver", "All questions over the menus; the answer set of the optimised form is that of the form written."),
 "C11": ("bounded exhaustive exploration of rule programs, variable namings and query modes, against a bottom-up fixpoint", "All programs over the menus; all argument patterns."),
 "C12": ("bounded exhaustive exploration of rule texts and of all their single-token corruptions and truncations, against the structures written", "Every written structure in four layouts; every corruption must be refused as a whole."),
 "C13": ("explicit-state exploration of all histories of storing, learning and querying, replayed on the real modules", "Every sequence up to the depth; all queries of the menu after each."),
 "C14": ("explicit-state exploration of all nestings of contexts with all outcomes and all histories up to a depth, replayed on the real module", "Contexts observed inside bodies and after every operation."),
 "C15": ("explicit-state exploration of all histories of sentences and replies up to a depth, replayed on a whole system", "All outcome kinds, including exceptions and outputs that cannot be generated."),
 "C16": ("bounded exhaustive exploration of write grammars and buffer contents, against a reference interpreter of the rules", "All rule lists, conditions, part sequences and buffer contents up to the bounds."),
 "C17": ("bounded exhaustive exploration of all pipelines and outcome tables, against the recursive definition of the blocks", "All pipelines of up to three blocks of the kinds, with all outcome tables of up to two (partly three) products per step."),
 "C18": ("bounded exhaustive exploration of selections and of histories of changes on all SQL back-ends, against a list model", "The server back-ends run against stand-in driver connections on SQLite (no servers here)."),
 "C19": ("bounded exhaustive exploration of properties, argument patterns, values, languages and server answers against a stand-in SPARQL endpoint", "The stand-in parses each request by the SPARQL grammar for the fragment and evaluates it on its triples."),
 "C20": ("fault enumeration: every byte position of a broken cache write, every server outcome in every history, against a perfect cache", "Every crash prefix of every write of a cache entry, for histories up to the depth."),
 "C21": ("bounded exhaustive exploration of tables, writing styles and column orders through the real importer", "All tables up to the bound over a cell alphabet with quotes, separators and line breaks."),
 "C22": ("explicit-state breadth-first exploration of the data source's states, every transition replayed on the real one", "All histories up to the depth, all selections in every state."),
 "C23": ("bounded exhaustive exploration of locale orders, processor assignments and outcome tables, and of all sentences of two overlapping languages", "Calls, results and errors compared with the definition."),
 "C24": ("bounded exhaustive exploration of logger configurations and dialogues, outcomes compared with logging off", "All configurations over the stated options."),
 "C25": ("exhaustive exploration of all interleavings of two dialogue scripts on two real systems", "All interleavings at the granularity of construct / enter / read, for all pairs of scripts of the menu; one thread."),
 "C26": ("bounded exhaustive exploration of all sentences of a fragment over all small worlds through the whole system, against direct evaluation", "All sentences up to the nesting depth; each sentence in every sixth world in quick (rotating), all in thorough."),
 "C27": ("explicit-state exploration of all dialogues up to a depth with a whole system, against a belief model", "All dialogues over the sentence alphabet up to the depth."),
 "C28": ("bounded exhaustive exploration of dialogues with all placements of right and wrong expectations and crashes, on the real tester", "All dialogues up to the depth over the menus; long ones with one wrong turn."),
 "C29": ("bounded exhaustive exploration of all combinations of dialogue facts, actions, meanings and readings through the whole pipeline, against a model of their effects",
         "Everything stored and performed, in order, and the answers, for all combinations over the menus and all sequences of up to three sentences."),
 "C30": ("bounded exhaustive exploration of all rules of a library x handed bodies x surroundings x databases on the real solver, against in-place substitution by a reference",
         "All combinations over the menus, with the databases dealt out over them; bodies and chains of up to 101 and 65."),
}
NA = {}

checks = []
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
for p in props:
    i = p["id"]
    if i in NA: continue
    m = importlib.import_module("checks." + i)
    tech, note = T[i]
    note = note + " Assumes: " + "; ".join(m.ASSUMPTIONS) + ". Nothing outside the stated alphabets and bounds is covered."
    checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "evidence_file": f"evidence/{i}.json",
                   "technique": tech, "level": m.LEVEL, "level_note": note})
man = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
       "notes": "No hooks: the checks drive the public classes of /repo as they are. ./check CNN [quick|thorough] [--replay FILE]; RICHARD_REPO names another tree to check (default /repo). "
                "Known findings and the list of repaired defects are in KNOWN_FINDINGS; DESIGN.md describes each check."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
