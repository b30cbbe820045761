"""Diagnosis of unreadable texts, its delivery as the reply, and dialogues of readable and unreadable sentences."""
import itertools
from mc.core import Space, Violation, require, same
from mc.grammar import *
from mc import impl
from . import C01

PROP = "C03"
LEVEL = "exploration"
RULE = ("one evaluation = one unreadable text diagnosed by the real parser and by the reference recogniser, or one dialogue "
        "(sequence of readable and unreadable sentences through the whole system, reply read after each); all of them non-trivial: "
        "only texts without a reading, and dialogues with at least one such text, are counted")
ASSUMPTIONS = ["grammars have no unit cycles and no rule that may be empty"]


def expected(ref):
    """what the parser must say about a text without readings"""
    far = ref.furthest()
    rest = ref.text[far:]
    if rest != "":
        return "unknown_word", [rest[:9] + " ..."]
    if ref.text == "":
        return "no_sentence", []
    return "not_understood", []


def check_diag(case, rec):
    name, grammar, texts = case
    parser = impl.BasicParser(impl.read_grammar(impl.simple_grammar(grammar)))
    if isinstance(texts, tuple) and texts and texts[0] == 'all':
        texts = all_texts(texts[1], texts[2])
    for t in texts:
        ref = Reference(grammar, t)
        got, err, args = impl.parse(parser, t)
        if ref.readings():
            same(f"error for readable text {t!r}", (err, args), ("", []))
            continue
        exp = expected(ref)
        if (err, args) != exp or got:
            raise Violation(f"grammar {[render(r) for r in grammar]} text {t!r}: expected {exp}, got {(err, args)} with {len(got)} products")
        rec.ev((grammar, t), True, f"{err} {args and len(args[0])}")


GRAMMAR = (rule('s', ['E1'], W('hello'), N('who', 'E1')), rule('who', ['E1'], W('world')), rule('who', ['E1'], R('[a-c]+')),
           rule('s', ['E1'], N('who', 'E1'), N('who', 'E1')), rule('s', ['E1'], W('x')), rule('s', ['E1'], W('oops'), N('w', 'E1')),
           rule('w', ['E1'], W('oops now')))
TEXTS = ['hello world', 'hello there my good friend', '', 'hello', 'zzz', 'world cab', 'hello worlds', 'x', 'oops oops now', 'world', ' ', 'HELLO abcabcd']


def reply_for(grammar, t):
    ref = Reference(grammar, t)
    if ref.readings():
        return 'ok ' + str(len(ref.readings()))
    e, args = expected(ref)
    return {"unknown_word": "Could not understand: " + (args[0] if args else ''), "no_sentence": "No sentence given",
            "not_understood": "Sorry, I don't understand"}[e]


def build_system():
    rules = []
    for r in GRAMMAR:
        d = {"syn": render(r), "sem": lambda *a: [('output', )], "exec": lambda *a: []}
        rules.append(d)
    counts = {t: len(Reference(GRAMMAR, t).readings()) for t in TEXTS}
    for d in rules:
        if d["syn"].startswith("s("):
            d["sem"] = lambda *a: [("said", "ok")]
        else:
            d["sem"] = lambda *a: []
    buf = impl.BasicOutputBuffer()

    class M(impl.SomeModule):
        def __init__(self):
            super().__init__()
            self.add_relation(impl.Relation("said", query_function=self.said))

        def said(self, values, context):
            context.solver.solve([("store", [("output_type", "said"), ("output_value", values[0])])])
            return [values]
    model = impl.Model([M(), buf])
    parser = impl.BasicParser(impl.read_grammar(rules))
    composer = impl.SemanticComposer(parser)
    executor = impl.AtomExecutor(composer, model)
    w = [{"syn": "s() -> 'said' text(E1)", "if": [("output_type", "said"), ("output_value", impl.E1)]}] + impl.get_en_us_write_grammar()
    gen = impl.BasicGenerator(impl.write_grammar(w), model, buf)
    return impl.System(model=model, input_pipeline=[impl.FindOne(parser), impl.FindOne(composer), impl.FindOne(executor)], output_generator=gen)


def check_dialogue(case, rec):
    system = build_system()
    for k, i in enumerate(case):
        t = TEXTS[i]
        system.enter(impl.SentenceRequest(t))
        got = system.read_output()
        exp = reply_for(GRAMMAR, t)
        if exp.startswith('ok'):
            exp = 'said ok'
        same(f"reply to {t!r}, sentence {k + 1} of {[TEXTS[j] for j in case]}", got, exp)
    rec.ev(case, any(not Reference(GRAMMAR, TEXTS[i]).readings() for i in case), got)


LONG = (rule('s', ['E1'], N('np', 'E1'), W('is'), N('np', 'E2')), rule('np', ['E1'], W('big'), N('np', 'E1')), rule('np', ['E1'], R('[n-p]+')), rule('s', ['E1'], W('x' * 40), '+', W('y' * 40)))


def check_long(case, rec):
    """the place where a long text goes wrong"""
    n, tails = case
    parser = impl.BasicParser(impl.read_grammar(impl.simple_grammar(LONG)))
    texts = []
    for tail in tails:
        texts += ['big ' * n + tail, 'o is ' + 'big ' * n + tail, 'o' * n + tail, 'o' * n + ' is ' + 'p' * n + tail, 'x' * min(n, 40) + tail, 'x' * 40 + 'y' * min(n, 39) + tail, 'z' * n + tail, ' ' * n + tail]
    for t in texts:
        ref = Reference(LONG, t)
        got, err, args = impl.parse(parser, t)
        if ref.readings():
            same(f"error for readable text {t!r}", (err, args), ("", []))
            continue
        exp = expected(ref)
        if (err, args) != exp or got:
            raise Violation(f"grammar {[render(r) for r in LONG]} text {t!r}: expected {exp}, got {(err, args)} with {len(got)} products")
        rec.ev(('long', t), True, f"{err} {args and len(args[0])}")


def check_many(case, rec):
    """long dialogues: n times one sentence or a cycle of sentences, then each of the others"""
    n, cycle = case
    system = build_system()
    exp = {t: 'said ok' if r.startswith('ok') else r for t, r in ((t, reply_for(GRAMMAR, t)) for t in TEXTS)}
    for k in range(n):
        t = TEXTS[cycle[k % len(cycle)]]
        system.enter(impl.SentenceRequest(t))
        same(f"reply to {t!r}, sentence {k + 1} of a dialogue that repeats {[TEXTS[j] for j in cycle]}", system.read_output(), exp[t])
    for t in TEXTS + TEXTS[::-1]:
        system.enter(impl.SentenceRequest(t))
        same(f"reply to {t!r} after {n} sentences {[TEXTS[j] for j in cycle]}", system.read_output(), exp[t])
    rec.ev(case, True, f"{len(cycle)} repeated")


EXTRA = [
    # texts of nothing but white space, recognised or not
    ("blank", (rule('s', ['E1'], W(' '), '+', W('x')), rule('s', ['E1'], R(' +'), '+', W('y'))), ['', ' ', '  ', '\t', '\n ', ' x', ' y', ' z', 'x', ' x ']),
    ("blank2", (rule('s', ['E1'], N('b', 'E1'), '+', W('x')), rule('b', ['E1'], W(' '))), ['', ' ', '   ', ' x', ' z']),
    # words spelled like categories, regular expressions spelled like categories
    ("homonyms", (rule('s', ['E1'], W('p'), '+', N('q', 'E1')), rule('s', ['E1'], R('q'), '+', W('s')), rule('p', [], W('xy')), rule('q', [], W('zz')), rule('q', ['E1'], W('p')), rule('s', [], W('zz'))),
     ('all', 'pqsxyz', 4)),
    ("tail", (rule('s', ['E1'], W('abc'), N('n', 'E1')), rule('n', ['E1'], R('[a-z]+')), rule('n', ['E1'], R('[a-z]+ [a-z]+'))),
     ['abc', 'abc ', 'abc d', 'abc d1', 'abc d e f', 'abc 123456789', 'abc 1234567890', 'abc 12345678', 'ab', 'abcd', 'abc d e 1 2 3 4 5 6', 'ABC X', 'abc dé', 'abc d e fghijklmnop', '\nabc', '!', '!!!!!!!!!!!!']),
    ("right", (rule('s', ['E1'], N('a', 'E1'), W('is'), N('b', 'E1')), rule('a', ['E1'], W('the man')), rule('a', ['E1'], W('the')), rule('a', ['E1'], W('the'), N('a', 'E1')), rule('b', ['E1'], W('rich')), rule('b', ['E1'], W('ric'))),
     ['the man is rich', 'the man is ric', 'the man is rice', 'the', 'the man', 'the man is', 'the man is ', 'the woman is rich', 'man', 'the the the man was rich', 'the the  woman', 'the man is rich man', 'is rich', 'the man isrich']),
]


def spaces(tier):
    n = 4 if tier == 'quick' else 5
    fam = [("family", g, ('all', 'xyz ' if tier == 'thorough' else 'xz ', n)) for g in C01.family('quick')]
    cur = [(nm, g, t) for nm, g, t in C01.CURATED + EXTRA if nm not in ('catalan',)]
    d = 3 if tier == 'quick' else 4
    dialogues = [c for k in range(1, d + 1) for c in itertools.product(range(len(TEXTS)), repeat=k)]
    N = [5, 8, 9, 10, 11, 12, 16, 17, 20, 30, 31, 32, 33, 40, 50]
    tails = ['', '!', 'q', 'q w e r t y', ' q', 'big', 'o is', 'o is o', 'o is o o', 'o is o!', '123456789', '1234567890', '12345678', ' ', 'é', 'o\nq']
    M = [10, 11, 20, 21, 33, 50, 65, 100, 101] + ([] if tier == 'quick' else [129, 257, 500, 1001])
    return [Space("long texts", [(k, [t]) for k in N for t in tails], check_long, 1), Space("long dialogues", [(k, c) for k in M for c in [(0,), (1,), (2,), (3,), (4,), (0, 1), (2, 4, 7), (8, 1, 11)]], check_many, 1), Space("dialogues", dialogues, check_dialogue), Space("curated grammars", cur, check_diag, chunk=1), Space("grammar family", fam, check_diag)]
