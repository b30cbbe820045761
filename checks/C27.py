"""Teach and ask: every dialogue up to a depth over a sentence alphabet on a whole system, against a model of what was told."""
import itertools
from mc.core import Space, Violation, require, same
from mc import dialog

PROP = "C27"
LEVEL = "model_checking"
RULE = ("model state = facts, rules, words and contexts told so far; every dialogue up to the depth is held with a whole system; after each sentence the reply must be that of the model, and after "
        "the last all questions are asked twice and the stored facts compared; every prefix of a dialogue is a dialogue of the space")
ASSUMPTIONS = ["the rules taught are not circular", "a sentence that fails, fails before it stores something"]

TELL = ['ann is a cat', "bob is a pet", "o'x is a cat", 'ann likes bob', "bob likes o'x", 'every cat is a pet', 'every pet is a animal', 'who likes bob is a pet',
        'every animal likes ann', 'kitten means cat', 'remember: bob is a cat', 'hi ann', 'ann waves']
BAD = ['blah', 'explode', 'misread', 'ann is a', '', 'ann is a unicorn', 'ann is  a', 'mark', 'unmark']
ASK = ['is ann a pet?', 'is bob a animal?', 'who is a pet?', 'how many animal are there?', 'who likes a pet?', 'which cat likes no cat?', "what is o'x?", 'is ann a kitten?', 'who is a kitten?', 'marked?', 'greeted?',
       'which pet likes no animal?', 'how many cat are there?']
MORE = ['kitten is a cat', 'ann is a kitten', 'every kitten is a animal', 'hello', "hi o'x", 'bob waves', 'bob waves at ann']


def circular(rules):
    """a rule that depends on itself, by the heads it can reach"""
    def feeds(r, s):
        out = ('isa', r[2]) if r[0] in ('isa', 'liker') else ('likes', r[2])
        return out == {'isa': ('isa', s[1]), 'liker': ('likes', s[1]), 'tlikes': ('isa', s[1])}[s[0]]
    seen = set()

    def walk(r, path):
        if r in path: return True
        return any(walk(s, path | {r}) for s in set(rules) if feeds(r, s))
    return any(walk(r, frozenset()) for r in set(rules))


def run(case, rec):
    opt, block, dialogues = case
    for d in dialogues: one(opt, block, d, rec)


def one(opt, block, talk, rec):
    d, b = dialog.Dialog(opt, block), dialog.Belief()
    where = lambda n: f"optimizer={opt} block={block} dialogue {list(talk[:n + 1])}"

    def say(text, n):
        exp = b.turn(text)
        err = d.say(text)
        if exp is None:
            require(err is not None, lambda: f"{where(n)}: no error")
            # nothing is there to say
            require(d.read() is None, lambda: f"{where(n)}: a reply after an error")
        else:
            require(err is None, lambda: f"{where(n)}, {text!r}: {err}")
            got = d.read()
            require(dialog.agrees(got, exp), lambda: f"{where(n)}, {text!r}:\n   expected {exp!r}\n   got      {got!r}")
        rec.transitions += 1
    for n, text in enumerate(talk):
        say(text, n)
        rec.st(repr(b.key()))
        same(where(n) + ": facts stored", d.rows(), b.rows())
    for time in (1, 2):
        for q in ASK:
            if ('kitten' in q and 'kitten' not in b.words) and time == 2: continue
            say(q, len(talk))
    same(where(len(talk)) + ": facts stored after all questions", d.rows(), b.rows())
    rec.traces += 1
    rec.ev((opt, block, talk), True, None)


def acyclic(talk):
    b = dialog.Belief()
    for t in talk: b.turn(t)
    return not circular(b.rules)


def twice_word(talk):
    # the same word taught twice makes two readings with the same meaning: harmless, but left out for find-all
    return len([t for t in talk if 'means' in t]) > 1


def letters(i):
    s = ''
    while True:
        s = chr(97 + i % 26) + s
        i = i // 26 - 1
        if i < 0: return s


def long(case, rec):
    """long dialogues"""
    kind, n, opt = case
    names = ["o'" + letters(i) for i in range(n)]
    W = ['w' + letters(i) for i in range(n)]
    ask = ['who is a cat?', 'how many cat are there?', 'is ann a pet?', 'who is a pet?', 'is bob a animal?', f"is {names[-1]} a cat?", f"what is {names[n // 2]}?", 'marked?', 'greeted?']
    rule = ['every cat is a pet']
    if kind == 'facts': talk = [f"{x} is a {'cat' if i % 3 else 'pet'}" for i, x in enumerate(names)] + rule
    elif kind == 'rule first': talk = rule + [f"{x} is a cat" for x in names] + ['every pet is a animal', f"{names[0]} likes {names[-1]}", 'who likes a pet?']
    elif kind == 'same': talk = ['ann is a cat'] * n + rule * 2 + ['bob is a animal']
    elif kind == 'words': talk = [f"{w} means {'cat' if i % 2 else 'pet'}" for i, w in enumerate(W)] + [f"ann is a {W[-1]}", f"bob is a {W[0]}", f"who is a {W[n // 2]}?", f"is ann a {W[-1]}?"]
    elif kind == 'words of words': talk = [f"{w} means {W[i - 1] if i else 'cat'}" for i, w in enumerate(W)] + [f"ann is a {W[-1]}", f"who is a {W[0]}?"]
    elif kind == 'rules': talk = [f"who likes {x} is a cat" for x in names] + [f"ann likes {names[-1]}", f"bob likes {names[0]}"] + rule
    elif kind == 'likes': talk = [f"{x} likes {names[(i * 3 + 1) % n]}" for i, x in enumerate(names)] + [f"{names[1]} is a cat", 'who likes a cat?', 'which cat likes no cat?', f"who likes {names[n - 1]} is a animal"]
    elif kind == 'questions': talk = ['ann is a cat'] + ['who is a cat?', 'is ann a pet?'] * n + rule + ['who is a pet?']
    elif kind == 'failures': talk = ['ann is a cat'] + ['blah', 'explode', 'misread', ''] * (n // 4) + rule
    elif kind == 'greetings': talk = [f"hi {x}" for x in names] + ['greeted?', 'hello'] + ['hi ann'] * 3
    else: talk = ['mark'] * n + ['marked?', 'unmark', 'marked?'] + ['mark', 'unmark'] * n + ['marked?', 'mark']
    d, b = dialog.Dialog(opt, '1'), dialog.Belief()
    for k, text in enumerate(talk + ask + ask):
        exp, err = b.turn(text), d.say(text)
        if exp is None: require(err is not None and d.read() is None, lambda: f"{kind} {n}: no error at sentence {k + 1}, {text!r}")
        else:
            got = d.read()
            require(err is None and dialog.agrees(got, exp), lambda: f"{kind} {n}: sentence {k + 1} {text!r}:\n   expected {str(exp)[:300]!r}\n   got      {str(got)[:300]!r} {err or ''}")
        rec.transitions += 1
    same(f"{kind} {n}: facts stored", d.rows(), b.rows())
    rec.st(repr(b.key()))
    rec.traces += 1
    rec.ev(case, True, kind)


def spaces(tier):
    q = tier == 'quick'
    alphabet = TELL + BAD + ['who is a pet?', 'ann is a kitten']
    out = []

    def cases(opt, block, seqs, k=4):
        seqs = [s for s in seqs if acyclic(s) and not (block == 'A' and twice_word(s))]
        return [(opt, block, seqs[i:i + k]) for i in range(0, len(seqs), k)]
    short = [s for n in range(3) for s in itertools.product(alphabet + MORE, repeat=n)]
    out += cases(True, '1', short, 8) if not q else cases(True, '1', [s for i, s in enumerate(short)], 8)
    for opt, block in (((False, '1'), (False, 'T'), (False, 'A'), (True, 'A'), (True, 'T')) if not q else ()): out += cases(opt, block, short, 8)
    three = list(itertools.product(TELL, repeat=3))
    # at least one rule among them
    three = [t for t in three if any(x.startswith(('every', 'who', 'kitten')) for x in t)]
    if q: three = [t for t in three if len(set(t)) == 3 and sorted(t, key=TELL.index) != list(t)][::1]
    out += cases(False, '1', three, 8)
    if not q:
        rules = TELL[5:9]
        four = [t for t in itertools.product(TELL, repeat=4) if len(set(t) & set(rules)) >= 2]
        out += cases(True, '1', four, 8)
    N = [10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 101] + ([] if q else [128, 129, 200, 256, 257])
    big = [(k, n, o) for k in ('facts', 'rule first', 'same', 'words', 'words of words', 'rules', 'likes', 'questions', 'failures', 'greetings', 'marks') for n in N for o in ((n % 2 == 0,) if q else (False, True))]
    return [Space("long dialogues", big, long, 1), Space("dialogues", out, run)]
