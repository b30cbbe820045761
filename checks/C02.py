"""Histories of parsing and rule learning on a shared grammar, against fresh parsers and the reference reading."""
import itertools
from collections import Counter
from mc.core import Space, Violation, require, same
from mc.grammar import *
from mc import impl

PROP = "C02"
LEVEL = "model_checking"
RULE = ("a state = the sequence of rules learned so far; a transition = one operation (parse a text with one of two parsers sharing the "
        "grammar, or learn a rule through the query language); every operation sequence up to the depth is replayed on fresh real "
        "objects, and after every parse the readings are compared with the reference enumerator and with a parser built afresh")
ASSUMPTIONS = ["the grammars are free of unit cycles, as are the rules learned"]

E1 = ['E1']
BASE = (rule('s', E1, N('np', 'E1'), N('vp', 'E1')), rule('np', E1, W('john')), rule('np', E1, W('mary')), rule('vp', E1, W('walks')),
        rule('vp', E1, W('sees'), N('np', 'E2')),
        rule('vp', E1, W('runs'), N('adv', 'E1')))      # no rules for adv yet
LEARN = [
    (rule('adv', E1, W('fast')), None),                          # the first rule of a category
    (rule('np', E1, W('bob')), None),
    (rule('vp', E1, W('walks'), O('slowly')), None),           # overlaps with a known rule
    (rule('s', ['E1', 'E2'], N('np', 'E1'), '~', N('np', 'E2')), None),  # a new arity of the start category
    (rule('np', E1, R('[a-z]+')), None),                         # makes everything ambiguous
    (rule('np', E1, W('mary')), 2),                              # the same syntax with another meaning and a boost
    (rule('vp', E1, N('vp', 'E1'), W('and'), N('vp', 'E1')), None),
    (rule('s', [], W('who'), N('vp', 'E1')), None),
]
TEXTS = ['john walks', 'bob walks slowly', 'john runs fast', 'Mary sees mary', 'john mary', 'who walks and sees john', 'bob', '']


def texts_for(tier):
    return TEXTS


def rules_of(learned):
    spec = BASE + tuple(LEARN[i][0] for i in learned)
    boosts = [None] * len(BASE) + [LEARN[i][1] for i in learned]
    return spec, boosts


_cache = {}


def oracle(learned, t):
    """readings of t (as a multiset by the reference, as an ordered list by a fresh parser) with the rules learned"""
    k = (learned, t)
    if k not in _cache:
        spec, boosts = rules_of(learned)
        ref = Counter(Reference(spec, t).readings())
        fresh = impl.parse(impl.BasicParser(impl.read_grammar(impl.simple_grammar(spec, boosts))), t)
        _cache[k] = (ref, fresh)
    return _cache[k]


def show(ops):
    return [("parse", op[1], TEXTS[op[2]]) if op[0] == 'P' else ("learn", render(LEARN[op[1]][0])) for op in ops]


def snapshot(g):
    """the rules as the grammar itself tells them (None: it does not tell; what it accepts is compared anyway)"""
    try: return [[(str(r), r.boost, id(r.sem)) for r in g.find_rules(c, n)] for c in ('s', 'np', 'vp', 'adv', '$delta', 'delta', '$gamma', 'gamma') for n in range(4)]
    except (AttributeError, TypeError): return None


def check(ops, rec):
    g = impl.read_grammar(impl.simple_grammar(BASE))
    parsers = [impl.BasicParser(g), impl.BasicParser(g)]
    solver = impl.Solver(impl.Model([impl.GrammarModule(g)]))
    learned = ()
    rec.st(learned)
    for k, op in enumerate(ops):
        if op[0] == 'L':
            r, boost = LEARN[op[1]]
            d = {"syn": render(r), "sem": impl.tagged_sem(len(BASE) + len(learned))}
            if boost is not None:
                d["boost"] = boost
            res = solver.solve([('learn_grammar_rule', d)])
            require(len(res) == 1, lambda: f"learning failed in {show(ops[:k + 1])}: {res!r}")
            learned += (op[1],)
            rec.st(learned)
        else:
            t = TEXTS[op[2]]
            before = snapshot(g)
            got = impl.parse(parsers[op[1]], t)
            ref, fresh = oracle(learned, t)
            require(snapshot(g) == before, lambda: f"parsing changed the grammar in {show(ops[:k + 1])}")
            require(Counter(got[0]) == ref, lambda: f"history {show(ops[:k + 1])}: readings {got[0]} but the rules give {list(ref.elements())}")
            same(f"history {show(ops[:k + 1])} compared with a fresh parser", got, fresh)
            rec.outcomes[f"{len(got[0])} readings"] += 1
        rec.transitions += 1
    rec.traces += 1


WORDS = ['ann', 'dog', 'the ann']


def check_dialogue(ops, rec):
    """learning by sentences: 'learn X' makes X a name from the next sentence on"""
    said = []

    class M(impl.SomeModule):
        def __init__(self):
            super().__init__()
            self.add_relation(impl.Relation("say", query_function=self.say))

        def say(self, values, context):
            said.append(values[0])
            return [values]
    g = impl.read_grammar([
        {"syn": "s(E1) -> 'learn' /[a-z ]+/", "sem": lambda w: [('learn_grammar_rule', {"syn": f"name(E1) -> '{w}'", "sem": lambda: w})]},
        {"syn": "s(E1) -> 'hi' name(E1)", "sem": lambda n: [('say', n)]},
        {"syn": "name(E1) -> 'bob'", "sem": lambda: 'bob'},
    ])
    model = impl.Model([impl.GrammarModule(g), M(), impl.BasicOutputBuffer()])
    parser = impl.BasicParser(g)
    composer = impl.SemanticComposer(parser)
    system = impl.System(model=model, input_pipeline=[impl.FindOne(parser), impl.FindOne(composer), impl.FindOne(impl.AtomExecutor(composer, model))])
    known = ['bob']
    rec.st(('dialogue', tuple(known)))
    for k, (what, w) in enumerate(ops):
        said.clear()
        system.enter(impl.SentenceRequest(f"{'learn' if what == 'L' else 'hi'} {w}"))
        if what == 'L':
            # learning is accepted for each of them, 'the ann' being more than one word
            known.append(w)
            same(f"dialogue {ops[:k + 1]}", said, [])
        else:
            same(f"dialogue {ops[:k + 1]}", said, [w] if w in known else [])
        rec.st(('dialogue', tuple(sorted(set(known)))))
        rec.transitions += 1
    rec.traces += 1


def again(case, rec):
    """rules learned again, the very same ones too: as if the grammar had them from the start, as often"""
    base, ops = case
    ds = [{"syn": "s(E1) -> 'a'", "sem": impl.tagged_sem(0)}, {"syn": "s(E1) -> np(E1)", "sem": impl.tagged_sem(1)}, {"syn": "np(E1) -> 'a'", "sem": impl.tagged_sem(2)}, {"syn": "np(E1) -> 'a'", "sem": impl.tagged_sem(3)}]
    have = [ds[i] for i in base]
    g = impl.read_grammar(list(have))
    p = impl.BasicParser(g)
    solver = impl.Solver(impl.Model([impl.GrammarModule(g)]))
    for k, i in enumerate(ops):
        if i < len(ds):
            solver.solve([('learn_grammar_rule', ds[i])])
            have.append(ds[i])
        rec.st(tuple(ds.index(d) for d in have))
        fresh = impl.parse(impl.BasicParser(impl.read_grammar(list(have))), 'a')
        got = impl.parse(p, 'a')
        same(f"grammar {base}, then learned {ops[:k + 1]}: readings of 'a'", (Counter(map(repr, got[0])), got[1:]), (Counter(map(repr, fresh[0])), fresh[1:]))
        rec.transitions += 1
    rec.traces += 1


SIZES = (9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 99, 100, 101, 128, 129, 200, 201, 256, 257)


def leaves(t): return [t[1]] if isinstance(t[1], str) else [f for c in t[2] for f in leaves(c)]


def large(case, rec):
    """long histories, long texts, many rules learned"""
    kind, n = case
    base = ["s(E1) -> l(E1)", "l(E1) -> n(E1)", "l(E1) -> l(E1) n(E1)", "n(E1) -> 'x'", "n(E1) -> 'yy'"]

    def new(rules):
        g = impl.read_grammar([{"syn": s, "sem": impl.tagged_sem(i)} for i, s in enumerate(rules)])
        solver = impl.Solver(impl.Model([impl.GrammarModule(g)]))
        count = [len(rules)]

        def learn(syn):
            res = solver.solve([('learn_grammar_rule', {"syn": syn, "sem": impl.tagged_sem(count[0])})])
            require(len(res) == 1, lambda: f"{case}: learning failed: {res!r}")
            count[0] += 1
            rec.transitions += 1
        return g, impl.BasicParser(g), learn

    def words(p, words, exp, where=''):
        got, err, args = impl.parse(p, ' '.join(words))
        mine = [[f for f in leaves(t) if f != ' '] for t in got]
        require(mine == [list(words)] * exp, lambda: f"{case} {where}: text of {len(words)} words ...{' '.join(words)[-30:]!r}: expected {exp} readings, got {len(mine)}: {[m[-5:] for m in mine[:2]]!r}")
        require((err == '') == (exp > 0), lambda: f"{case} {where}: error {err!r}")
        rec.transitions += 1
    if kind == 'long texts':
        # texts that differ in one word only, at every kind of place, in both orders
        g, p, learn = new(base)
        texts = [['x'] * n] + [['x'] * k + ['yy'] + ['x'] * (n - k - 1) for k in sorted({0, 1, n // 2, n - 2, n - 1})]
        for t in texts + texts[::-1]: words(p, t, 1)
        words(p, ['x'] * (n - 1) + ['z'], 0)
        learn("n(E1) -> 'z'")
        words(p, ['x'] * (n - 1) + ['z'], 1, 'after learning')
        words(p, ['z'] + ['x'] * (n - 1), 1, 'after learning')
        learn("n(E1) -> 'z'")
        words(p, ['x'] * (n - 1) + ['z'], 2, 'after learning it twice')
    elif kind == 'many texts':
        # a long history of different texts, then the same ones again
        g, p, learn = new(base)
        texts = [[('yy' if i >> k & 1 else 'x') for k in range(10)] for i in range(n)]
        for t in texts + texts + texts[::-1]: words(p, t, 1)
        for t in texts[:3] + texts[-3:]: words(p, t[:-1] + ['z'], 0)
        learn("n(E1) -> 'z'")
        for t in texts[:3] + texts[-3:]: words(p, t[:-1] + ['z'], 1, 'after learning')
        for t in texts: words(p, t, 1, 'after learning')
    elif kind == 'same text':
        g, p, learn = new(base)
        for k in range(n): words(p, ['x', 'yy'], 1, f'time {k}')
        learn("n(E1) -> 'yy'")
        for k in range(2): words(p, ['x', 'yy'], 2, 'after learning')
    elif kind == 'many rules':
        # every rule takes effect at once, and those before it still do
        g, p, learn = new(base)
        q = impl.BasicParser(g)
        w = lambda i: 'w' + chr(97 + i // 26 % 26) + chr(97 + i % 26)
        for k in range(n):
            words(p, [w(k)], 0, f'before learning {w(k)}')
            learn(f"n(E1) -> '{w(k)}'")
            words(q if k % 2 else p, [w(k)], 1, f'after learning {w(k)}')
            words(p, ['x', w(k // 2), w(k)], 1, f'after learning {w(k)}')
        for k in range(n): words(p, [w(k)], 1, 'in the end')
    elif kind == 'many readings':
        g, p, learn = new(base)
        for k in range(1, n):
            learn("n(E1) -> 'x'")
            if k in (1, 2, n // 2, n - 1): words(p, ['x'], k + 1, f'after learning {k} times')
    elif kind == 'arities':
        # numbers of variables of the start category, learned in this order
        g, p, learn = new(["s(E1) -> 'zero'"])
        known = []
        for k in n:
            vs = ', '.join(f'E{i}' for i in range(k))
            words(p, ['x'], len(known), f'with {known}')
            learn(f"s({vs}) -> 'x'")
            known.append(k)
            words(p, ['x'], len(known), f'with {known}')
            words(p, ['zero'], 1, f'with {known}')
    elif kind == 'case':
        # categories that differ in the case of a letter, learned in this order; what one of them reads, no other does
        g, p, learn = new([f"s(E1) -> '{i}' {c}(E1)" for i, c in enumerate(CASED)])
        known = []
        for c in n:
            learn(f"{c}(E1) -> 'x'")
            known.append(c)
            for i, d in enumerate(CASED): words(p, [str(i), 'x'], known.count(d), f'with {known}, for {d}')
    rec.st(case)
    rec.traces += 1


CASED = ['np', 'nP', 'n_p', 'np1', 'S', 's1']


def spaces(tier):
    parse_ops = [('P', p, i) for p in (0, 1) for i in range(len(TEXTS))]
    learn_ops = [('L', i) for i in range(len(LEARN))]
    d = 3 if tier == 'quick' else 4
    seqs = [c for c in itertools.product(parse_ops + learn_ops, repeat=d) if c[-1][0] == 'P']
    # deeper: one parser, fewer texts
    few = [('P', 0, i) for i in (1, 2, 3)] + learn_ops[:6]
    seqs2 = [c for c in itertools.product(few, repeat=d + 2) if c[-1][0] == 'P' and any(o[0] == 'L' for o in c)]
    dl = [(o, w) for o in 'LH' for w in WORDS + ['bob'] if not (o == 'L' and w == 'bob')]
    # a name learned twice makes two readings of the same kind: left out
    dseqs = [c for c in itertools.product(dl, repeat=d + 1) if len([o for o in c if o[0] == 'L']) == len({o for o in c if o[0] == 'L'})]
    big = [(k, n) for k in ('many texts', 'same text', 'many rules', 'many readings') for n in SIZES] + [('long texts', n) for n in SIZES if n < 130]
    big.sort(key=lambda c: -c[1])
    big += [('arities', c) for k in range(1, 6) for c in itertools.permutations(range(5), k)] + [('case', c) for k in range(1, 7) for c in itertools.permutations(CASED, k)] + [('arities', tuple(range(9))), ('arities', tuple(range(12, -1, -1)))]
    ag = [(b, o) for n in range(1, 4) for b in itertools.product(range(4), repeat=n) for m in range(1, 4) for o in itertools.product(range(4), repeat=m)]
    return [Space("learned again", ag, again), Space("large", big, large, chunk=1), Space("histories", seqs, check), Space("longer histories", seqs2, check), Space("learning by sentences", dseqs, check_dialogue)]
