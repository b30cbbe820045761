"""Preference order of readings: every assignment of boosts to the rules of ambiguous grammars."""
import itertools
from collections import Counter
from mc.core import Space, Violation, require, same
from mc.grammar import *
from mc import impl

PROP = "C04"
LEVEL = "exploration"
RULE = ("one evaluation = the ordered readings of one text under one assignment of boosts, compared with the parser's own order sorted "
        "stably by (boost total descending, regexp parts ascending, depth descending), and with the order in which the next step of the "
        "pipeline gets to see them; non-trivial = at least two readings")
ASSUMPTIONS = ["the parser's own order is taken from its unsorted result"]
E1 = ['E1']


def score(t, boosts):
    """(boost, number of regexp leaves, depth)"""
    if len(t) == 2:
        return 0, None, 1
    b, r, d = boosts[t[1]] or 0, 0, 0
    for c in t[2]:
        if len(c) == 2:
            d = max(d, 1)
        else:
            cb, cr, cd = score(c, boosts)
            b, r, d = b + cb, r + cr, max(d, cd)
    return b, r, d + 1


def regexps(t, spec):
    """number of leaves matched by a regular expression"""
    if len(t) == 2:
        return 0
    n = 0
    for v in variants(spec[t[1]]):
        if len(v) == len(t[2]) and all(sym[1] == c[0] for sym, c in zip(v, t[2])):
            n = sum(1 for sym in v if sym[0] == 'r')
            break
    return n + sum(regexps(c, spec) for c in t[2] if len(c) == 3)


class Refuse(impl.SomeProcessor):
    """a next step that refuses everything and notes what it is offered"""
    def __init__(self, parser):
        self.parser, self.seen = parser, []

    def get_name(self):
        return "refuse"

    def process(self, request):
        self.seen.append(impl.tree(request.get_current_product(self.parser).parse_tree))
        return impl.ProcessResult([], "refused", [])


def unsorted(g, t):
    """the readings in the order in which the parser finds them (None: there is no telling)"""
    try:
        from richard.processor.parser.earley.EarleyParser import EarleyParser
        return [impl.tree(n) for n in EarleyParser().parse(g, normalize(t)).products]
    except Exception:
        return None


def check(case, rec):
    name, spec, texts, boosts = case
    g = impl.read_grammar(impl.simple_grammar(spec, boosts))
    parser = impl.BasicParser(g)
    for t in texts:
        def key(tr):
            b, _, d = score(tr, boosts)
            return (-b, regexps(tr, spec), -d)
        got, err, _ = impl.parse(parser, t)
        own = unsorted(g, t)
        if own is None:
            # no order to compare ties with: any order of the readings that is sorted will do
            require(sorted(map(repr, got)) == sorted(map(repr, Reference(spec, t).readings())), lambda: f"readings of {t!r} under {[render(r) for r in spec]}")
            own = got
        exp = sorted(own, key=key)
        if got != exp:
            raise Violation(f"grammar {[(render(r), b) for r, b in zip(spec, boosts)]} text {t!r}: order is {[(x, key(x)) for x in got]}, should be {[(x, key(x)) for x in exp]}")
        refuse = Refuse(parser)
        req = impl.SentenceRequest(t)
        block = impl.FindOne(parser)
        block.next_block = impl.FindOne(refuse)
        r = block.process(req)
        if own:
            same(f"readings tried for {t!r}", refuse.seen, exp)
            same(f"result of refusing all readings of {t!r}", (r.error_type, list(r.error_args)), ("refused", []))
        rec.ev((name, t, boosts), len(own) > 1, f"{len(own)} readings, {len({key(x) for x in own})} ranks")


GR = [
    # depth against regexp against words; leaf ambiguity
    ("words", (rule('s', E1, N('np', 'E1'), W('v')), rule('s', E1, R('[a-z]'), W('v')), rule('np', E1, W('n')), rule('np', E1, R('[a-z]+')), rule('np', E1, N('nn', 'E1')), rule('nn', E1, W('n'))),
     ['n v', 'q v', 'nn v']),
    # attachment ambiguity: equal boost totals, same regexp counts, different depth
    ("attach", (rule('s', E1, N('np', 'E1'), N('vp', 'E1')), rule('np', E1, N('np', 'E1'), N('pp', 'E1')), rule('vp', E1, W('v'), N('np', 'E1')), rule('vp', E1, N('vp', 'E1'), N('pp', 'E1')),
                rule('pp', E1, W('p'), N('np', 'E1')), rule('np', E1, R('[n]'))), ['n v n p n', 'n v n p n p n']),
    # the same category several times in one tree: totals add up, several regexps per rule
    ("sum", (rule('s', E1, N('a', 'E1'), N('a', 'E1')), rule('s', E1, N('b', 'E1')), rule('a', E1, W('x')), rule('a', E1, R('x')), rule('b', E1, R('x'), R('x')), rule('b', E1, N('a', 'E1'), W('x'))),
     ['x x', 'x']),
    # arities of s, several senses of the same syntax (ties)
    ("ties", (rule('s', E1, W('x')), rule('s', ['E1', 'E2'], W('x')), rule('s', E1, W('x')), rule('s', [], R('x')), rule('s', E1, N('s', 'E1', 'E2'))), ['x', 'X']),
]

# regular expressions and words that match a space, a digit, a sign, and rules that do nothing but that
GR += [
    ("blanks", (rule('s', E1, W('x'), '+', R(' '), '+', W('y')), rule('s', E1, W('x'), '+', N('sp', 'E1'), '+', R('y')), rule('s', E1, W('x'), W('y')), rule('sp', E1, W(' ')), rule('sp', E1, R('[ ]'))), ['x y']),
    ("spans", (rule('s', E1, W('say'), R('[a-z ]+')), rule('s', E1, W('say'), N('w', 'E1'), N('w', 'E1')), rule('s', E1, R('say [a-z]+'), W('b')), rule('s', E1, W('say'), N('w', 'E1'), W('b')), rule('w', E1, R('[a-z]')), rule('w', E1, W('a'))), ['say a b', 'say b a']),
    ("digits", (rule('s', E1, R('[0-9]'), '+', R('[0-9]+')), rule('s', E1, R('[0-9]+')), rule('s', E1, W('0'), '+', N('n', 'E1')), rule('n', E1, R('0+')), rule('n', E1, W('0')), rule('n', E1, N('n', 'E1'), '+', N('n', 'E1'))), ['00', '000', '07']),
]


CHAIN = (rule('s', E1, N('np', 'E1')), rule('np', E1, W('big'), N('np', 'E1')), rule('np', E1, R('big'), N('np', 'E1')), rule('np', E1, W('n')), rule('np', E1, R('n')))


def large(kind, n):
    """many readings, many rules, deep readings, boosts far apart or close together"""
    if kind == 'senses':
        # n senses of one word, ranked from low to high, high to low, and mixed
        spec = tuple(rule('s', E1, W('x')) if i % 3 else rule('s', E1, R('x')) for i in range(n))
        for boosts in (range(n), range(n, 0, -1), [(i * 7) % n for i in range(n)], [(i * 7) % 5 - 2 for i in range(n)], [None] * (n - 1) + [1], [None] * n, [i / 10 for i in range(n)], [10 ** (i % 12) for i in range(n)], [1 / (i + 1) for i in range(n)]):
            yield ('senses', spec, ['x'], tuple(boosts))
    elif kind == 'attach':
        for boosts in ((None,) * 6, (None, 1, None, -1, None, None), (None, -1, None, 1, None, None), (1, 1, 1, 1, 1, 1), (None, 2, None, 3, -1, None)):
            yield ('attach', GR[1][1], ['n v n' + ' p n' * n], boosts)
    elif kind == 'deep':
        for boosts in ((None,) * 5, (None, 1, None, None, 2), (None, 0.5, 1, -1, None), (3, -1, -1, 1, 1)):
            yield ('deep', CHAIN, ['big ' * n + 'n', 'n'], boosts)
    else:
        # one unambiguous rule far up, an ambiguous word at the bottom, n unit steps between
        spec = (rule('s', E1, N('c0', 'E1')), rule('s', E1, R('w'))) + tuple(rule(f"c{i}", E1, N(f"c{i + 1}", 'E1')) for i in range(n)) + (rule(f"c{n}", E1, W('w')), rule(f"c{n}", E1, R('[w]')))
        for boosts in ((None,) * len(spec), (None, n) + (1,) * n + (None, None), (None, n + 1) + (1,) * n + (None, None), (None, n + 2) + (1,) * n + (1, None), (None, 0.25 * n) + (0.25,) * n + (None, None), (None, None) + (1, -1) * (n // 2) + (None,) * (n % 2) + (None, 1)):
            yield ('tower', spec, ['w'], tuple(boosts))


def check_large(case, rec):
    for c in large(*case): check(c, rec)


def spaces(tier):
    cases, cases2 = [], []
    B = (None, 1, -1, 2) if tier == 'quick' else (None, 1, -1, 2, 0.5)
    for name, spec, texts in GR:
        for boosts in itertools.product(B, repeat=len(spec)):
            cases.append((name, spec, texts, boosts))
        for vals in ((0, 0.5, 10), (-150, 1000, -200)):
            for boosts in itertools.product(vals, repeat=min(4, len(spec))):
                cases2.append((name, spec, texts, boosts + (None,) * (len(spec) - len(boosts))))
    N = [5, 9, 10, 11, 16, 17, 20, 32, 33, 50, 64, 65, 100, 101, 129] + [200, 256, 257] + ([] if tier == 'quick' else [400, 512])
    big = [('senses', n) for n in N] + [('attach', n) for n in range(2, 7 if tier == 'quick' else 9)] + [('deep', n) for n in range(1, 9 if tier == 'quick' else 12)] + [('tower', n) for n in N if n < 70]
    return [Space("large", big, check_large, 1), Space("all boosts", cases, check), Space("other boost values", cases2, check)]
