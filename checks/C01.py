"""Parse forest exactness: every grammar of the families below x every text up to a length, against a span enumerator."""
import itertools
from collections import Counter
from mc.core import Space, Violation, require, same
from mc.grammar import *
from mc import impl

PROP = "C01"
LEVEL = "exploration"
RULE = ("one evaluation = one (grammar, text) pair parsed by the real parser and by the reference span enumerator, compared as "
        "multisets of trees (category, rule, children, matched text); non-trivial = the text has at least one reading or the "
        "grammar recognises a non-empty prefix of it")
ASSUMPTIONS = ["grammars have no unit cycles and no rule that may be empty", "no two rules of a grammar are identical",
               "leading and trailing whitespace is text like any other (it counts as one space)"]


def check(case, rec):
    name, grammar, texts = case
    parser = impl.BasicParser(impl.read_grammar(impl.simple_grammar(grammar)))
    if isinstance(texts, tuple) and texts and texts[0] == 'all':
        texts = all_texts(texts[1], texts[2])
    for t in texts:
        ref = Reference(grammar, t)
        exp = Counter(ref.readings())
        got, err, args = impl.parse(parser, t)
        g = Counter(got)
        if g != exp:
            missing, extra = exp - g, g - exp
            raise Violation(f"grammar {[render(r) for r in grammar]} text {t!r}: "
                            f"missing readings {list(missing.elements())[:3]}, wrong or repeated readings {list(extra.elements())[:3]}")
        require((err == "") == (len(got) > 0), lambda: f"text {t!r}: {len(got)} readings but error {err!r}")
        rec.ev((grammar, t), bool(got) or ref.furthest() > 0, f"{len(got)} readings")


E1, E2 = ['E1'], ['E1', 'E2']
x, y, xy = W('x'), W('y'), W('xy')
a, b = N('a', 'E1'), N('b', 'E1')
s = N('s', 'E1')


def family(tier):
    S = [rule('s', E1, a), rule('s', E1, a, b), rule('s', E1, a, '+', b), rule('s', E1, a, '~', a), rule('s', E1, x, a, '+', y),
         rule('s', E1, s, '+', s), rule('s', E1, a, '~', b, '+', a)]
    A = [rule('a', E1, x), rule('a', E1, xy), rule('a', E1, R('x+')), rule('a', E1, R('[xy]+')), rule('a', E1, a, '+', x),
         rule('a', E1, x, '+', a), rule('a', E1, b)]
    B = [rule('b', E1, y), rule('b', E1, x, '~', y), rule('b', E1, R('[xy]y')), rule('b', E1, a, '+', a), rule('b', E1, W('Y'), '+', R('x?y'))]
    def upto(L, n):
        return [c for k in range(1, n + 1) for c in itertools.combinations(L, k)]
    for ss in upto(S, 2):
        for aa in upto(A, 2):
            for bb in upto(B, 1 if tier == 'quick' else 2):
                g = ss + aa + bb
                if not unit_cyclic(g):
                    yield g


CURATED = [
    # arity overloading
    ("arity", (rule('s', E1, N('p', 'E1')), rule('s', E2, N('p', 'E1', 'E2')), rule('s', [], N('p')), rule('p', E1, x), rule('p', E2, x),
               rule('p', [], x), rule('p', E2, N('p', 'E1'), '+', N('p')), rule('p', ['E1', 'E2', 'E3'], y)), ('all', 'xy', 4)),
    # the same syntax with different meanings; same syntax with different variables
    ("senses", (rule('s', E1, N('np', 'E1'), N('vp', 'E1')), rule('s', E1, N('np', 'E1'), N('vp', 'E2')), rule('np', E1, x), rule('np', E1, W('x')),
                rule('np', E1, R('x')), rule('vp', E1, y)), ('all', 'xy ', 4)),
    # deep ambiguity (Catalan numbers), three-way splits
    ("catalan", (rule('s', E1, s, '+', s), rule('s', E1, x)), ('all', 'x', 7)),
    ("ternary", (rule('s', E1, s, '+', s, '+', s), rule('s', E1, s, '+', s), rule('s', E1, x), rule('s', E1, y)), ('all', 'xy', 5)),
    ("nested", (rule('s', E1, N('np', 'E1'), N('vp', 'E1')), rule('np', E1, N('np', 'E1'), N('pp', 'E1')), rule('vp', E1, N('vp', 'E1'), N('pp', 'E1')),
                rule('vp', E1, W('v'), N('np', 'E2')), rule('pp', E1, W('p'), N('np', 'E1')), rule('np', E1, W('n'))),
     ['n v n', 'n v n p n', 'n v n p n p n', 'n v n p n p n p n', 'n p n v n p n p n', 'n v', 'n n', 'v n', 'N V n P n', 'n  v\tn', 'n v n p', 'n\nv n']),
    # right, left, middle and indirect recursion
    ("recursion", (rule('s', E1, a), rule('a', E1, x, '+', b), rule('b', E1, a, '+', y), rule('b', E1, y), rule('a', E1, a, '+', R('y'))), ('all', 'xy', 6)),
    ("indirect", (rule('s', E1, a), rule('a', E1, b, '+', y), rule('b', E1, a), rule('b', E1, x), rule('a', E1, x)), ('all', 'xy', 6)),
    # words that are prefixes of each other, parts of the same length
    ("prefixes", (rule('s', E1, a, '~', a), rule('a', E1, W('x')), rule('a', E1, W('xx')), rule('a', E1, W('xxx')), rule('a', E1, W('xx x')), rule('a', E1, W('x x'))), ('all', 'x ', 6)),
    # a word with spaces, quotes, other characters and capitals
    ("words", (rule('s', E1, W("don't"), a), rule('s', E1, W('New York'), '+', W('?')), rule('s', E1, W('a.c'), '~', W('(b)')), rule('s', E1, W('é"/'), a),
               rule('a', E1, W('X')), rule('a', E1, W('\\'))),
     ["don't x", "DON'T X", "don t x", "new york?", "New York?", "NEW  YORK?", "new york ?", "a.c(b)", "abc(b)", "a.c (b)", "A.C (B)", 'é"/ x', 'É"/ X', 'e"/ x', 'é"/ \\', "don't  x", "don't x "]),
    # regular expressions: escapes, alternatives, anchors, character classes, greedy splits, case sensitivity
    ("regexp", (rule('s', E1, R(r'\d\d'), '+', R(r'\d')), rule('s', E1, R(r'\d\d'), '+', R(r'\d\d')), rule('s', E1, R('[A-Z][a-z]*'), R(r'\w+')),
                rule('s', E1, R('a(bc)?'), '+', W('b'), '+', R('.')), rule('s', E1, R('x/y'), '~', R('.*')), rule('s', E1, R('(ab)+'), '+', R('[ab]+'))),
     ['11', '111', '1111', '12 3', '1', 'Ab c', 'ab c', 'AB c', 'Ab C d', 'Ab  cd', 'abc', 'abbc', 'abcbc', 'abcb', 'x/y', 'x/yz', 'x/y z z', 'X/y', 'abab', 'ababab', 'abababb', 'aba', 'ab']),
    ("regexp2", (rule('s', E1, N('n', 'E1'), N('n', 'E1')), rule('n', E1, R('[a-z ]+')), rule('n', E1, R('[A-Z]+'))),
     ['a b', 'a b c', 'A B', 'A b', 'a B c', 'a  b  c d', 'AB', 'a', 'A B C', ' a b']),
    # long sentence: positions beyond one digit, many constituents
    ("long", (rule('s', E1, W('is'), N('np', 'E1'), W('a'), N('n', 'E1'), '~', W('?')), rule('np', E1, R('[a-z]+')), rule('np', E1, R('[a-z]+ [a-z]+')),
              rule('n', E1, W('country')), rule('n', E1, N('adj', 'E1'), N('n', 'E1')), rule('adj', E1, W('big')), rule('adj', E1, W('small'))),
     ['is afghanistan a country?', 'is afghanistan a big country ?', 'is south africa a small big country', 'Is South Africa a country?', 'is south africa a big big big country?',
      'is a a a country', 'is a country', 'is a a country?', 'is  new   zealand a\n\tbig country?', 'is a b c a country?']),
    # five parts, shared suffixes
    ("five", (rule('s', E1, a, '+', a, '+', a, '~', a, '+', a), rule('a', E1, x), rule('a', E1, R('x+')), rule('a', E1, W('x x'))), ('all', 'x ', 7)),
    # the start category used inside, and categories called like the parser's own
    ("inner", (rule('s', E1, W('if'), s, '+', W(','), s), rule('s', E1, W('p')), rule('s', E1, W('q')), rule('s', E1, s, W('and'), s)),
     ['p', 'if p, q', 'if p, if q, p', 'p and q', 'p and q and p', 'if p and q, p', 'if p, p and q', 'if p, q and if p, q', 'and', 'if p', 'if if p, q, p', 'p and q and p and q']),
    ("names", (rule('s', E1, N('terminal', 'E1'), N('gamma', 'E1')), rule('terminal', E1, W('x')), rule('gamma', E1, W('y')), rule('gamma', E1, N('x', 'E1')), rule('x', E1, W('z'))),
     ['x y', 'x z', 'x', 'y', 'x  y', 'xy', 'x x']),
    ("names2", (rule('s', E1, N('delta', 'E1'), W('x')), rule('delta', E1, W('y')), rule('delta', E1, N('gamma', 'E1')), rule('gamma', E1, W('z'))),
     ('all', 'xyz ', 3)),
    # categories that differ in one letter's case
    ("case", (rule('s', E1, N('np', 'E1'), '+', N('nP', 'E1')), rule('np', E1, x), rule('nP', E1, y), rule('s', E1, N('n_p', 'E1')), rule('n_p', E1, N('nP', 'E1'), '+', x), rule('n_P', E1, W('x y')), rule('sS', E1, W('y y'))), ('all', 'xy ', 4)),
    ("case2", (rule('s', E1, N('np', 'E1')), rule('s', E1, N('nP', 'E1'), '+', N('nP1', 'E1')), rule('np', E1, x), rule('nP', E1, x), rule('nP', E1, x, y), rule('nP1', E1, y)), ('all', 'xy ', 4)),
    # a category without rules, an unreachable rule
    ("holes", (rule('s', E1, a, b), rule('s', E1, a), rule('a', E1, x), rule('c', E1, y)), ('all', 'xy ', 4)),
]


# regular expressions, with the letters that matter to them
REGEXPS = [('xyz|x|z|q', 'xyzq'), ('x|xyz|q', 'xyzq'), ('x|xy', 'xy'), ('xy|x', 'xy'), ('[x ]+', 'x '), ('x ?', 'x '), (' ?x', 'x '), (' ', 'x '), (r'\s', 'x '), ('x*', 'xy'), ('x+?', 'xy'), ('x+?y', 'xy'), ('(?i)x+', 'xX'),
           ('.', 'xy '), ('.+', 'xy '), (r'\.', 'x.'), (r'\w+', 'x1_'), (r'\d+', 'x1'), (r'\d+\.\d+', '1.'), (r'-?\d+(\.\d+)?', '1.-'), ('x{2,3}', 'xy'), ('(xy)+', 'xy'), ('[^x]+', 'xy'), ('(x)(y)?', 'xy'),
           (r'\S+', 'x '), ("x'y", "x'y"), ('"[^"]*"', 'x"'), ("'[^']*'", "x'"), ('É+', 'Éé'), ('[a-zé]+', 'xé'), (r'[A-Z][a-z]*', 'xX'), (r'x/y', 'x/y'), (r'[\\]', 'x\\'), (r'\(x\)', 'x()'), ('x|', 'xy'), ('(x|y)y|xx', 'xy'),
           ('[xX]y|Xyy', 'xXy'), (r'(.)\1', 'xy'), ('x(y|yy)x', 'xy'), (r'\+|-', '+-'), ('[+~?]', '+~?'), ('x,y', 'x,y'), ('0', '01'), ('[01]', '01'),
           ('^x', 'xy'), ('^x+y?', 'xy'), (r'\bx', 'xy'), (r'x\b', 'xy'), (r'\b', 'x '), ('(?<!x)y', 'xy'), ('(?<=x)y', 'xy'), ('x(?=y)', 'xy'), ('x(?!y)', 'xy'), (r'\Ax', 'xy'), (r'\By', 'xy'), ('x$', 'xy'), (r'x\Z', 'xy')]


def regexps(case, rec):
    rx, letters, n = case
    r, e = R(rx), N('e', 'E1')
    for g in ((rule('s', E1, r), rule('s', E1, e, '+', W('y')), rule('e', E1, r)), (rule('s', E1, W('x'), '+', r), rule('s', E1, r, '~', e), rule('e', E1, W('x')), rule('e', E1, r)), (rule('s', E1, r, r), rule('s', E1, s, '+', r), rule('s', E1, W('x')))):
        check((rx, g, ('all', ''.join(dict.fromkeys(letters + 'x ')), n)), rec)


# words in several scripts: any letter case of the text will do
WORDS = ['é', 'Éa', 'ж', 'ЖУК', 'straße', 'αβ', 'Ä1', "l'été", 'ñ-ñ', 'x.y', 'C++', '100%', '$', 'a_b', "o'x", '"q"', '(x)', '[x]', '^x', 'x*', '\\d', '#', 'x, y', 'x  y', '7', '0', 'X7y', '日本', 'i.e.', '?!', 'İx', 'xİ y', 'ΟΔΟΣ', 'ǅ']


LOOKALIKE = {"'": '’‘`´ʼ', '"': '“”„«', '-': '–—‑−\u00ad', 'é': ['e\u0301', 'e', 'è'], 'ñ': ['n\u0303', 'n'], 'Ä': ['A\u0308', 'A'], '.': '．…', '0': 'O٠０', '7': '７', '1': 'l１', '日': '曰', 'α': 'a', 'x': '×хｘ', 'X': 'Χ', '_': '‿ ',
             ' ': ['', '_', '\u200b', '\u200d'], '+': '＋', '(': '（', 'ß': ['ss', 's'], 'ж': 'з', 'İ': 'Iiı', 'ǅ': ['Dž', 'DZ'], 'Σ': 'E', '?': '？¿', '!': '！', '%': '٪', '$': '＄£', '#': '＃'}


def words(case, rec):
    w, v = case
    p = impl.BasicParser(impl.read_grammar([{"syn": f"s(E1) -> {quote(t)}", "sem": impl.tagged_sem(i)} for i, t in enumerate((w, v))] + [{"syn": f"s(E1) -> {quote(w)} {quote(v)}", "sem": impl.tagged_sem(2)}]))

    def cases(t): return sorted({f(t) for f in (str.lower, str.upper, str.swapcase, str) if len(f(t)) == len(t)})
    low = {i: normalize(t).casefold() for i, t in enumerate((w, v))}
    if '  ' in w or '  ' in v:
        return
    for i, t in enumerate((w, v)):
        for u in cases(t):
            got, err, args = impl.parse(p, u)
            same(f"words {w!r} {v!r}: rules that read {u!r}", sorted(g[1] for g in got), [k for k in (0, 1) if low[k] == low[i]])
            for bad in [u + 'x', 'x' + u, u[:-1], u + ' '] + [u.replace(c, d) for c, ds in LOOKALIKE.items() if c in u for d in ds]:
                if normalize(bad).casefold() not in low.values() and normalize(bad).casefold() != low[0] + ' ' + low[1]:
                    got, err, args = impl.parse(p, bad)
                    same(f"words {w!r} {v!r}: readings of {bad!r}", got, [])
            rec.ev((w, v, u), True, "word")
    for a_ in cases(w):
        for b_ in cases(v):
            got, err, args = impl.parse(p, a_ + ' ' + b_)
            same(f"words {w!r} {v!r}: rules that read {a_ + ' ' + b_!r}", sorted(g[1] for g in got), [2])
            rec.ev((w, v, a_, b_), True, "words")


SIZES = (9, 10, 11, 16, 17, 20, 21, 31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257)


def word(i):
    """a word per number, none a prefix of another"""
    return 'w' + chr(97 + i // 26 % 26) + chr(97 + i % 26) + str(i // 676) + 'z'


def large(case, rec):
    """sizes beyond the exhaustive bounds: what the readings are follows from the construction"""
    kind, n = case

    def forms(t): return [t[1]] if isinstance(t[1], str) else [f for c in t[2] for f in forms(c)]

    def parser(rules): return impl.BasicParser(impl.read_grammar([{"syn": s, "sem": impl.tagged_sem(i)} for i, s in enumerate(rules)]))

    def expect(p, text, exp):
        """exp: list of (rule at the top, texts of the leaves without spaces)"""
        got, err, args = impl.parse(p, text)
        mine = Counter((t[1], tuple(f for f in forms(t) if f != ' ')) for t in got)
        require(mine == Counter(exp), lambda: f"{case}: text of {len(text)} characters {text[:60]!r}...{text[-20:]!r}: expected {len(exp)} readings {exp[:2]!r}, got {len(got)}: {list(mine)[:2]!r}"[:1500])
        require((err == "") == bool(exp), lambda: f"{case}: error {err!r}")
        rec.ev((case, text), True, f"large {kind} {len(exp)}"[:40])
    if kind == 'word':
        w = ('abcdefghij' * n)[:n]
        p = parser([f"s(E1) -> '{w}'", f"s(E1) -> '{w[:-1]}' + '#'", f"s(E1) -> '{w}' + 'zz'", f"s(E1) -> /k+/ + '{w}' + /z+/"])
        expect(p, w + 'zz', [(2, (w, 'zz'))])
        expect(p, 'kk' + w + 'z', [(3, ('kk', w, 'z'))])
        expect(p, w, [(0, (w,))])
        expect(p, w.upper(), [(0, (w,))])
        expect(p, w[:-1] + '#', [(1, (w[:-1], '#'))])
        for t in (w[:-1], w + 'x', w[:-1] + '!', '!' + w[1:], w + ' '): expect(p, t, [])
    elif kind == 'regexp':
        w = ('abcdefghij' * n)[:n]
        p = parser(["s(E1) -> /[a-z]+/ + '#'", "s(E1) -> '<' + n(E1) + '>'", "n(E1) -> /[a-z#]+/"])
        expect(p, w + '#', [(0, (w, '#'))])
        expect(p, '<' + w + '#' + w + '>', [(1, ('<', w + '#' + w, '>'))])
        for t in (w, w[:-1] + '1#', w.upper() + '#', '<' + w + '1>'): expect(p, t, [])
        # a part that ends long before the text it could cover does
        p = parser(["s(E1) -> /[a-z]+/ + '0'", "s(E1) -> /[a-z]+/ + 'b' + /[c-z]+/", "s(E1) -> 'q' + /[a-z ]+/ 'end'"])
        expect(p, 'ab' + 'c' * n, [(1, ('ab'[:1], 'b', 'c' * n))])
        expect(p, 'a' * n + 'b' + 'c' * n, [(1, ('a' * n, 'b', 'c' * n))])
        expect(p, 'a' * n + 'b', [])
        expect(p, 'q' + 'c ' * n + 'end', [(2, ('q', ('c ' * n)[:-1], 'end'))])
    elif kind == 'lexicon':
        ws = [word(i) for i in range(n)]
        p = parser([f"s(E1) -> '{w}'" for w in ws])
        for i, w in enumerate(ws): expect(p, w, [(i, (w,))])
        expect(p, word(n), [])
    elif kind == 'nouns':
        ws = [word(i) for i in range(n)]
        p = parser(["s(E1) -> n(E1) 'and' n(E2)"] + [f"n(E1) -> '{w}'" for w in ws])
        for i, w in enumerate(ws): expect(p, f"{w} and {ws[-1 - i]}", [(0, (w, 'and', ws[-1 - i]))])
        expect(p, f"{ws[0]} and {word(n)}", [])
    elif kind == 'senses':
        p = parser(["s(E1) -> 'x'"] * n)
        expect(p, 'x', [(i, ('x',)) for i in range(n)])
    elif kind == 'products':
        p = parser(["s(E1) -> n(E1) m(E1)"] + ["n(E1) -> 'x'"] * n + ["m(E1) -> 'y'"] * 3)
        got, err, args = impl.parse(p, 'x y')
        same(f"{case}: pairs of senses", sorted((t[2][0][1], t[2][2][1]) for t in got), [(a, b) for a in range(1, n + 1) for b in range(n + 1, n + 4)])
        rec.ev(case, True, "large products")
    elif kind == 'arities':
        vs = [', '.join(f'E{i}' for i in range(k)) for k in range(n)]
        p = parser([f"s({v}) -> 'x' q({v})" for v in vs] + [f"q({v}) -> 'y{k % 3}'" for k, v in enumerate(vs)])
        for k in range(3): expect(p, f"x y{k}", [(i, ('x', f'y{k}')) for i in range(n) if i % 3 == k])
    elif kind == 'parts':
        ws = [f"x{i % 7}" for i in range(n)]
        p = parser(["s(E1) -> " + ' '.join(f"'{w}'" if i % 2 else f"q{i % 7}(E1)" for i, w in enumerate(ws))] + [f"q{i}(E1) -> 'x{i}'" for i in range(7)])
        expect(p, ' '.join(ws), [(0, tuple(ws))])
        for k in (0, n // 2, n - 1): expect(p, ' '.join(ws[:k] + ['x9'] + ws[k + 1:]), [])
        expect(p, ' '.join(ws[:-1]), [])
        expect(p, ' '.join(ws + ['x0']), [])
    elif kind in ('left', 'right'):
        p = parser(["s(E1) -> l(E1)", "l(E1) -> n(E1)", "l(E1) -> l(E1) n(E1)" if kind == 'left' else "l(E1) -> n(E1) l(E1)", "n(E1) -> 'x'", "n(E1) -> 'yy'"])
        for text in (['x'] * n, ['x'] * (n - 1) + ['yy'], ['yy' if i % 3 else 'x' for i in range(n)]): expect(p, ' '.join(text), [(0, tuple(text))])
        for k in (0, n // 2, n - 1): expect(p, ' '.join(['x'] * k + ['z'] + ['x'] * (n - k - 1)), [])
    elif kind == 'blanks':
        p = parser(["s(E1) -> 'x' 'y'"])
        for c in (' ', '\n', '\t', ' \n', '\r\n', '\f', '\v', '\u00a0', '\u2003', ' \u3000'): expect(p, 'x' + c * n + 'y', [(0, ('x', 'y'))])
        expect(p, ' ' * n, [])
    elif kind == 'tower':
        p = parser([f"s(E1) -> c0(E1)"] + [f"c{i}(E1) -> c{i + 1}(E1)" for i in range(n)] + [f"c{n}(E1) -> 'x'"])
        expect(p, 'x', [(0, ('x',))])
        expect(p, 'y', [])
    elif kind == 'compositions':
        # all ways to cut a word into k parts
        from math import comb
        for k in (2, 3, 6):
            p = parser(["s(E1) -> " + " + ".join(["a(E1)"] * k), "a(E1) -> /x+/"])
            got, err, args = impl.parse(p, 'x' * n)
            same(f"{case}: number of readings, number of different readings", (len(got), len(set(got))), (comb(n - 1, k - 1),) * 2)
            rec.ev((case, k), True, "large compositions")
    elif kind == 'catalan':
        p = parser(["s(E1) -> s(E1) + s(E1)", "s(E1) -> 'x'"])
        got, err, args = impl.parse(p, 'x' * n)
        exp = 1
        for i in range(1, n): exp = exp * 2 * (2 * i - 1) // (i + 1)
        same(f"{case}: number of readings, number of different readings", (len(got), len(set(got))), (exp, exp))
        rec.ev(case, True, "large catalan")


def spaces(tier):
    n = 4 if tier == 'quick' else 5
    fam = [("family", g, ('all', 'xy ', n)) for g in family(tier)]
    cur = [(nm, g, t) for nm, g, t in CURATED]
    if tier == 'thorough':
        cur = [(nm, g, ('all', t[1], t[2] + 1) if t[0] == 'all' else t) for nm, g, t in cur]
    big = [(k, n) for k in ('word', 'regexp', 'lexicon', 'nouns', 'senses', 'products', 'blanks') for n in SIZES] + [('word', n) for n in (999, 1000, 1001)] + [('regexp', n) for n in (999, 1000, 1001)]
    big += [(k, n) for k in ('parts', 'left', 'tower', 'right') for n in SIZES if k != 'right' or n < 66 or n in (101, 129, 201, 257)] + [(k, n) for k in ('arities',) for n in SIZES if n < 66] + [('catalan', n) for n in (8, 9)] + [('compositions', n) for n in (7, 9, 12, 16)]
    rxs = [(rx, letters, 5 if tier == 'quick' else 7) for rx, letters in REGEXPS]
    ws = [(w, v) for w in WORDS for v in WORDS if w != v]
    return [Space("regular expressions", rxs, regexps, chunk=1), Space("words", ws, words), Space("curated grammars", cur, check, chunk=1), Space("large", sorted(big, key=lambda c: -c[1]), large, chunk=1), Space("grammar family", fam, check)]
