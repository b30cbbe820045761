"""Grammar notation: every rule up to a length over a menu of parts and separators x every text; escapes; malformed rules."""
import itertools, re
from mc.core import Space, Violation, require, same
from mc.grammar import *
from mc import impl

PROP = "C05"
LEVEL = "exploration"
RULE = ("one evaluation = one text offered to one rule (in one of several layouts of the notation), readings compared with the rule's "
        "denotation, or one token sequence that must be refused; non-trivial = accepted texts, and every refusal")
ASSUMPTIONS = ["a trailing separator or comma is not judged", "a read rule of which every part is optional counts as not well formed"]
E1 = ['E1']
ITEMS = [W('x'), O('x'), O('y'), R('y'), N('a', 'E1')]
LAYOUTS = [dict(q="'", glue=' + ', opt=' ~ '), dict(q='"', glue='+', opt='~')]


def accept(case, rec):
    items, seps, texts, layout = case
    r = ('s', ('E1',), items, seps)
    if all(i[0] == 'w?' for i in items):
        try:
            impl.read_grammar(impl.simple_grammar([r], **LAYOUTS[layout]))
        except Exception:
            rec.ev((items, seps, layout), True, "refused")
            return
        raise Violation(f"the rule {render(r, **LAYOUTS[layout])!r} matches the empty text, which cannot be parsed, but is accepted")
    spec = (r, rule('a', E1, W('x'), '~', W('y')), rule('a', E1, W('yx')))
    dup = len(set(variants(r))) != len(variants(r))
    parser = impl.BasicParser(impl.read_grammar(impl.simple_grammar(spec, **LAYOUTS[layout])))
    texts = all_texts(texts[1], texts[2])
    for t in texts:
        exp = Reference(spec, t).readings()
        got, err, args = impl.parse(parser, t)
        if (set(got) != set(exp)) if dup else (sorted(got, key=repr) != sorted(exp, key=repr)):
            raise Violation(f"rule {render(r, **LAYOUTS[layout])!r} text {t!r}: expected readings {exp[:3]}, got {got[:3]}")
        rec.ev((items, seps, t, layout), bool(exp), f"{len(exp)} readings")


# (rule text, texts accepted, texts refused)
LITERAL = [
    (r"s(E1) -> 'don\'t' 'go'", ["don't go", "DON'T  go"], ["dont go", r"don\'t go", "don't", "don'tgo"]),
    (r'''s(E1) -> "don't" + "!"''', ["don't!"], ["don't !", "dont!"]),
    (r'''s(E1) -> "say \"hi\""''', ['say "hi"'], ['say hi', r'say \"hi\"']),
    (r'''s(E1) -> 'say "hi"'?~'now' ''', ['say "hi" now', 'now', 'say "hi"now'], ['say "hi"', ' now', 'say  "hi" ']),
    (r"s(E1) -> /\d+\/\d+/", ['1/2', '10/20'], ['1', '1//2', '1\\/2', 'x']),
    (r"s(E1) -> /a\/b|c/", ['a/b', 'c'], ['a', 'b', 'a/c']),
    (r"s(E1)->'a'+/\w+/~'?'", ['abc?', 'abc ?', 'ab?'], ['a?', 'abc', 'abc  ??']),
    ("s(E1)   ->\n\t 'a'\n   'b'", ['a b', 'a  b'], ['ab', 'a', 'b']),
    ("s( E1 ,E2 ) -> p( E2 , E1 )", ['p two'], ['p one', 'p']),
    ("s(E1)->p(E1)", ['p one'], ['p two', 'p']),
    ("s() -> p() 'x'", ['p zero x'], ['p one x', 'p zero']),
    ("s(E1) -> p(E1)+p(E1,E2) ~ p()", ['p onep two p zero', 'p onep twop zero'], ['p one p two p zero', 'p onep onep zero']),
    ("s(Subject) -> p(Subject)", ['p one'], ['p two']),
    ("s(E1) -> 'a' 'b'? 'c'? 'd'", ['a b c d', 'a b d', 'a c d', 'a d'], ['a  d d', 'ad', 'a b c', 'a bd', 'a bc d', 'b c d', 'a c b d']),
    ("s(E1) -> 'a'? 'b'? 'c'? 'd'", ['a b c d', 'b c d', 'c d', 'd', 'a d', 'a c d', 'a b d', 'b d'], [' d', ' a d', 'a  d d', 'abcd', 'a b c', 'bd', 'dd']),
    ("s(E1) -> 'd' 'a'? 'b'? 'c'?", ['d a b c', 'd a b', 'd a c', 'd a', 'd b c', 'd b', 'd c', 'd'], ['d ', 'a', 'd c b', 'dc', 'd a ', 'd  ']),
    ("s(E1) -> 'please'? 'go' 'now'?", ['go', 'please go', 'go now', 'please go now'], ['please', ' go', 'go ', 'now go', 'pleasego']),
    ("s(E1) -> p(E1)~'?'?", ['p one', 'p one?', 'p one ?'], ['p one ', 'p one??', 'p one  ??', '?']),
    ("s(E1) -> 'oh'?~','?~p(E1)", ['p one', 'oh p one', 'oh, p one', 'oh,p one', 'oh ,p one', 'oh , p one', ', p one', ',p one', 'ohp one'], ['oh,', 'oh', ', ', 'oh oh p one']),
    ("s(E1) -> 'x.y' + '(z)' + '*' ", ['x.y(z)*'], ['xay(z)*', 'x.yz', 'x.y(z)', 'x.y(z)zz']),
    ("s(E1) -> 'ü' 'ñ'", ['ü ñ', 'Ü Ñ'], ['u n', 'üñ']),
    ("s(E1) -> 'two words' 'three more words'", ['two words three more words', 'Two  Words three\tmore words'], ['two words', 'twowords three more words']),
    ("s(E1) -> 'a+b' + '~' + '?' '->' '/' + '(' + ')' + ','", ['a+b~? -> /(),', 'A+B~? -> /(),'], ['ab~? -> /(),', 'a+b', 'a+b ~ ? -> / ( ) ,']),
    ("s(E1) -> /a+b?/ /'[^']*'/", ["aab 'x y'", "a ''", "aaa '->'"], ["b 'x'", "aab x", "abb 'x'", "aab'x'"]),
    ('s(E1) -> /"[a-z ]*"/', ['"x y"', '""'], ['x', '"x', "'x'"]),
    ("s(E1) -> /[A-Z]\\w*/ 'is' /[a-z]+/", ['Ann is here', 'ANN IS here'], ['ann is here', 'Ann is HERE', 'Ann is Here']),
    ("s(E1) -> /x y/ 'z'", ['x y z', 'x  y\tz'], ['xy z', 'x y', 'X Y z']),
    ("s(E1) -> 'a_b' 'c1' '2d'", ['a_b c1 2d'], ['ab c1 2d', 'a_b c 2d', 'a_b c12d']),
    ("s(E1) -> 'a'+'_'+'b'+'_c'", ['a_b_c'], ['a_b', 'ab_c', 'a _b_c']),
    ("s(E1, E2, E3) -> p(E3)+p(E1, E2) p()", ['p onep two p zero'], ['p one p two p zero']),
    ("s(E1, E2, E3, E4) -> p(E3)", ['p one'], ['p two']),
    ("s(LongName1, X_1, Y2z) -> p(X_1, Y2z)", ['p two'], ['p one']),
    ("s(E1) -> 'abcdefghijklmnopqrstuvwxyz abcdefghijklmnopqrstuvwxyz' '0123456789'", ['abcdefghijklmnopqrstuvwxyz abcdefghijklmnopqrstuvwxyz 0123456789'], ['abcdefghijklmnopqrstuvwxyz 0123456789']),
    ("s(E1) -> 'i' 'ß' 'É'", ['i ß É', 'I ß é'], ['i b É', 'i ß E']),
    ("s(E1) -> 'x ' + 'y' + ' z'", ['x y z', 'x  y z'], ['xyz', 'xy z', 'x yz', 'x y']),
    ("s(E1) -> ' x' 'y'", [' x y', '  x y'], ['x y', ' xy']),
    ('s(E1) -> "x " + "y" + " z"', ['x y z', 'x  y z'], ['xyz', 'xy z', 'x yz', 'x y']),
    ('s(E1) -> " x" "y"', [' x y', '  x y'], ['x y', ' xy']),
    ("s(E1) -> 'x' + ' ' + 'y' + ' '", ['x y '], ['x y', 'xy', 'xy ']),
    ("s(E1) -> / x/ + /y / + /z/", [' xy z'], ['xyz', 'xy z', ' xyz']),
    (r"s(E1) -> /a\\+b/ 'x'", [r'a\b x', r'a\\b x'], ['ab x', 'aab x', r'a\b']),
    (r"s(E1) -> 'a\b' 'x'", [r'a\b x'], ['ab x', r'a\\b x']),
    (r"s(E1) -> 'a\n' /b\n?/", [r'a\n b'], ['a b', 'an b', 'a\n b']),
    (r"s(E1) -> 'a\/b' 'x'", [r'a\/b x'], ['a/b x']),
    (r"""s(E1) -> 'a\"b' "c\'d" """, [r"""a\"b c\'d"""], ["""a"b c'd"""]),
    (r"s(E1) -> /[\/]+/ 'x'", ['/ x', '// x'], [r'\/ x', 'x']),
    (r"s(E1) -> /'\w+'/ 'x'", ["'ab' x"], ["ab x", "'' x"]),
    ("s(E1) -> 'Mixed' 'CASE' 'wOrDs'", ['mixed case words', 'MIXED CASE WORDS', 'Mixed CASE wOrDs'], ['mixed case word']),
    ("s(E1) -> 'if' 'sem' 'syn' 's' 'E1' 'None' 'null' 'true'", ['if sem syn s E1 None null true'], ['if sem syn s', 'if sem syn p one E1 None null true']),
    ("s(E1) -> /if/ /s/ /E1/", ['if s E1'], ['if s e1']),
    ("s(E1) -> p1(E1) p_2(E1)", ['p1 p_2'], ['p_2 p1', 'p1']),
]
EXTRA = [{"syn": "p(E1) -> 'p one'", "sem": lambda: 1}, {"syn": "p(E1, E2) -> 'p two'", "sem": lambda: 2}, {"syn": "p() -> 'p zero'", "sem": lambda: 0},
         {"syn": "p1(E1) -> 'p1'", "sem": lambda: 0}, {"syn": "p_2(E1) -> 'p_2'", "sem": lambda: 0}]


def literal(i, rec):
    syn, yes, no = LITERAL[i]
    parser = impl.BasicParser(impl.read_grammar([{"syn": syn, "sem": lambda *a: []}] + EXTRA))
    for t in yes:
        n = len(parser.process(impl.SentenceRequest(t)).products)
        require(n >= 1, lambda: f"rule {syn!r} should accept {t!r}")
        rec.ev((syn, t), True, "accepted")
    for t in no:
        n = len(parser.process(impl.SentenceRequest(t)).products)
        require(n == 0, lambda: f"rule {syn!r} should not accept {t!r}")
        rec.ev((syn, t), True, "refused")


# sentence rules with several numbers of variables live side by side
def arities(ns, rec):
    rules = [{"syn": f"s({', '.join('E%d' % i for i in range(n))}) -> 'x' {'q(' + ', '.join('E%d' % i for i in range(n)) + ')'}", "sem": lambda a: a} for n in ns]
    rules += [{"syn": f"q({', '.join('A%d' % i for i in range(n))}) -> 'y{n % 2}'", "sem": lambda: 0} for n in range(5)]
    parser = impl.BasicParser(impl.read_grammar(rules))
    for k in range(2):
        exp = sorted(n for n in ns if n % 2 == k)
        got = sorted(len(p.parse_tree.rule.antecedent.arguments) for p in parser.process(impl.SentenceRequest(f'x y{k}')).products)
        same(f"sentence rules with {ns} variables, text 'x y{k}': the rules that read it", got, exp)
        rec.ev((ns, k), bool(exp), f"{len(exp)} readings")


TOKENS = ["s(E1)", "->", "'x'", "/x/", "+", "~", "?", "(", ",", "a(e1)", "a(E1)", "s"]


def wellformed(tokens):
    """True (must be accepted), False (must be refused), None (not judged); strict notation"""
    s = ''.join({"s(E1)": 'N', "a(E1)": 'N', "a()": 'N', "a(E1, E2)": 'N', "s()": 'N', "->": 'A', "'x'": 'W', "/x/": 'R', "+": 'g', "~": 'g', "?": 'q', "(": '(', ",": ',', "a(e1)": 'b', "s": 'i'}[t] for t in tokens)
    if re.fullmatch(r'NA(Wq(g?Wq)*)?', s):
        # it would match the empty text
        return False
    if re.fullmatch(r'NA(N|R|Wq?)(g?(N|R|Wq?))*', s):
        return True
    # a trailing separator is not judged
    if re.fullmatch(r'NA(N|R|Wq?)(g?(N|R|Wq?))*g', s):
        return None
    return False


STRAY = ['%', '|', ';', '.', ':', '-', '>', '=', '*', '&', '$', '!', '[', ']', '{', '}', '<', '@', '#', '^', '\\', "'", '"', '/', "''", '""', '//', '->']
STRAY_RULES = [["s(E1)", "->", "'x'"], ["s(E1)", "->", "'x'", "'y'"], ["s(E1)", "->", "'x'", "+", "'y'"], ["s(E1)", "->", "'x'", "?", "'y'"], ["s(E1)", "->", "/x/", "'y'"],
               ["s(E1)", "->", "a(E1)", "~", "'y'"], ["s(", "E1", ",", "E2", ")", "->", "'x'"]]


def stray(case, rec):
    """a character that is not part of the notation, anywhere in a rule, refuses the rule"""
    toks, at, ch, gap = case
    toks = STRAY_RULES[toks]
    syn = gap.join(toks[:at] + [ch] + toks[at:])
    try:
        g = impl.read_grammar([{"syn": syn, "sem": lambda *a: 0}, {"syn": "a(E1) -> 'z'", "sem": lambda *a: 0}])
    except Exception:
        rec.ev(case, True, "refused")
        return
    # accepted: the recorded defect is that the character is skipped; anything else is a violation
    parser = impl.BasicParser(g)
    plain = impl.BasicParser(impl.read_grammar([{"syn": gap.join(toks), "sem": lambda *a: 0}, {"syn": "a(E1) -> 'z'", "sem": lambda *a: 0}]))

    def texts(p):
        return [t for t in all_texts('xyz ', 3) if p.process(impl.SentenceRequest(t)).products]
    skipped = texts(parser) == texts(plain)
    rec.ev(case, True, "skipped" if skipped else "read as something else")
    raise Violation(f"the rule {syn!r} is not well formed but accepted", key="stray-characters-skipped" if skipped else None)


def malformed(tokens, rec):
    syn = ' '.join(tokens)
    w = wellformed(tokens)
    try:
        g = impl.read_grammar([{"syn": syn, "sem": lambda *a: []}])
        ok = True
    except Exception as e:
        ok = False
    if w is not None and ok != w:
        raise Violation(f"the rule {syn!r} is {'well formed but refused' if w else 'not well formed but accepted'}")
    rec.ev(tokens, w is False, f"wellformed={w}")


def nokey(syn, rec):
    """a rule without 'syn' is refused"""
    try:
        impl.read_grammar([{"sem": lambda: []}])
    except Exception:
        rec.ev("no syn", True, "refused")
        return
    raise Violation("a rule without 'syn' was accepted")


def large(case, rec):
    """rules with many optional words, separators, variables and escapes"""
    kind, n = case

    def count(p, t): return len(p.process(impl.SentenceRequest(t)).products)

    def p(*rules): return impl.BasicParser(impl.read_grammar([{"syn": r, "sem": lambda *a: []} for r in rules]))

    def expect(parser, t, exp, syn):
        same(f"{case}: rule {syn[:200]!r}, text {t[:200]!r}: readings", count(parser, t), exp)
        rec.ev((case, t), True, f"large {kind} {exp}")
    ws = [chr(97 + i) * 2 for i in range(n)] if n <= 26 else None
    if kind == 'optional':
        # place of the word that is not optional
        for at in {0, n // 2, n}:
            parts = [f"'{w}'?" for w in ws]
            parts.insert(at, "'##'")
            syn = "s(E1) -> " + ' '.join(parts)
            parser = p(syn)
            for sub in itertools.product((0, 1), repeat=n):
                some = [w for w, k in zip(ws, sub) if k]
                i = sum(sub[:at])
                expect(parser, ' '.join(some[:i] + ['##'] + some[i:]), 1, syn)
                if len(some) > 1 and i in (0, len(some)):
                    back = some[::-1]
                    expect(parser, ' '.join(back[:i] + ['##'] + back[i:]), 0, syn)
    elif kind == 'separators':
        syn = "s(E1) -> " + '~'.join(f"'{w}'" for w in ws)
        parser = p(syn)
        for sub in itertools.product((' ', ''), repeat=n - 1):
            expect(parser, ws[0] + ''.join(a + b for a, b in zip(sub, ws[1:])), 1, syn)
        expect(parser, '  '.join(ws[:-1]), 0, syn)
        for sep, here, there in ((' ', ' ', ''), ('+', '', ' ')):
            syn = "s(E1) -> " + sep.join(f"'{w}'" for w in ws)
            parser = p(syn)
            expect(parser, here.join(ws), 1, syn)
            expect(parser, there.join(ws), 0, syn)
            expect(parser, here.join(ws[:-1]) + there + ws[-1], 0, syn)
            expect(parser, ws[0] + there + here.join(ws[1:]), 0, syn)
    elif kind == 'variables':
        vs = [f"Variable{i}" for i in range(n)]
        syn = f"s({', '.join(vs)}) -> p({','.join(vs)}) q({', '.join(vs[1:])})"
        other = f"s({', '.join(vs)}) -> p({','.join(vs)}) q({', '.join(vs)})"
        rest = [f"p({', '.join(vs[::-1])}) -> 'p'", f"q({', '.join(vs[1:])}) -> 'q'"]
        expect(p(syn, *rest), 'p q', 1, syn)
        expect(p(other, *rest), 'p q', 0, other)
    elif kind == 'escapes':
        for q in '\'"':
            w = "x" + q * n + "y"
            syn = "s(E1) -> " + q + w.replace(q, '\\' + q) + q + " + '!'"
            parser = p(syn)
            expect(parser, w + '!', 1, syn)
            expect(parser, w, 0, syn)
            expect(parser, 'x' + q * (n - 1) + 'y!', 0, syn)
            expect(parser, 'x' + q * (n + 1) + 'y!', 0, syn)
        syn = "s(E1) -> /x" + '\\/' * n + "[yz]/ + '!'"
        parser = p(syn)
        for t, exp in (('x' + '/' * n + 'z!', 1), ('x' + '/' * (n - 1) + 'z!', 0), ('x' + '/' * (n + 1) + 'z!', 0), ('x' + '/' * n + 'a!', 0)): expect(parser, t, exp, syn)
    elif kind == 'names':
        c, v = 'c' * n, 'E' + 'v' * n
        syn = f"s({v}) -> {c}({v}) {c}x({v}, {v}2)"
        expect(p(syn, f"{c}({v}) -> 'p'", f"{c}x({v}, {v}2) -> 'q'", f"{c}({v}, {v}2) -> 'r'", f"{c}x({v}) -> 'r'"), 'p q', 1, syn)
        expect(p(syn, f"{c}({v}) -> 'p'", f"{c}x({v}, {v}2) -> 'q'", f"{c}({v}, {v}2) -> 'r'", f"{c}x({v}) -> 'r'"), 'p r', 0, syn)
        expect(p(syn, f"{c}({v}) -> 'p'", f"{c}x({v}, {v}2) -> 'q'", f"{c}({v}, {v}2) -> 'r'", f"{c}x({v}) -> 'r'"), 'r q', 0, syn)
    elif kind == 'layout':
        ws = [f"w{i}x" for i in range(n)]
        for gap in (' ' * n, '\n', '\n\t ' * 3):
            syn = f"s(E1){gap}->{gap}" + gap.join(f"'{w}'" for w in ws)
            parser = p(syn)
            expect(parser, ' '.join(ws), 1, syn)
            expect(parser, ' '.join(ws[:-1]), 0, syn)
            expect(parser, ' '.join(ws[1:]), 0, syn)


def bad_late(case, rec):
    """a mistake anywhere in a long rule refuses it"""
    n, at, wrong = case
    toks = ["s(E1)", "->"] + ["'x'", "a(E1)", "/x/"] * n
    syn = ' '.join(toks[:2 + at] + [wrong] + toks[2 + at:])
    try:
        impl.read_grammar([{"syn": syn, "sem": lambda *a: []}])
    except Exception:
        rec.ev(case, True, "refused")
        return
    raise Violation(f"{case}: the rule {syn[:300]!r} is not well formed but accepted")


def spaces(tier):
    n, L = (3, 4) if tier == 'quick' else (4, 4)
    cases = []
    for k in range(1, n + 1):
        for items in itertools.product(ITEMS, repeat=k):
            for seps in itertools.product(' +~', repeat=k - 1):
                for lay in range(2 if k < 3 else 1):
                    cases.append((items, seps, ('all', 'xy ', L + (1 if k > 2 and tier == 'quick' else 0)), lay))
    m = 4 if tier == 'quick' else 5
    toks = [c for k in range(1, m + 1) for c in itertools.product(TOKENS, repeat=k)]
    # longer ones that start like a rule
    toks += [("s(E1)", "->") + c for k in range(3, m + 1) for c in itertools.product(["'x'", "/x/", "+", "~", "?", "a(E1)", "->", ","], repeat=k)]
    # categories without variables and with two
    toks += [("s(E1)", "->") + c for k in range(1, m + (tier != 'quick')) for c in itertools.product(["'x'", "a()", "a(E1, E2)", "+", "?", ","], repeat=k) if "a()" in c or "a(E1, E2)" in c]
    toks += [("s()", "->") + c for k in range(0, 4) for c in itertools.product(["'x'", "/x/", "a()", "?", "~"], repeat=k)]
    sizes = (9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 101)
    big = [('optional', k) for k in range(4, 8)] + [('separators', k) for k in range(4, 9 if tier == 'quick' else 10)]
    big += [(k, m) for k in ('variables', 'escapes', 'names', 'layout') for m in sizes]
    late = [(k, at, w) for k in (1, 2, 4, 7, 11, 17, 33) for at in sorted({0, 1, k, 3 * k - 1, 3 * k}) for w in ("->", ",", "(", "? ?", "a(e1)", "s", "+ +", "~ +", "a(", "E1")]
    strays = [(i, at, ch, gap) for i, t in enumerate(STRAY_RULES) for at in range(len(t) + 1) for ch in STRAY
              for gap in ((' ', '') if tier == 'quick' else (' ', '', '\n'))]
    # put next to a token these make another token, or are the notation
    strays = [c for c in strays if not (c[3] == '' and c[2] in ("'", '"', '/', "''", '""', '//', '-', '>', '->', '\\')) and not (c[2] == '->' and c[1] == 1)]
    return [Space("stray characters", strays, stray), Space("large", big, large, chunk=1), Space("mistakes in long rules", late, bad_late), Space("literal rules", list(range(len(LITERAL))), literal), Space("numbers of variables", [c for k in range(1, 6) for c in itertools.permutations(range(5), k)], arities), Space("missing key", [0], nokey), Space("token sequences", toks, malformed),
            Space("denotations", cases, accept)]
