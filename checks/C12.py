"""Inference rule notation: every rule structure up to a size in several layouts is read exactly; every corruption of a text is refused as a whole."""
import itertools, os, re, shutil, tempfile
from mc.core import Space, Violation, require
from mc import impl, ref
from mc.impl import Variable

PROP = "C12"
LEVEL = "exploration"
RULE = ("one evaluation = one text of rules in one layout, parsed and imported, compared with the structure it was written from (types included), or one corrupted "
        "text (a token lost, doubled, inserted, exchanged, cut off) that must be refused while nothing is loaded; non-trivial = texts with a body or at least one argument, and all refusals")
ASSUMPTIONS = ["a comma after the last argument, a group between other atoms without alternatives, and a backslash just before a closing quote are not judged",
               "nested atoms are the last argument or in parentheses"]

X, Y = Variable('X'), Variable('Long_Name1')
TERMS = [X, Y, 'str', "it's", 'say "hi"', "both ' and \"", '', 0, -5, 17, 3.25, -0.5, 0.0, 'X', '# no comment', 'a.b :- c(d).', 'ü é', '5', '-1', 'a\\b', ' sp  ace ', '(,', 'x;y', "''", '""', 'line\nbreak', 'a # b', 'x.# y', "o'Neil # (", 'a:-b.', '\t#', 'p(X).', '%', '/* c */', '\n# c\n', "a\\'b", 'a\\"b', "\\'", '\\n', '\\\\"', '\\\\x']


def quote(s, q):
    return q + s.replace(q, '\\' + q) + q


def term(t, lay):
    if isinstance(t, Variable): return t.name
    if isinstance(t, str): return quote(t, lay['q'])
    if isinstance(t, list): return group(t, lay)
    return repr(t)


def atom(a, lay):
    if a[0] == '$disjunction':
        return '(' + lay['sp'] + (lay['sp'] + ';' + lay['sp']).join(conj(alt, lay) for alt in a[1]) + lay['sp'] + ')'
    args = list(a[1:])
    parts = []
    for i, t in enumerate(args):
        if isinstance(t, list) and i == len(args) - 1 and lay['bare'] and not (len(t) and t[0][0] == '$disjunction'):
            parts.append(conj(t, lay))
        else:
            parts.append(term(t, lay))
    return a[0] + '(' + lay['sp'] + (lay['sp'] + ',' + lay['sp']).join(parts) + lay['sp'] + ')'


def conj(atoms, lay):
    return (',' + lay['sp']).join(atom(a, lay) for a in atoms)


def group(atoms, lay):
    return '(' + lay['sp'] + conj(atoms, lay) + lay['sp'] + ')'


def rule(r, lay):
    head, body = r
    if not body: return atom(head, lay) + lay['sp'] + '.'
    b = group(body, lay) if lay['group'] else conj(body, lay)
    return atom(head, lay) + lay['sp'] + ':-' + lay['sp'] + b + lay['sp'] + '.'


def text(rules, lay):
    s = lay['pre']
    for r in rules:
        s += rule(r, lay) + lay['nl']
    return s + lay['post']


LAYOUTS = [
    dict(q="'", sp='', nl='\n', pre='', post='', bare=True, group=False),
    dict(q='"', sp=' ', nl='\n\n', pre='# it\'s a "comment" p(X).\n', post='# end (', bare=False, group=True),
    dict(q="'", sp='\n\t', nl=' ', pre='\n', post='  \n#', bare=True, group=True),
    dict(q='"', sp=' # c, d). "\n ', nl='', pre='#\n#\n', post='\n', bare=False, group=False),
]


def strict_eq(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(strict_eq(x, y) for x, y in zip(a, b))
    return a == b


def load(txt):
    """-> (rules parsed, rules in the module after import, exception)"""
    parsed, pos = impl_parser().parse(txt)
    return parsed, pos


def impl_parser():
    from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
    return SimpleInferenceRuleParser()


def imported(txt):
    fd, path = tempfile.mkstemp(suffix='.pl')
    try:
        with os.fdopen(fd, 'w', newline='') as f: f.write(txt)
        m = impl.InferenceModule()
        m.insert_rule(impl_rule(('kept', 'x'), []))
        before = set(m.get_relations())
        try:
            m.import_rules(path)
            err = None
        except Exception as e:
            err = e
        return m, before, err
    finally:
        os.unlink(path)


def impl_rule(h, b):
    from richard.type.InferenceRule import InferenceRule
    return InferenceRule(h, b)


def accept(rules, rec, file=False, layouts=range(4)):
    for li in layouts:
        txt = text(rules, LAYOUTS[li])
        got, pos = impl_parser().parse(txt)
        require(got is not None and pos is None, lambda: f"refused, but well formed: {txt!r}")
        require(len(got) == len(rules), lambda: f"{len(got)} rules instead of {len(rules)}: {txt!r}")
        for g, r in zip(got, rules):
            if not (strict_eq(g.head, r[0]) and strict_eq(g.body, r[1])):
                raise Violation(f"{txt!r}\n expected {r}\n got      {(g.head, g.body)}")
        if file:
            m, before, err = imported(txt)
            require(err is None, lambda: f"import of {txt!r} failed: {err!r}")
            require(set(m.get_relations()) == before | {r[0][0] for r in rules}, lambda: f"relations {set(m.get_relations())} after import of {txt!r}")
        rec.ev((repr(rules), li), any(b or len(h) > 1 for h, b in rules), f"{len(rules)} rules")


def facts(heads, rec):
    """facts in a file are known, with the values written"""
    heads = [h for h in heads if not any(isinstance(x, Variable) for x in h)]
    for li in range(4):
        txt = text([(h, []) for h in heads], LAYOUTS[li])
        m, before, err = imported(txt)
        require(err is None, lambda: f"import of {txt!r} failed: {err!r}")
        solver = impl.Solver(impl.Model([m]))
        for h in heads:
            vs = [Variable(f'V{i}') for i in range(len(h) - 1)]
            got = [[b[v.name] for v in vs] for b in solver.solve([(h[0], *vs)], {})]
            if not strict_eq(got, [list(h[1:])]): raise Violation(f"after import of {txt!r}: {h[0]} is {got}, expected {h[1:]}")
        rec.ev((repr(heads), li, 'facts'), True, 'facts')


def terms(case, rec):
    k = case
    for t in TERMS:
        for u in ([None] if k < 0 else [TERMS[k]]):
            args = (t,) if u is None else (t, u)
            accept([(('p',) + args, [])], rec)
            if k < 0 or (k + TERMS.index(t)) % 4 == 0: facts([('p',) + args, ('q', 'after')], rec)
            accept([(('h', X), [('p',) + args, ('q', X)])], rec)


def numbers(case, rec):
    """a number is what its digits say, however it is written"""
    s = case
    val = float(s) if '.' in s else int(s)
    for form, exp in ((f"p({s}) .", [(('p', val), [])]), (f"p({s},{s}):-q(X,{s}),r( {s} ).", [(('p', val, val), [('q', X, val), ('r', val)])]), (f"p(X):-not(q({s},X)),(r({s});r({s}1)). w('{s}').", [(('p', X), [('not', [('q', val, X)]), ('$disjunction', [[('r', val)], [('r', type(val)(s + '1'))]])]), (('w', s), [])])):
        got, pos = impl_parser().parse(form)
        require(got is not None and pos is None, lambda: f"refused, but well formed: {form!r}")
        require(strict_eq([(g.head, g.body) for g in got], exp), lambda: f"{form!r} read as {[(g.head, g.body) for g in got]}, expected {exp}")
        rec.ev((case, form), True, 'number')


BODY = [
    [('q', X)], [('q', X), ('r', X, 'a')], [('z',)], [('not', [('q', X)])], [('not', [('q', X, 1), ('r', Y)])], [('count', Y, [('q', X), ('r', X)])],
    [('q', X), ('$disjunction', [[('a', X)], [('b', X)]])], [('$disjunction', [[('a', X)], [('b', X), ('c', -1)], [('d', '')]])],
    [('$disjunction', [[('a', X)], [('$disjunction', [[('b', X)], [('c', Y)]])]]), ('e', X)],
    [('all', X, [('q', X)], [('r', X), ('s', X, Y)])], [('find', [('q', [('r', X)])], Y)], [('q', X), ('not', [('r', X), ('not', [('s', X), ('t', Y, 0)])])],
    [('x', [('$disjunction', [[('a', X)], [('b', X)]])], 1)], [('a1_b', X), ('A2', Y), ('b_3', 2)],
    [('q', X), ('$disjunction', [[('a', X)], [('a', X)]]), ('q', X)], [('$disjunction', [[('a', X), ('b', 1)], [('b', X)], [('a', X), ('b', 1)]]), ('q', X), ('q', X)],
    [('q', 'it\'s'), ('r', '# (', -3), ('s', 0, 0.5, '')],
]
HEADS = [('p',), ('p', X), ('parent_of', X, Y, X), ('p', 'a', -2), ('p', "it's", 1.5)]


def shapes(case, rec):
    if case[0] == 'one':
        accept([(HEADS[case[1]], BODY[case[2]] if case[2] >= 0 else [])], rec, file=True)
    else:
        rules = [(HEADS[h], BODY[b] if b >= 0 else []) for h, b in case[1]]
        accept(rules, rec, file=True, layouts=[sum(h + b for h, b in case[1]) % 4])


# ---- corruptions
LIB_TOK = re.compile(r"""[.,;()]|:-|-?\d+\.\d+|-?\d+|'(?:\\'|[^'])*'|"(?:\\"|[^"])*"|\w+|\S""")


def liberal(tokens):
    """could the tokens possibly be a list of rules (with all leniencies)?"""
    n = len(tokens)
    kind = []
    for t in tokens:
        if t in ('.', ',', ';', '(', ')', ':-'): kind.append(t)
        elif re.fullmatch(r"-?\d+(\.\d+)?", t): kind.append('i' if re.fullmatch(r'\d+', t) else 'k')
        elif t[0] in '\'"' and len(t) > 1: kind.append('k')
        elif re.fullmatch(r"\w+", t): kind.append('v' if t[0].isascii() and t[0].isupper() else 'i')
        else: kind.append('!')
    memo = {}

    def run(f, i):
        k = (f.__name__, i)
        if k not in memo:
            memo[k] = set()
            memo[k] = set(f(i))
        return memo[k]

    def atom(i):
        if i + 1 < n and kind[i] in 'iv' and kind[i + 1] == '(':
            ends = {i + 2}
            for e in run(args, i + 2): ends.add(e)
            for e in ends:
                if e < n and kind[e] == ')': yield e + 1

    def args(i):
        for e in run(arg, i):
            yield e
            if e < n and kind[e] == ',':
                yield e + 1
                yield from run(args, e + 1)

    def arg(i):
        if i < n and kind[i] in 'kvi' and (kind[i] != 'i' or re.fullmatch(r'\d+', tokens[i])): yield i + 1
        yield from run(conj, i)

    def item(i):
        yield from run(atom, i)
        if i < n and kind[i] == '(':
            for e in run(alts, i + 1):
                if e < n and kind[e] == ')': yield e + 1

    def alts(i):
        for e in run(conj, i):
            yield e
            if e < n and kind[e] == ';': yield from run(alts, e + 1)

    def conj(i):
        for e in run(item, i):
            yield e
            if e < n and kind[e] == ',': yield from run(conj, e + 1)

    def rule(i):
        for e in run(atom, i):
            if e < n and kind[e] == '.': yield e + 1
            if e < n and kind[e] == ':-':
                for f in run(conj, e + 1):
                    if f < n and kind[f] == '.': yield f + 1

    ends, todo = {0}, [0]
    while todo:
        for e in run(rule, todo.pop()):
            if e not in ends:
                ends.add(e)
                todo.append(e)
    return n in ends


BASES = [
    "p('a', X) . q(Y) :- r(Y), not( s(Y, 1) ), ( t(Y) ; u(Y), v(Y) ) .",
    "f(0) . g() :- h(-1.5), \"x\"() .".replace('"x"()', 'k("x")'),
    "a(X) :- ( b(X), c(X) ) . d(X, Y) :- e(X) .",
    "a('it\\'s') . b(X) :- count(N, c(X, N)), less_than(N, -2) . c('x', 1) .",
]
STRAY = ['.', ',', ';', '(', ')', ':-', "'", '"', '@', 'foo', '7', "'str'", 'X', '-', ':', '=', '&', '\\', '|', '[', 'foo(X)', '!']


def corrupt(case, rec):
    bi, how, i, x = case
    toks = LIB_TOK.findall(BASES[bi])
    if how == 'drop': toks = toks[:i] + toks[i + x:]
    elif how == 'dup': toks = toks[:i + 1] + toks[i:]
    elif how == 'swap': toks[i], toks[i + 1] = toks[i + 1], toks[i]
    elif how == 'cut': toks = toks[:i]
    elif how == 'ins': toks = toks[:i] + [x] + toks[i:]
    elif how == 'rep': toks = toks[:i] + [x] + toks[i + 1:]
    for sep in (' ', '\n'):
        txt = sep.join(toks)
        real = LIB_TOK.findall(txt)      # quotes may have joined tokens
        ok = liberal(real)
        got, pos = impl_parser().parse(txt)
        if ok: 
            rec.ev((case, sep), False, f"{how} not judged")
            continue
        if got is not None:
            raise Violation(f"not well formed but accepted: {txt!r} as {[str(r) for r in got]}")
        m, before, err = imported(txt)
        require(err is not None, lambda: f"import of a malformed text gave no error: {txt!r}")
        require(set(m.get_relations()) == before, lambda: f"part of a malformed text was loaded: {set(m.get_relations()) - before} of {txt!r}")
        rec.ev((case, sep), True, f"{how} refused")


def rawcut(case, rec):
    """a text cut off after any character is refused, or is read as the rules that are complete"""
    bi = case
    txt = BASES[bi]
    full, _ = impl_parser().parse(txt)
    for i in range(len(txt) + 1):
        cut = txt[:i]
        ok = liberal(LIB_TOK.findall(cut))
        m, before, err = imported(cut)
        if not ok:
            require(err is not None, lambda: f"cut off but accepted: {cut!r}")
            require(set(m.get_relations()) == before, lambda: f"part of a cut-off text was loaded: {cut!r}")
        else:
            got, pos = impl_parser().parse(cut)
            n = len(got) if got is not None else -1
            require(n >= 0 and [str(r) for r in got] == [str(r) for r in full[:n]], lambda: f"{cut!r} read as {got}")
        rec.ev((case, i), True, f"cut ok={ok}")


def large(case, rec):
    """many rules, arguments, conditions, alternatives; deep nesting; long names and texts; a mistake far into a long text"""
    kind, n = case
    if kind == 'rules': rules = [((f"p{i % 7}", i, X), [('q', X), ('r', f"v{i}")] if i % 2 else []) for i in range(n)]
    elif kind == 'arguments': rules = [(('p',) + tuple(Variable(f"X{i}") if i % 3 else i for i in range(n)), [('q',) + tuple(f"t{i}" if i % 2 else -i for i in range(n))])]
    elif kind == 'conditions': rules = [(('p', X), [('q', X, i) for i in range(n)]), (('r', X), [('not', [('q', X, i) for i in range(n)]), ('s', X)])]
    elif kind == 'alternatives': rules = [(('p', X), [('$disjunction', [[('q', X, i)] if i % 2 else [('r', i), ('s', X)] for i in range(n)]), ('e', X)])]
    elif kind == 'nesting':
        inner = [('q', X)]
        for i in range(n): inner = [('not', [('r', i)] + inner)] if i % 2 else [('count', Y, [('s', i)] + inner)]
        rules = [(('p', X), inner)]
    elif kind == 'text': rules = [(('p', 'x' * n, 'y' * n + "'"), [('q', ' ' * n), ('r', '"' + '#' * n)])]
    elif kind == 'names': rules = [(('p' * n, Variable('V' * n), Variable('V' * (n - 1) + 'W')), [('p' * (n - 1) + 'q', Variable('V' * n))])]
    elif kind == 'numbers': rules = [(('p', 10 ** min(n, 300), -(10 ** min(n, 300)) - 1, 7), [('q', n), ('r', n / 8), ('s', -n)])]
    elif kind == 'mistake':
        lay = LAYOUTS[n % 4]
        good = [((f"p{i % 5}", i, X), [('q', X), ('r', f"v{i}")] if i % 2 else []) for i in range(n)]
        bad = ["b(X :- q(X).", "b(X) :- .", "b(X)) .", "b(X) q(X) .", "@", "b(X) :- q(X) , .", ". .", "b('a .", "b(X) :- q(X)"]
        for k, b in enumerate(bad):
            for at in (0, n // 2, n - 1, n):
                txt = text(good[:at], dict(lay, post='')) + '\n' + b + '\n' + text(good[at:], dict(lay, pre=''))
                if liberal(LIB_TOK.findall(re.sub(r"#[^\n]*", '', txt))): continue
                m, before, err = imported(txt)
                require(err is not None, lambda: f"import of {n} rules with {b!r} after rule {at} gave no error")
                require(set(m.get_relations()) == before, lambda: f"part of a malformed text ({n} rules, {b!r} after rule {at}) was loaded: {set(m.get_relations()) - before}")
                rec.ev((case, k, at), True, 'mistake')
        return
    else:
        # comments
        lay = dict(LAYOUTS[0], pre='# c\n' * n + '#' + '(' * n + '\n', nl='\n' * n + ' # "x' + '\n', post='#' * n)
        txt = text([(('p', X), [('q', X)]), (('r', 'a#'), [])], lay)
        got, pos = impl_parser().parse(txt)
        require(got is not None and [(g.head, g.body) for g in got] == [(('p', X), [('q', X)]), (('r', 'a#'), [])], lambda: f"{n} comments: read as {got}")
        rec.ev(case, True, 'comments')
        return
    accept(rules, rec, file=True)


def again(case, rec):
    """files are read when they are imported: a file that was changed, or another of the same name, and a file imported twice"""
    what, order = case
    texts = {'a': "p('a', 1). p(X, 2) :- q(X).", 'b': "p('b', 1). r('b').", 'bad': "p('c', 1). p(X :- q(X).", 'none': "# nothing\n"}
    heads = {'a': [('p', 'a', 1), ('p', X, 2)], 'b': [('p', 'b', 1), ('r', 'b')], 'none': []}
    d = tempfile.mkdtemp(prefix='verif-c12-')
    cwd = os.getcwd()
    try:
        mods = [impl.InferenceModule(), impl.InferenceModule()]
        exp = [[], []]
        for i, k in enumerate(order):
            sub = os.path.join(d, str(i)) if what == 'folders' else d
            os.makedirs(sub, exist_ok=True)
            path = os.path.join(sub, 'rules.pl')
            with open(path, 'w') as f: f.write(texts[k])
            # (the time of the file tells nothing)
            os.utime(path, (10 ** 9, 10 ** 9))
            n = i % 2 if what == 'modules' else 0
            if what == 'relative':
                os.chdir(sub)
                path = 'rules.pl'
            try:
                mods[n].import_rules(path)
                err = None
            except Exception as e:
                err = e
            require((err is not None) == (k == 'bad'), lambda: f"{what} {order}: import {i} of {texts[k]!r}: {err!r}")
            exp[n] += heads.get(k, [])
            for m, es in zip(mods, exp):
                model = impl.Model([m, ref.tables({'q': [['z']]})])
                for p, args in (('p', ('V', 'W')), ('r', ('V',))):
                    if p not in m.get_relations():
                        require(not [h for h in es if h[0] == p], lambda: f"{what} {order}: after import {i} nothing is known of {p}")
                        continue
                    ans = impl.Solver(model).solve([(p, *[Variable(a) for a in args])], {})
                    want = {tuple('z' if isinstance(x, Variable) else x for x in h[1:]) for h in es if h[0] == p}
                    require({tuple(b[a] for a in args) for b in ans} == want, lambda: f"{what} {order}: after import {i} {p} gives {ans}, expected {want}")
            rec.ev((case, i), True, 'imports')
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def spaces(tier):
    cor = []
    for bi, b in enumerate(BASES):
        n = len(LIB_TOK.findall(b))
        cor += [(bi, 'drop', i, k) for i in range(n) for k in (1, 2, 3) if i + k <= n] + [(bi, 'dup', i, 0) for i in range(n)] + [(bi, 'swap', i, 0) for i in range(n - 1)] + [(bi, 'cut', i, 0) for i in range(n)]
        cor += [(bi, 'ins', i, s) for i in range(n + 1) for s in STRAY] + [(bi, 'rep', i, s) for i in range(n) for s in STRAY]
    one = [('one', h, b) for h in range(len(HEADS)) for b in range(-1, len(BODY))]
    all1 = [(h, b) for h in range(len(HEADS)) for b in range(-1, len(BODY))]
    two = [('many', (a, b)) for a in all1 for b in all1[::1 if tier == 'thorough' else 2]]
    three = [('many', (a, b, c)) for a in all1[::3 if tier == 'quick' else 1] for b in all1[::7] for c in all1[::5]]
    N = [9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 101, 128, 129, 200, 256, 257] + [500, 512, 1000, 1001] + ([] if tier == 'quick' else [2000, 4001])
    top = {'nesting': 40, 'mistake': 102 if tier == 'quick' else 300, 'conditions': 130 if tier == 'quick' else 300, 'rules': 130 if tier == 'quick' else 300}
    big = [(w, n) for w in ('rules', 'arguments', 'conditions', 'alternatives', 'nesting', 'text', 'names', 'numbers', 'mistake', 'comments') for n in N if n < top.get(w, 10 ** 6)]
    ag = [(w, o) for w in ('same', 'modules', 'folders', 'relative') for n in range(1, 5 if w == 'same' else 4) for o in itertools.product(('a', 'b', 'bad', 'none'), repeat=n)]
    return [Space("imports", ag, again), Space("large", big, large, 1), Space("terms", list(range(-1, len(TERMS))), terms), Space("numbers", [sg + w for sg in ('', '-') for w in ('0', '00', '000', '007', '7', '70', '0070', '10', '100', '1000000', '9' * 20, '0.0', '0.5', '0.50', '00.5', '1.0', '10.0', '10.10', '007.007', '3.0000001', '123456789.125')], numbers), Space("shapes", one + two + three + [('many', ())], shapes), Space("cut off texts", list(range(len(BASES))), rawcut), Space("corrupted texts", cor, corrupt)]
