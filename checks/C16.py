"""Reply text: all small write grammars over all small buffer contents, against a reference generator over the rule specifications."""
import itertools
from mc.core import Space, Violation, require, same
from mc import impl, ref
from mc.impl import Variable, Relation

PROP = "C16"
LEVEL = "exploration"
RULE = ("every combination, up to the bounds, of rule lists, conditions, part sequences, separators, optional markers, post functions and buffer contents is generated by the real "
        "generator and compared with a reference that interprets the rule specifications")
ASSUMPTIONS = ["when all applicable rules were used already in this reply, any applicable rule may be used again",
               "the arguments passed to a sub category are bound by the condition of the rule", "no infinitely recursive grammars"]

E = {'E%d' % n: Variable('E%d' % n) for n in range(1, 60)}
E1, E2, E3 = E['E1'], E['E2'], E['E3']


class Err:
    def __repr__(self): return 'ERROR'


ERR = Err()


def fmt(*args):
    return '<' + '|'.join(repr(a) for a in args) + '>'


def fmt_num(*args):
    return len(args)


POSTS = {'cap': lambda s: s[:1].upper() + s[1:] if isinstance(s, str) else s, 'strip': lambda s: s.strip() if isinstance(s, str) else s,
         'bang': lambda s: str(s) + '!', 'nil': lambda s: None, 'zero': lambda s: 0, 'drop': lambda s: '', 'wrap': lambda s: [s], 'type': lambda s: type(s).__name__}
FMTS = {'fmt': fmt, 'num': fmt_num, 'echo': lambda *args: args[0] if args else None, 'zero': lambda *args: 0, 'none': lambda *args: None, 'empty': lambda *args: '', 'list': lambda *args: list(args), 'nothing': lambda *args: [],
        'dict': lambda *args: dict(enumerate(args)), 'false': lambda *args: False, 'text': lambda *args: ' ' + str(args[-1]) + '\n' if args else 'x'}

# rule: (cat, head vars, parts, seps, condition, format, post); part: ('lit', s) ('text', v) ('value', v) ('fmt', *vs) ('call', cat, vs, optional)


def rule(cat, head, parts, cond=None, seps=None, format=None, post=None):
    return (cat, tuple(head), tuple(parts), tuple(seps) if seps is not None else ('+',) * (len(parts) - 1), cond, format, post)


def render(r, q="'"):
    cat, head, parts, seps, cond, format, post = r
    s = f"{cat}({', '.join(head)}) ->"
    for i, p in enumerate(parts):
        if i: s += {' ': ' ', '+': '+', '~': '~'}[seps[i - 1]]
        else: s += ' '
        if p[0] == 'lit': s += q + p[1].replace(q, '\\' + q) + q
        elif p[0] == 'call': s += f"{p[1]}({', '.join(p[2])})" + ('?' if p[3] else '')
        elif p[0] == 'fmt': s += f"format({', '.join(p[1:])})"
        else: s += f"{p[0]}({p[1]})"
    d = {'syn': s}
    if cond is not None: d['if'] = cond_atoms(cond)
    if format: d['format'] = FMTS[format]
    if post: d['post'] = POSTS[post]
    return d


def cond_atoms(cond):
    """conditions are plain data; 'E1'.. become variables; ('not', [..]) is nested"""
    out = []
    for a in cond:
        if a[0] == 'not': out.append(('not', cond_atoms(a[1])))
        else: out.append((a[0],) + tuple(E[x] if isinstance(x, str) and x in E else x for x in a[1:]))
    return out


PREDS = {'output_type': 1, 'output_v': 1, 'output_w': 2, 'output_l': 1}


def ref_generate(rules, db):
    """set of possible results"""

    def gen(cat, values, used, optional):
        """yields (result, used)"""
        match = []
        for i, r in enumerate(rules):
            if r[0] != cat or len(r[1]) != len(values): continue
            b = dict(zip(r[1], values))
            if r[4]:
                sols = ref.evaluate(cond_atoms(r[4]), b, db)
                if not sols: continue
                b = sols[0]
            match.append((i, b))
        if not match:
            yield ('' if optional else ERR), used
            return
        fresh = [m for m in match if m[0] not in used]
        for i, b in (fresh[:1] or match):
            for words, u in parts(rules[i], b, 0, used | {i}):
                if words is ERR:
                    yield ERR, u
                    continue
                if all(isinstance(w, str) for w in words): res = ''.join(words)
                elif len(words) == 1: res = words[0]
                else: res = words
                yield (POSTS[rules[i][6]](res) if rules[i][6] else res), u

    def parts(r, b, k, used):
        if k == len(r[2]):
            yield [], used
            return
        p = r[2][k]
        sep = [' '] if k < len(r[3]) and r[3][k] in ' ~' else []
        if p[0] == 'lit': now = [(p[1], used)]
        elif p[0] == 'text': now = [(str(b.get(p[1], '')), used)]
        elif p[0] == 'value': now = [(b.get(p[1], ''), used)]
        elif p[0] == 'fmt': now = [(FMTS[r[5]](*[b.get(v, '') for v in p[1:]]), used)]
        else: now = gen(p[1], [b.get(v, '') for v in p[2]], used, p[3])
        for w, u in now:
            if w is ERR:
                yield ERR, u
                continue
            for rest, u2 in parts(r, b, k + 1, u):
                yield (ERR if rest is ERR else [w] + sep + rest), u2

    return [x for x, u in gen('s', [], frozenset(), False)]


def real_generate(rules, buffers, q="'"):
    buf = impl.BasicOutputBuffer()
    for p, n in PREDS.items():
        buf.add_relation(Relation(p, arguments=['type'] if p == 'output_type' else list('ab')[:n]))
    model = impl.Model([buf])
    solver = impl.Solver(model)
    gen = impl.BasicGenerator(impl.write_grammar([render(r, q) for r in rules]), model, buf)
    out = []
    for facts in buffers:
        if facts: solver.solve([('store', list(facts))])
        try:
            out.append(gen.generate_output())
        except Exception as e:
            out.append(ERR)
        for p, n in PREDS.items():
            require(solver.solve([(p,) + (E1, E2)[:n]]) == [], "the buffer is empty after a reply")
    return out


def run(case, rec):
    rules, buffers, q = case
    got = real_generate(rules, buffers, q)
    for facts, g in zip(buffers, got):
        db = {p: [list(f[1:]) for f in facts if f[0] == p] for p in PREDS}
        exp = ref_generate(rules, db)
        require(any(type(g) == type(x) and g == x for x in exp), lambda: f"rules {[render(r, q) for r in rules]}\n   output facts {facts}\n   expected {exp!r}\n   got      {g!r}")
        rec.ev((rules, facts, q), g is not ERR, repr(g))


# --- spaces

CONDS = [None, [('output_type', 'a')], [('output_type', 'b'), ('output_v', 'E1')], [('output_v', 'E1'), ('output_w', 'E1', 'E2')], [('output_w', 'E1', 'E1')],
         [('not', [('output_type', 'a')])], [('output_v', 'E1'), ('equals', 'E1', 'x')], [('output_v', 'E1')]]
FACTS = [('output_type', 'a'), ('output_type', 'b'), ('output_v', 'x'), ('output_v', 0), ('output_w', 'x', "it's"), ('output_w', 0, 0), ('output_v', ['p', 'q'])]


def buffers(n):
    return [c for k in range(n + 1) for c in itertools.permutations(FACTS, k)]


def choice(d, nb):
    bs = buffers(nb)
    for n in range(1, d + 1):
        for cs in itertools.product(range(len(CONDS)), repeat=n):
            rules = [rule('s', [], [('lit', f'R{i}:'), ('text', 'E1'), ('lit', '/'), ('text', 'E2')], CONDS[c]) for i, c in enumerate(cs)]
            yield (rules, bs, "'" if sum(cs) % 2 else '"')


NP = {
    'one': [rule('np', ['E1'], [('text', 'E1')])],
    'when': [rule('np', ['E1'], [('lit', 'the '), ('text', 'E2')], [('output_w', 'E1', 'E2')]), rule('np', ['E1'], [('lit', 'thing')], [('output_type', 'a')])],
    'inner': [rule('np', ['E3'], [('call', 'np', (), True), ('text', 'E3')], seps=[' ']), rule('np', [], [('lit', 'zero')], [('output_type', 'b')])],
    'raw': [rule('np', ['E2'], [('value', 'E2')], post='bang')],
    'two': [rule('np', ['E1', 'E2'], [('text', 'E2'), ('text', 'E1')], seps=['~']), rule('np', [], [('lit', '"q"')]), rule('np', ['E1'], [('fmt', 'E1')], format='fmt')],
}
PARTS = [('lit', "it's"), ('lit', 'n\n'), ('lit', 'B'), ('text', 'E1'), ('value', 'E2'), ('fmt', 'E2', 'E1'), ('call', 'np', ('E1',), False), ('call', 'np', ('E1',), True),
         ('call', 'np', ('E2',), True), ('call', 'np', ('E1', 'E2'), True), ('call', 'np', (), True)]
VALUES = [('x\n', '\ty '), ('x', 'y'), (0, 5), ('', 'z w'), (['l'], "q'\"\\"), (2.5, True)]


def bodies(d):
    for name in NP:
        for n in range(1, d + 1):
            for ps in itertools.product(PARTS, repeat=n):
                for seps in itertools.product(' +~', repeat=n - 1):
                    for post in ((None, 'cap', 'strip') if n < 3 else (None,)):
                        k = (PARTS.index(ps[0]) + n) % len(VALUES)
                        bs = []
                        for v, w in ([VALUES[k], VALUES[(k + 1) % len(VALUES)]] if n > 2 else VALUES):
                            base = (('output_w', v, w),)
                            bs += [base, base + (('output_type', 'a'),), (('output_type', 'b'),) + base + (('output_w', v, 'second'),)]
                        yield ([rule('s', [], ps, [('output_w', 'E1', 'E2')], seps, format='fmt', post=post)] + NP[name], bs, "'")


def formats():
    """whatever a format or post function returns is what there is"""
    fmts = [('fmt',), ('fmt', 'E1'), ('fmt', 'E2', 'E1')]
    for f in FMTS:
        for post in [None, *POSTS]:
            for a in fmts:
                for parts in ([a], [('lit', 'x'), a], [a, ('lit', 'x')], [a, a], [a, ('value', 'E1'), ('call', 'np', ('E2',), True)]):
                    bs = [(('output_w', v, w),) for v, w in VALUES + [(0, ''), (False, []), (0.0, 'a')]]
                    yield ([rule('s', [], parts, [('output_w', 'E1', 'E2')], format=f, post=post), rule('np', ['E1'], [('value', 'E1')], post=post)], bs, "'")
                    yield ([rule('s', [], [('call', 'np', ('E1', 'E2'), False)], [('output_w', 'E1', 'E2')]), rule('np', ['E1', 'E2'], parts, format=f, post=post), rule('np', ['E2'], [('text', 'E2')])], bs, "'")


RNP = [rule('np', ['E1'], [('lit', 'A')]), rule('np', ['E1'], [('lit', 'B'), ('text', 'E1')], [('output_v', 'E1')]), rule('np', ['E1'], [('lit', 'it')], [('output_type', 'a')]),
       rule('np', ['E1'], [('lit', 'C'), ('call', 'ap', ('E1',), True)]), rule('np', ['E1'], [('lit', 'D'), ('call', 'ap', ('E2',), True)], [('output_w', 'E1', 'E2')]),
       rule('np', ['E1'], [('lit', 'A')], [('output_w', 'E1', 'E2')])]
AP = [[], [rule('ap', ['E1'], [('lit', '-'), ('text', 'E1')])], [rule('ap', ['E1'], [('lit', '*')], [('output_v', 'E1')]), rule('ap', ['E1'], [('lit', '#')])]]
CALLS = [('call', 'np', ('E1',), False), ('call', 'np', ('E2',), False), ('call', 'np', ('E2',), True), ('call', 'ap', ('E1',), True)]


def reuse(nr, nc):
    bs = [(('output_w', v, w),) + extra for v, w in [('x', 'y'), (0, 0)] for extra in [(), (('output_v', 'x'),), (('output_v', 'y'), ('output_v', 0)), (('output_type', 'a'), ('output_w', 'y', 'z'))]]
    for n in range(1, nr + 1):
        for rs in itertools.product(RNP, repeat=n):
            for ap in AP:
                for c in range(1, nc + 1):
                    for cs in itertools.product(CALLS, repeat=c):
                        yield ([rule('s', [], cs, [('output_w', 'E1', 'E2')], [' '] * (c - 1))] + list(rs) + ap, bs, "'")


def same_syntax():
    """rules that differ in nothing but their condition, format or post function are different rules"""
    nps = [(c, f, p) for c in (None, [('output_w', 'E1', 'E2')], [('output_v', 'E2')], [('output_type', 'a'), ('output_v', 'E2')]) for f, p in (('fmt', None), ('fmt', 'bang'), ('num', 'type'))]
    bs = [(('output_w', v, w),) + extra for v, w in [('x', 'y'), (0, 0)] for extra in [(), (('output_v', 'x'),), (('output_v', 'z'), ('output_v', 0)), (('output_type', 'a'), ('output_v', 'q'))]]
    for parts in ([('text', 'E2')], [('fmt', 'E2', 'E1')], [('lit', 'A')]):
        for n in (2, 3):
            for rs in itertools.permutations(nps, n):
                if n == 3 and (parts[0][0] == 'lit' or len({r[0].__repr__() for r in rs}) < 2): continue
                yield ([rule('s', [], [CALLS[0], CALLS[0], CALLS[1]][3 - n:], [('output_w', 'E1', 'E2')], [' '] * (n - 1))] + [rule('np', ['E1'], parts, c, format=f, post=p) for c, f, p in rs], bs, "'")
    # the start category as well
    for rs in itertools.permutations(nps, 2):
        for parts in ([('text', 'E2')], [('fmt', 'E2')]):
            yield ([rule('s', [], parts, c, format=f, post=p) for c, f, p in rs], bs, '"')


def grouped(cases, k):
    cases = list(cases)
    return [cases[i:i + k] for i in range(0, len(cases), k)]


def run_group(case, rec):
    for c in case: run(c, rec)


# lists of clauses: the same categories at several depths
def listing():
    out = []
    items = [[], ['a'], ['a', 'b'], ['b', 'a', 'c']]
    for it in items:
        for last in (True, False):
            rs = [rule('s', [], [('call', 'clause', ('E1',), False)], [('output_w', 'E1', 'E2')], post='cap'),
                  rule('clause', ['E1'], [('text', 'E1'), ('lit', 'and'), ('call', 'clause', ('E2',), False)], [('output_w', 'E1', 'E2')], seps=[' ', ' ']),
                  rule('clause', ['E1'], [('text', 'E1'), ('lit', 'with'), ('call', 'clause', ('E2',), True), ('lit', '.')], [('output_w', 'E1', 'E2')], seps=[' ', '~', '+'])]
            if last: rs.append(rule('clause', ['E1'], [('lit', 'end '), ('text', 'E1')], [('not', [('output_w', 'E1', 'E2')])]))
            bs = [tuple(('output_w', x, y) for x, y in zip(p, p[1:] + [z])) for p in ([list(q) for q in itertools.permutations(it)]) for z in ('z', 0)]
            for perm in itertools.permutations(rs[1:]):
                out.append(([rs[0]] + list(perm), bs, '"'))
    return out


def large(case, rec):
    """many rules, parts, arguments, facts, replies; long texts; deep nesting"""
    what, n = case
    top = lambda parts, cond=None, **k: rule('s', [], parts, cond, **k)
    facts = [('output_type', 'a')]
    bs = None
    if what == 'none':
        # a condition that finds None as the value of a variable: parts get None, not the empty text of a variable without a value
        vals = [(a, b) for a in (None, 0, 'x', '') for b in (None, 'y')]
        a, b = vals[n]

        class M(impl.SomeModule):
            def __init__(self):
                super().__init__()
                self.add_relation(Relation('fact', query_function=lambda v, c: [[a, b]]))
        buf = impl.BasicOutputBuffer()
        for form, exp in (("format(E1, E2)", repr((a, b))), ("format(E2, E1)", repr((b, a))), ("format(E1)", repr((a,))), ("format(E3, E2)", repr(('', b))), ("format(E1, E1, E2)", repr((a, a, b))), ("text(E1)", str(a)), ("text(E1)+text(E2)", str(a) + str(b)),
                          ("value(E1)", a), ("value(E2)", b), ("np(E1, E2)", f"<{a}{b}>"), ("np(E2, E1)", f"<{b}{a}>")):
            model = impl.Model([M(), buf])
            rs = [{"syn": "s() -> " + form, "if": [('fact', E1, E2)], "format": lambda *x: repr(x)}, {"syn": "np(E2, E1) -> '<'+text(E2)+text(E1)+'>'"}]
            if 'format' not in form: del rs[0]['format']
            got = impl.BasicGenerator(impl.write_grammar(rs), model, buf).generate_output()
            require(type(got) == type(exp) and got == exp, lambda: f"{form} with {vals[n]!r}: {got!r}, expected {exp!r}")
            rec.ev((case, form), True, what)
        return
    if what == 'rules':
        # only the condition of the last rule holds; a later rule without a condition would hold too
        rules = [top([('lit', f"R{i}")], [('output_v', i)]) for i in range(n)] + [top([('lit', 'other')])]
        bs = [(('output_v', n - 1),), (('output_v', 0), ('output_v', n - 1)), (('output_v', n // 2),), (('output_v', n),)]
    elif what == 'categories':
        rules = [top([('call', f"c{n - 1}", (), False)])] + [rule(f"c{i}", [], [('lit', f"C{i}")]) for i in range(n)]
    elif what == 'facts':
        rules = [top([('text', 'E1'), ('lit', ':'), ('text', 'E2')], [('output_v', 'E1'), ('output_w', 'E1', 'E2')]), top([('lit', 'none')])]
        vs = tuple(('output_v', i) for i in range(n))
        bs = [vs + (('output_w', n - 1, 'last'),), vs + (('output_w', n, 'nobody'),), vs + (('output_w', n - 1, 'last'), ('output_w', 0, 'first')), tuple(('output_w', i, i) for i in range(n)) + (('output_v', n - 1),)]
    elif what == 'parts':
        rules = [top([('lit', f"w{i}") if i % 2 else ('text', 'E1') for i in range(n)], [('output_v', 'E1')], seps=[' +'[i % 2] for i in range(n - 1)], post='cap')]
        bs = [(('output_v', 'x'),), (('output_v', 0),), (('output_v', ''),)]
    elif what == 'calls':
        rules = [top([('call', 'np', ('E1',), i == 1) for i in range(n)], [('output_v', 'E1')], seps=[' '] * (n - 1)), rule('np', ['E1'], [('lit', 'it')])]
        bs = [(('output_v', 'x'),)]
    elif what == 'distinct calls':
        # n rules for one category are used one after the other, each once
        rules = [top([('call', 'np', ('E1',), False)] * n, [('output_v', 'E1')], seps=[' '] * (n - 1))] + [rule('np', ['E1'], [('lit', f"n{i}")]) for i in range(n)]
        bs = [(('output_v', 'x'),)]
    elif what == 'depth':
        rules = [top([('call', 'd0', ('E1',), False)], [('output_v', 'E1')])] + [rule(f"d{i}", ['E1'], [('lit', f"{i}("), ('call', f"d{i + 1}", ('E1',), False), ('lit', ')')]) for i in range(n)] + [rule(f"d{n}", ['E1'], [('text', 'E1')])]
        bs = [(('output_v', 'x'),), (('output_v', 7),)]
    elif what == 'chain':
        rules = [top([('call', 'cl', ('E1',), False)], [('output_v', 'E1')]), rule('cl', ['E1'], [('text', 'E1'), ('lit', ', '), ('call', 'cl', ('E2',), False)], [('output_w', 'E1', 'E2')]), rule('cl', ['E1'], [('text', 'E1'), ('lit', '.')], [('not', [('output_w', 'E1', 'E2')])])]
        bs = [(('output_v', 0),) + tuple(('output_w', i, i + 1) for i in range(n))]
    elif what == 'text':
        rules = [top([('lit', 'x' * n), ('text', 'E1'), ('value', 'E1'), ('lit', ' ' * n), ('lit', '.')], [('output_v', 'E1')])]
        bs = [(('output_v', 'y' * n),), (('output_v', 'y' * (n - 1) + ' '),), (('output_v', 10 ** min(n, 18)),)]
    elif what == 'value':
        rules = [top([('value', 'E1')], [('output_v', 'E1')])]
        bs = [(('output_v', list(range(n))),), (('output_v', 'z' * n),)]
    elif what == 'solutions':
        # the condition has n solutions; the first counts
        rules = [top([('text', 'E1'), ('lit', '-'), ('call', 'np', ('E1',), False)], [('output_v', 'E1')]), rule('np', ['E1'], [('text', 'E2')], [('output_w', 'E1', 'E2')]), rule('np', ['E1'], [('lit', 'no')])]
        bs = [tuple(('output_v', i) for i in range(n)), tuple(('output_v', n - i) for i in range(n)) + tuple(('output_w', n, i) for i in range(n)), tuple(('output_v', i) for i in range(n)) + tuple(('output_w', i % 2, n - i) for i in range(n))]
    elif what == 'arguments':
        # a part with n arguments, falsy ones among them
        vs = tuple(f"E{i}" for i in range(1, n + 1))
        cond = [('output_w', i, f"E{i}") for i in range(1, n + 1)]
        rules = [top([('call', 'np', vs, False), ('fmt',) + vs, ('call', 'np', vs[::-1], n % 2 == 0), ('call', 'op', vs[1:] + vs[:1], True)], cond, seps=[' ', ' ', '~'], format='fmt'), rule('np', vs[1:] + vs[:1], [('lit', '[')] + [x for v in vs for x in (('text', v), ('lit', ','))][:-1] + [('lit', ']')]), rule('op', vs[::-1], [('value', vs[0])])]
        bs = [tuple(('output_w', i, x) for i, x in zip(range(1, n + 1), vals)) for vals in (['', 0, 'x', False, 0.0, [], 'y'] * n, [0] * n, [''] * n, list(range(n)), [[], 'a', 0] * n)]
    elif what == 'missing':
        # far in, there is no rule for a part: required or optional
        rules = [top([('call', 'd0', ('E1',), False)], [('output_v', 'E1')]), top([('lit', 'x'), ('call', 'd0', ('E1',), True)], [('output_w', 'E1', 0)])] + [rule(f"d{i}", ['E1'], [('lit', f"{i}("), ('call', f"d{i + 1}", ('E1',), False), ('lit', ')')]) for i in range(n)] + [rule(f"d{n}", ['E1'], [('lit', 'end'), ('call', 'gone', ('E1',), True)], [('output_type', 'a')]), rule(f"d{n}", ['E1'], [('lit', 'end'), ('call', 'gone', ('E1',), False)], [('output_type', 'b')])]
        bs = [(('output_v', 'x'), ('output_type', t)) for t in 'abc'] + [(('output_w', 'x', 0), ('output_type', t)) for t in 'abc']
    elif what == 'names':
        a, b = 'c' * n + 'a', 'c' * n + 'b'
        rules = [top([('call', b, (), False), ('call', a, (), False)]), rule(a, [], [('lit', 'A')]), rule(b, [], [('lit', 'B')])]
    else:
        # many replies of one generator
        rules = [top([('lit', 'A')], [('output_type', 'a')]), top([('text', 'E1')], [('output_v', 'E1')]), top([('lit', 'A'), ('call', 'np', (), True)], [('output_type', 'c')]), rule('np', [], [('lit', 'p')])]
        bs = [(('output_type', 'a'),) if i % 3 == 0 else (('output_v', i),) if i % 3 == 1 else (('output_type', 'c'),) for i in range(n)]
    bs = bs or [tuple(facts)]
    if what in ('calls', 'chain'):
        # (the reference would try all the ways to use rules again)
        got = real_generate(rules, bs)
        exp = [' '.join(['it'] * n)] if what == 'calls' else [''.join(f"{i}, " for i in range(n)) + f"{n}."]
        same(f"{what} {n}", got, exp)
        rec.ev(case, True, what)
        return
    got = real_generate(rules, bs)
    for f, g in zip(bs, got):
        exp = ref_generate(rules, {p: [list(x[1:]) for x in f if x[0] == p] for p in PREDS})
        require(any(type(g) == type(x) and g == x for x in exp), lambda: f"{what} {n}: output facts {str(f)[-200:]}\n   expected {str(exp)[:300]}\n   got      {repr(g)[:300]}")
    rec.ev(case, True, what)


def spaces(tier):
    q = tier == 'quick'
    N = [9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 101, 128, 129, 200, 256, 257] + ([] if q else [500, 512, 513, 1000, 1001])
    big = [(w, n) for w in ('rules', 'categories', 'facts', 'parts', 'calls', 'distinct calls', 'depth', 'chain', 'text', 'value', 'names', 'replies') for n in N if n < 52 or w not in ('depth', 'chain', 'parts', 'distinct calls') or (w == 'parts' and n < 140)]
    # (a rule of a thousand parts is more than the recursion of Python allows)
    big = [(w, n) for w, n in big if w != 'calls' or n < 600]
    big += [(w, n) for w, ns in (('solutions', list(range(2, 14)) + [16, 17, 32, 33, 64, 65, 100, 129, 257]), ('arguments', range(1, 13)), ('missing', list(range(1, 21)) + [25, 29, 30, 31, 32, 33, 34, 40, 50])) for n in ns]
    big += [('none', n) for n in range(8)]
    return [Space("large", big, large, 1), Space("rule choice", grouped(choice(3, 2), 10) + grouped(choice(2, 3), 10) if q else grouped(choice(4, 2), 10) + grouped(choice(3, 3), 10), run_group),
            Space("bodies", grouped(bodies(3), 60), run_group),
            Space("reuse", grouped(reuse(2, 3) if q else reuse(3, 4), 60), run_group),
            Space("same syntax", grouped(same_syntax(), 60), run_group),
            Space("listing", grouped(listing(), 4), run_group),
            Space("formats", grouped(formats(), 60), run_group)]
