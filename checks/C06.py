"""Composition: every grammar over menus of meaning functions and argument patterns, against composition by renaming apart."""
import itertools, re
from mc.core import Space, Violation, require, same
from mc import impl
from mc.impl import Variable, ReifiedVariable, SemanticTemplate, apply

PROP = "C06"
LEVEL = "exploration"
RULE = ("one evaluation = the meaning composed for one reading, compared up to a one-to-one renaming of variables (consistent over "
        "meaning, executable, dialogue facts and root variables) with the meaning composed by a reference that renames every rule "
        "instance apart; or one template application; non-trivial = the meaning contains at least one variable")
ASSUMPTIONS = ["template arguments do not themselves contain the placeholders of the same template"]

Body, Range = impl.Body, impl.Range


# ---- meanings as data: v variable, r reified variable, k constant, t tuple, l list, + splice child, c child itself, T template, A apply
def v(n): return ('v', n)
def r(n): return ('r', n)
def k(x): return ('k', x)
def t(*xs): return ('t',) + xs
def l(*xs): return ('l',) + xs


class Ref:
    """a variable of the reference: (instance, name)"""
    def __init__(self, key): self.key = key
    def __eq__(self, o): return isinstance(o, Ref) and o.key == self.key
    def __hash__(self): return hash(self.key)
    def __repr__(self): return f"<{self.key}>"


class RefName(Ref):
    """the name of a variable of the reference, as a string"""


def build(e, kids, var, reified):
    tag = e[0]
    if tag == 'v': return var(e[1])
    if tag == 'r': return reified(e[1])
    if tag == 'k': return e[1]
    if tag == 't': return tuple(build(x, kids, var, reified) for x in e[1:])
    if tag == 'c': return kids[e[1]]
    if tag == 'tok': return list({'B': Body, 'R': Range}[e[1]])
    if tag == 'l':
        out = []
        for x in e[1:]:
            if x[0] == '+':
                out.extend(kids[x[1]])
            elif x[0] == 'tok':
                out.extend({'B': Body, 'R': Range}[x[1]])
            else:
                out.append(build(x, kids, var, reified))
        return out
    if tag == 'T':
        return SemanticTemplate([{'B': Body, 'R': Range}[a] for a in e[1]], build(e[2], kids, var, reified))
    if tag == 'A':
        return apply_fn(build(e[1], kids, var, reified), *[build(x, kids, var, reified) for x in e[2:]])
    raise AssertionError(e)


apply_fn = apply


def ref_apply(tmpl, *values):
    """simultaneous replacement of the placeholders (lists of one string) by the given lists"""
    tokens = {tmpl.args[i][0]: val for i, val in enumerate(values)}
    def rep(x):
        if isinstance(x, (list, tuple)):
            out = []
            for y in x:
                if isinstance(y, str) and y in tokens:
                    out.extend(tokens[y])
                else:
                    out.append(rep(y))
            return out if isinstance(x, list) else tuple(out)
        return x
    return rep(tmpl.body)


def sem_fn(e, arity):
    def f(*kids):
        if len(kids) != arity:
            raise Violation(f"meaning function got {len(kids)} parts, not {arity}: {kids!r}")
        return build(e, kids, Variable, ReifiedVariable)
    return f


# ---- reference composition over a parse tree as data: (rule index, children) with text for regexps, None for words
class Reference:
    def __init__(self, grammar):
        self.g = grammar
        self.n = 0

    def rename(self, x, env, inst):
        if isinstance(x, list): return [self.rename(y, env, inst) for y in x]
        if isinstance(x, tuple): return tuple(self.rename(y, env, inst) for y in x)
        if isinstance(x, SemanticTemplate): return SemanticTemplate(x.args, self.rename(x.body, env, inst))
        if isinstance(x, Variable): return self.lookup(x.name, env, inst)
        if isinstance(x, ReifiedVariable): return RefName(self.lookup(x.name, env, inst).key)
        return x

    def lookup(self, name, env, inst):
        if name not in env:
            env[name] = Ref((inst, name))
        return env[name]

    def compose(self, node, incoming):
        self.n += 1
        inst = self.n
        ri, children = node
        rule = self.g[ri]
        env = dict(zip(rule['vars'], incoming))
        kids, inf, exe = [], [], []
        for part, child in zip(rule['parts'], children):
            if part[0] == 'n':
                s, i, x = self.compose(child, [self.lookup(a, env, inst) for a in part[2]])
                kids.append(s)
                inf += i
                exe += x
            elif part[0] == 'r':
                kids.append(child)
        global apply_fn
        apply_fn = ref_apply
        try:
            sem = build(rule['sem'], kids, Variable, ReifiedVariable)
            if rule.get('exec'):
                exe = build(rule['exec'], kids, Variable, ReifiedVariable)
            if rule.get('dialog'):
                inf = inf + build(rule['dialog'], kids, Variable, ReifiedVariable)
        finally:
            apply_fn = apply
        return self.rename(sem, env, inst), self.rename(inf, env, inst), self.rename(exe, env, inst)


def to_data(node, grammar):
    """real parse tree -> (rule index, children)"""
    ri = node.rule.sem.rule_id
    out = []
    parts = grammar[ri]['parts']
    kids = [c for c in node.children if c.form != ' ']
    if len(kids) != len(parts):
        raise Violation(f"rule {grammar[ri]['syn']} read with {len(kids)} parts")
    for part, c in zip(parts, kids):
        out.append(to_data(c, grammar) if part[0] == 'n' else (c.form if part[0] == 'r' else None))
    return ri, out


def alpha(exp, got, fwd, bwd, path):
    def bad(why):
        raise Violation(f"{why} at {path}: expected {exp!r}, got {got!r}")
    if isinstance(exp, Ref):
        if isinstance(exp, RefName):
            if not isinstance(got, str): bad("a variable name was expected")
            name = got
        else:
            if not isinstance(got, Variable): bad("a variable was expected")
            name = got.name
        if fwd.setdefault(exp.key, name) != name: bad(f"two variables instead of one ({fwd[exp.key]})")
        if bwd.setdefault(name, exp.key) != exp.key: bad(f"one variable for two different ones ({bwd[name]})")
    elif isinstance(exp, (list, tuple)):
        if type(exp) is not type(got) or len(exp) != len(got): bad("structure differs")
        for i, (e, g) in enumerate(zip(exp, got)):
            alpha(e, g, fwd, bwd, path + (i,))
    elif isinstance(exp, SemanticTemplate):
        if not isinstance(got, SemanticTemplate): bad("a template was expected")
        alpha(exp.body, got.body, fwd, bwd, path + ('body',))
    elif type(exp) is not type(got) or exp != got:
        bad("constant differs")


def render_part(p):
    return {'w': lambda: f"'{p[1]}'", 'r': lambda: f"/{p[1]}/", 'n': lambda: f"{p[1]}({', '.join(p[2])})"}[p[0]]()


class Function:
    """a function given as an object that can be called"""
    def __init__(self, f):
        self.f = f
    def __call__(self, *args):
        return self.f(*args)


def make(grammar):
    rules = []
    for i, d in enumerate(grammar):
        d['syn'] = f"{d['cat']}({', '.join(d['vars'])}) -> " + ' '.join(render_part(p) for p in d['parts'])
        arity = len([p for p in d['parts'] if p[0] != 'w'])
        f = sem_fn(d['sem'], arity)
        if i % 3 == 1: f = Function(f)
        f.rule_id = i
        rd = {"syn": d['syn'], "sem": f}
        if d.get('exec') is not None: rd['exec'] = sem_fn(d['exec'], arity) if i % 3 else Function(sem_fn(d['exec'], arity))
        if d.get('dialog'):
            rd['dialog'] = (Function(sem_fn(d['dialog'], arity)) if i % 2 == 0 else sem_fn(d['dialog'], arity)) if d.get('dialog_callable') else build(d['dialog'], (), Variable, ReifiedVariable)
        rules.append(rd)
    return rules


def compare(grammar, sentences, rec, key):
    parser = impl.BasicParser(impl.read_grammar(make(grammar)))
    composer = impl.SemanticComposer(parser)
    used = {}
    for n, text in enumerate(sentences):
        req = impl.SentenceRequest(text)
        prods = parser.process(req).products
        require(len(prods) > 0, lambda: f"{text!r} not read by {[d['syn'] for d in grammar]}")
        for pi, p in enumerate(prods):
            req.set_current_product(parser, p)
            res = composer.process(req)
            same(f"composing {text!r}", (res.error_type, len(res.products)), ("", 1))
            prod = res.products[0]
            data = to_data(p.parse_tree, grammar)
            nvars = len(grammar[data[0]]['vars'])
            roots = [Ref(('root', i)) for i in range(nvars)]
            sem, inf, exe = Reference(grammar).compose(data, roots)
            fwd, bwd = {}, {}
            what = f"{text!r} with {[(d['syn'], d['sem']) for d in grammar]}"
            alpha(roots, [Variable(x) for x in prod.return_variables], fwd, bwd, ("root variables", what))
            alpha(sem, prod.get_semantics_last_iteration(), fwd, bwd, ("meaning", what))
            alpha(inf, prod.inferences, fwd, bwd, ("dialogue facts", what))
            alpha(exe, prod.executable, fwd, bwd, ("executable", what))
            for name in bwd:
                if name in used and used[name] != (n, pi):
                    raise Violation(f"variable {name} used again for another reading: {what}")
                used[name] = (n, pi)
            rec.ev((key, text, pi), len(fwd) > 0, f"{len(fwd)} variables")


# ---- menus
LEAF = [
    l(t(k('p'), v('E1'))),
    l(t(k('p'), v('E1'), v('E2'))),
    l(t(k('not'), l(t(k('p'), v('E1'), v('E2')), t(k('p'), v('E2'), v('E3'))))),
    l(t(k('find_all'), r('E2'), l(t(k('p'), v('E1'), v('E2'))), v('E3')), t(k('q'), v('E3'))),
    l(t(k('p'), v('E1'), k('E1'), k(0), k(None), k(''), k('$1'), k(1.5), k('E2'))),
    l(t(k('p'), v('E1'), t(k('q'), v('E2'), l(t(k('r'), v('E2'), v('E1')))))),
    l(),
    l(t(k('find_all'), l(r('E1'), r('E3')), l(t(k('p'), v('E3'))), v('E2'))),
    # parts of one or no terms
    l(t(k('q'), t(v('E1')), l(t(v('E2'))), t(t(v('E3'))), t(), l(v('E1'))), t(k('fact')), t(v('E2'))),
]
PARENT = [
    l(('+', 0), ('+', 1)),
    l(t(k('rel'), v('E1'), v('E2')), ('+', 1), ('+', 0)),
    l(t(k('count'), v('E3'), l(('+', 0))), t(k('not'), ('c', 1))),
    l(('+', 0), ('+', 0), t(k('x'), v('E3')), t(k('y'), r('E3'), r('E1'))),
    l(t(k('all'), v('E2'), ('c', 1), l(t(k('y'), v('E4')), ('+', 0))), t(k('z'), v('E4'), v('E2'))),
]
ARGS = [('E1', 'E1'), ('E1', 'E2'), ('E2', 'E1'), ('E2', 'E3'), ('E2', 'E2')]


def check_two(case, rec):
    pi, args, ai, bi, lay = case
    if lay == 0:
        g = [dict(cat='s', vars=['E1'], parts=[('n', 'a', (args[0],)), ('n', 'b', (args[1],))], sem=PARENT[pi]),
             dict(cat='a', vars=['E1'], parts=[('w', 'x')], sem=LEAF[ai]), dict(cat='b', vars=['E1'], parts=[('w', 'y')], sem=LEAF[bi])]
        texts = ['x y', 'x y']
    elif lay == 1:
        # other names for the same thing, and a layer in between; two root variables
        g = [dict(cat='s', vars=['E2', 'E1'], parts=[('n', 'c', (args[1], args[0])), ('w', '!'), ('n', 'c', ('E2', 'E1'))], sem=PARENT[pi]),
             dict(cat='c', vars=['E1', 'E3'], parts=[('n', 'a', (args[0],)), ('n', 'b', ('E3',))], sem=l(('+', 0), t(k('c'), v('E1'), v('E2'), v('E3')), ('+', 1))),
             dict(cat='a', vars=['E1'], parts=[('w', 'x')], sem=LEAF[ai]), dict(cat='b', vars=['E1'], parts=[('w', 'y')], sem=LEAF[bi])]
        texts = ['x y ! x y']
    else:
        # recursion: several instances of the same rule
        g = [dict(cat='s', vars=['E1'], parts=[('n', 'a', (args[0],)), ('n', 'a', (args[1],))], sem=PARENT[pi]),
             dict(cat='a', vars=['E1'], parts=[('w', 'x'), ('n', 'a', ('E2',))], sem=l(t(k('sub'), v('E1'), v('E2'), v('E5')), ('+', 0))),
             dict(cat='a', vars=['E1'], parts=[('w', 'y')], sem=LEAF[ai]), dict(cat='a', vars=['E1'], parts=[('w', 'z')], sem=LEAF[bi])]
        texts = ['y z', 'x y x x z', 'x x x y y']
    compare(g, texts, rec, case)


def check_special(case, rec):
    kind, i = case
    if kind == 'regexp':
        g = [dict(cat='s', vars=['E1'], parts=[('w', 'is'), ('n', 'n', ('E1',)), ('w', 'a'), ('n', 'm', ('E2',))], sem=l(t(k('isa'), ('c', 0), ('c', 1)), t(k('x'), v('E1'), v('E2')))),
             dict(cat='n', vars=['E1'], parts=[('r', '[A-Za-z0-9 ]+')], sem=('c', 0)),
             dict(cat='m', vars=['E1'], parts=[('r', '\\d+'), ('r', '\\w+')], sem=t(k('num'), ('c', 1), ('c', 0), LEAF[i][1] if len(LEAF[i]) > 1 else k(1)))]
        compare(g, ['is John Smith a 12 Dogs', 'is E1 a 007 x', 'IS xX A 1 a'], rec, case)
    elif kind == 'text':
        # the matched text arrives exactly as it was written (every run of whitespace being one space)
        rx, texts = [('[^!]+', [' Hi There ', "O'Neil", 'ÉÀ ß', 'a' * 40, '007', '0', ' ', '  a\tb\nc ', 'None', '[]', 'E1', '$1', 'x "y" z', '\\', 'e\u0301', 'İ']),
                     (' [a-z]+', [' hi', '  hi']), ('[A-Z]+ ', ['HI ', 'HI\t'])][i]
        g = [dict(cat='s', vars=['E1'], parts=[('n', 'n', ('E1',))], sem=l(t(k('said'), v('E1'), ('c', 0)), t(k('f'), l(('c', 0)), v('E2')))),
             dict(cat='n', vars=['E1'], parts=[('r', rx)], sem=('c', 0))]
        for text in texts:
            parser = impl.BasicParser(impl.read_grammar(make(g)))
            composer = impl.SemanticComposer(parser)
            req = impl.SentenceRequest(text)
            prods = parser.process(req).products
            same(f"readings of {text!r} by /{rx}/", len(prods), 1)
            req.set_current_product(parser, prods[0])
            sem = composer.process(req).products[0].get_semantics_last_iteration()
            exp = ' '.join(re.split(r'\s+', text))
            same(f"the text {text!r} in its meaning", (sem[0][0], sem[0][2], sem[1][0], sem[1][1]), ('said', exp, 'f', [exp]))
            rec.ev((case, text), True, 'text')
    elif kind == 'template':
        # np/vp with quantifier templates, as in a realistic grammar; leaf meanings vary
        det = [('T', 'RB', l(t(k('all'), v('E1'), ('tok', 'R'), ('tok', 'B')))),
               ('T', 'RB', l(t(k('det_equals'), l(('tok', 'R'), ('tok', 'B'), t(k('loc'), v('E1'), v('E4'))), k(2)), t(k('after'), v('E4')))),
               ('T', 'RB', l(('tok', 'R'), t(k('not'), l(('tok', 'B'))))),
               ('T', 'RB', l(('tok', 'B'), ('tok', 'R'), ('tok', 'B'))),
               # variables of its own that occur in one place only, wherever that is
               ('T', 'RB', l(('tok', 'R'), t(k('at'), v('E1'), v('E5')), ('tok', 'B'), t(k('when'), v('E6'), t(k('n'), l(v('E7'), v('E4')))))),
               ('T', 'RB', l(t(k('all'), v('E1'), ('tok', 'R'), ('tok', 'B')), t(k('b'), v('E8')), t(k('c'), v('E9'), v('E8')), t(k('d'), l(l(t(k('e'), v('E10')))))))][i % 6]
        leaf = LEAF[i // 6]
        g = [dict(cat='s', vars=['E1'], parts=[('n', 'np', ('E1',)), ('n', 'vp', ('E1',))], sem=('A', ('c', 0), ('c', 1))),
             dict(cat='np', vars=['E1'], parts=[('n', 'det', ('E1',)), ('n', 'nbar', ('E1',))], sem=('T', 'B', ('A', ('c', 0), ('c', 1), ('tok', 'B')))),
             dict(cat='vp', vars=['E1'], parts=[('w', 'has'), ('n', 'np', ('E2',))], sem=('A', ('c', 0), l(t(k('has'), v('E1'), v('E2'), v('E4'))))),
             dict(cat='det', vars=['E1'], parts=[('w', 'every')], sem=det), dict(cat='nbar', vars=['E1'], parts=[('w', 'man')], sem=leaf),
             dict(cat='nbar', vars=['E1'], parts=[('w', 'big'), ('n', 'nbar', ('E1',))], sem=l(t(k('big'), v('E1'), v('E4')), ('+', 0)))]
        compare(g, ['every man has every man', 'every big big man has every big man', 'every man has every man'], rec, case)
    elif kind == 'exec':
        # the second half: variables that occur in the executable or the dialogue facts of a rule only
        i, local = i % 24, i // 24
        dlg = [l(t(k('isa'), v('E1'), k('x'))), l(t(k('isa'), v('E2'), k('y')), t(k('isa2'), v('E1')))][i % 2]
        # the same fact said by a rule and a part of it is there twice
        if local == 3: dlg = dlg + (t(k('seen'), k(1)),)
        ex = [None, l(t(k('do'), v('E1'))), l(t(k('do'), v('E2'), v('E1')), t(k('do2'), ('c', 0))), l()][i // 2 % 3 if local < 4 else 3]
        ex2 = [None, l(t(k('sub'), v('E1'), *([v('E7')] if local == 1 else [])))][i // 6 % 2]
        g = [dict(cat='s', vars=['E1'], parts=[('n', 'a', ('E2',)), ('n', 'b', ('E1',))], sem=PARENT[1], exec=ex, dialog=dlg, dialog_callable=i >= 12),
             dict(cat='a', vars=['E1'], parts=[('w', 'x')], sem=LEAF[0], exec=ex2, dialog=l(t(k('isa'), v('E1'), *([v('E7'), v('E8')] if local == 2 else [k('a')])), *([t(k('seen'), k(1)), t(k('isa'), v('E1'), k('a')), t(k('seen'), k(1))] if local == 3 else []))),
             dict(cat='b', vars=['E1'], parts=[('n', 'c', ('E1',)), ('n', 'a', ('E2',))], sem=PARENT[0]),
             dict(cat='c', vars=['E2'], parts=[('w', 'z')], sem=l(t(k('p'), v('E2'), v('E1'))), exec=l(t(k('xc'), v('E2'))))]
        compare(g, ['x z x', 'x z x'], rec, case)
    elif kind == 'ambiguous':
        g = [dict(cat='s', vars=['E1'], parts=[('n', 'a', ('E1',)), ('n', 'a', ('E2',))], sem=PARENT[i % 5]),
             dict(cat='s', vars=['E1', 'E2'], parts=[('n', 'a', ('E2',)), ('n', 'a', ('E1',))], sem=PARENT[i % 5]),
             dict(cat='a', vars=['E1'], parts=[('w', 'x')], sem=LEAF[i % len(LEAF)]), dict(cat='a', vars=['E1'], parts=[('w', 'x')], sem=LEAF[(i + 1) % len(LEAF)]),
             dict(cat='a', vars=['E1'], parts=[('r', 'x')], sem=l(t(k('named'), v('E1'), ('c', 0))))]
        compare(g, ['x x', 'x x'], rec, case)
    elif kind == 'missing':
        # a rule without meaning, anywhere in the tree, is an error
        rules = [{"syn": "s(E1) -> a(E1) b(E1)", "sem": lambda a, b: a + b}, {"syn": "a(E1) -> 'x'", "sem": lambda: []}, {"syn": "b(E1) -> 'y' c(E1)", "sem": lambda c: c}, {"syn": "c(E1) -> 'z'", "sem": lambda: []}]
        if i < 4:
            del rules[i]["sem"]
        parser = impl.BasicParser(impl.read_grammar(rules))
        composer = impl.SemanticComposer(parser)
        req = impl.SentenceRequest('x y z')
        req.set_current_product(parser, parser.process(req).products[0])
        try:
            composer.process(req)
            failed = False
        except Exception as e:
            failed = "sem" in str(e)
        same(f"composition with rule {i} lacking a meaning fails", failed, i < 4)
        rec.ev(case, True, failed)


def check_large(case, rec):
    """many variables, arguments, parts, levels, atoms, sentences"""
    kind, n = case
    E = [f"E{i + 1}" for i in range(n)]
    leaf = dict(cat='a', vars=['E1'], parts=[('w', 'x')], sem=l(t(k('p'), v('E1'), v('E2'), v(f"E{n}"))))
    if kind == 'arguments':
        # n arguments handed down, straight and reversed, and some local variables besides
        g = [dict(cat='s', vars=['E1'], parts=[('n', 'a', tuple(E)), ('n', 'a', tuple(E[::-1])), ('n', 'b', ('E1',) * n)], sem=l(('+', 0), t(k('s'), *[v(e) for e in E]), ('+', 1), ('+', 2))),
             dict(cat='a', vars=E, parts=[('w', 'x')], sem=l(t(k('p'), *[v(e) for e in E[::-1]], v(f"E{n + 1}")), t(k('q'), *[v(f"E{n + 1 + i}") for i in range(n)]))),
             dict(cat='b', vars=E, parts=[('w', 'x')], sem=l(t(k('p'), *[v(e) for e in E])))]
        texts = ['x x x']
    elif kind == 'variables':
        g = [dict(cat='s', vars=['E1'], parts=[('n', 'a', ('E1',)), ('n', 'a', (f"E{n}",))], sem=l(('+', 0), t(k('s'), *[v(e) for e in E]), t(k('s'), *[r(e) for e in E]), ('+', 1))), leaf]
        texts = ['x x', 'x x']
    elif kind == 'names':
        a, b = 'E' + '1' * n, 'E' + '1' * (n - 1) + '2'
        g = [dict(cat='s', vars=[a], parts=[('n', 'a', (b,)), ('n', 'a', (a,))], sem=l(('+', 0), t(k('s'), v(a), v(b), v(a + '1'), v('E1'), r(b)), ('+', 1))), leaf]
        texts = ['x x']
    elif kind == 'parts':
        g = [dict(cat='s', vars=['E1'], parts=[('n', 'a', (E[i // 2],)) for i in range(n)], sem=l(*[('+', i) for i in range(n)], t(k('s'), *[v(e) for e in E]))), leaf]
        texts = [' '.join(['x'] * n)]
    elif kind == 'depth':
        g = [dict(cat='s', vars=['E1'], parts=[('n', 'a', ('E1',))], sem=('c', 0)), dict(cat='a', vars=['E1'], parts=[('w', 'y'), ('n', 'a', ('E2',))], sem=l(t(k('sub'), v('E1'), v('E2')), t(k('not'), l(t(k('r'), v('E2'), v('E3')), ('+', 0))))), leaf]
        texts = [' '.join(['y'] * n + ['x'])]
    elif kind == 'atoms':
        g = [dict(cat='s', vars=['E1'], parts=[('n', 'a', ('E1',)), ('n', 'a', ('E2',))], sem=l(('+', 0), ('+', 1)), dialog=l(*[t(k('d'), v(E[i % 7]), k(i)) for i in range(n)]), exec=l(*[t(k('x'), v(E[i % 5]), k(i)) for i in range(n)])),
             dict(cat='a', vars=['E1'], parts=[('w', 'x')], sem=l(*[t(k('p'), v(E[i % 5]), v(E[(i * i) % 6]), k(i)) for i in range(n)]))]
        texts = ['x x']
    elif kind == 'nesting':
        e = t(k('p'), v('E1'), v('E2'))
        for i in range(n): e = t(k('not'), l(t(k('q'), v(E[i % 9])), e))
        g = [dict(cat='s', vars=['E1'], parts=[('n', 'a', ('E1',)), ('n', 'a', ('E2',))], sem=l(('+', 0), ('+', 1))), dict(cat='a', vars=['E1'], parts=[('w', 'x')], sem=l(e))]
        texts = ['x x']
    else:
        g = [dict(cat='s', vars=['E1'], parts=[('n', 'a', ('E1',)), ('n', 'a', ('E2',))], sem=l(('+', 0), ('+', 1))), dict(cat='a', vars=['E1'], parts=[('w', 'x')], sem=LEAF[3])]
        texts = ['x x'] * n
    compare(g, texts, rec, case)


TOKS = [('tok', 'R'), ('tok', 'B')]


def template_bodies(depth):
    """all template bodies up to a nesting depth"""
    elems = TOKS + [t(k('p'), v('E1')), t(k('all'), v('E1'), TOKS[0], TOKS[1]), t(k('not'), l(TOKS[1])), t(k('n'), l(TOKS[0], t(k('q'), l(TOKS[1], t(k('r'), k(0)))))), t(k('m'), t(k('x'), TOKS[1]), k(''))]
    for n in range(0, depth + 1):
        for c in itertools.product(elems, repeat=n):
            yield l(*c)


VALUES = [l(), l(t(k('a'), v('E1'))), l(t(k('a'), v('E2')), t(k('b'), l(t(k('c')))))]


def check_apply(case, rec):
    body, r1, b1 = case
    T = build(('T', 'RB', body), (), Variable, ReifiedVariable)
    before = repr(T)
    v1, v2 = build(VALUES[r1], (), Variable, ReifiedVariable), build(VALUES[b1], (), Variable, ReifiedVariable)
    rv = (repr(v1), repr(v2))
    got = apply(T, v1, v2)
    same(f"template {before} filled with {v1!r}, {v2!r}", got, ref_apply(T, v1, v2))
    same("the template and its arguments after filling", (repr(T), repr(v1), repr(v2)), (before,) + rv)
    # the other order of placeholders, and a single one
    T2 = build(('T', 'BR', body), (), Variable, ReifiedVariable)
    same(f"template with arguments (Body, Range) {before}", apply(T2, v2, v1), ref_apply(T2, v2, v1))
    T3 = build(('T', 'B', body), (), Variable, ReifiedVariable)
    same(f"template with argument Body {before}", apply(T3, v2), ref_apply(T3, v2))
    rec.ev(case, len(body) > 1, f"{len(got)} atoms")


def check_apply_many(case, rec):
    """templates with many placeholders, of any name"""
    n, pos, depth = case
    tokens = [['__$P%d$__' % i] for i in range(n)]
    vals = [[('v', i, Variable('E%d' % (i % 3)))] * (i % 3) for i in range(n)]
    order = range(n) if pos == 0 else range(n - 1, -1, -1) if pos == 1 else [(i * 7 + 3) % n for i in range(n)]
    body = []
    for i in order: body += [('at', i, list(tokens[i]))] + tokens[i]
    for d in range(depth): body = [('deep', d, body), *tokens[d % n]]
    T = SemanticTemplate(tokens, body)
    before = repr((T, vals))
    for given in sorted({0, 1, n - 1, n}):
        got = apply(T, *vals[:given])
        same(f"template with {n} placeholders, {given} values: {before[:500]}", got, ref_apply(T, *vals[:given]))
        same("the template and the values after filling", repr((T, vals)), before)
        rec.ev((case, given), True, 'many placeholders')


SHARED_SEM = [[('p', Variable('E1'), Variable('E2'))], [('not', [('p', Variable('E1'), Variable('E3'))]), ('q', Variable('E3'), [Variable('E1'), ('r', Variable('E2'))])], [('find_all', [ReifiedVariable('E2')], [('p', Variable('E1'), Variable('E2'))], Variable('E4'))], [[('p', Variable('E2'))], ('q', (Variable('E1'),))]]


def check_shared(case, rec):
    """rules that give the same object every time: what is composed is the same for the second use as for the first"""
    a, b, where = case
    import copy
    A, B = copy.deepcopy(SHARED_SEM[a]), copy.deepcopy(SHARED_SEM[b])
    before = repr((A, B))
    rules = [{"syn": "s(E1) -> n(E1) 'and' m(E2)", "sem": lambda x, y: x + y}, {"syn": "s(E1) -> n(E1)", "sem": lambda x: x}, {"syn": "n(E1) -> 'x'", "sem": lambda: A}, {"syn": "m(E1) -> n(E1)", "sem": lambda x: x}, {"syn": "m(E3) -> 'y'", "sem": lambda: B}]
    if where == 'dialog': rules[2]["dialog"] = B
    elif where == 'dialog fn': rules[2]["dialog"] = lambda: B
    elif where == 'exec': rules[2]["exec"] = lambda: B
    elif where == 'top': rules[0]["exec"], rules[0]["dialog"] = (lambda x, y: x), (lambda x, y: y)
    def fresh():
        rs = [dict(r) for r in rules]
        rs[2]["sem"], rs[4]["sem"] = (lambda: copy.deepcopy(SHARED_SEM[a])), (lambda: copy.deepcopy(SHARED_SEM[b]))
        if where == 'dialog': rs[2]["dialog"] = copy.deepcopy(SHARED_SEM[b])
        elif where == 'dialog fn': rs[2]["dialog"] = lambda: copy.deepcopy(SHARED_SEM[b])
        elif where == 'exec': rs[2]["exec"] = lambda: copy.deepcopy(SHARED_SEM[b])
        return rs
    def shape(p):
        names = {}
        def go(t):
            if isinstance(t, Variable): return ('v', names.setdefault(t.name, len(names)))
            if isinstance(t, str) and t.startswith('$'): return ('n', names.setdefault(t, len(names)))
            if isinstance(t, (list, tuple)): return (type(t).__name__, *[go(x) for x in t])
            return t
        return repr([go(x) for x in (list(p.return_variables), p.get_semantics_last_iteration(), p.inferences, p.executable)])
    def compose(parser, composer, text):
        req = impl.SentenceRequest(text)
        req.set_current_product(parser, parser.process(req).products[0])
        return composer.process(req).products[0]
    parser = impl.BasicParser(impl.read_grammar(rules))
    composer = impl.SemanticComposer(parser)
    for text in ('x', 'x', 'x and y', 'x and x', 'x and y', 'x'):
        p2 = impl.BasicParser(impl.read_grammar(fresh()))
        exp = shape(compose(p2, impl.SemanticComposer(p2), text))
        got = shape(compose(parser, composer, text))
        if got != exp: raise Violation(f"{text!r} with meanings {SHARED_SEM[a]} and {SHARED_SEM[b]} ({where}), given as the same objects every time:\n  composed {got}\n  expected {exp}")
        require(repr((A, B)) == before, lambda: f"composing {text!r} changed the meanings that the rules give: {A} {B}, before {before}")
        rec.ev((case, text), True, 'shared')


def spaces(tier):
    two = [(p, a, i, j, lay) for lay in range(3) for p in range(len(PARENT)) for a in ARGS for i in range(len(LEAF)) for j in range(len(LEAF))]
    special = [('regexp', i) for i in range(8)] + [('template', i) for i in range(6 * len(LEAF))] + [('text', i) for i in range(3)] + [('exec', i) for i in range(120)] + [('ambiguous', i) for i in range(5 * len(LEAF))] + [('missing', i) for i in range(5)]
    d = 4 if tier == 'quick' else 5
    ap = [(b, i, j) for b in template_bodies(d) for i in range(3) for j in range(3)]
    N = [9, 10, 11, 12, 16, 17, 20, 21, 26, 27, 32, 33, 50, 64, 65, 100, 101, 128, 129] + [200, 256, 257, 400] + ([] if tier == 'quick' else [512, 1000, 1001])
    big = [(w, n) for w in ('arguments', 'variables', 'names', 'parts', 'depth', 'atoms', 'nesting', 'sentences') for n in N if n < 70 or w not in ('depth', 'nesting', 'parts')] + [('sentences', n) for n in (200, 256, 500, 1001)]
    return [Space("same objects", [(a, b, w) for a in range(len(SHARED_SEM)) for b in range(len(SHARED_SEM)) for w in (None, 'dialog', 'dialog fn', 'exec', 'top')], check_shared), Space("large", big, check_large, 1), Space("special", special, check_special), Space("two parts", two, check_two), Space("templates", ap, check_apply), Space("many placeholders", [(n, p, d) for n in (3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33) for p in range(3) for d in range(4)], check_apply_many)]
