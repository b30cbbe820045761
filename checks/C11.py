"""Inference: every program from menus of rules x ways to name the variables x query patterns, against a bottom-up fixpoint."""
import itertools, os, tempfile
from mc.core import Space, Violation, require
from mc import impl, ref
from mc.impl import Variable

PROP = "C11"
LEVEL = "exploration"
RULE = ("one evaluation = one query (combination of constants, bound, unbound and repeated arguments, with unrelated bound variables around it) against "
        "one program with one way of naming its variables, the set of answers (each once) compared with the fixpoint computed bottom-up; "
        "non-trivial = the fixpoint has at least one tuple for the predicate asked")
ASSUMPTIONS = ["the derivations of the rules end; a solution of a rule's body that leaves an argument that is asked for without a value is no answer",
               "a disjunction commits to its first alternative that has solutions", "arguments of the query are plain values or variables"]

# rules as data: (head, body); names in capitals are rule variables
V = lambda *xs: xs
Q_RULES = [
    (('q', 'A', 'B'), [('e', 'A', 'B')]), (('q', 'A', 'B'), [('e', 'B', 'A')]), (('q', 'A', 'A'), [('f', 'A')]), (('q', 'A', '"b"'), [('f', 'A')]),
    (('q', '"a"', 'B'), [('e', 'B', 'C')]), (('q', 'A', 'C'), [('e', 'A', 'B'), ('e', 'B', 'C')]), (('q', 0, '""'), []),
    (('q', 'A', 'B'), [('f', 'A'), ('f', 'B'), ('not', [('e', 'A', 'B')])]), (('q', 'A', -1), [('e', 'A', 'A')]), (('q', 'A', 'B'), [('e', 'A', 'B'), ('f', 'B'), ('e', 'A', 'C')]),
]
T_RULES = [
    (('t', 'A', 'B'), [('q', 'A', 'B')]), (('t', 'A', 'B'), [('q', 'B', 'A')]), (('t', 'A', 'C'), [('q', 'A', 'B'), ('q', 'B', 'C')]), (('t', 'A', 'A'), [('q', 'A', 'A')]),
    (('t', 'A', 'B'), [('q', 'A', 'C'), ('f', 'B')]), (('t', 'A', 'B'), [('f', 'A'), ('q', 'C', 'B'), ('not', [('q', 'A', 'B')])]), (('t', 'A', '"k"'), [('q', 'A', 'B')]),
    (('t', '"a"', 0), []), (('t', 'A', 'B'), [('q', 'A', 'B'), ('q', 'B', 'A')]), (('t', 'A', 'N'), [('f', 'A'), ('count', 'N', [('q', 'A', 'B')])]),
    (('t', 'A', '"d"'), [('f', 'A'), ('or', [[('q', 'A', 'A')], [('e', 'A', '"a"')]])]), (('t', 'A', 'B'), [('q', 'A', '"b"'), ('q', 0, 'B')]),
    (('t', 'B', 'A'), [('e', 'A', 'B')]), (('t', 'A', 'B'), [('e', 'A', 'C'), ('q', 'C', 'B'), ('less_than', 'A', 'B')]),
]
NAMINGS = [('A', 'B', 'C', 'N'), ('E1', 'E2', 'E3', 'E4'), ('E2', 'E1', 'A', 'E3'), ('B', 'C', 'A', 'E1')]
DBS = [
    ({'e': [('a', 'b'), ('b', 'a'), ('b', 'c')], 'f': ['a', 'b']}, None),
    ({'e': [('a', 'a'), ('a', 'c'), ('c', 'b')], 'f': ['a', 'c']}, {'t': [('z', 'a'), ('a', 'b')], 'q': [('b', 'b'), ('a', 'z')]}),
    ({'e': [], 'f': ['b']}, {'t': [], 'q': [('b', 'a')]}),
]


def constant(x):
    return not isinstance(x, str) or x[0] == '"'


def value(x):
    return x[1:-1] if isinstance(x, str) else x


def text(x, names):
    if isinstance(x, list): return '( ' + ', '.join(text(y, names) for y in x) + ' )' if len(x) > 1 else text(x[0], names)
    if isinstance(x, tuple):
        if x[0] == 'or': return '( ' + ' ; '.join(', '.join(text(a, names) for a in alt) for alt in x[1]) + ' )'
        return f"{x[0]}({', '.join(text(y, names) for y in x[1:])})"
    if isinstance(x, str) and x[0] != '"': return names['ABCN'.index(x)]
    return str(x).replace('"', "'") if isinstance(x, str) and len(x) % 2 else str(x)


def rule_text(rule, names):
    head, body = rule
    return text(head, names) + (' :- ' + ', '.join(text(a, names) for a in body) if body else '') + '.'


def ref_atom(x):
    """rule data -> atoms for the reference evaluator"""
    if isinstance(x, list): return [ref_atom(y) for y in x]
    if isinstance(x, tuple):
        if x[0] == 'or': return ('$disjunction', [[ref_atom(a) for a in alt] for alt in x[1]])
        return (x[0],) + tuple(ref_atom(y) for y in x[1:])
    return value(x) if constant(x) else Variable(x)


def comparable(db):
    return all(isinstance(x, str) for n in ('e', 'q') for row in db[n] for x in row)


def fixpoint(q, t, d, extra):
    """bottom-up, stratum by stratum (q does not depend on t)"""
    db = {'e': [list(x) for x in d['e']], 'f': [[x] for x in d['f']], 'q': [], 't': []}
    for pred, rules in (('q', q), ('t', t)):
        rows = [list(r) for r in (extra or {}).get(pred, [])]
        for head, body in rules:
            for b in ref.evaluate([ref_atom(a) for a in body], {}, db):
                row = [value(x) if constant(x) else b[x] for x in head[1:]]
                if row not in rows: rows.append(row)
        db[pred] = rows
    return db


PATTERN = ['$E1', '$E2', '$A', 'a', 'b', 0, '@E3', '@B']       # $ unbound variable, @ bound variable
BOUND = [{'E3': 'a', 'B': 'b', 'L': ['a', 0]}, {'E3': 0, 'B': 'a', 'C': 'zzz', 'N': 7, 'E4': 'b'}, {'E3': 'b', 'B': 'b'}]
QUERIES = [(x, y, b) for x in PATTERN for y in PATTERN for b in range(2)]


def build(lines, d, extra, order):
    fd, path = tempfile.mkstemp(suffix='.pl')
    try:
        with os.fdopen(fd, 'w') as f: f.write('\n'.join(lines) + '\n')
        inf = impl.InferenceModule()
        inf.import_rules(path)
    finally:
        os.unlink(path)
    mods = [inf, ref.tables({'e': [list(x) for x in d['e']], 'f': [[x] for x in d['f']]})]
    if extra: mods.append(ref.tables({k: [list(r) for r in v] for k, v in extra.items()}))
    if order: mods.reverse()
    return impl.Solver(impl.Model(mods))


def ask(solver, pred, args, binding, rows, rec, key, what):
    def conv(x):
        return Variable(x[1:]) if isinstance(x, str) and x[:1] in '$@' and x else x
    atom = (pred,) + tuple(conv(x) for x in args)
    b = dict(binding)
    exp = ref.lookup(atom, dict(b), rows)
    exp2 = []
    for x in exp:
        if x not in exp2: exp2.append(x)
    got = solver.solve([atom], b)
    if b != binding: raise Violation(f"the binding became {b}: {atom}, {what()}")
    if sorted(map(ref.frz, exp2)) != sorted(map(ref.frz, got)):
        raise Violation(f"query {atom} with {binding}\n {what()}\n expected {exp2}\n got      {got}")
    rec.ev((key, atom, repr(binding)), len(rows) > 0, f"{len(exp2)} answers")


def run(case, rec):
    qs, ts, ni = case
    q, t = [Q_RULES[i] for i in qs], [T_RULES[i] for i in ts]
    for di, (d, extra) in enumerate(DBS):
        if 13 in ts and not comparable(fixpoint(q, [], d, extra)): continue
        db = fixpoint(q, t, d, extra)
        lines = [rule_text(r, NAMINGS[(ni + k) % 4]) for k, r in enumerate(t + q)]
        solver = build(lines, d, extra, ni % 2)
        what = lambda: f"program {lines} stored {d} {extra}"
        for x, y, bi in QUERIES:
            ask(solver, 't', (x, y), BOUND[(bi + ni) % 3], db['t'], rec, (case, di), what)
        for x, y in (('$E1', '$E2'), ('$E1', '$E1'), ('a', '$B'), ('@E3', '$A')):
            ask(solver, 'q', (x, y), {'E3': 'b'}, db['q'], rec, (case, di), what)
        # after a conjunction, and inside a built-in
        for pre in ([('f', Variable('A'))], [('e', Variable('E2'), Variable('E1'))]):
            for args in ((Variable('A'), Variable('E1')), (Variable('E1'), Variable('E2'))):
                atoms = pre + [('t',) + args]
                exp = ref.evaluate(atoms, {}, db)
                got = solver.solve(atoms, {})
                if sorted(map(ref.frz, exp)) != sorted(map(ref.frz, got)):
                    raise Violation(f"query {atoms}: {what()}\n expected {exp}\n got {got}")
                n = solver.solve([('count', Variable('N'), atoms)], {})
                if n != [{'N': len(exp)}]: raise Violation(f"count of {atoms}: {what()}\n expected {len(exp)} got {n}")
                rec.ev((case, di, repr(atoms)), len(exp) > 0, "conjunction")


# whole programs: (lines, stored, [(query, rows)])
SPECIAL = [
    (["anc(X, Y) :- e(X, Y).", "anc(X, Z) :- e(X, Y), anc(Y, Z)."], {'e': ['ab', 'bc', 'ad', 'dc', 'ce']}, 'anc', ['ab', 'bc', 'ad', 'dc', 'ce', 'ac', 'ae', 'be', 'de']),
    (["anc(X, Z) :- e(X, Y), anc(Y, Z).", "anc(Y, X) :- e(Y, X)."], {'e': ['ab', 'bc', 'cd']}, 'anc', ['ab', 'bc', 'cd', 'ac', 'bd', 'ad']),
    (["anc(E1, E2) :- e(E2, E1).", "anc(E2, E1) :- e(E3, E2), anc(E3, E1)."], {'e': ['ab', 'bc', 'cd']}, 'anc', ['ba', 'cb', 'dc', 'ca', 'db', 'da']),
    (["p(X, Y, Z) :- e(X, Y), e(Y, Z).", "p(X, X, Y) :- e(X, Y)."], {'e': ['ab', 'bc', 'bb']}, 'p', ['abc', 'abb', 'bbc', 'bbb', 'aab', 'bbc']),
    (["wet() :- rain().", "rain()."], {'e': ['ab']}, 'wet', ['']),
    (["wet() :- e('a', 'b'), e('b', 'a')."], {'e': ['ab']}, 'wet', []),
    (["sib(X, Y) :- par(P, X), par(P, Y), not( equals(X, Y) ).", "par(X, Y) :- e(X, Y).", "par('c', 'b')."], {'e': ['xa', 'xb', 'cd']}, 'sib', ['ab', 'ba', 'bd', 'db']),
    (["big(X) :- e(X, Y), e(X, Z), not( equals(Y, Z) )."], {'e': ['ab', 'ac', 'bc']}, 'big', ['a']),
    (["only(X) :- e(X, Y), det_equals( ( e(X, Z) ), 1 )."], {'e': ['ab', 'ac', 'bc']}, 'only', ['b']),
    (["lonely(X) :- e(X, Y), none( e(Z, X) ), not( ( e(X, Z), e(Z, X) ) )."], {'e': ['ab', 'ba', 'ca', 'cb']}, 'lonely', ['c']),
    (["l1(X, Y) :- l2(Y, X).", "l2(X, Y) :- l3(Y, X).", "l3(X, Y) :- l4(Y, X).", "l4(X, Y) :- e(Y, X)."], {'e': ['ab', 'cd']}, 'l1', ['ab', 'cd']),
    (["same(X, Y) :- is(X, Y).", "is('a', 'a').", "is('b', 'a').", "is('b', 'b').", "same(X, X) :- is(X, Y)."], {'e': []}, 'same', ['aa', 'ba', 'bb']),
    # a variable that occurs in a negated part only, while the one who asks has a value of that name
    (["leaf(X, Y) :- e(X, Y), not( e(Y, E2) )."], {'e': ['ab', 'bc', 'ca', 'ad']}, 'leaf', ['ad']),
    (["leaf(X, Y) :- e(X, Y), none( e(Y, P) ).", "leaf(P, X) :- e(P, X), not( ( e(E2, P), e(P, E3) ) )."], {'e': ['ab', 'bc', 'dc', 'ca', 'be']}, 'leaf', ['be', 'dc']),
    (["cnt(X, N) :- e(X, Y), count(N, e(Y, P))."], {'e': ['ab', 'bb', 'bc']}, 'cnt', [('a', 2), ('b', 2), ('b', 0)]),
    (["dup(X) :- e(X, Y).", "dup(X) :- e(X, Z).", "dup('a')."], {'e': ['ab', 'ac', 'bd']}, 'dup', ['a', 'b']),
]

for n in (9, 14):
    W = 'abcdefghijklmno'
    SPECIAL.append((["anc(X, Y) :- e(X, Y).", "anc(X, Z) :- e(X, Y), anc(Y, Z)."], {'e': [W[i] + W[i + 1] for i in range(n)]}, 'anc', [W[i] + W[j] for i in range(n + 1) for j in range(i + 1, n + 1)]))
    SPECIAL.append(([f"l{i}(X, Y) :- l{i + 1}(Y, X)." for i in range(n)] + [f"l{n}(A, B) :- e(A, B)."], {'e': ['ab', 'cc']}, 'l0', ['ab' if n % 2 == 0 else 'ba', 'cc']))
# texts that look alike
SPECIAL.append((["t(X, Y) :- e(X, Y).", "t('B', 'b').", "t('b', 'B').", "t(' b', 'b')."], {'e': ['bb', 'Bb']}, 't', [('b', 'b'), ('B', 'b'), ('b', 'B'), (' b', 'b')]))

# values that look alike but differ: numbers and their texts, blanks, marks, texts that look like variables
ALIKE = [0, '0', 1, '1', -1, '-1', 2.5, '2.5', '', ' ', 'None', 'E1', "$E1", 'True', 'a', 'A', 'a ', "it's", 'é', 'e\u0301']


def lit(x):
    return '"%s"' % x if isinstance(x, str) else str(x)


def alike(case, rec):
    """one fact and one rule per value; asked with every value, given directly and by a bound variable"""
    i, form = case
    a = ALIKE[i]
    other = [x for x in ALIKE if x != a]
    if form == 0: lines, rows = [f"t({lit(a)}, 1).", f"t(X, 2) :- is_(X, {lit(a)}).", "is_(X, X) :- k(X)."] + [f"k({lit(x)})." for x in ALIKE], [[a, 1], [a, 2]]
    elif form == 1: lines, rows = [f"t(1, {lit(a)})."] + [f"t(2, {lit(x)}) :- k({lit(x)}), k({lit(a)})." for x in ALIKE] + [f"k({lit(a)})."], [[1, a], [2, a]]
    elif form == 2: lines, rows = ["t(X, Y) :- s(X, Y)."] + [f"s({lit(a)}, {lit(x)})." for x in other], [[a, x] for x in other]
    else: lines, rows = [f"t({lit(x)}, {lit(a)}) :- e({lit(x)}, {lit(a)})." for x in ALIKE], [[x, a] for x in other[::2]]
    for order in (0, 1):
        solver = build(lines, {'e': [(x, a) for x in other[::2]], 'f': []}, None, order)
        for v in ALIKE + [2]:
            dollar = isinstance(v, str) and v[:1] == '$'
            args = [('@P', '$E1'), ('$E1', '@P')] + ([] if dollar else [(v, '$E1'), ('$E1', v)])
            for x in args:
                ask(solver, 't', x, {'P': v}, rows, rec, (case, order), lambda: f"program {lines}")


def universal(case, rec):
    """facts that hold for everything: asked with every value, given directly or by a bound variable"""
    form, vi = case
    v = ALIKE[vi]
    lines = [["t(X, 1).", "u(X, Y).", "w(X, X).", "k(X) :- t(X, 1), w(X, X)."], ["t(E1, 1).", "u(P, E2).", "w(P, P).", "k(E2) :- t(E2, 1), w(E2, E2)."]][form]
    solver = build(lines, {'e': [], 'f': []}, None, 0)
    for other in ALIKE:
        same = type(v) is type(other) and v == other
        for direct in (0, 1, 2, 3):
            b = {'P': v, 'E2': other, 'Q': 5}
            x, y = (v if direct & 1 else Variable('P')), (other if direct & 2 else Variable('E2'))
            for atoms, holds in (([('t', x, 1)], True), ([('t', x, 2)], False), ([('u', x, y)], True), ([('w', x, y)], same), ([('k', y)], True), ([('u', x, y), ('t', y, 1), ('w', y, y)], True), ([('not', [('u', x, y)])], False)):
                got = solver.solve(atoms, dict(b))
                require(got == ([b] if holds else []), lambda: f"{atoms} with {b} and the rules {lines}: {got}")
                rec.ev((case, other, direct, repr(atoms)), holds, 'universal fact')


def wide(case, rec):
    """heads with many arguments, each in turn a constant, a variable of its own, a repeated one or one of the body; the one who asks has values of the same names"""
    n, form, at = case
    vs = ['E%d' % i for i in range(n)]
    if form == 'open': head, body, row = vs, '', lambda a: True
    elif form == 'constant': head, body, row = vs[:at] + ["'k'"] + vs[at + 1:], '', lambda a: a[at] == 'k'
    elif form == 'repeated': head, body, row = vs[:at] + [vs[0 if at else n - 1]] + vs[at + 1:], '', lambda a: a[at] == a[0 if at else n - 1]
    else: head, body, row = vs, f" :- f({vs[at]})", lambda a: a[at] in ('a', 'b')
    lines = [f"t({', '.join(head)}){body}."]
    solver = build(lines, {'e': [], 'f': ['a', 'b']}, None, 0)
    for outer in ({}, {v: 'z' for v in vs}, {v: 'k' for v in vs[::2]}, {vs[-1]: 'a', 'P': 'q'}):
        for args in [['a'] * n, ['k'] * n, ['z'] * n] + [['a'] * j + ['k'] + ['a'] * (n - j - 1) for j in range(n)] + [['x'] * j + ['a'] + ['x'] * (n - j - 1) for j in range(n)]:
            for mode in range(3):
                b = dict(outer)
                given = list(args)
                if mode:
                    # some are given by a variable of another name, or by the variable of the rule itself
                    for j in range(n):
                        if mode == 1 and j % 2: b['Q%d' % j] = args[j]; given[j] = Variable('Q%d' % j)
                        if mode == 2: b['E%d' % ((j + 1) % n)] = args[j]; given[j] = Variable('E%d' % ((j + 1) % n))
                got = solver.solve([('t', *given)], dict(b))
                exp = [b] if row(args) else []
                require(got == exp, lambda: f"t{tuple(given)} with {b} and the rule {lines}: {got}, expected {exp}")
                rec.ev((case, repr(outer), tuple(args), mode), bool(exp), 'wide head')


# (number of arguments, rule); x, y, z: the arguments
ARITIES = [(0, "t()."), (1, "t('a')."), (2, "t('a', 'b')."), (3, "t('a', 'b', 'c')."), (1, "t(X) :- f(X)."), (2, "t(X, Y) :- e(X, Y)."), (1, "t(X) :- t(X, Y)."), (2, "t(X, X) :- t(X)."),
           (3, "t(X, Y, X) :- t(X, Y), f(X)."), (0, "t() :- f('b')."), (1, "t(X) :- e(X, Y), not( t(Y, X) ).")]
AFORMS = {0: lambda e, f, t: [()], 1: lambda e, f, t: [('a',)], 2: lambda e, f, t: [('a', 'b')], 3: lambda e, f, t: [('a', 'b', 'c')], 4: lambda e, f, t: [(x,) for x in f], 5: lambda e, f, t: e,
          6: lambda e, f, t: [r[:1] for r in t if len(r) == 2], 7: lambda e, f, t: [r * 2 for r in t if len(r) == 1], 8: lambda e, f, t: [(r[0], r[1], r[0]) for r in t if len(r) == 2 and r[0] in f],
          9: lambda e, f, t: [()] if 'b' in f else [], 10: lambda e, f, t: [(x,) for x, y in e if (y, x) not in t]}


def arities(case, rec):
    """rules of one name with different numbers of arguments are about different relations"""
    e, f = [('a', 'b'), ('b', 'c'), ('c', 'c')], ['b', 'c']
    rows = set()
    for _ in range(5): rows |= {r for i in case if i != 10 for r in AFORMS[i](e, f, rows)}
    if 10 in case: rows |= set(AFORMS[10](e, f, rows))
    solver = build([ARITIES[i][1] for i in case], {'e': e, 'f': f}, None, len(case) % 2)
    for n in range(4):
        for args in itertools.product(['$E1', '$Y', 'a', '@P'] if n < 3 else ['$X', '$E1', 'a', '@P'], repeat=n):
            ask(solver, 't', args, {'P': 'b'}, [list(r) for r in rows if len(r) == n], rec, case, lambda: f"program {[ARITIES[i][1] for i in case]}")


# rules whose body does not always give the arguments of the head a value
PARTLY = [(('t', 'A', 'B'), [('f', 'A'), ('or', [[('e', 'A', 'B')], [('g', 'A')]])]), (('t', 'A', 'B'), [('f', 'A'), ('or', [[('g', 'A')], [('e', 'A', 'B')]])]),
          (('t', 'A', 'B'), [('or', [[('e', 'A', 'B')], [('g', 'A')]])]), (('t', 'A', 'B'), [('f', 'A')]), (('t', 'A', 'B'), [('g', 'B')]), (('t', 'B', 'A'), [('f', 'A'), ('or', [[('g', 'A')], [('e', 'B', 'A')], [('f', 'B')]])]),
          (('t', 'A', 'B'), [('or', [[('g', 'A')], [('g', 'B')]]), ('or', [[('f', 'B')], [('f', 'A')]])]), (('t', 'A', 'B'), []), (('t', 'A', 'B'), [('e', 'A', 'C'), ('or', [[('e', 'C', 'B')], [('f', 'C')]])])]


def partly(case, rec):
    rs, fs, gs, naming = case
    e = [('a', 'b'), ('b', 'c'), ('b', 'a')]
    rules = [PARTLY[i] for i in rs]
    lines = [rule_text(r, NAMINGS[naming]) for r in rules]
    db = {'e': [list(x) for x in e], 'f': [[x] for x in fs], 'g': [[x] for x in gs]}
    solver = build(lines, {'e': e, 'f': fs}, {'g': [(x,) for x in gs]}, naming % 2)
    outer = {'P': 'b', 'E4': 'c', 'N': 0}
    vals = ['$X', '$E1', '$B', 'a', 'c', '@P', '@E4']
    for x, y in itertools.product(vals, repeat=2):
        if x == y and x[0] == '$': continue
        given = [outer[v[1:]] if v[0] == '@' else None if v[0] == '$' else v for v in (x, y)]
        exp = []
        for head, body in rules:
            b = {p: v for p, v in zip(head[1:], given) if v is not None}
            for s in ref.evaluate([ref_atom(a) for a in body], b, db):
                row = [s.get(p) for p in head[1:]]
                if None not in row:
                    out = dict(outer)
                    for v, r in zip((x, y), row):
                        if v[0] == '$': out[v[1:]] = r
                    if out not in exp: exp.append(out)
        atom = ('t',) + tuple(Variable(v[1:]) if v[0] in '$@' else v for v in (x, y))
        got = solver.solve([atom], dict(outer))
        require(sorted(map(repr, map(ref.frz, got))) == sorted(map(repr, map(ref.frz, exp))), lambda: f"query {atom} with {outer} and the rules {lines}, f {fs}, g {gs}: got {got}, expected {exp}")
        rec.ev((case, x, y), bool(exp), 'partly bound')


def special(i, rec):
    lines, d, pred, rows = SPECIAL[i]
    rows = [list(r) for r in rows]
    n = len(rows[0]) if rows else 0
    for order in (0, 1):
        for sep in ('one', 'many'):
            solver = build(lines if sep == 'one' else ['# c', '\n'.join(lines), '  # end'], {'e': [tuple(x) for x in d['e']], 'f': []}, None, order)
            pats = ['$E1', '$X', '$Y', '$Z', 'a', 'b', '@P', '@E2']
            for args in itertools.product(pats, repeat=n):
                for b in ({'P': 'a', 'E2': 'c'}, {'P': 'b', 'E2': 'b', 'E3': 'zzz'}):
                    if any(isinstance(x, str) and x[0] == '$' and x[1:] in b for x in args): continue
                    ask(solver, pred, args, b, rows, rec, (i, order, sep), lambda: f"program {lines} stored {d}")


def large(case, rec):
    """many rules, facts, steps, conditions, arguments, variables; long texts"""
    kind, n = case
    e = [('a', 'b')]
    extra = None
    if kind == 'rules':
        # rule i holds for k_i only; two of them hold
        lines = [f"t(X, {i}) :- f(X), e(X, 'k{i}')." for i in range(n)]
        e = [('a', f"k{n - 1}"), ('b', f"k{n // 2}"), ('c', 'k0')]
        rows = [('a', n - 1), ('b', n // 2)]
    elif kind == 'facts':
        lines = [f"t('v{i}', {i})." for i in range(n)]
        rows = [(f"v{i}", i) for i in range(n)]
    elif kind == 'stored':
        lines = ["t(X, Y) :- e(X, Y).", "t(Y, X) :- e(X, Y)."]
        e = [(i, i + 1) for i in range(n)]
        rows = e + [(b, a) for a, b in e]
    elif kind == 'predicates':
        lines = [f"l{i}(X, Y) :- e(X, Y)." for i in range(n)] + [f"t(X, Y) :- l{n - 1}(Y, X)."]
        rows = [('b', 'a')]
    elif kind == 'steps':
        lines = ["t(X, Y) :- l0(X, Y)."] + [f"l{i}(X, Y) :- l{i + 1}(Y, X)." for i in range(n)] + [f"l{n}(X, Y) :- e(X, Y)."]
        rows = [('a', 'b') if n % 2 == 0 else ('b', 'a')]
    elif kind == 'recursion':
        lines = ["t(X, Y) :- e(X, Y).", "t(X, Z) :- e(X, Y), t(Y, Z)."]
        e = [(f"n{i}", f"n{i + 1}") for i in range(n)]
        rows = [(f"n{i}", f"n{j}") for i in range(n) for j in range(i + 1, n + 1)]
    elif kind == 'conditions':
        lines = [f"t(V0, V{n}) :- " + ', '.join(f"e(V{i}, V{i + 1})" for i in range(n)) + '.']
        e = [(i, i + 1) for i in range(n + 1)] + [('x', 'y')]
        rows = [(0, n), (1, n + 1)]
    elif kind == 'variables':
        lines = [f"t(A{n}, A{n - 1}) :- " + ', '.join(f"e(A{i}, A{i - 1})" for i in range(n, 0, -1)) + '.']
        e = [('a', 'a'), ('a', 'b')]
        rows = [('a', 'a')]
    elif kind == 'same rule':
        lines = ["t(X, Y) :- e(X, Y)."] * n + ["t('z', 'a')."] * n
        rows = [('a', 'b'), ('z', 'a')]
    elif kind == 'text':
        x = 'x' * n
        lines = [f"t('{x}', '{x}y').", f"t('{x}z', 'b') :- f('{x}')."]
        rows = [(x, x + 'y')]
    else:
        # names that begin alike
        p, q = 'p' * n + 'a', 'p' * n + 'b'
        lines = [f"{p}(X, Y) :- e(X, Y).", f"{q}(X, Y) :- e(Y, X).", f"t(X, Y) :- {q}(X, Y)."]
        rows = [('b', 'a')]
    d = {'e': e, 'f': ['a', 'b']}
    for order in (0, 1):
        solver = build(lines, d, extra, order)
        first, last = rows[0], rows[-1]
        for args in [('$E1', '$E2'), ('$X', '$Y'), ('$Y', '$X'), ('$E1', '$E1'), (first[0], '$Y'), ('$X', last[1]), (last[0], '$E1'), ('@B', '$X'), (first[0], first[1]), (last[1], last[0])]:
            ask(solver, 't', args, {'B': last[0]}, [list(r) for r in rows], rec, (case, order), lambda: f"{kind} {n}: {str(lines)[:300]}")


def spaces(tier):
    qsel = [(i,) for i in range(len(Q_RULES))] + list(itertools.combinations(range(len(Q_RULES)), 2))
    tsel = [(i,) for i in range(len(T_RULES))]
    tpairs = list(itertools.combinations(range(len(T_RULES)), 2)) + [(j, i) for i in (0, 3, 7) for j in (1, 8, 12)]
    cases = [(q, t, 0) for q in qsel for t in tsel] + [(q, t, n) for q in qsel[:len(Q_RULES)] for t in tsel for n in (1, 2, 3)] + [(q, t, (q[0] + t[0]) % 4) for q in qsel[:len(Q_RULES)] for t in tpairs]
    if tier == 'thorough':
        cases = [(q, t, n) for q in qsel for t in tsel + tpairs for n in range(4)]
    N = [9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 64, 65, 100, 101, 128, 129, 256, 257] + ([] if tier == 'quick' else [500, 512, 1000, 1001])
    top = {'steps': 34, 'recursion': 34, 'conditions': 66, 'variables': 66}
    big = [(w, n) for w in ('rules', 'facts', 'stored', 'predicates', 'steps', 'recursion', 'conditions', 'variables', 'same rule', 'text', 'names') for n in N if n < top.get(w, 10 ** 6)]
    big += [(w, n) for w in ('rules', 'facts', 'stored') for n in (501, 600, 1001, 1030) if tier == 'quick']
    return [Space("large", big, large, 1), Space("values that look alike", [(i, f) for i in range(len(ALIKE)) for f in range(4)], alike, 1), Space("wide heads", [(n, f, at) for n in range(1, 8) for f in ('open', 'constant', 'repeated', 'body') for at in range(n) if not (f == 'repeated' and n == 1)], wide), Space("facts for everything", [(f, v) for f in range(2) for v in range(len(ALIKE))], universal), Space("numbers of arguments", [c for k in range(1, 4) for c in itertools.permutations(range(len(ARITIES)), k) if not (7 in c and (6 in c or 10 in c)) and (tier != 'quick' or k < 3 or c[0] < 4)], arities), Space("arguments without a value", [(rs, fs, gs, n) for k in (1, 2) for rs in itertools.permutations(range(len(PARTLY)), k) for fs in ('', 'a', 'ab', 'abc', 'bc') for gs in ('', 'a', 'b', 'bc') for n in ((0, 1, 2, 3) if k == 1 or tier != 'quick' else ((rs[0] + len(fs)) % 4,))], partly), Space("whole programs", list(range(len(SPECIAL))), special), Space("menus", cases, run)]
