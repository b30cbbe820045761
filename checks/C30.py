"""Atoms as data: bodies handed to rules as arguments, through chains of rules, against the same bodies written out in place; taking atoms apart."""
import itertools, os, tempfile
from mc.core import Space, Violation, require, same
from mc import impl, ref
from mc.impl import Variable

PROP = "C30"
LEVEL = "exploration"
RULE = ("one evaluation = one query that hands bodies to rules as arguments, solved against one database and compared with the reference, which writes the bodies out in place "
        "(rule variables substituted, locals renamed), or one atom taken apart by one pattern; non-trivial = the body is not empty, or the pattern has a variable")
ASSUMPTIONS = ["a variable without a value is not at once an argument of the rule and in a handed body", "the variables of a handed body are not named like a variable of a rule it passes through (composed variables are named $1, $2, ...)",
               "bodies are used by scoped, not, none, count, the numeric quantifiers, find_all, find_one, percentage and store; atoms that are taken apart have values for all their variables"]


def v(i): return Variable(f"${i}")


V1, V2, V3, V4, V5, V6, V7, V8, V9 = (v(i) for i in range(1, 10))

# the rules: (head, body) with rule variables as Variable('A'), ...; written to a file in several namings
A, B, C, D, X, R = (Variable(n) for n in 'ABCDXR')
RULES = [
    (('yes', B), [('scoped', B)]),
    (('no', B), [('not', B)]),
    (('nil', A), [('none', A)]),
    (('size', C, B), [('count', C, B)]),
    (('sized', B, C), [('count', C, B)]),
    (('is', B, C), [('det_equals', B, C)]),
    (('more', B, C), [('det_greater_than', B, C)]),
    (('less', B, C), [('det_less_than', B, C)]),
    (('list', A, B, R), [('find_all', A, B, R)]),
    (('one', A, B, R), [('find_one', A, B, R)]),
    (('part', R, A, B), [('percentage', R, A, B)]),
    # chains, with other names and in another order
    (('yes2', X), [('yes', X)]),
    (('yes3', A), [('yes2', A)]),
    (('no3', A), [('no', [('yes2', A)])]),
    (('size2', X, A), [('size', X, A)]),
    (('list2', B, X, A), [('list', B, X, A)]),
    # two bodies
    (('both', A, B), [('scoped', A), ('scoped', B)]),
    (('butnot', A, B), [('scoped', A), ('not', B)]),
    (('swapped', A, B), [('butnot', B, A)]),
    (('both2', B, A), [('yes', A), ('yes2', B)]),
    (('same', A, A), [('scoped', A)]),
    (('either', A, B, R), [('$disjunction', [[('scoped', A), ('equals', R, 'first')], [('not', B), ('equals', R, 'none')], [('scoped', B), ('equals', R, 'second')]])]),
    # several rules, constants in the head
    (('which', B, 'yes'), [('scoped', B)]),
    (('which', B, 'no'), [('not', B)]),
    (('which', B, R), [('scoped', B), ('q', R)]),
    # locals of the rule, generators before and after
    (('locals', B, X), [('q', X), ('scoped', B)]),
    (('hidden', B), [('p', A, C), ('q', A), ('scoped', B)]),
    (('after', B, X), [('scoped', B), ('p', X, A)]),
    (('cmp', A, B, C, D), [('count', C, A), ('count', D, B), ('greater_than', C, D)]),
    (('twice', B, R), [('size', R, B), ('is', B, R), ('yes', B)]),
    (('inner', B, R), [('count', R, [('q', X), ('yes', B)])]),
    (('r', A, B), [('p', A, X), ('p', X, B)]),
    (('keep', B), [('store', B)]),
    (('keep2', A, B), [('q', X), ('keep', B), ('yes', A)]),
]
NAMINGS = [dict(), dict(A='B', B='A', C='X', X='C', D='R', R='D'), dict(A='X1', B='Body', C='E1', D='E2', X='A', R='Result'), dict(A='_', B='Sem_tail')]
NAMINGS[3] = dict(A='B2', B='B1', C='V', X='P1', D='Q', R='B')


def fmt(t, names):
    if isinstance(t, Variable): return names.get(t.name, t.name)
    if isinstance(t, str): return repr(t)
    if isinstance(t, list): return '(' + conj(t, names) + ')'
    return repr(t)


def conj(atoms, names): return ', '.join(fatom(a, names) for a in atoms)


def fatom(a, names):
    if a[0] == '$disjunction': return '( ' + ' ; '.join(conj(x, names) for x in a[1]) + ' )'
    return a[0] + '(' + ', '.join(fmt(t, names) for t in a[1:]) + ')'


def rules_text(naming): return '\n'.join(fatom(h, naming) + ' :- ' + conj(b, naming) + ' .' for h, b in RULES) + '\n'


_inf = {}


def inference(naming):
    if naming not in _inf:
        fd, path = tempfile.mkstemp(suffix='.pl')
        try:
            with os.fdopen(fd, 'w') as f: f.write(rules_text(NAMINGS[naming]))
            m = impl.InferenceModule()
            m.import_rules(path)
        finally:
            os.unlink(path)
        _inf[naming] = m
    return _inf[naming]


# ---- the reference: a rule is its body, with the arguments in place of the head variables
def subst(t, th):
    if isinstance(t, Variable): return th.get(t.name, t)
    if isinstance(t, list): return [subst(x, th) for x in t]
    if isinstance(t, tuple): return tuple(subst(x, th) for x in t)
    return t


def names_of(t):
    if isinstance(t, Variable): return {t.name}
    if isinstance(t, (list, tuple)): return set().union(*[names_of(x) for x in t]) if t else set()
    return set()


_n = [0]


def caller(rules):
    def call(a, b, db):
        out = []
        # arguments that have a value by now
        args = [b[x.name] if isinstance(x, Variable) and x.name in b else x for x in a[1:]]
        for head, body in rules:
            if len(head) != len(a): continue
            _n[0] += 1
            th = {n: Variable(f"{n}.{_n[0]}") for n in names_of(head) | names_of(body)}
            res, ok = {}, True
            for h, x in zip(head[1:], args):
                if isinstance(h, Variable):
                    if h.name in res and not isinstance(x, Variable) and not isinstance(res[h.name], Variable) and res[h.name] != x: ok = False
                    if h.name not in res or isinstance(res[h.name], Variable): res[h.name] = x
                elif not isinstance(x, Variable) and h != x: ok = False
            if not ok: continue
            start = dict(b)
            full = {**th, **res}
            for sol in ref.evaluate(subst(body, full), start, db):
                c = b
                for h, x in zip(head[1:], args):
                    value = ref.val(subst(h, full), sol)
                    if isinstance(x, Variable): c = ref.put(c, x, value)
                    if c is None: break
                if c is not None and c not in out: out.append(c)
        return out
    return call


CALLS = {}
for h, b in RULES: CALLS.setdefault(h[0], []).append((h, b))
CALLS = {k: caller(x) for k, x in CALLS.items()}

PROWS = [(0, 0), (0, 1), (1, 0), (1, 2)]
DBS = [(p, q) for n in range(len(PROWS) + 1) for p in itertools.combinations(PROWS, n) for q in ((), (0,), (1,), (1, 0, 2))]

BODIES = [
    [], [('q', V1)], [('q', 1)], [('p', V1, V2)], [('p', V1, V2), ('q', V2)], [('q', V2), ('p', V1, V2)], [('not', [('q', V1)])], [('p', V2, V2)],
    [('p', V1, V2), ('less_than', V1, V2)], [('q', V1), ('q', V2)],
    [('yes', [('q', V1)])], [('p', V1, V2), ('no', [('p', V2, V1)])], [('r', V1, V2)], [('$disjunction', [[('p', V1, 2)], [('q', V1)]])],
    [('list', '$2', [('p', V1, V2)], V3), ('equals', V3, [0, 1])], [('p', V1, V3), ('size', V4, [('p', V3, V2)]), ('greater_than', V4, 0)],
    [('which', [('q', V2)], V3), ('equals', V3, 'yes')], [('scoped', [('not', [('p', V2, V1), ('yes2', [('q', V2)])])])],
]
# one body at $B
ONE = [lambda b: ('yes', b), lambda b: ('no', b), lambda b: ('nil', b), lambda b: ('size', V7, b), lambda b: ('sized', b, V7), lambda b: ('is', b, 1), lambda b: ('more', b, 1), lambda b: ('less', b, 2),
       lambda b: ('list', '$2', b, V7), lambda b: ('list', ['$2', '$1'], b, V7), lambda b: ('one', '$1', b, V7), lambda b: ('one', ['$1', '$2'], b, V7), lambda b: ('yes2', b), lambda b: ('yes3', b), lambda b: ('no3', b), lambda b: ('size2', V7, b),
       lambda b: ('list2', '$1', b, V7), lambda b: ('same', b, b), lambda b: ('which', b, V7), lambda b: ('which', b, 'no'), lambda b: ('which', b, 1), lambda b: ('locals', b, V7), lambda b: ('locals', b, V2), lambda b: ('hidden', b), lambda b: ('after', b, V7),
       lambda b: ('after', b, V1), lambda b: ('twice', b, V7), lambda b: ('inner', b, V7), lambda b: ('yes', [('no', b)]), lambda b: ('not', [('yes3', b)]), lambda b: ('size', 1, b)]
TWO = [lambda a, b: ('both', a, b), lambda a, b: ('butnot', a, b), lambda a, b: ('swapped', a, b), lambda a, b: ('both2', a, b), lambda a, b: ('either', a, b, V7), lambda a, b: ('either', a, b, 'second'), lambda a, b: ('cmp', a, b, V7, V8), lambda a, b: ('part', V7, a, b),
       lambda a, b: ('same', a, b), lambda a, b: ('no', [('both', a, b)])]
BEFORE = [[], [('p', V1, V2)], [('q', V1)], [('p', V2, V6)]]
AFTER = [[], [('q', V1)], [('p', V6, V7)]]
GIVEN = [{}, {'$1': 1}, {'$2': 0, '$5': 'x', 'zz': 7}]


def solve(query, given, db, naming, rec, key, nontrivial):
    rows = {'p': [list(r) for r in db[0]], 'q': [[x] for x in db[1]]}
    try:
        exp = ref.evaluate(query, dict(given), {**rows, **CALLS})
    except ref.Unsafe:
        return
    mods = [inference(naming), ref.tables(rows)]
    if naming % 2: mods.reverse()
    b, was = dict(given), repr(query)
    got = impl.Solver(impl.Model(mods)).solve(query, b)
    require(b == given and repr(query) == was, lambda: f"the query or its binding was changed: {was} with {given} became {query} with {b}")
    if sorted(map(ref.frz, got)) != sorted(map(ref.frz, exp)):
        raise Violation(f"{query} given {given}, stored {rows}, rules\n{rules_text(NAMINGS[naming])}\n   expected {exp}\n   got      {got}")
    rec.ev((key, db, naming), nontrivial, f"{query[-1][0]}: {min(len(exp), 5)} answers")


def one(case, rec):
    w, bi, dbs = case
    b = BODIES[bi]
    k = 0
    atom = ONE[w](b)
    shared = {x.name for x in atom[1:] if isinstance(x, Variable)} & set().union(*[names_of(x) for x in atom[1:] if isinstance(x, list)])
    for be in BEFORE:
        for af in AFTER:
            for gi, g in enumerate(GIVEN):
                # a result variable that the body uses must have a value
                if shared - names_of(be) - set(g): continue
                if repr(af).find('$7') >= 0 and '$7' not in repr(ONE[w](b)): continue
                for hand in range(2):
                    q = be + [ONE[w](b)] + af if not hand else be + [('equals', V9, b), ONE[w](V9)] + af
                    k += 1
                    for d in DBS[k % dbs::dbs]: solve(q, g, d, (k + w) % 4, rec, (case, k), bool(b))


def two(case, rec):
    w, ai, bi, dbs = case
    k = ai + bi
    for be in BEFORE:
        for gi, g in enumerate(GIVEN):
            k += 1
            q = be + [TWO[w](BODIES[ai], BODIES[bi])]
            for d in DBS[k % dbs::dbs]: solve(q, g, d, k % 4, rec, (case, k), True)


# ---- taking atoms apart
PARTS = ['p', 'q', 'a', '', 0, 1, 2.5, [('q', 1)], [], ('q', 'a'), None]
ATOMS = [('p',), ('p', 'a'), ('p', 0), ('p', 'a', 'b'), ('p', 'a', 'a'), ('p', 1, 'x'), ('q', 'a', 'b'), ('p', [('q', 1)]), ('p', 0, [('q', 1), ('not', [('q', 2)])]), ('p', 'a', 'b', 'c'), ('p', 'a', 'b', 'a'), ('p', '', 0), ('p', ('q', 'a'), 'b'), ('just_left_of', 'x', 'y')]
# variables of the atom that have a value: index in the atom -> variable
HIDE = [(), (1,), (2,), (1, 2)]
PAT = [V1, V2, V3, 'p', 'q', 'a', 'b', 0, V4]
HAVE = {'$4': 'a'}                                    # a variable of the pattern that has a value


def apart(case, rec):
    ai, n = case
    atom = ATOMS[ai]
    for pat in itertools.product(PAT, repeat=n):
        # with the variables numbered in order of appearance
        seen = [x.name for x in pat if isinstance(x, Variable) and x.name not in HAVE]
        if [x for i, x in enumerate(seen) if x not in seen[:i]] != ['$1', '$2', '$3'][:len(set(seen))]: continue
        exp, fits, conflict = {}, len(pat) == len(atom), False
        for p, t in zip(pat, atom):
            if isinstance(p, Variable) and p.name not in HAVE:
                if p.name in exp and exp[p.name] != t: conflict = True
                exp[p.name] = t
            elif (HAVE[p.name] if isinstance(p, Variable) else p) != t: fits = False
        want = [[exp]] if fits and not conflict else [[{k: None for k in seen}]]
        # one variable for two different parts: no value, or no answer
        if conflict: want.append([])
        for hide in HIDE:
            if any(i >= len(atom) for i in hide): continue
            given = {**{f"${5 + i}": atom[i] for i in hide}, **(HAVE if V4 in pat else {})}
            shown = tuple(v(5 + i) if i in hide else t for i, t in enumerate(atom))
            for how in range(3):
                solver = impl.Solver(impl.Model([taker(n), ref.tables({'z': [['u'], ['w']]})]))
                if how == 0: q = [('destructure', [shown], *pat)]
                elif how == 1: q = [('equals', V9, [shown]), ('destructure', V9, *pat)]
                else: q = [('take', [shown], *pat)]
                full = solver.solve(q, dict(given))
                got = [{k: x for k, x in b.items() if k not in given and k != '$9'} for b in full]
                if got not in want or any(b[k] != x for b in full for k, x in given.items()): raise Violation(f"{q} given {given}\n   expected {want}\n   got      {full}")
                rec.ev((case, pat, hide, how), bool(seen), 'apart: ' + ('fits' if fits and not conflict else 'conflict' if fits else 'other'))


_take = {}


def taker(n):
    """a rule that hands on the atom and the pattern"""
    if n not in _take:
        from richard.type.InferenceRule import InferenceRule
        m = impl.InferenceModule()
        vs = [Variable(f"P{i}") for i in range(n)]
        m.insert_rule(InferenceRule(('take', Variable('Atom'), *vs), [('destructure', Variable('Atom'), *vs)]))
        _take[n] = m
    return _take[n]


# ---- storing
class Memory(impl.SomeModule):
    def __init__(self, writes=True):
        super().__init__()
        self.rows = []
        self.add_relation(impl.Relation('m', query_function=self.query, **({'write_function': self.write} if writes else {})))

    def query(self, values, context): return [list(r) for r in self.rows if all(x is None or x == y for x, y in zip(values, r))]
    def write(self, values, context): self.rows.append(list(values))


KEEP = [[('m', V1, 'x')], [('m', V1, V2)], [('m', V2, V1), ('m', 'c', V1)], [('m', 'c', 0)], [], [('m', [('q', V1)], V2)], [('m', '$1', ('p', V1)), ('m', V1, '')],
        [('m', [V1, 'z'], V2)], [('m', [[V1], (V2, V1)], ()), ('m', [], [V2])], [('m', (V1,), ('p', (V1,), [(V2,)]))]]


def keep(case, rec):
    ki, bi, gi = case
    k, be, g = KEEP[ki], ([('p', V1, V2)], [('q', V1)], [], [('p', V2, V1), ('q', V2)])[bi], [{'$1': 1, '$2': 'w'}, {'$2': 0, '$1': 0, '$5': 'x'}, {'$2': 'b'}][gi]
    if '$1' not in g and not be: return
    for naming in range(4):
        for call in (lambda b: [('keep', b)], lambda b: [('equals', V9, b), ('keep', V9)], lambda b: [('keep2', [('p', V1, V3)], b)], lambda b: [('keep', b), ('yes', [('m', V6, V7)])]):
            q = be + call(k)
            for d in DBS[::3]:
                rows = {'p': [list(r) for r in d[0]], 'q': [[x] for x in d[1]]}
                wrote = []

                def store(a, b, db):
                    body = b[a[1].name] if isinstance(a[1], Variable) else a[1]
                    for x in subst(body, b): wrote.append(list(x[1:]))
                    return [b]
                stored = lambda a, b, db: ref.lookup(a, b, wrote)
                exp = ref.evaluate(q, dict(g), {**rows, **CALLS, 'store': store, 'm': stored})
                mem, ro = Memory(), Memory(False)
                mods = [ro, inference(naming), mem, ref.tables(rows)]
                got = impl.Solver(impl.Model(mods)).solve(q, dict(g))
                where = f"{q} given {g}, stored {rows}, rule names {NAMINGS[naming]}"
                same(where + ": written", (mem.rows, ro.rows), (wrote, []))
                if sorted(map(ref.frz, got)) != sorted(map(ref.frz, exp)): raise Violation(f"{where}\n   expected {exp}\n   got      {got}")
                rec.ev((case, repr(q), d, naming), bool(wrote), f"stored {min(len(wrote), 5)}")


# ---- many of them, and deep ones
def large(case, rec):
    from richard.type.InferenceRule import InferenceRule
    what, n = case
    rows = {'p': [[i, i + 1] for i in range(n)], 'q': [[i] for i in range(0, n + 1, 2)]}
    m = impl.InferenceModule()
    rules = []

    def rule(h, *b): rules.append((h, list(b)))
    qs = []
    if what == 'chain':
        rule(('w0', A, B), ('count', A, B))
        # w(i) hands on (count, body) in the order its callee wants
        for i in range(1, n + 1):
            own = (A, B) if i % 2 == 0 else (B, A)            # A the count, B the body
            below = (A, B) if (i - 1) % 2 == 0 else (B, A)
            rule((f"w{i}", *own), (f"w{i - 1}", *below))
        body = [('p', V1, V2), ('q', V2)]
        qs = [[(f"w{n}", *((V7, body) if n % 2 == 0 else (body, V7)))], [('q', V1), (f"w{n}", *((V7, body) if n % 2 == 0 else (body, V7)))]]
    elif what == 'body':
        rule(('size', A, B), ('count', A, B))
        rule(('list', A, B, C), ('find_all', A, B, C))
        body = [('p', v(i), v(i + 1)) for i in range(1, n + 1)]
        qs = [[('size', V7 if n < 6 else Variable('N'), body)], [('list', f"${n}", body, Variable('L'))], [('equals', V1, 0), ('list', f"${n + 1}", body, Variable('L'))]]
    elif what == 'bodies':
        names = [Variable(f"B{i}") for i in range(n)]
        rule(('every', *names), *[('scoped', b) for b in names])
        rule(('last', *names), ('not', names[-1]), *[('scoped', b) for b in names[:-1]])
        bs = [[('p', i, V1)] if i % 2 else [('q', V1), ('p', V1, i + 1)] for i in range(n)]
        qs = [[('every', *bs)], [('every', *bs[:-1], [('p', 'no', V2)])], [('last', *bs[:-1], [('p', 'no', V2)])], [('last', *bs)]]
        if n > 2: qs.append([('equals', V1, 2), ('every', *bs)])
    else:
        rule(('yes', A), ('scoped', A))
        rule(('no', B), ('not', B))
        body = [('p', V1, V2)]
        for i in range(n): body = [('yes' if i % 3 else 'no', body)]
        qs = [body, [('q', V1)] + body, [('p', V2, V1)] + body, [('equals', V1, n + 5)] + body]
    for h, b in rules: m.insert_rule(InferenceRule(h, b))
    calls = {}
    for h, b in rules: calls.setdefault(h[0], []).append((h, b))
    calls = {k: caller(x) for k, x in calls.items()}
    solver = impl.Solver(impl.Model([m, ref.tables(rows)]))
    for i, q in enumerate(qs):
        exp = ref.evaluate(q, {'zz': 1}, {**rows, **calls})
        got = solver.solve(q, {'zz': 1})
        if sorted(map(ref.frz, got)) != sorted(map(ref.frz, exp)): raise Violation(f"{what} {n}: {str(q)[:400]}\n   expected {str(exp)[:400]}\n   got      {str(got)[:400]}")
        rec.ev((case, i), True, f"{what}: {min(len(exp), 3)}")
    if what == 'body':
        # an atom of n parts, taken apart
        atom = ('p', *[i % 7 if i % 2 else f"part{i}" for i in range(n)])
        pat = ['p', *[v(i) if i % 3 else atom[i + 1] for i in range(n)]]
        for at in sorted({0, n // 2, n}):
            for bad in (False, True):
                pt = list(pat)
                if bad: pt[at] = 'other'
                got = solver.solve([('destructure', [atom], *pt)], {})
                want = {x.name: None if bad else atom[i] for i, x in enumerate(pt) if isinstance(x, Variable)}
                same(f"an atom of {n} parts, part {at} {'other' if bad else 'same'}", got, [want])
                rec.evals += 1
        for pt in (pat[:-1], pat + ['x']): same(f"an atom of {n} parts, a pattern of {len(pt)}", solver.solve([('destructure', [atom], *pt)], {}), [{x.name: None for x in pt if isinstance(x, Variable)}])


def spaces(tier):
    q = tier == 'quick'
    dbs = 9 if q else 2
    ones = [(w, b, dbs) for w in range(len(ONE)) for b in range(len(BODIES))]
    twos = [(w, a, b, 23 if q else 5) for w in range(len(TWO)) for a in range(len(BODIES)) for b in range(len(BODIES))]
    parts = [(a, n) for a in range(len(ATOMS)) for n in range(1, 5)]
    N = [2, 3, 5, 9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 101]
    big = [(w, n) for w in ('chain', 'body', 'bodies', 'depth') for n in N if n < (66 if w in ('chain', 'depth') else 102)]
    keeps = list(itertools.product(range(len(KEEP)), range(4), range(3)))
    return [Space("large", big, large, 1), Space("storing", keeps, keep), Space("one body", ones, one), Space("two bodies", twos, two), Space("taking apart", parts, apart)]
