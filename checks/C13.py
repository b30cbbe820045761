"""Belief state: every sequence of storing, learning and querying operations up to a depth, against a model of what was told."""
import itertools
from mc.core import Space, Violation, require
from mc import impl, ref
from mc.impl import Variable, Relation

PROP = "C13"
LEVEL = "model_checking"
RULE = ("model state = rows stored per module and predicate + rules learned; every operation sequence up to the depth is run on the real modules "
        "through the solver and after its last operation every query of the menu must return exactly what follows from the model state (each answer once); "
        "every prefix is itself a sequence of the space, so every state on the way is checked too")
ASSUMPTIONS = ["rules are range-restricted and not circular", "an operation that fails half-way (an atom no module knows after one that was stored) is not judged",
               "values stored are text and numbers"]

E1, E2, E3 = Variable('E1'), Variable('E2'), Variable('E3')
STRATA = ['q', 'p', 'r']


def memory(preds):
    m = impl.SimpleMemoryModule()
    for name, n in preds.items():
        cols = [f"c{i}" for i in range(n)]
        m.data_source.connection.execute(f"CREATE TABLE {name} ({', '.join(cols)})")
        m.add_relation(Relation(name, arguments=cols))
    return m


class Dict(impl.SomeModule):
    """a module over the in-memory data source"""
    def __init__(self):
        super().__init__()
        from richard.data_source.SimpleDataSource import SimpleDataSource
        self.ds = SimpleDataSource()
        self.add_relation(Relation('p', arguments=['x', 'y'], query_function=lambda v, c: self.ds.select('p', ['x', 'y'], v), write_function=lambda v, c: self.ds.insert('p', ['x', 'y'], list(v))))
        self.add_relation(Relation('s', arguments=['x'], query_function=lambda v, c: self.ds.select('s', ['x'], v), write_function=lambda v, c: self.ds.insert('s', ['x'], list(v))))


def system(setup):
    """the modules, and which of them can hold what"""
    a = memory({'p': 2, 'q': 1})
    fixed = ref.tables({'p': [['f', 'f'], ['a', 'f']]})           # offers p, cannot store
    inf = impl.InferenceModule()
    mods = [[a, inf], [inf, a, Dict()], [fixed, a, inf, memory({'p': 2, 'q': 1})]][setup]
    holds = [{'p': 1, 'q': 1}, {'p': 2, 'q': 1, 's': 1}, {'p': 2, 'q': 2}][setup]
    return impl.Solver(impl.Model(mods)), holds, {'p': [['f', 'f'], ['a', 'f']] if setup == 2 else [], 'q': [], 's': []}


A, B = Variable('A'), Variable('B')
RULES = [
    (('r', A), [('p', A, B)]), (('r', 'z'), []), (('p', A, 'via'), [('q', A)]), (('r', E1), [('q', E1), ('not', [('p', E1, 'b')])]),
    (('r', B), [('p', A, B), ('q', A)]),
]
# operations: name -> (atoms to solve, effect on the model)
OPS = {
    'p_ab': ([('store', [('p', 'a', 'b')])], ('rows', [('p', 'a', 'b')])),
    'p_quote': ([('store', [('p', "it's", 0)])], ('rows', [('p', "it's", 0)])),
    'q_a': ([('store', [('q', 'a')])], ('rows', [('q', 'a')])),
    'two': ([('store', [('q', 'b'), ('p', 'b', 'a')])], ('rows', [('q', 'b'), ('p', 'b', 'a')])),
    'each': ([('q', E1), ('store', [('p', E1, 'x')])], ('each', 'q', lambda r: [('p', r[0], 'x')])),
    'each_p': ([('p', E1, E2), ('store', [('p', E2, E1), ('q', E2)])], ('each', 'p', lambda r: [('p', r[1], r[0]), ('q', r[1])])),
    'learn_r': ([('learn_rule', RULES[0][0], RULES[0][1])], ('rule', RULES[0])),
    'fact_r': ([('learn_rule', RULES[1][0], RULES[1][1])], ('rule', RULES[1])),
    'learn_p': ([('learn_rule', RULES[2][0], RULES[2][1])], ('rule', RULES[2])),
    'learn_not': ([('learn_rule', RULES[3][0], RULES[3][1])], ('rule', RULES[3])),
    'learn_bound': ([('q', E2), ('learn_rule', ('r', E1), [('p', E2, E1)])], ('learneach', 'q', lambda r: (('r', E1), [('p', r[0], E1)]))),
    'learn_head': ([('q', E2), ('learn_rule', ('r', E2), [('q', E2)])], ('learneach', 'q', lambda r: (('r', r[0]), [('q', r[0])]))),
    'q_0': ([('store', [('q', 0), ('q', ''), ('p', 0, '')])], ('rows', [('q', 0), ('q', ''), ('p', 0, '')])),
    'learn_deep': ([('p', E2, E3), ('learn_rule', ('r', E1), [('q', E1), ('not', [('scoped', [('p', E1, E2), ('p', E2, E3)])])])], ('learneach', 'p', lambda r: (('r', E1), [('q', E1), ('not', [('scoped', [('p', E1, r[0]), ('p', r[0], r[1])])])]))),
    'learn_all': ([('q', E2), ('learn_rule', ('r', B), [('q', B), ('all', E1, [('q', E1)], [('p', E2, E1)])])], ('learneach', 'q', lambda r: (('r', B), [('q', B), ('all', E1, [('q', E1)], [('p', r[0], E1)])]))),
    'learn_either': ([('q', E2), ('learn_rule', ('r', E1), [('q', E1), ('$disjunction', [[('p', E2, E1)], [('q', 'b'), ('p', E1, E2)]])])], ('learneach', 'q', lambda r: (('r', E1), [('q', E1), ('$disjunction', [[('p', r[0], E1)], [('q', 'b'), ('p', E1, r[0])]])]))),
    'unless': ([('not', [('scoped', [('p', 'a', 'b')])]), ('store', [('p', 'a', 'b')]), ('scoped', [('p', 'a', 'b')])], ('unless', ('p', 'a', 'b'))),
    'ask_all': ('all', None),
    'ask': ([('p', E1, E2), ('not', [('q', E2)])], None),
    'ask_fail': ([('q', 'nobody'), ('p', 'nobody', E1)], None),
    'ask_error': ([('nonsense', E1)], None),
    'store_error': ([('store', [('nonsense', 'a')])], None),
}
QUERIES = [[('p', E1, E2)], [('q', E1)], [('p', 'a', E1)], [('p', E1, E1)], [('p', "it's", 0)], [('q', 'b')], [('p', E1, 'via')], [('q', E1), ('p', E1, E2)]]
RQUERIES = [[('r', E1)], [('r', 'b')], [('p', E3, E1), ('r', E1)]]


class World:
    def __init__(self, holds, base):
        self.rows = {k: [list(r) for r in v] for k, v in base.items()}
        self.holds = holds
        self.rules = []

    def db(self):
        d = {}
        for pred in STRATA:
            rows = []
            for r in self.rows.get(pred, []):
                if r not in rows: rows.append(r)
            for head, body in self.rules:
                if head[0] == pred:
                    for b in ref.evaluate(body, {}, d):
                        row = [b[x.name] if isinstance(x, Variable) else x for x in head[1:]]
                        if row not in rows: rows.append(row)
            d[pred] = rows
        return d

    def apply(self, eff):
        if eff is None: return
        if eff[0] == 'rows': new, rules = eff[1], []
        elif eff[0] == 'rule': new, rules = [], [eff[1]]
        elif eff[0] == 'unless': new, rules = [] if list(eff[1][1:]) in self.db()[eff[1][0]] else [eff[1]], []
        elif eff[0] == 'each': new, rules = [x for r in self.db()[eff[1]] for x in eff[2](r)], []
        else: new, rules = [], [eff[2](r) for r in self.db()[eff[1]]]
        for x in new: self.rows[x[0]].append(list(x[1:]))
        self.rules += rules

    def key(self):
        return (sorted(map(repr, self.rows.items())), sorted(map(repr, self.rules)))


def run(case, rec):
    setup, seqs = case
    for ops in seqs:
        history(setup, ops, rec)


def history(setup, ops, rec):
    solver, holds, base = system(setup)
    w = World(holds, base)
    for name in ops:
        atoms, eff = OPS[name]
        if atoms == 'all':
            questions(solver, setup, ops, w, rec, 1)
            continue
        b = {'keep': 1}
        err = False
        try:
            res = solver.solve(atoms, b)
        except Exception as e:
            err = True
            if name not in ('ask_error', 'store_error'):
                raise Violation(f"after {ops}: {atoms} raised {e!r}")
        if name in ('ask_error', 'store_error') and not err:
            raise Violation(f"after {ops}: {atoms} gave no error")
        require(b == {'keep': 1}, f"{atoms} changed the binding")
        w.apply(eff)
        rec.transitions += 1
        rec.st((setup, w.key()))
    questions(solver, setup, ops, w, rec, 2)
    rec.traces += 1
    rec.ev((setup, ops), True, None)


def questions(solver, setup, ops, w, rec, times):
    db = w.db()
    known = any(h[0] == 'r' for h, _ in w.rules)
    for q in QUERIES + (RQUERIES if known else []):
        exp = ref.evaluate(q, {}, db)
        for time in range(1, times + 1):
            got = solver.solve(q, {})
            if sorted(map(ref.frz, exp)) != sorted(map(ref.frz, got)):
                raise Violation(f"setup {setup}, after {ops}: query {q} (asked {time} times)\n expected {exp}\n got      {got}")
        for a, want in (('count', [{'N': len(exp)}]), ('scoped', [{}] if exp else []), ('not', [] if exp else [{}])):
            got = solver.solve([('count', Variable('N'), q) if a == 'count' else (a, q)], {})
            if got != want: raise Violation(f"setup {setup}, after {ops}: {a} of {q}\n expected {want}\n got      {got}")
    rec.outcomes[f"{len(db['p'])} p {len(db['r'])} r"] += 1


def inserts(case, rec):
    """what each module holds after storing: one row per solution in every module that can hold it, in none that cannot"""
    n, how = case
    m1, m2, m3 = memory({'p': 2, 'q': 1}), memory({'p': 2}), memory({'q': 1})
    solver = impl.Solver(impl.Model([m1, m2, ref.tables({'p': [['r', 'o']], 'w': [[i] for i in range(n)]}), m3]))
    atoms = {'const': [('store', [('p', 'a', 'b')])], 'each': [('w', E1), ('store', [('p', E1, "'"), ('q', E1)])], 'twice': [('w', E1), ('w', E2), ('store', [('p', E1, E2)])],
             'scoped': [('scoped', [('w', E1), ('store', [('p', E1, 'k')])])], 'bound': [('store', [('p', E1, E2), ('q', E2)])],
             'known': [('store', [('p', 'r', 'o')])], 'again': [('store', [('q', 'a')]), ('store', [('q', 'a'), ('q', 'A')])]}[how]
    solver.solve(atoms, {'E1': 'x', 'E2': 0} if how == 'bound' else {})
    exp_p = {'const': [('a', 'b')], 'each': [(i, "'") for i in range(n)], 'twice': [(i, j) for i in range(n) for j in range(n)], 'scoped': [(i, 'k') for i in range(n)], 'bound': [('x', 0)], 'known': [('r', 'o')], 'again': []}[how]
    exp_q = {'each': [(i,) for i in range(n)], 'bound': [(0,)], 'again': [('a',), ('a',), ('A',)]}.get(how, [])
    for m, t, exp in ((m1, 'p', exp_p), (m2, 'p', exp_p), (m1, 'q', exp_q), (m3, 'q', exp_q)):
        cols = ['c0', 'c1'][:2 if t == 'p' else 1]
        got = [tuple(r) for r in m.data_source.select(t, cols, [None] * len(cols))]
        require(got == exp, lambda: f"{atoms}: a module holds {got} for {t}, expected {exp}")
    rec.transitions += 1
    rec.traces += 1
    rec.st((case, 'inserts'))
    rec.ev(case, True, "inserts")


class Open(impl.SomeModule):
    """takes whatever is stored; asked, gives it back"""
    def __init__(self, fail=None):
        super().__init__()
        self.got, self.fail = [], fail
        for n in ('t', 'u'): self.add_relation(Relation(n, arguments=['a', 'b'], query_function=lambda v, c: [list(r[1:]) for r in self.got if r[0] == c.relation.predicate], write_function=self.write))

    def write(self, values, context):
        if self.fail and values[0] == 'no': raise self.fail('no')
        self.got.append((context.relation.predicate, *values))


STORED = [None, 0, '', False, [], (), [[]], ['a', 'b'], [('p', 'a')], ('p', 'a'), ('p',), 0.0, -1.5, 10 ** 20, 'E1', 'x y', {'k': 1}, [None], [0, ''], True, 'None']


def stored(case, rec):
    """values of any kind bound to the variables of what is stored"""
    i, j = case
    x, y = STORED[i], STORED[j]
    V, W, U = Variable('V'), Variable('W'), Variable('U')
    def sub(t): return [sub(a) for a in t] if isinstance(t, list) else tuple(sub(a) for a in t) if isinstance(t, tuple) else x if t == V else y if t == W else t
    for atoms in ([('t', V, W)], [('t', W, V), ('u', V, V)], [('t', V, U)], [('t', [V, W], (V, W))], [('t', [], V), ('u', (), W)], [('t', V, ('p', [W, U]))], [('t', [('p', V), ('q', W)], 'k')], [('t', [V, [W, [U, V]]], [[('p', V)], [('q', [[W]])]])]):
        for direct in (True, False):
            m, n = Open(), Open()
            before = repr(atoms)
            solver = impl.Solver(impl.Model([m, n]))
            if direct: solver.solve([('store', atoms)], {'V': x, 'W': y})
            else: solver.solve([('let', V, x), ('let', W, y), ('store', atoms)], {}) if x is not None and y is not None and not isinstance(x, Variable) else solver.solve([('store', atoms)], {'W': y, 'V': x, 'Z': 1})
            exp = sub(atoms)
            for k in (m, n):
                if repr(k.got) != repr(exp): raise Violation(f"storing {atoms} with V = {x!r} and W = {y!r}: stored {k.got!r}, expected {exp!r}")
            require(repr(atoms) == before, "storing changed the atoms")
            rec.transitions += 1
    # from a buffer with lists
    buf = impl.BasicOutputBuffer()
    solver = impl.Solver(impl.Model([buf]))
    if x is not None:
        solver.solve([('store', [('output_list', V), ('output_value', W)])], {'V': x, 'W': y})
        got = solver.solve([('output_list', U)], {})
        if repr(got) != repr([{'U': x}]): raise Violation(f"a list {x!r} in the output buffer comes back as {got!r}")
    rec.st(('stored', case))
    rec.traces += 1
    rec.ev(case, True, 'stored')


def failing(case, rec):
    """an atom that cannot be stored is an error, whatever its type and wherever it stands"""
    err, at, where = case
    import sqlite3
    cls = [ValueError, KeyError, TypeError, IndexError, AttributeError, RuntimeError, OSError, sqlite3.OperationalError, sqlite3.IntegrityError, AssertionError, NotImplementedError, LookupError, ZeroDivisionError, UnicodeError][err]
    mods = [Open(), Open()]
    mods[where].fail = cls
    atoms = [('t', 'a', 1), ('t', 'b', 2)]
    atoms.insert(at, ('t', 'no', 0))
    solver = impl.Solver(impl.Model(mods))
    try:
        solver.solve([('store', atoms)], {})
    except Exception as e:
        rec.ev(case, True, type(e).__name__)
    else:
        raise Violation(f"storing {atoms} with {cls.__name__} from module {where} gave no error")
    rec.transitions += 1
    rec.traces += 1
    rec.st(('failing', case))


def many(case, rec):
    """tables with many columns in many modules: every row stored is held as it was given, as often as it was stored, by every module that can hold it"""
    n, mods, kind = case
    ms = [memory({'w': n, f"o{i}": 1}) if (i + kind) % 3 or i in (0, mods - 1) else ref.tables({'w': []}) for i in range(mods)]
    solver = impl.Solver(impl.Model(ms))
    vals = ['a', '', 0, -1, 2.5, "it's", 'A', ' ', 'ü', '0']
    rows = [tuple(vals[(k * 3 + j * (k + 1) + kind) % 10] for j in range(n)) for k in range(6)]
    rows += [rows[0], rows[3], ('',) * n, (0,) * n, ('',) * n]
    V = [Variable(f"E{j}") for j in range(n)]
    for k, r in enumerate(rows):
        if kind == 0: solver.solve([('store', [('w', *r)])], {})
        elif kind == 1: solver.solve([('store', [('w', *V)])], {v.name: x for v, x in zip(V, r)})
        elif kind == 2: solver.solve([('store', [('w', *[v if j % 2 else x for j, (v, x) in enumerate(zip(V, r))]), (f"o{mods - 1}", k)])], {v.name: x for v, x in zip(V, r)})
    if kind == 3: solver.solve([('store', [('w', *r) for r in rows])], {})
    cols = [f"c{j}" for j in range(n)]
    for i, m in enumerate(ms):
        if not hasattr(m, 'data_source'): continue
        got = [tuple(r) for r in m.data_source.select('w', cols, [None] * n)]
        require(repr(got) == repr(rows), lambda: f"{case}: module {i} holds {got}, stored {rows}")
        for c in cols:
            # nothing but what was stored in any column
            got = [r[0] for r in m.data_source.select('w', [c], [None])]
            require(repr(got) == repr([r[cols.index(c)] for r in rows]), lambda: f"{case}: module {i} column {c}: {got}")
    exp = []
    for r in rows:
        if r not in exp: exp.append(r)
    got = solver.solve([('w', *V)], {})
    require(sorted(map(repr, [tuple(b[v.name] for v in V) for b in got])) == sorted(map(repr, exp)), lambda: f"{case}: asked: {got}, stored {rows}")
    for r in exp:
        for j in range(n):
            got = solver.solve([('w', *r[:j], V[j], *r[j + 1:])], {})
            want = [x[j] for x in exp if x[:j] == r[:j] and x[j + 1:] == r[j + 1:]]
            require(sorted(repr(b[V[j].name]) for b in got) == sorted(map(repr, want)), lambda: f"{case}: asked for column {j} of {r}: {got}, stored {exp}")
    rec.transitions += len(rows)
    rec.traces += 1
    rec.st((case, 'many'))
    rec.ev(case, True, "many")


def large(case, rec):
    """long histories: many facts, many rules, the same thing told and asked many times, long texts"""
    what, n, setup = case
    solver, holds, base = system(setup)
    w = World(holds, base)

    def tell(atoms, eff):
        solver.solve(atoms, {})
        w.apply(eff)
        rec.transitions += 1

    def fact(*f):
        tell([('store', [f])], ('rows', [f]))

    if what == 'facts':
        for i in range(n): fact('p', f"n{i}", i)
        fact('q', 'n0')
        tell([('learn_rule', ('r', A), [('p', A, B), ('q', A)])], ('rule', (('r', A), [('p', A, B), ('q', A)])))
    elif what == 'at once':
        fs = [('p', f"n{i}", 'k') if i % 2 else ('q', i) for i in range(n)]
        tell([('store', fs)], ('rows', fs))
    elif what == 'same':
        for i in range(n): fact('p', 'a', 'b')
        fact('p', 'a', 'c')
        for i in range(n): fact('q', 'a')
    elif what == 'rules':
        for i in range(n):
            r = (('r', f"v{i}"), [('q', f"k{i}")]) if i % 3 else (('r', A), [('p', A, i)])
            tell([('learn_rule',) + r], ('rule', r))
            if i % 5 == 0: fact('q', f"k{i + 1}")
            if i % 7 == 0: fact('p', f"w{i}", i)
        fact('q', f"k{n - 1}")
        fact('p', 'last', (n - 1) // 3 * 3)
    elif what == 'same rule':
        fact('q', 'a')
        for i in range(n):
            r = (('p', A, 'via'), [('q', A)])
            tell([('learn_rule',) + r], ('rule', r))
        fact('q', 'b')
    elif what == 'asked':
        fact('q', 'a')
        for i in range(n):
            require(solver.solve([('q', E1)], {}) == [{'E1': 'a'}], f"question {i} about q after one fact")
            solver.solve([('p', E1, i)], {})
        fact('q', 'b')
        fact('p', 'b', n - 1)
    elif what == 'text':
        fact('p', 'x' * n, 'x' * (n - 1) + 'y')
        fact('p', 'x' * (n - 1), 'x' * n)
        fact('q', 'x' * (n + 1))
        fact('q', 'x' * (n - 1) + ' ')
    elif what == 'body':
        for i in range(n): fact('p', i, i + 1)
        V = [Variable(f"V{i}") for i in range(n + 1)]
        r = (('r', V[n]), [('p', V[i], V[i + 1]) for i in range(n)])
        tell([('learn_rule',) + r], ('rule', r))
    db = w.db()
    qs = [[('p', E1, E2)], [('q', E1)], [('q', f"k{n - 1}")], [('p', E1, n - 1)], [('p', 'a', E1)], [('p', 'x' * (n - 1), E1)], [('q', 'x' * (n + 1))]]
    if any(h[0] == 'r' for h, _ in w.rules): qs += [[('r', E1)], [('r', f"v{n - 1}")], [('r', n)]]
    for q in qs:
        exp = ref.evaluate(q, {}, db)
        for time in (1, 2):
            got = solver.solve(q, {})
            e, g = sorted(map(ref.frz, exp)), sorted(map(ref.frz, got))
            require(e == g, lambda: f"{what} {n} (setup {setup}): query {str(q)[:200]} (asked {time} times): {len(e)} answers expected, {len(g)} given; missing {str([x for x in e if x not in g])[:200]}, wrong {str([x for x in g if x not in e])[:200]}")
    rec.st((case, 'large'))
    rec.traces += 1
    rec.ev(case, True, what)


def spaces(tier):
    depth = {0: 3, 1: 3, 2: 3} if tier == 'quick' else {0: 4, 1: 4, 2: 4}
    cases = []
    names = list(OPS)
    mutators = [n for n in names if n not in ('ask', 'ask_fail', 'ask_error', 'store_error')]
    for setup in range(3):
        seqs = [c for n in range(depth[setup] + 1) for c in itertools.product(names, repeat=n)]
        if tier == 'quick' and setup == 0:
            seqs += list(itertools.product(['p_ab', 'two', 'each', 'each_p', 'learn_r', 'learn_p', 'learn_bound', 'ask_error'], repeat=4))
        if tier == 'thorough':
            seqs += list(itertools.product([n for n in mutators if n not in ('p_quote', 'fact_r', 'q_a')], repeat=5)) if setup == 0 else []
        for i in range(0, len(seqs), 50): cases.append((setup, seqs[i:i + 50]))
    N = [9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 99, 100, 101, 128, 129, 200, 255, 256, 257] + ([] if tier == 'quick' else [500, 512, 513, 1000, 1001])
    big = [(w, n, s) for w in ('facts', 'at once', 'same', 'rules', 'same rule', 'asked', 'text', 'body') for n in N for s in range(3) if w != 'body' or n < 70]
    return [Space("values stored", list(itertools.product(range(len(STORED)), repeat=2)), stored), Space("errors", list(itertools.product(range(14), range(3), range(2))), failing), Space("large", big, large, 1), Space("inserts", [(n, h) for n in range(4) for h in ('const', 'each', 'twice', 'scoped', 'bound', 'known', 'again')], inserts), Space("many columns and modules", [(n, m, k) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12) for m in (1, 2, 3, 4, 5, 6, 8, 10) for k in range(4)], many, 1), Space("histories", cases, run)]
