"""Conjunctive queries: every conjunction up to a length over menus of atoms x databases x initial bindings, against a naive join."""
import copy, itertools, sqlite3
from mc.core import Space, Violation, require, same
from mc import impl
from mc.impl import Variable, Relation

PROP = "C07"
LEVEL = "exploration"
RULE = ("one evaluation = one list of atoms solved with one binding against one model, the set of resulting bindings compared with a naive "
        "join (each once, extending the given binding, which - like the atoms and the data - must be unchanged); non-trivial = at least two atoms or at least one answer")
ASSUMPTIONS = ["absent values (None) in rows stand for 'as asked'", "values that are equal but of different types (1, True, 1.0) are not mixed",
               "a predicate is used with one number of arguments"]

X, Y, Z = Variable('E1'), Variable('E2'), Variable('E3')


class Rows(impl.SomeModule):
    """relations given by their rows; filter: 'exact' returns only the rows that agree with the bound arguments, 'lazy' leaves constants to the solver"""
    def __init__(self, tables, mode='exact'):
        super().__init__()
        self.tables, self.mode = tables, mode
        self.calls = []
        for name in tables:
            self.add_relation(Relation(name, query_function=self.q))

    def q(self, values, context):
        self.calls.append((context.relation.predicate, list(values)))
        rows = self.tables[context.relation.predicate]
        keep = []
        for r in rows:
            ok = True
            for v, c, arg in zip(values, r, context.arguments):
                if v is not None and v != c and (self.mode == 'exact' or isinstance(arg, Variable)):
                    ok = False
            if ok:
                keep.append(list(r))
        if self.mode == 'blank':
            # a module may leave out (None) what was given
            keep = [[c if v is None else None for v, c in zip(values, r)] for r in keep if all(v is None or v == c for v, c in zip(values, r))]
        return keep


def memory(tables):
    m = impl.SimpleMemoryModule()
    for name, rows in tables.items():
        n = len(rows[0]) if rows else 1
        cols = [f"c{i}" for i in range(n)]
        m.data_source.connection.execute(f"CREATE TABLE {name} ({', '.join(cols)})")
        for r in rows:
            m.data_source.insert(name, cols, list(r))
        m.add_relation(Relation(name, arguments=cols))
    return m


def join(atoms, binding, db):
    """naive reference: set of frozenset(binding items); raises KeyError for an unknown predicate that is reached"""
    out = [dict(binding)]
    for a in atoms:
        new = []
        for b in out:
            for row in db[a[0]]:
                c = dict(b)
                for arg, val in zip(a[1:], row):
                    if isinstance(arg, Variable):
                        if arg.name in c:
                            if c[arg.name] != val: break
                        else:
                            c[arg.name] = val
                    elif arg != val: break
                else:
                    if len(row) == len(a) - 1 and c not in new:
                        new.append(c)
        out = new
    return out


def frz(b):
    return tuple(sorted((k, repr(v)) for k, v in b.items()))


# (tables of module 1, tables of module 2, kinds)
DBS = [
    ({'p': [['a', 0], [0, 'a'], ['a', 'a']], 'q': [['a'], [0]], 'z': [[]]}, {}, ('exact', None)),
    ({'p': [['', 0], [0, ''], ['a', 'b'], ['b', 'a']], 'q': [['']], 'z': []}, {}, ('exact', None)),
    ({'p': [['a', 0], [0, 0]], 'q': []}, {'p': [[0, 0], ['a', 'b'], ['b', 'b']], 'q': [['b'], [0]], 'z': [[]]}, ('exact', 'exact')),
    ({'p': [['a', 0], ['a', 0], ['b', 0]], 'q': [[0], [0]], 'z': [[], []]}, {'p': [['a', 0]]}, ('exact', 'memory')),
    ({'p': [['a', 'b'], ['b', 'a'], ['b', 0], [0, 'b'], ['a', 0], ['', '']], 'q': [['a'], [''], ['b']], 'z': [[]]}, {}, ('lazy', None)),
    ({'p': [["it's", 'ü'], ['ü', "it's"], [0, 0], ['a', 'a']], 'q': [['ü'], [0]], 'z': []}, {'q': [['a']], 'z': [[]]}, ('memory', 'blank')),
    ({'p': [], 'q': [], 'z': []}, {'p': [], 'q': [['a']], 'z': []}, ('exact', 'exact')),
    ({'p': [[-1, 2.5], [2.5, -1], [-1, -1], [0, 2.5]], 'q': [[-1], [2.5], [0]], 'z': [[]]}, {'p': [[0, 0]]}, ('blank', 'lazy')),
    # rows whose texts look alike
    ({'p': [['a, b', 'c'], ['a', 'b, c'], ['1', 1], [1, '1'], ["a', 'b", ''], ['a', "b', '"], ['0', 0], [0, '0']], 'q': [[0], ['0'], ['None'], ['a']], 'z': [[]]}, {'p': [['1', '1'], [1, 1], ['a ', 'b'], ['A', 'b']]}, ('exact', 'exact')),
    ({'p': [['0', 0], [0, '0'], ['0', '0'], ['a', 'A'], ['A', 'a'], ['A', 'A'], [' a', 'a'], ['a', 'a '], ['', ' '], [' ', '']], 'q': [['0'], [0], ['A'], ['a'], [' a'], [' '], ['']], 'z': [[]]}, {}, ('lazy', None)),
    ({'p': [['a', 'A'], ['A', 'a'], ['A', 'A'], ['a', 'a'], ['é', 'É'], ['É', 'é'], ['e\u0301', 'é'], ['a\n', 'a'], ["'a'", 'a'], ['"a"', 'a'], ['\\', '\\\\']], 'q': [['A'], ['a'], ["'a'"], ['a\n'], ['é'], ['e\u0301']], 'z': [[]]}, {'p': [['A', 'a'], ['a ', 'a'], ['b', 'b'], ['B', 'b'], ['b', 'B'], ['ab', 'c'], ['a', 'bc'], ['a', 'bC']], 'q': [['b'], ['B'], ['b '], [' b'], ['É']]}, ('exact', 'exact')),
    ({'p': [[('t', 1), 'a'], ['a', ('t', 1)], [['l'], ['l']], [['l'], 'a']], 'q': [[['l']], [('t', 1)]], 'z': [[]]}, {}, ('exact', None)),
]


def model(i):
    t1, t2, kinds = copy.deepcopy(DBS[i])
    db, mods = {}, []
    for t, k in zip((t1, t2), kinds):
        if k is None: continue
        mods.append(memory({n: r for n, r in t.items() if n != 'z'}) if k == 'memory' else Rows(t, k))
        if k == 'memory' and 'z' in t: mods.append(Rows({'z': t['z']}))
        for n, rows in t.items():
            db.setdefault(n, []).extend(rows)
    return impl.Model(mods), db, mods


BINDINGS = [{}, {'E1': 'a'}, {'E1': 0, 'E9': 'keep'}, {'E2': '', 'E3': 'b'}, {'E1': 'a', 'E2': 0}]


def solve_case(case, rec):
    dbi, atoms_list = case
    m, db, mods = model(dbi)
    before = repr(db)
    solver = impl.Solver(m)
    for atoms in atoms_list:
        atoms = [tuple(X if t == '$1' else Y if t == '$2' else Z if t == '$3' else t for t in a) for a in atoms]
        for b0 in BINDINGS:
            check(solver, atoms, b0, db, rec, dbi)
    require(before == repr(db), "solving changed the data")


def check(solver, atoms, b0, db, rec, tag):
    b = dict(b0)
    atoms2 = copy.deepcopy(atoms)
    exp = join(atoms, b0, db)
    got = solver.solve(atoms2, b)
    what = lambda: f"atoms {atoms} binding {b0} data {db}"
    require(b == b0 and list(b) == list(b0), lambda: f"the binding was changed to {b}: {what()}")
    require(repr(atoms2) == repr(atoms), lambda: f"the atoms were changed to {atoms2}: {what()}")
    require(isinstance(got, list), lambda: f"no list of bindings: {got!r}")
    e, g = sorted(map(frz, exp)), sorted(map(frz, got))
    require(e == g, lambda: f"{what()}\n  expected {sorted(map(str, exp))}\n  got      {sorted(map(str, got))}")
    rec.ev((tag, repr(atoms), repr(b0)), len(atoms) > 1 or len(exp) > 0, f"{len(atoms)} atoms, {len(exp)} answers")


def unknown(case, rec):
    """an atom with a predicate that no module offers, at any place that is reached"""
    dbi, pos, n, wrap = case
    m, db, mods = model(dbi)
    good = [('q', X), ('p', X, Y), ('p', Y, Z)][:n]
    reached = len(join(good[:pos], {}, db)) > 0
    bad = ('unknown', X)
    if wrap == 'not': bad = ('not', [('unknown', X)])
    if wrap == 'count': bad = ('count', Z, [('q', X), ('unknown', X)])
    if wrap == 'or': bad = ('$disjunction', [[('unknown', X)], [('q', X)]])
    if wrap in ('count',): reached = reached and len(db['q']) > 0 and len(join(good[:pos] + [('q', X)], {}, db)) > 0
    atoms = good[:pos] + [bad] + good[pos:]
    try:
        impl.Solver(m).solve(atoms, {})
        err = False
    except Exception as e:
        require('unknown' in str(e), lambda: f"the error does not name the predicate: {e}")
        err = True
    if reached:
        require(err, lambda: f"{atoms} on {db}: a predicate that no module offers gave no error")
    rec.ev(case, reached, f"reached={reached}")


class Iter(impl.SomeModule):
    def __init__(self, n):
        super().__init__()
        self.add_relation(Relation('big', query_function=lambda values, context: impl.ResultIterator([1], n)))


def iterators(n, rec):
    """result sets given only by their size; they cannot be combined with another relation of the same name"""
    got = impl.Solver(impl.Model([Iter(n)])).solve([('big', X)], {})
    same("number of results", len(got), n)
    try:
        impl.Solver(impl.Model([Iter(n), Rows({'big': [['a']]})])).solve([('big', X)], {})
        raised = False
    except Exception:
        raised = True
    require(raised, "a result set given by its size was combined with other rows without an error")
    rec.ev(n, True, f"size {n}")


def contract(case, rec):
    """what a module is asked: the values of constants and bound variables, None for the rest"""
    args, b = case
    mod = Rows({'p': [['a', 'b', 0], ['a', 'a', 0]]})
    args2 = tuple(X if t == '$1' else Y if t == '$2' else t for t in args)
    impl.Solver(impl.Model([mod])).solve([('p',) + args2], dict(b))
    exp = [b.get(t.name) if isinstance(t, Variable) else t for t in args2]
    same(f"values asked for p{args2} with {b}", mod.calls, [('p', exp)])
    rec.ev(case, True, f"{sum(v is None for v in exp)} unbound")


def wide(case, rec):
    """relations with many columns: rows that differ in one place only, variables that occur twice, a constant or a bound variable in any place"""
    n, mode, i = case
    base = ['x'] * n
    rows = [base[:k] + [c] + base[k + 1:] for k in range(n) for c in ('y', 'X', 0)] + [base]
    db = {'p': rows}
    solver = impl.Solver(impl.Model([memory(db) if mode == 'memory' else Rows(db, mode)]))
    W = [Variable('E%d' % (k + 1)) for k in range(n)]
    qs = [(W, {}), (W[:i] + ['x'] + W[i + 1:], {}), (W[:i] + [0] + W[i + 1:], {}), (W, {f'E{i + 1}': 'y'}), (['x'] * i + [W[i]] + ['x'] * (n - i - 1), {}), (['x'] * n, {})]
    qs += [(W[:i] + [W[j]] + W[i + 1:], b) for j in range(n) if j != i for b in ({}, {f'E{j + 1}': 'y'})]
    for args, b in qs:
        check(solver, [('p', *args)], b, db, rec, case)
        check(solver, [('p', *args), ('p', *args[::-1])], b, db, rec, case)


ALIKE = {2: [0, '0', 'a', 'A', 'a ', '', ' ', 'None', "'a'", -1, '-1', 2.5, '2.5'], 3: [0, '0', 'a', 'A'], 4: [0, '0', 'a']}


def alike(case, rec):
    """all rows over values of which the texts look alike, asked with any of them as a constant or as a value"""
    n, mode, first = case
    rows = [list(r) for r in itertools.product(ALIKE[n], repeat=n)]
    db = {'p': rows, 'q': [[x] for x in ALIKE[n]]}
    solver = impl.Solver(impl.Model([memory(db) if mode == 'memory' else Rows(db, mode)]))
    for rest in itertools.product(ALIKE[n] + [X, Y], repeat=n - 1):
        atom = ('p', first, *rest)
        for b in ({}, {'E1': '0'}, {'E1': 0, 'E2': 'A'}) if n < 4 else ({}, {'E1': '0'}):
            if n > 2 and sum(isinstance(t, Variable) for t in atom) > 2: continue
            check(solver, [atom], b, db, rec, case)
            if n == 2: check(solver, [('q', X), atom], b, db, rec, case)


def large(case, rec):
    """many rows, many modules, long conjunctions, many variables"""
    what, n = case
    W = [Variable('E%d' % i) for i in range(1, n + 2)]
    if what == 'rows':
        db = {'p': [[i, (i * 7 + 1) % n] for i in range(n)], 'q': [[i] for i in range(0, n, 3)]}
        mods = [Rows(db)]
        qs = [[('p', X, Y)], [('p', X, Y), ('q', Y)], [('q', X), ('p', X, Y), ('p', Y, Z)], [('p', X, n - 1)], [('p', n - 1, Y)], [('q', X), ('q', n - 1)]]
    elif what == 'modules':
        mods = [Rows({'p': [[i, i + 1]], 'q': [[i]] if i % 2 else []}, ('exact', 'lazy', 'blank')[i % 3]) for i in range(n)]
        db = {'p': [[i, i + 1] for i in range(n)], 'q': [[i] for i in range(1, n, 2)]}
        qs = [[('p', X, Y)], [('p', X, Y), ('q', Y)], [('p', n - 1, Y)], [('q', X)]]
    elif what == 'repeated rows':
        db = {'p': [[i % 2, 'a'] for i in range(n)], 'q': [['a']] * n}
        mods = [Rows(db)]
        qs = [[('p', X, Y)], [('p', X, Y), ('q', Y)], [('q', X), ('q', Y)]]
    elif what == 'styles':
        # several modules that answer the same thing in their own way: the same answer turns up again after n others
        db = {'p': [[i, i + 1] for i in range(n)], 'q': [['a']]}
        mods = [Rows({'q': [['a']]}, 'blank'), Rows(db), Rows({'q': [['a']]}, 'lazy')]
        qs = [[('q', 'a'), ('p', X, Y)], [('q', 'a'), ('q', 'a'), ('p', X, Y)], [('q', 'a'), ('p', X, Y), ('q', 'a')], [('p', X, Y), ('q', 'a')], [('q', Z), ('p', X, Y)]]
    else:
        # a chain with one way through, a fork in the middle
        db = {'p': [[i, i + 1] for i in range(n + 1)] + [[n // 2, 'x'], ['x', 'y']], 'q': [['x'], [n - 1], [n]]}
        mods = [Rows(db)]
        chain = [('p', W[i], W[i + 1]) for i in range(n)]
        qs = [[('p', 0, W[0])] + chain[:n - 1], chain[:n] + [('q', W[n])], [('q', W[0])] + [('q', w) for w in W[1:3]] + chain[:1], [('p', 0, 1)] * n, [('p', 0, W[0])] * n]
        # several answers at both ends
        qs += [[('q', X)] + [('p', i, i + 1) for i in range(n)] + [('q', Y), ('q', Z)], [('p', 0, 1)] * n + [('q', X)], [('q', X)] + [('p', 0, 1)] * n, [('p', 0, 1)] * n + [('q', X), ('q', X)]]
    solver = impl.Solver(impl.Model(mods))
    for atoms in qs:
        for b in ({}, {'E1': 1, 'E9999': 0}):
            exp, got = join(atoms, b, db), solver.solve(atoms, dict(b))
            e, g = sorted(map(frz, exp)), sorted(map(frz, got))
            require(e == g, lambda: f"{what} {n}: atoms {str(atoms)[:300]} with {b}: {len(exp)} answers expected, {len(got)} given; missing {str([x for x in e if x not in g])[:200]}, wrong {str([x for x in g if x not in e])[:200]}")
            rec.ev((case, repr(atoms), repr(b)), True, what)


def spaces(tier):
    A = ['$1', '$2', '$3', 'a', 0, '']
    big = [('p',) + c for c in itertools.product(A, repeat=2)] + [('q', c) for c in A] + [('z',)]
    small = [('p',) + c for c in itertools.product(['$1', '$2', 0], repeat=2)] + [('q', c) for c in ['$1', '$2']] + [('z',), ('p', '$2', '$3'), ('p', '$3', '$1')]
    seqs = [[]] + [[a] for a in big] + [list(c) for c in itertools.product(big, repeat=2)] + [list(c) for c in itertools.product(small, repeat=3)]
    if tier == 'thorough':
        mid = [('p',) + c for c in itertools.product(['$1', '$2', '$3', 0], repeat=2)] + [('q', c) for c in ['$1', '$2', '$3', 'a']] + [('z',)]
        seqs += [list(c) for c in itertools.product(mid, repeat=3)] + [list(c) for c in itertools.product(small[:10], repeat=4)]
    ndb = len(DBS)
    cases = [(d, seqs[i:i + 40]) for d in range(ndb) for i in range(0, len(seqs), 40)]
    return [Space("conjunctions", cases, solve_case),
            Space("unknown predicate", [(d, pos, n, w) for d in range(ndb) for n in range(4) for pos in range(n + 1) for w in ('', 'not', 'count', 'or')], unknown),
            Space("large", [(w, n) for w in ('rows', 'modules', 'repeated rows', 'styles') for n in [10, 31, 33, 63, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257] + ([] if tier == 'quick' else [500, 511, 512, 513, 1000, 1001])] +
                  [('chain', n) for n in [5, 8, 10, 12, 16, 20, 25, 32, 33, 40, 50, 64, 65, 80, 100]], large, 1),
            Space("wide relations", [(n, m, i) for n in ((1, 2, 3, 4, 5, 6) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10)) for m in ('exact', 'lazy', 'blank', 'memory') for i in range(n)], wide, 1),
            Space("look-alikes", [(n, m, f) for n in (2, 3, 4) for m in ('exact', 'lazy', 'blank', 'memory') for f in ALIKE[n] + [X, Y]], alike),
            Space("sizes only", [0, 1, 2, 10, 10 ** 12], iterators),
            Space("what is asked", [(a, b) for a in itertools.product(['$1', '$2', 'a', 0, ''], repeat=3) for b in ({}, {'E1': 'a'}, {'E1': 0, 'E2': ''})], contract)]
