"""In-memory data source: every history of insertions and clearings up to a depth, with all selections in every state, against a list of records."""
import itertools
from mc.core import Space, Violation, require, same

PROP = "C22"
LEVEL = "model_checking"
RULE = ("model state = contents of the tables as lists of records; breadth-first over all operations, every new model state is reached on a real data source by its history and all "
        "selections are compared in it; every transition (also to known states) is replayed on the implementation")
ASSUMPTIONS = ["values agree when they are equal in Python"]

from richard.data_source.SimpleDataSource import SimpleDataSource

LISTV = ['p', 'q']
VALUES = [None, 0, '', 'x', False, [], LISTV, ('r', 'x'), {'k': 1}, -1.5]
ABSENT = object()


def inserts(tier):
    out = []
    few = [0, '', None, 'x']
    for t in ('t', 'u'):
        for a, b in itertools.product(few, repeat=2):
            if t == 'u' and (a, b) not in ((0, ''), ('x', None), (None, 'x')): continue
            out.append((t, ('a', 'b'), (a, b)))
    out += [('t', ('b', 'a'), ('x', 0)), ('t', ('b',), ('',)), ('t', ('c', 'a'), (LISTV, 'x')), ('t', (), ()), ('t', ('a', 'b'), ([], False)), ('t', ('b', 'a'), (LISTV, {'k': 1})), ('t', ('a', 'b'), (('r', 'x'), -1.5)), ('u', ('c',), (None,))]
    return [('insert',) + o for o in out]


SELECTS = [(cols, vals) for n in (1, 2) for cols in itertools.permutations(('a', 'b', 'c'), n) for vals in itertools.product([None, 0, '', 'x'] if n == 2 else VALUES, repeat=n)]
SELECTS += [((), ())] + [(c, v) for c in (('a', 'b', 'c'), ('c', 'b', 'a')) for v in ((None,) * 3, ('x', None, None), (None, 0, LISTV), (LISTV, 0, None))]
SELECTS += [(('a', 'b'), v) for v in ((None, LISTV), ([], False), (('r', 'x'), None), ({'k': 1}, LISTV), (None, -1.5))]


def apply_model(state, op):
    if op[0] == 'clear': return {}
    _, t, cols, vals = op
    new = {k: list(v) for k, v in state.items()}
    new.setdefault(t, []).append({c: v for c, v in zip(cols, vals) if v is not None})
    return new


def expected(state, t, cols, vals):
    out = []
    for r in state.get(t, []):
        if all(v is None or (c in r and r[c] == v) for c, v in zip(cols, vals)):
            out.append([r.get(c) for c in cols])
    return out


def apply_real(ds, op):
    if op[0] == 'clear':
        ds.clear()
    else:
        cols, vals = list(op[2]), list(op[3])
        ds.insert(op[1], cols, vals)
        # the lists are the caller's
        cols.append('zz')
        vals.append('zz')
        if cols[:-1]: cols[0], vals[0] = 'zz', 'zz'


def shape(x):
    return (type(x).__name__, repr(x))


def check(ds, state, hist, rec):
    for t in ('t', 'u', 'v'):
        for cols, vals in SELECTS:
            kc, kv = list(cols), list(vals)
            got = ds.select(t, kc, kv)
            exp = expected(state, t, cols, vals)
            if got != exp or [list(map(shape, r)) for r in got] != [list(map(shape, r)) for r in exp]:
                raise Violation(f"after {hist}: select {t} {cols} {vals!r}\n   expected {exp!r}\n   got      {got!r}")
            if kc != list(cols) or kv != list(vals): raise Violation(f"select {t} {cols} {vals!r} changed its arguments")
            # rows belong to the caller
            for r in got: r.append('zz')
            got.append('zz')
            rec.evals += 1


def canon(state):
    return repr(sorted(state.items()))


def run(case, rec):
    """case: a first part of a history; explores everything after it"""
    prefix, depth, ops_ = case
    ops = OPS[ops_]
    seen = {}
    state = {}
    for op in prefix: state = apply_model(state, op)
    frontier = [(tuple(prefix), state)]
    while frontier:
        new = []
        for hist, state in frontier:
            rec.st(canon(state))
            ds = SimpleDataSource()
            for op in hist: apply_real(ds, op)
            rec.traces += 1
            check(ds, state, hist, rec)
            check(ds, state, hist + ('(selected once)',), rec) if len(hist) < 2 else None
            if len(hist) < depth:
                for op in ops:
                    rec.transitions += 1
                    nxt = apply_model(state, op)
                    h = hist + (op,)
                    if canon(nxt) not in seen:
                        seen[canon(nxt)] = h
                        new.append((h, nxt))
                    else:
                        # another way to a state that was seen: a full look at the tables
                        ds2 = SimpleDataSource()
                        for o in h: apply_real(ds2, o)
                        for t in ('t', 'u'):
                            same(f"after {h}: all of {t}", ds2.select(t, ['a', 'b', 'c'], [None] * 3), expected(nxt, t, ('a', 'b', 'c'), (None,) * 3))
                            same(f"after {h}: a=x of {t}", ds2.select(t, ['b', 'a'], [None, 'x']), expected(nxt, t, ('b', 'a'), (None, 'x')))
                        rec.traces += 1
        frontier = new


OPS = {}


def run_again(case, rec):
    """tables filled with as many other records after clearing, any number of times: nothing of before is left"""
    n, rounds, asked = case
    ds = SimpleDataSource()
    for r in range(rounds):
        state = {}
        for i in range(n):
            for t, cols, vals in (('t', ('a', 'b'), (f"r{r}", i % 2)), ('u', ('b',), (r,)), ('t', ('a',), ('x',))):
                ds.insert(t, list(cols), list(vals))
                state = apply_model(state, ('insert', t, cols, vals))
        rec.st((case, r))
        for k in range(asked):
            for t, cols, vals in [('t', ('a', 'b'), (None, None)), ('t', ('b', 'a'), (None, 'x')), ('t', ('a', 'b'), (None, 0)), ('t', ('a',), ('r0',)), ('t', ('a',), ('r1',)), ('u', ('b',), (None,)), ('u', ('b',), (0,)), ('v', ('a',), (None,))]:
                same(f"{n} records {asked} questions round {r}: select {t} {cols} {vals}", ds.select(t, list(cols), list(vals)), expected(state, t, cols, vals))
                rec.transitions += 1
        ds.clear()
        for t in 'tuv': same(f"{n} records round {r}: {t} after clearing", ds.select(t, ['a', 'b'], [None, None]), [])
    rec.traces += 1


MORE = VALUES[1:] + [1, 1.0, True, '1', '1.0', 0.0, 2 ** 70, 'X', ' x', 'None', 'True', [1], [1.0], [[]], (), {}, 0.1, 'é', 'e\u0301', float('inf'), b'x', {1}, 1j]


def run_values(case, rec):
    """two records with any two values, in any columns, tables with similar names; all selections by one or two values"""
    i, j, where = case
    x, y = MORE[i], MORE[j]
    (t1, c1), (t2, c2) = where
    ds = SimpleDataSource()
    state = {}
    for t, c, v in ((t1, c1, x), (t2, c2, y), (t1, c1, x)):
        ds.insert(t, [c, 'k'], [v, 'k'])
        state = apply_model(state, ('insert', t, (c, 'k'), (v, 'k')))
    for t in {t1, t2, 'tt'}:
        for cols in ((c1,), (c2,), (c1, 'k'), ('k', c2), ('k', c1, c2) if c1 != c2 else ('k', c1)):
            for v in [None, x, y] + (MORE if i == j else []):
                vals = tuple(None if c == 'k' else v for c in cols)
                got, exp = ds.select(t, list(cols), list(vals)), expected(state, t, cols, vals)
                if got != exp or [list(map(shape, r)) for r in got] != [list(map(shape, r)) for r in exp]:
                    raise Violation(f"{x!r} in {t1}.{c1}, {y!r} in {t2}.{c2}, {x!r} in {t1}.{c1}: select {t} {cols} {vals!r}\n   expected {exp!r}\n   got      {got!r}")
                rec.evals += 1


def run_many(case, rec):
    """many records, tables or columns"""
    n, what = case
    ds = SimpleDataSource()
    state = {}
    for i in range(n):
        op = {'records': ('insert', 't', ('a', 'b'), (i % 5, i)), 'tables': ('insert', 't%d' % i, ('a', 'b'), (i % 5, i)), 'same': ('insert', 't', ('a', 'b'), (1, 2)),
              'columns': ('insert', 't', tuple('c%d' % k for k in range(i % 9 + 1)), tuple(range(i % 9 + 1)))}[what]
        apply_real(ds, op)
        state.setdefault(op[1], []).append(dict(zip(op[2], op[3])))
    for t in ('t', 't0', 't%d' % (n - 1), 't%d' % (n // 2)):
        for cols, vals in ((('a', 'b'), (None, None)), (('a',), (3,)), (('b', 'a'), (n - 1, None)), (('b', 'a'), (0, None)), (('a', 'b'), (1, 2)), (('c0', 'c8'), (0, None)), (('c3', 'c0'), (3, None))):
            got, exp = ds.select(t, list(cols), list(vals)), expected(state, t, cols, vals)
            if got != exp: raise Violation(f"{n} {what}: select {t} {cols} {vals!r}\n   expected {str(exp)[:300]}\n   got      {str(got)[:300]}")
            rec.evals += 1


def spaces(tier):
    ops = inserts(tier) + [('clear',)]
    few = [o for i, o in enumerate(ops) if i % 3 == 0 or o[0] == 'clear' or 'u' == o[1]]
    OPS['all'], OPS['few'] = ops, few
    d = 3 if tier == 'quick' else 4
    out = [((), 1, 'all')] + [((o,), d, 'all') for o in ops] + [((o, p), d + 1, 'few') for o in few for p in few]
    places = [(('t', 'a'), ('t', 'a')), (('t', 'a'), ('t', 'A')), (('t', 'a'), ('T', 'a')), (('t', 'a'), ('t ', 'a')), (('t', 'a'), ('t', 'aa'))]
    vals = [(i, j, w) for i in range(len(MORE)) for j in range(len(MORE)) for w in places]
    many = [(n, w) for n in [10, 63, 65, 100, 101, 255, 257, 999, 1000, 1001, 1025] + ([] if tier == 'quick' else [4097, 10001, 65537]) for w in ('records', 'tables', 'same', 'columns')]
    again = [(n, r, k) for n in list(range(1, 12)) + [16, 20, 33, 50, 64, 65, 100, 129] for r in (2, 3) for k in (1, 2)]
    return [Space("filled again", again, run_again, 1), Space("histories", out, run, 1), Space("values", vals, run_values), Space("many", many, run_many, 1)]
