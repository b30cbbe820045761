"""SQL sources: every bound/unbound pattern over hostile values on all four back-ends, and every short history of insertions and deletions."""
import itertools, re, sqlite3, sys, types
from mc.core import Space, Violation, require, same

PROP = "C18"
LEVEL = "exploration"
RULE = ("tables that hold every combination of the value alphabet, and every column list, order and pattern of bound values, are selected on all back-ends and compared with a filter "
        "over the rows; every history of insertions and deletions up to a depth on two tables is compared with a list model, with all selections after it")
ASSUMPTIONS = ["the three client/server back-ends are run against stand-in connections of their drivers (paramstyle 'format', rows as the given cursor type gives them) "
               "that execute on SQLite; equality of values is SQLite's on untyped columns", "rows have no order",
               "the columns named in a deletion are all bound"]

from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
from richard.data_source.MySqlDataSource import MySqlDataSource
from richard.data_source.PsycoPg2DataSource import PsycoPg2DataSource
from richard.data_source.PsycoPg3DataSource import PsycoPg3DataSource


class TupleCursor: pass


def tuple_row(*a): pass


# stand-ins of the drivers
pg2 = types.ModuleType('psycopg2')
pg2.extensions = types.ModuleType('psycopg2.extensions')
pg2.extensions.cursor = TupleCursor
pg3 = types.ModuleType('psycopg')
pg3.rows = types.ModuleType('psycopg.rows')
pg3.rows.tuple_row = tuple_row
sys.modules.update({'psycopg2': pg2, 'psycopg2.extensions': pg2.extensions, 'psycopg': pg3, 'psycopg.rows': pg3.rows})


class DictRow(dict): pass


class FormatCursor:
    """a cursor with paramstyle 'format'"""
    def __init__(self, con, rows):
        self.cur, self.rows, self.names = con.cursor(), rows, None

    def execute(self, query, params=None):
        def token(m):
            if m[0] == '%s':
                return '?'
            if m[0] == '%%': return '%'
            raise ValueError("bad placeholder in " + query)
        q = re.sub(r'%.?', token, query)
        require(len(re.findall('%s', query)) == len(params or []), f"the number of placeholders in {query!r} is not that of the values {params!r}")
        # the server sees the values quoted as values: binding is equivalent
        self.left = None
        self.cur.execute(q, list(params or []))

    def fetchall(self):
        rows = self.cur.fetchall()
        if self.rows == 'dict':
            names = [d[0] for d in self.cur.description]
            return [DictRow(zip(names, r)) for r in rows]
        return rows

    def fetchone(self):
        r = self.fetchall()
        return r[0] if r else None

    def fetchmany(self, size=1):
        if self.left is None: self.left = self.fetchall()
        out, self.left = self.left[:size], self.left[size:]
        return out

    left = None

    def __iter__(self): return iter(self.fetchall())
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass


class MyConnection:
    def __init__(self, con): self.con = con
    def cursor(self): return FormatCursor(self.con, 'tuple')


class Pg2Connection:
    """connected with a dictionary cursor as default"""
    def __init__(self, con): self.con = con
    def cursor(self, name=None, cursor_factory=None): return FormatCursor(self.con, 'tuple' if cursor_factory is TupleCursor else 'dict')


class Pg3Connection:
    def __init__(self, con): self.con = con
    def cursor(self, *, row_factory=None): return FormatCursor(self.con, 'tuple' if row_factory is tuple_row else 'dict')


BACKENDS = {'sqlite': lambda c: Sqlite3DataSource(c), 'mysql': lambda c: MySqlDataSource(MyConnection(c)),
            'psycopg2': lambda c: PsycoPg2DataSource(Pg2Connection(c)), 'psycopg3': lambda c: PsycoPg3DataSource(Pg3Connection(c))}

VALUES = ['', 'a', 'A', "it's", 'x" OR "1"="1', "' OR '1'='1", "'; DROP TABLE t; --", '%s', '%', '?', 'é😀', 'a\\', 'a\nb', 'a ', 'NULL', '0', 0, 1, -1, 2.5, 'TRUE', None, 'b;', ':a', 10 ** 12, 0.1, b'a', b'\x00\xff', '1', '1.0', 'a_', '1e0', 'a\0b', '\0', 1.00000001, 1.0000001, 2.5000001, 'é', 'e\u0301', 'É', 10 ** 12 + 1, 2 ** 53, 2 ** 53 + 1, 1e-9, ' ', '\ufeffa']
FEW = ['', "o'x", 0, None, '0']


def norm(rows):
    return sorted([[(type(v).__name__, repr(v)) for v in r] for r in rows])


def matches(row, cols, vals, names):
    return all(v is None or (row[names.index(c)] == v and row[names.index(c)] is not None and isinstance(row[names.index(c)], str) == isinstance(v, str)) for c, v in zip(cols, vals))


def expected(rows, names, cols, vals):
    return [[r[names.index(c)] for c in cols] for r in rows if matches(r, cols, vals, names)]


def full(names, values, con, table):
    con.execute(f"CREATE TABLE {table} ({', '.join(names)})")
    rows = list(itertools.product(values, repeat=len(names)))
    con.executemany(f"INSERT INTO {table} VALUES ({','.join('?' * len(names))})", rows)
    return rows


def run_full(case, rec):
    names, values, cols = case
    con = sqlite3.connect(':memory:')
    rows = full(names, values, con, 't')
    con.execute("CREATE TABLE other (a, b)")
    con.execute("INSERT INTO other VALUES (1, 2)")
    # absent values (None) mean unbound
    for vals in itertools.product(values + ([None] if None not in values else []), repeat=len(cols)):
        exp = norm(expected(rows, names, cols, vals))
        for b, make in BACKENDS.items():
            keep = list(vals)
            got = make(con).select('t', list(cols), keep)
            require(all(isinstance(r, list) for r in got), f"{b}: rows are lists")
            same(f"{b}: select t {cols} {vals!r}", norm(got), exp)
            same(f"{b}: the values given are unchanged", keep, list(vals))
            rec.ev((b, names, cols, repr(vals)), True, (b, len(exp)))
    same("the table afterwards", con.execute("SELECT count(*) FROM t").fetchone()[0], len(rows))
    same("another table", con.execute("SELECT * FROM other").fetchall(), [(1, 2)])
    con.close()


# histories
def ops():
    out = []
    vs = ["'", 0, '']
    for t in ('t', 'u'):
        pairs = itertools.product(vs, repeat=2) if t == 't' else [("'", 0), (0, '')]
        for a, b in pairs:
            out.append(('insert', t, ('a', 'b'), (a, b)))
        out += [('insert', t, ('b', 'a'), ("'; DROP TABLE t; --", 1)), ('insert', t, ('b',), (0,)), ('insert', t, ('a', 'b'), ('', None)), ('insert', t, ('b', 'a'), (0, ''))]
        out += [('delete', t, ('a',), (v,)) for v in vs] + [('delete', t, ('b', 'a'), (0, "'")), ('delete', t, ('a', 'b'), ('', 0)), ('delete', t, ('b',), ("' OR 1=1 --",)), ('delete', t, ('b',), (0,))]
    return out


def run_hist(case, rec):
    con = sqlite3.connect(':memory:', isolation_level=None)
    ds = Sqlite3DataSource(con)
    for hist in case:
        con.execute("CREATE TABLE t (a, b)")
        con.execute("CREATE TABLE u (a, b)")
        model = {'t': [], 'u': []}
        names = ['a', 'b']
        for op, t, cols, vals in hist:
            if op == 'insert':
                row = dict(zip(cols, vals))
                model[t].append([row.get('a'), row.get('b')])
                ds.insert(t, list(cols), list(vals))
            else:
                model[t] = [r for r in model[t] if not matches(r, cols, vals, names)]
                ds.delete(t, list(cols), list(vals))
        for t in model:
            for cols, vals in [(('b', 'a'), (None, None)), (('a', 'b'), ('', None)), (('a', 'b'), (None, 0)), (('b',), ('',)), (('a',), ("'",))]:
                same(f"history {hist}: select {t} {cols} {vals!r}", norm(ds.select(t, list(cols), list(vals))), norm(expected(model[t], names, cols, vals)))
            con.execute("DROP TABLE " + t)
        rec.ev(hist, True, len(model['t']))
        rec.transitions += len(hist)
    con.close()


ALIKE = ['a', 'A', 'a ', 'á', 'a%', '1', '01', '_']


UNIQUE = {'a PRIMARY KEY, b': lambda r: r[0], 'a, b, UNIQUE (a, b)': lambda r: tuple(r), 'a, b UNIQUE': lambda r: r[1], 'a, b': lambda r: object(), "a DEFAULT 5, b DEFAULT 'x'": lambda r: object()}


def run_unique(case, rec):
    """a row that the table has room for only once: inserting it again changes nothing, and what was there remains"""
    cols, hist = case
    con = sqlite3.connect(':memory:', isolation_level=None)
    con.execute(f"CREATE TABLE t ({cols})")
    ds = Sqlite3DataSource(con)
    model = {}
    for i, row in enumerate(hist):
        names = ['a', 'b'] if i % 2 else ['b', 'a']
        ds.insert('t', names, [row['ab'.index(c)] for c in names])
        model.setdefault(UNIQUE[cols](row), row)
        same(f"table t ({cols}) after inserting {hist[:i + 1]}", norm(ds.select('t', ['a', 'b'], [None, None])), norm(model.values()))
        rec.ev((cols, hist[:i + 1]), True, len(model))
    con.close()


def run_wide(case, rec):
    """many columns"""
    n, lo, hi = case
    names = ['c%d' % i for i in range(n)]
    con = sqlite3.connect(':memory:')
    ds = Sqlite3DataSource(con)
    con.execute(f"CREATE TABLE w ({', '.join(names)})")
    rows = [tuple((lo, hi)[(i >> k) & 1] for k in range(n)) for i in range(2 ** n)]
    for r in rows:
        # columns in a rotated order
        k = r.count(hi) % n
        ds.insert('w', names[k:] + names[:k], list(r[k:] + r[:k]))
    for pat in itertools.product((None, lo, hi), repeat=n):
        for b, make in BACKENDS.items():
            same(f"{b}: wide {pat}", norm(make(con).select('w', names[::-1], list(pat[::-1]))), norm(expected(rows, names, names[::-1], pat[::-1])))
            rec.ev((b, case, pat))
    for pat in itertools.product((lo, hi), repeat=2):
        ds.delete('w', [names[-1], names[0]], list(pat))
        rows = [r for r in rows if not (r[-1] == pat[0] and r[0] == pat[1])]
        same(f"wide delete {pat}", norm(ds.select('w', names, [None] * n)), norm(rows))
    con.close()


def run_wide_delete(case, rec):
    """a deletion with any number of columns given removes the rows that agree in all of them, and no others"""
    n, k = case
    names = ['c%d' % i for i in range(n)]
    con = sqlite3.connect(':memory:')
    ds = Sqlite3DataSource(con)
    con.execute(f"CREATE TABLE w ({', '.join(names)})")
    full = [tuple((i >> j) & 1 for j in range(n)) for i in range(2 ** n)]
    for cols in itertools.combinations(range(n), k):
        for cols in (cols, cols[::-1]):
            for pat in itertools.product((0, 1), repeat=k):
                con.execute("DELETE FROM w")
                con.executemany(f"INSERT INTO w VALUES ({', '.join('?' * n)})", full)
                ds.delete('w', [names[c] for c in cols], list(pat))
                same(f"delete {[names[c] for c in cols]} {pat}", norm(con.execute("SELECT * FROM w").fetchall()), norm([r for r in full if any(r[c] != v for c, v in zip(cols, pat))]))
                rec.ev((n, cols, pat))
    con.close()


def run_names(case, rec):
    """the columns come back in the order asked, with as many as there are"""
    n, cols = case
    names = ['c%d' % i for i in range(n)]
    con = sqlite3.connect(':memory:')
    con.execute(f"CREATE TABLE w ({', '.join(names)})")
    rows = [tuple(f"{r}-{i}" for i in range(n)) for r in range(3)]
    for r in rows: Sqlite3DataSource(con).insert('w', [names[i] for i in cols], [r[i] for i in cols])
    for r in [None] + rows:
        for bound in range(len(cols)):
            vals = [r[c] if r and k == bound else None for k, c in enumerate(cols)]
            for b, make in BACKENDS.items():
                same(f"{b}: columns {cols}, bound {vals}", norm(make(con).select('w', [names[c] for c in cols], vals)), norm([[x[c] for c in cols] for x in rows if not r or x == r]))
                rec.ev((b, n, cols, bound, r))
    con.close()


def run_many(case, rec):
    """many rows, long values"""
    n, what = case
    con = sqlite3.connect(':memory:')
    ds = Sqlite3DataSource(con)
    con.execute("CREATE TABLE m (a, b)")
    rows = [(i % 3, i) if what == 'rows' else (1, 2) if what == 'same' else ('x' * n + str(i), i) for i in range(n if what != 'long' else 5)]
    for i, r in enumerate(rows): ds.insert('m', ['a', 'b'] if i % 2 else ['b', 'a'], list(r) if i % 2 else list(r[::-1]))
    for cols, vals in ((('a', 'b'), (None, None)), (('b', 'a'), (None, 1)), (('a',), (1,)), (('a', 'b'), (None, n - 1)), (('a', 'b'), rows[-1]), (('a',), (rows[0][0],)), (('a',), ('x' * n,))):
        for b, make in BACKENDS.items():
            same(f"{b}: {n} {what}: select {cols} {str(vals)[:60]}", norm(make(con).select('m', list(cols), list(vals))), norm(expected(rows, ['a', 'b'], cols, vals)))
            rec.ev((b, n, what, cols, vals))
    ds.delete('m', ['a'], [rows[0][0]])
    same(f"{n} {what}: after a deletion", norm(ds.select('m', ['a', 'b'], [None, None])), norm([r for r in rows if r[0] != rows[0][0]]))
    con.close()


def spaces(tier):
    q = tier == 'quick'
    full2 = [(['a', 'b'], VALUES if q else VALUES + ['`', '--', '/*', "''", '\x7f', 'ß', 10**15, -0.5], c) for c in [('a', 'b'), ('b', 'a'), ('a',), ('b',)]]
    full3 = [(['a', 'b', 'c'], FEW if q else FEW + ['%s', 1], c) for k in (1, 2, 3) for c in itertools.permutations(('a', 'b', 'c'), k)]
    o = ops()
    d = 2 if q else 3
    hs = [h for n in range(d + 1) for h in itertools.product(o, repeat=n)]
    few = [x for x in o if x[1] == 't'][::2]
    hs += list(itertools.product(few, repeat=d + 1))
    return [Space("all rows, two columns", full2, run_full, 1), Space("all rows, three columns", full3, run_full, 1), Space("many", [(10007, 'rows'), (10007, 'same')] + [(n, w) for n in [10, 63, 65, 100, 101, 255, 257, 999, 1000, 1001, 1025] + ([] if q else [4097, 10001, 65537]) for w in ('rows', 'same', 'long')], run_many, 1), Space("wide", [(n, lo, hi) for n in (2, 3, 4, 5) for lo, hi in [(0, 1)] + ([(p, q_) for p in ALIKE for q_ in ALIKE if p != q_ and str(p) < str(q_)] if n < 5 else [('a', 'A')])], run_wide, 1), Space("unique columns", [(k, h) for k in UNIQUE for n in (1, 2, 3) for h in itertools.product(itertools.product(("'", 1), ('x', 0)), repeat=n)] + [(k, h) for k in UNIQUE if 'UNIQUE' not in k and 'KEY' not in k for n in (1, 2) for h in itertools.product(itertools.product((None, 1, 'x'), repeat=2), repeat=n)], run_unique), Space("deletions with many columns", [(n, k) for n in range(1, 7) for k in range(1, n + 1)], run_wide_delete, 1), Space("column orders", [(n, tuple((i * m + a) % n for i in range(n))) for n in range(2, 14) for a in range(n) for m in range(1, n) if __import__("math").gcd(n, m) == 1 and (a < 3 or n < 8)], run_names),
            Space("histories", [hs[i:i + 50] for i in range(0, len(hs), 50)], run_hist)]
