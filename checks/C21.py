"""CSV import: all small files over hostile cells, in every quoting style, line ending and blank-line pattern, into all kinds of data sources."""
import itertools, os, shutil, sqlite3, tempfile
from mc.core import Space, Violation, require, same

PROP = "C21"
LEVEL = "exploration"
RULE = ("every table of cells up to the bounds is written in every style (quoting, line ending, last newline, blank lines, column order), imported by the real importer, and what the data "
        "source received and returns to all patterns of bound columns is compared with the cells")
ASSUMPTIONS = ["files are UTF-8; no row has more cells than there are headings; headings are distinct"]

from richard.data_source.CsvImporter import CsvImporter
from richard.data_source.SimpleDataSource import SimpleDataSource
from richard.data_source.Sqlite3DataSource import Sqlite3DataSource

CELLS = ['', 'a', ' a ', 'a,b', 'a"b', '"', '""', 'a\nb', 'a\r\nb', '\r', "it's", 'é😀', '0', '|', '-5', 'NULL', '\t', ',', '\n', "'", ';', '\\', 'a\\"b', '#x', 'None', '\u2028', '\x0b', '\x1c']
MID = ['', 'a', 'x,"y"', 'l1\nl2', 'l1\r\n', "o'", '7', ' ', 'a\\']
FEW = ['', ',', '"', '\n']
NAMES = ['name', 'b', 'x1']
ODD = ['first name', 'a,b', 'q"q', "o'x", 'é', 'a\nb', '1', ' a', 'a ', ' ', 'A', 'a', '\t', '#id', 'a;b', 'x|y', '"', '-', 'sep=;', '']


class Recorder:
    def __init__(self): self.calls = []
    def insert(self, table, columns, values): self.calls.append((table, list(columns), list(values)))


def cell(c, quote, only):
    if quote or any(x in c for x in ',"\n\r') or (only and c == ''):
        return '"' + c.replace('"', '""') + '"'
    return c


def text_of(headers, rows, style):
    quote, end, last, blank = style
    lines = []
    for i, r in enumerate([headers] + rows):
        q = {'min': [0] * len(r), 'all': [1] * len(r), 'mix': [(i + k) % 2 for k in range(len(r))]}[quote]
        lines.append(','.join(cell(c, q[k], len(r) == 1) for k, c in enumerate(r)))
    out = ''
    if blank == 'first': out += end
    for i, l in enumerate(lines):
        out += l
        if i < len(lines) - 1 or last: out += end
        if blank == 'between' and (i < len(lines) - 1 or last): out += end * (1 + i % 2)
    return out


STYLES = list(itertools.product(('min', 'all', 'mix'), ('\n', '\r\n', '\r'), (True, False), ('none', 'between', 'first')))

_dir = None


def scratch():
    return tempfile.mkdtemp(prefix='verif-c21-')


def run(case, rec):
    headers, tables, styles = case
    d = scratch()
    try:
        path = os.path.join(d, 'f.csv')
        for rows in tables:
            for style in styles:
                text = text_of(headers, rows, style)
                with open(path, 'wb') as f: f.write(text.encode())
                r = Recorder()
                CsvImporter().import_table_from_file('t', path, r)
                same(f"file {text!r}", r.calls, [('t', headers, row) for row in rows])
                rec.ev((headers, rows, style), True, len(rows))
    finally:
        shutil.rmtree(d)


def run_short(case, rec):
    """rows with fewer cells than there are headings are stored too; what is left out has no value"""
    lens, style = case
    headers = ['b', 'name', 'c', 'x1'][:max(lens + (2,))]
    rows = [[f"v{i}{k}" for k in range(n)] for i, n in enumerate(lens)]
    d = scratch()
    try:
        path = os.path.join(d, 'f.csv')
        with open(path, 'wb') as f: f.write(text_of(headers, rows, style).encode())
        r = Recorder()
        CsvImporter().import_table_from_file('t', path, r)
        exp = [dict(zip(headers, row)) for row in rows]
        got = [{c: v for c, v in zip(cols, vals) if v not in ('', None)} for t, cols, vals in r.calls]
        same(f"rows {rows} under {headers}: records", got, exp)
        ds = SimpleDataSource()
        CsvImporter().import_table_from_file('t', path, ds)
        for k, h in enumerate(headers):
            got = [x for x in ds.select('t', [h, headers[0]], [None, None]) if x[0] not in ('', None)]
            same(f"rows {rows}: column {h}", got, [[row[k], row[0]] for row in rows if len(row) > k])
        rec.ev(case, True, len(rows))
    finally:
        shutil.rmtree(d)


def run_query(case, rec):
    """imported into real sources, and found again"""
    headers, rows, style, more = case
    d = scratch()
    try:
        path, path2 = os.path.join(d, 'f.csv'), os.path.join(d, 'g.csv')
        with open(path, 'wb') as f: f.write(text_of(headers, rows, style).encode())
        # the second file has its columns in the opposite order
        with open(path2, 'wb') as f: f.write(text_of(headers[::-1], [r[::-1] for r in more], style).encode())
        con = sqlite3.connect(':memory:')
        for t in 'tu': con.execute(f"CREATE TABLE {t} ({', '.join('%s TEXT' % h for h in headers)})")
        for name, ds in (('memory', SimpleDataSource()), ('sqlite', Sqlite3DataSource(con))):
            CsvImporter().import_table_from_file('t', path, ds)
            CsvImporter().import_table_from_file('t', path2, ds)
            CsvImporter().import_table_from_file('u', path2, ds)
            for t, content in (('t', rows + more), ('u', more)):
                for n in range(1, len(headers) + 1):
                    for cols in itertools.permutations(range(len(headers)), n):
                        for vals in itertools.product(*[[None] + sorted({r[c] for r in content} | {'zz'}) for c in cols]):
                            exp = [[r[c] for c in cols] for r in content if all(v is None or r[c] == v for c, v in zip(cols, vals))]
                            got = ds.select(t, [headers[c] for c in cols], list(vals))
                            same(f"{name}: files with {rows!r} and {more!r}, select {t} {[headers[c] for c in cols]} {vals!r}", sorted(got), sorted(exp))
                            rec.ev((name, headers, rows, more, t, cols, vals), True, None)
        con.close()
    finally:
        shutil.rmtree(d)


def spaces(tier):
    q = tier == 'quick'

    def cases(headers, tables, styles, k=40):
        tables = list(tables)
        return [(headers, tables[i:i + k], styles) for i in range(0, len(tables), k)]

    def grid(cells, rows, cols):
        return [[list(f[i * cols:(i + 1) * cols]) for i in range(rows)] for f in itertools.product(cells, repeat=rows * cols)]
    one = grid(CELLS, 0, 1) + grid(CELLS, 1, 1) + grid(CELLS, 2, 1) + grid(MID, 3, 1)
    two = grid(CELLS, 1, 2) + grid(MID if not q else MID[:6], 2, 2) + (grid(FEW, 3, 2) if not q else [])
    three = grid(MID, 1, 3) + (grid(FEW, 2, 3) if not q else grid(FEW[:3], 2, 3))
    sp = [("one column", cases(NAMES[:1], one, STYLES)), ("two columns", cases(NAMES[1::-1], two, STYLES if not q else STYLES[::2] + STYLES[1::6])),
          ("three columns", cases(NAMES, three, STYLES))]
    odd = [(list(h), t, STYLES) for n in (1, 2, 3) for h in itertools.permutations(ODD, n) for t in [[[['v%d' % i for i in range(n)], ['', 'w', ','][:n]]]]]
    out = [Space(n, c, run) for n, c in sp] + [Space("headings", odd, run), Space("short rows", [(l, st) for n in (1, 2, 3, 4) for l in itertools.product((1, 2, 3, 4), repeat=n) for st in STYLES[len(l)::9]], run_short)]
    qs = []
    for rows in grid(['', "o'x", '1', 'a\nb'], 2, 2):
        qs += [(['b', 'name'], rows, STYLES[len(qs) % len(STYLES)], [r[::-1] for r in rows[:1]])]
    for rows in grid(['', '1', ','], 1, 3):
        qs += [(['c', 'b', 'name'], rows, STYLES[len(qs) % len(STYLES)], [r[::-1] for r in rows])]
    out.append(Space("queries", qs, run_query))
    # cells that are the same as headings or as cells before them
    like = [(h, grid(h + ['', 'a', h[0].upper()], n, len(h)), STYLES[:1] + STYLES[-1:] + STYLES[7::9]) for h in (['name'], ['b', 'name'], ['x', 'y', 'z']) for n in (1, 2, 3) if n * len(h) < (5 if q else 7)]
    out.append(Space("cells like headings", [(h, g[i:i + 40], st) for h, g, st in like for i in range(0, len(g), 40)], run))
    sizes = [10, 63, 64, 65, 99, 100, 101, 255, 256, 257, 500, 999, 1000, 1001, 1024, 1025, 2049] + ([] if q else [4097, 9999, 10001, 20000])
    tall = [(['b', 'name'], [[['%d' % (i % 7), 'n%d' % i if i % 5 else ''] for i in range(n)]], STYLES[k::18]) for k, n in enumerate(sizes)]
    wide = [(['c%d' % i for i in range(n)], [[['%d,%d' % (r, i) if i % 3 else '' for i in range(n)] for r in range(3)]], STYLES[::9]) for n in list(range(4, 41)) + [100, 257]]
    deep = [(['b', 'name'], [[['x' * n, 'a'], ['y"\n' * (n // 3), 'x' * n]]], STYLES[::9]) for n in (100, 255, 256, 257, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 65536, 100000)]
    out.append(Space("large files", tall + wide + deep, run, 1))
    return out
