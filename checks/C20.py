"""SPARQL result cache: every history of queries and server failures, and every byte at which writing a cache file can break off, against an uncached answer."""
import builtins, io, itertools, os, shutil, tempfile
from mc.core import Space, Violation, require, same
from mc import sparql

PROP = "C20"
LEVEL = "fault_enumeration"
RULE = ("histories of queries with all server outcomes are run on a data source with a cache and compared with a model of a perfect cache; every write of a cache entry is broken off at every byte "
        "(by a crash of the process, by a full disk, and by truncating the file afterwards), after which every query must answer correctly and the entry must recover")
ASSUMPTIONS = ["the data behind the endpoint does not change", "what survives a crash of a cache write is a prefix of what was to be written", "nobody else writes to the cache directory"]

from richard.data_source.SparqlDataSource import SparqlDataSource

URL = 'https://x.example/sparql'
SUBJ = [('iri', 'http://x/Q%d' % i) for i in range(3)]
STORE = [(s, ('const', p), o) for pi, p in enumerate(['wdt:P1', 'wdt:P2', 'wdt:P12']) for i, s in enumerate(SUBJ)
         for j, o in enumerate([('text', "it's é", 'en'), ('text', '', 'en'), ('text', 'nl', 'nl'), ('num', 1.0), ('num', 0.0), ('iri', 'http://x/Q0'), ('text', '1', 'en')]) if (i + j + pi) % 3]

LONG = 'x' * 400
# values of a query that differ only at the end, in one letter, in case or in space
ALIKE = ["it's è", "it's e", "IT'S É", "it's  é", ' ' + "it's é", LONG + 'a', LONG + 'b', LONG + 'é', LONG + 'è', '\u0435', 'ab", "c', "ab', 'c", '[', '\\', "\\'", '1.0', 'é', 'e\u0301']
STORE += [(SUBJ[i % 3], ('const', 'wdt:P1'), ('text', x, 'en')) for i, x in enumerate(ALIKE)]

# (table, columns, values): none may be taken for another
QUERIES = [
    ('wdt:P1', ['id', 'text'], [None, None]),
    ('wdt:P1', ['id', 'text'], ['http://x/Q0', None]),
    ('wdt:P1', ['id', 'text'], ['http://x/Q1', None]),
    ('wdt:P1', ['id', 'text'], [None, "it's é"]),
    ('wdt:P1', ['id', 'text'], [None, '']),
    ('wdt:P1', ['id', 'id'], [None, None]),
    ('wdt:P1', ['id', 'id'], ['http://x/Q0', None]),
    ('wdt:P1', ['id', 'id'], [None, 'http://x/Q0']),
    ('wdt:P1', ['id', 'text'], [None, 'http://x/Q0']),
    ('wdt:P1', ['id', 'number'], [None, 1]),
    ('wdt:P1', ['id', 'text'], [None, '1']),
    ('wdt:P1', ['id', 'number'], [None, 0]),
    ('wdt:P2', ['id', 'text'], [None, None]),
    ('wdt:P12', ['id', 'text'], [None, None]),
    ('wdt:P2', ['id', 'text'], ['http://x/Q0', '']),
    ('wdt:P1', ['id', 'text'], [None, 'None']),
    ('wdt:P3', ['id', 'text'], [None, None]),
]
NQ = len(QUERIES)
QUERIES += [('wdt:P1', ['id', 'text'], [None, x]) for x in ALIKE] + [('wdt:P1', ['id', 'text'], ['http://x/Q0', x]) for x in ALIKE[5:9]]


class Dir:
    """a scratch cache directory"""
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='verif-c20-')
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def answer(q):
    """without a cache"""
    server = sparql.Server(STORE, URL)
    sparql.install(server)
    return SparqlDataSource(URL).select(q[0], list(q[1]), list(q[2]))


def fresh(path, url=URL, lang='en', store=STORE):
    server = sparql.Server(store, url)
    sparql.install(server)
    return server, SparqlDataSource(url, result_cache_path=path, lang=lang)


def ask(ds, q):
    return ds.select(q[0], list(q[1]), list(q[2]))


FAULTS = [400, 403, 429, 500, 'drop', 'html']


def run_hist(case, rec):
    """history: (query, server outcome, new data source object?)"""
    truth = {}
    for hist in case:
        with Dir() as path:
            server, ds = fresh(path)
            cached = set()
            for n, (qi, what, renew) in enumerate(hist):
                if renew: server, ds = fresh(path)
                q = QUERIES[qi]
                if qi not in truth:
                    truth[qi] = answer(q)
                sparql.install(server)
                server.plan = [what]
                before = len(server.requests)
                where = f"history {[(QUERIES[a], b, c) for a, b, c in hist[:n + 1]]}"
                try:
                    got = ask(ds, q)
                except Violation:
                    raise
                except Exception as e:
                    require(qi not in cached and what != 'ok', lambda: f"{where}: {type(e).__name__} {e}")
                    got = None
                if qi in cached:
                    require(len(server.requests) == before, where + ": a repeated query is answered from the cache, without a request")
                else:
                    require(len(server.requests) == before + 1, where + ": a query that is not in the cache makes one request")
                    if what == 'ok': cached.add(qi)
                    else: require(got is None, lambda: f"{where}: the server failed, but the answer is {got!r}")
                if got is not None:
                    same(where, got, truth[qi])
                    # the caller may do with its rows what it likes
                    for row in got: row.append('changed')
                    got.append('changed')
                rec.transitions += 1
                if what != 'ok': rec.faults += 1
        rec.ev(hist, True, None)


class Crash(BaseException):
    pass


class Breaking(io.RawIOBase):
    """a file that can be written up to a number of bytes"""
    def __init__(self, name, mode, limit, how, state):
        self.f = io.FileIO(name, mode)
        self.limit, self.how, self.state = limit, how, state

    def writable(self): return True

    def write(self, data):
        data = bytes(data)
        room = self.limit - self.state['written']
        if len(data) > room:
            self.f.write(data[:max(0, room)])
            self.state['written'] += max(0, room)
            self.state['broke'] = True
            raise (Crash() if self.how == 'crash' else OSError(28, "No space left on device"))
        self.state['written'] += len(data)
        return self.f.write(data)

    def close(self):
        self.f.close()
        super().close()


def breaking_open(path, limit, how, state):
    real = io.open

    def opened(file, mode='r', *args, **kw):
        if isinstance(file, (str, bytes, os.PathLike)) and os.fsdecode(file).startswith(path) and any(c in mode for c in 'wax+'):
            raw = Breaking(file, mode.replace('b', '').replace('t', ''), limit, how, state)
            if 'b' in mode: return raw
            return io.TextIOWrapper(raw, write_through=True)
        return real(file, mode, *args, **kw)
    return opened


def check_recovers(path, q, truth, where, rec):
    """after a broken write: right answer, at most one request, and then from the cache"""
    server, ds = fresh(path)
    for n, most in ((1, 1), (2, 1)):
        got = ask(ds, q)
        same(f"{where}: query {n} after it", got, truth)
        require(len(server.requests) <= most, f"{where}: the cache entry does not recover")
    for other in QUERIES[:2]:
        if other != q: same(f"{where}: another query", ask(ds, other), answer_cached(other))


_answers = {}


def answer_cached(q):
    k = repr(q)
    if k not in _answers:
        import sys
        saved = sys.modules['requests']
        _answers[k] = answer(q)
        sys.modules['requests'] = saved
    return _answers[k]


def run_crash(case, rec):
    qi, how, others = case
    q = QUERIES[qi]
    truth = answer(q)
    limit = 0
    while True:
        with Dir() as path:
            server, ds = fresh(path)
            for o in others: ask(ds, QUERIES[o])
            state = {'written': 0, 'broke': False}
            real = builtins.open, io.open
            builtins.open = io.open = breaking_open(path, limit, how, state)
            got = None
            try:
                got = ask(ds, q)
            except Crash:
                pass
            finally:
                builtins.open, io.open = real
            where = f"{q}: {how} after {limit} bytes of the cache write"
            if how == 'full disk' or not state['broke']:
                same(where + ": answer of the query itself", got, truth)
            check_recovers(path, q, truth, where, rec)
        rec.ev((qi, how, others, limit))
        rec.faults += state['broke']
        limit += 1
        if not state['broke']: break


def run_truncated(case, rec):
    """what survives is a prefix of the files"""
    qi, others = case
    q = QUERIES[qi]
    truth = answer(q)
    with Dir() as path:
        server, ds = fresh(path)
        for o in others: ask(ds, QUERIES[o])
        before = set(os.listdir(path))
        ask(ds, q)
        files = {f: open(os.path.join(path, f), 'rb').read() for f in os.listdir(path)}
        new = [f for f in files if f not in before]
        for f in new:
            for n in range(len(files[f])):
                for g, data in files.items():
                    with open(os.path.join(path, g), 'wb') as out: out.write(data[:n] if g == f else data)
                check_recovers(path, q, truth, f"{q}: cache file cut after {n} of {len(files[f])} bytes", rec)
                rec.ev((qi, others, f, n))
                rec.faults += 1


def run_unusable(case, rec):
    kind, qs = case
    with Dir() as base:
        path = base + '/cache'
        if kind == 'a file':
            with open(path, 'w') as f: f.write('x')
        elif kind == 'a dangling link': os.symlink(base + '/nowhere', path)
        elif kind == 'too long': path = base + '/' + 'x' * 300
        elif kind == 'entries are directories':
            # make the names that the cache uses directories
            os.mkdir(path)
            server, ds = fresh(path)
            for qi in qs: ask(ds, QUERIES[qi])
            for f in os.listdir(path):
                os.unlink(os.path.join(path, f))
                os.mkdir(os.path.join(path, f))
        server, ds = fresh(path)
        for qi in qs:
            same(f"cache directory is {kind}: {QUERIES[qi]}", ask(ds, QUERIES[qi]), answer_cached(QUERIES[qi]))
            server.plan = [429]
            try:
                got = ask(ds, QUERIES[qi])
            except Violation: raise
            except Exception: got = None
            if got is not None: same(f"cache directory is {kind}: refused {QUERIES[qi]}", got, answer_cached(QUERIES[qi]))
            server.plan = []
            rec.ev((kind, qs, qi))
            rec.faults += 1


def run_unreadable(case, rec):
    """entries that cannot be read, or not be written, for a while"""
    qi, when, mode = case
    q = QUERIES[qi]
    truth = answer(q)
    with Dir() as path:
        server, ds = fresh(path)
        real = builtins.open, io.open
        for n in range(4):
            def failing(file, m='r', *a, **kw):
                if isinstance(file, (str, os.PathLike)) and os.fspath(file).startswith(path) and ('r' in m and '+' not in m) == (mode == 'read'):
                    raise OSError(5, "Input/output error")
                return real[1](file, m, *a, **kw)
            if when[n]: builtins.open = io.open = failing
            try:
                got = ask(ds, q)
            finally:
                builtins.open, io.open = real
            same(f"{q}: {mode} errors at {when}: query {n}", got, truth)
            rec.ev((qi, when, mode, n))
            rec.faults += when[n]


def run_large(case, rec):
    """many entries, large entries, repeated queries, long values"""
    kind, n = case
    P = ('const', 'wdt:P1')
    it = [('iri', f"http://x/R{i}") for i in range(max(n, 2))]
    if kind == 'entries':
        store = [(s, P, ('text', f"t{i}", 'en')) for i, s in enumerate(it)]
        qs = [('wdt:P1', ['id', 'text'], [None, f"t{i}"]) for i in range(n)]
    elif kind == 'rows':
        store = [(s, P, ('text', f"t{i % 3}", 'en')) for i, s in enumerate(it)]
        qs = [('wdt:P1', ['id', 'text'], [None, None]), ('wdt:P1', ['id', 'text'], [None, 't1']), ('wdt:P1', ['id', 'text'], [it[-1][1], None])]
    elif kind == 'values':
        xs = ['x' * n, 'x' * (n - 1) + 'y', 'x' * (n + 1), 'y' + 'x' * (n - 1), 'x' * (n // 2) + 'y' + 'x' * (n - n // 2 - 1)]
        store = [(it[i % 2], P, ('text', x, 'en')) for i, x in enumerate(xs)]
        qs = [('wdt:P1', ['id', 'text'], [None, x]) for x in xs] + [('wdt:P1', ['id', 'text'], [it[0][1], x]) for x in xs]
    elif kind == 'tables':
        store = [(it[i], ('const', 'wdt:P' + '1' * n + str(i)), ('text', f"t{i}", 'en')) for i in range(2)]
        qs = [('wdt:P' + '1' * n + str(i), ['id', 'text'], [None, None]) for i in range(2)]
    else:
        # the same query n times
        store = [(it[0], P, ('text', 'a', 'en'))]
        qs = [('wdt:P1', ['id', 'text'], [None, 'a'])] * n
    with Dir() as path:
        server, ds = fresh(path, store=store)
        plain = sparql.Server(store, URL)
        truth = []
        for q in qs:
            sparql.install(plain)
            truth.append(ask(SparqlDataSource(URL), q))
        different = len({repr(q) for q in qs})
        for again in range(3):
            if again == 2: server2, ds = fresh(path, store=store)
            sparql.install(server if again < 2 else server2)
            for q, t in list(zip(qs, truth))[::-1 if again == 1 else 1]:
                got = ask(ds, q)
                require(got == t, lambda: f"{kind} {n}: query {str(q)[:200]}, time {again + 1}: {str(got)[:200]}, expected {str(t)[:200]}")
                rec.transitions += 1
        require(len(server.requests) == different and len(server2.requests) == 0, lambda: f"{kind} {n}: {len(server.requests)} and then {len(server2.requests)} requests for {different} different queries, each asked three times")
        rec.ev(case, True, kind)


def run_large_cut(case, rec):
    """a large entry cut off: near its beginning, its end, and around every multiple of 4096 bytes"""
    n, width = case
    store = [(('iri', f"http://x/R{i}"), ('const', 'wdt:P1'), ('text', 'v' * width + str(i), 'en')) for i in range(n)]
    q = ('wdt:P1', ['id', 'text'], [None, None])
    with Dir() as path:
        server, ds = fresh(path, store=store)
        truth = ask(ds, q)
        same("rows", len(truth), n)
        files = {f: open(os.path.join(path, f), 'rb').read() for f in os.listdir(path)}
        for f, data in files.items():
            at = sorted({k for m in range(0, len(data) + 4096, 4096) for k in range(m - 12, m + 12) if 0 <= k < len(data)} | set(range(0, min(300, len(data)))) | set(range(max(0, len(data) - 300), len(data))))
            for k in at:
                with open(os.path.join(path, f), 'wb') as out: out.write(data[:k])
                server, ds = fresh(path, store=store)
                try:
                    got = ask(ds, q)
                except Violation: raise
                except Exception as e: raise Violation(f"entry of {len(data)} bytes cut off after {k}: {type(e).__name__} {e}")
                require(got == truth and len(server.requests) <= 1, lambda: f"entry of {len(data)} bytes cut off after {k}: {len(got)} rows of {n}, {len(server.requests)} requests")
                got = ask(ds, q)
                require(got == truth and len(server.requests) <= 1, lambda: f"entry of {len(data)} bytes cut off after {k}: it does not recover")
                rec.ev((case, k), True, 'large entry cut')
                rec.faults += 1


SOURCES = [(URL, 'en'), (URL, 'nl'), ('https://y.example/sparql', 'en')]


def run_sources(case, rec):
    """two data sources with the same cache directory"""
    a, b, qi = case
    q = QUERIES[qi]
    with Dir() as path:
        out = []
        for (url, lang), p in ((SOURCES[a], path), (SOURCES[b], path), (SOURCES[b], None)):
            store = STORE if url == URL else [t for t in STORE if t[0] != SUBJ[0]]
            server, ds = fresh(p, url, lang, store)
            out.append(ask(ds, q))
        same(f"{q}: sources {SOURCES[a]} and {SOURCES[b]} share a cache directory; answer of the second", out[1], out[2],
             key='sources-share-entries' if a != b and out[1] == out[0] else None)
        rec.ev(case)


def spaces(tier):
    q = tier == 'quick'
    nq = NQ
    hs = [((a, 'ok', False), (b, 'ok', r), (a, 'ok', True)) for a in range(nq) for b in range(nq) for r in (False, True)]
    few = [(qi, w, r) for qi in (1, 2) for w in ('ok', 429, 'drop') for r in (False, True)]
    al = range(NQ - 17 + 3, len(QUERIES))
    hs += [((a, 'ok', False), (b, 'ok', True)) for a in al for b in al if a != b and max(a, b) >= NQ]
    d = 3 if q else 4
    for n in range(1, d + 1): hs += list(itertools.product(few, repeat=n))
    more = [(qi, w, False) for qi in range(4, 12) for w in ['ok'] + FAULTS]
    hs += [(m, (m[0], 'ok', r), (m[0], 403, r)) for m in more for r in (False, True)]
    hs += [(m, k, (m[0], 'ok', False)) for m in more for k in more if k[0] != m[0] and (not q or m[1] != 'ok' and k[1] == 'ok')]
    qs = range(nq)
    crash = [(qi, how, o) for qi in qs for how in ('crash', 'full disk') for o in ((), (2,), (0, 7))] if not q else [(qi, how, o) for qi in qs for how in ('crash', 'full disk') for o in ((2,),)]
    trunc = [(qi, o) for qi in qs for o in ((), (2, 7))]
    N = [10, 16, 17, 32, 33, 50, 64, 65, 99, 100, 101, 128, 129, 200, 255, 256, 257] + ([] if q else [500, 512, 513, 1000, 1001])
    big = [(k, n) for k in ('entries', 'rows', 'values', 'tables', 'again') for n in N]
    big += [('rows', n) for n in (999, 1000, 1001, 1500)]
    return [Space("large", sorted(set(big)), run_large, 1), Space("large entries cut", [(10, 10), (300, 20), (1000, 60)] if q else [(10, 10), (100, 5), (300, 20), (1000, 60), (1001, 150), (60, 5000)], run_large_cut, 1), Space("histories", [hs[i:i + 40] for i in range(0, len(hs), 40)], run_hist),
            Space("broken writes", crash, run_crash, 1), Space("cut files", trunc, run_truncated, 1),
            Space("unusable directory", [(k, p) for k in ('missing', 'a file', 'a dangling link', 'too long', 'entries are directories') for p in itertools.permutations((0, 3, 9))], run_unusable),
            Space("read and write errors", [(qi, w, m) for qi in (0, 4, 16) for w in itertools.product((0, 1), repeat=4) for m in ('read', 'write')], run_unreadable),
            Space("shared directory", [(a, b, qi) for a in range(3) for b in range(3) for qi in range(nq)], run_sources)]
