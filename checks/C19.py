"""SPARQL: every argument pattern over hostile values goes to a stand-in endpoint that parses and evaluates the query on a small triple store."""
import itertools
from mc.core import Space, Violation, require, same
from mc import sparql

PROP = "C19"
LEVEL = "exploration"
RULE = ("every property, pair of column kinds, pattern of bound and unbound values over the alphabet, language and server answer is selected on the real data source; the request "
        "is parsed and evaluated by a stand-in endpoint, and the rows compared with a filter over its triples")
ASSUMPTIONS = ["identifiers and constants are well-formed IRIs and prefixed names", "the endpoint follows the SPARQL 1.1 grammar for strings and the JSON result format"]

from richard.data_source.SparqlDataSource import SparqlDataSource
from richard.data_source.WikidataDataSource import WikidataDataSource

TEXTS = ['', 'a', "it's", "'", "''", '\\', "\\'", "a\\", '\n', 'a\r\nb', '"', '"}', "x'@en . ?s ?p ?o . #", '?term0', '{}', '{0}', '%s', 'é😀', '\t', '\\n', '\\u0041', "'@nl", 'A', '<a>', '# c']
IRIS = ['http://x/Q1', 'http://x/Q2?a=b&c=%27', 'http://x/a#b']
CONSTS = ['wd:Q5', 'wdt:P31']
NUMS = [0, 5, -3, 2.5, 8849123, 8849124, -0.1234567891, 1e-07, 1e+20, 4503599627370497]
LANGS = ['en', 'nl', 'pt-br']
PREDS = ['wdt:P1', 'wdt:P2']


def terms(lang):
    other = LANGS[(LANGS.index(lang) + 1) % 3]
    return ([('iri', i) for i in IRIS] + [('const', c) for c in CONSTS] + [('num', float(n)) for n in NUMS] + [('text', t, lang) for t in TEXTS] +
            [('text', t, other) for t in TEXTS[::3]] + [('text', t, '') for t in TEXTS[::5]])


def store(lang):
    ts = terms(lang)
    return [(s, ('const', p), o) for pi, p in enumerate(PREDS) for i, s in enumerate(ts) for j, o in enumerate(ts) if (i * 5 + j * 3 + pi) % 4 != 0]


KINDS = {'id': [('iri', i) for i in IRIS] , 'constant': [('const', c) for c in CONSTS], 'text': None, 'number': [('num', n) for n in NUMS]}


def args(kind, lang):
    """(value given, term meant); None: unbound"""
    if kind == 'text': vals = [(t, ('text', t, lang)) for t in TEXTS]
    elif kind == 'number': vals = [(n, ('num', float(n))) for n in NUMS]
    else: vals = [(t[1], t) for t in KINDS[kind]]
    return [(None, None)] + vals


URL = 'https://x.example/sparql'
HEADERS = {'User-Agent': 'me', 'X': "y"}


def expect(triples, pred, columns, given, meant, lang):
    out = []
    for s, p, o in triples:
        if p[1] != pred: continue
        row = []
        for t, kind, g, m in zip((s, o), columns, given, meant):
            if g is None:
                if kind == 'text' and not (t[0] == 'text' and t[2] == lang): break
                row.append(sparql.value_of(t))
            else:
                if t != m: break
                row.append(g)
        else:
            out.append(row)
    return out


def run(case, rec):
    pred, columns, lang = case
    triples = store(lang)
    server = sparql.Server(triples, URL)
    server.headers = HEADERS
    sparql.install(server)
    ds = SparqlDataSource(URL, headers=dict(HEADERS), lang=lang)
    by_first, by_second = {}, {}
    for (a, ma), (b, mb) in itertools.product(args(columns[0], lang), args(columns[1], lang)):
        # a store that is as small as possible, for speed: triples that match one of the two sides, and some others
        server.store = [t for i, t in enumerate(triples) if ma in (t[0], None) or mb in (t[2], None) or i % 7 == 0]
        if a is None and b is None: server.store = triples
        elif ma is not None and mb is not None: server.store = [t for i, t in enumerate(server.store) if (t[0] == ma or t[2] == mb)]
        for how in ('ok', 'shuffle'):
            server.plan = [how]
            n = len(server.requests)
            keep = [a, b]
            got = ds.select(pred, list(columns), keep)
            where = f"select {pred} {columns} {[a, b]!r} in {lang!r}; query {' '.join(server.requests[-1][1]['query'].split())!r}"
            exp = expect(server.store, pred, columns, (a, b), (ma, mb), lang)
            same(where, got, exp[::-1] if how == 'shuffle' else exp)
            require(all(type(x) is type(y) for r, e in zip(got, exp) for x, y in zip(r, e)), where + ": types of the values")
            same(where + ": requests", len(server.requests) - n, 1)
            same(where + ": arguments unchanged", keep, [a, b])
            rec.ev((pred, columns, lang, repr((a, b)), how), True, min(len(got), 3))


def run_large(case, rec):
    """many rows; long texts and identifiers; many queries"""
    kind, n, lang = case
    it = [('iri', f"http://x/R{i}") for i in range(n)]
    P = ('const', 'wdt:P1')
    cols = ('id', 'text')
    if kind == 'rows':
        triples = [(s, P, ('text', f"t{i % 7}", lang)) for i, s in enumerate(it)] + [(s, ('const', 'wdt:P2'), s) for s in it]
        asks = [(cols, (None, None)), (cols, (None, 't3')), (cols, (it[-1][1], None)), (cols, (it[-1][1], f"t{(n - 1) % 7}")), (cols, (it[0][1], 'none'))]
    elif kind == 'same':
        triples = [(it[0], P, ('text', 'same', lang)) for i in range(n)] + [(it[0], P, ('text', 'other', lang))] * 2
        asks = [(cols, (None, None)), (cols, (it[0][1], None)), (cols, (None, 'same')), (cols, (it[0][1], 'same'))]
    elif kind == 'text':
        long = [x * n for x in "a'\\é\n"] + ['a' * n + y for y in ("'", '\\', 'b', ' ', '\n', '"', '}')] + ['x' * (n - 1) + "'" + 'y' * n, 'ab ' * n, "\\'" * n]
        triples = [(it[i % n], P, ('text', x, lang)) for i, x in enumerate(long)]
        asks = [(cols, (None, None))] + [(cols, (None, x)) for x in long] + [(cols, (it[0][1], x)) for x in long]
    elif kind == 'id':
        ids = [('iri', 'http://x/' + 'a' * n), ('iri', 'http://x/' + 'a' * n + 'b'), ('iri', 'http://x/' + 'a' * (n - 1)), ('iri', 'http://x/' + 'A' * n)]
        triples = [(a, P, b) for a in ids for b in ids[1:]]
        cols = ('id', 'id')
        asks = [(cols, (a, b)) for a in [None] + [x[1] for x in ids] for b in [None] + [x[1] for x in ids]]
    else:
        triples = [(s, P, ('num', float(i))) for i, s in enumerate(it)]
        cols = ('id', 'number')
        asks = [(cols, (None, i)) for i in range(n)] + [(cols, (None, None))] + [(cols, (it[i][1], None)) for i in range(0, n, 5)]
    server = sparql.Server(triples, URL)
    server.headers = HEADERS
    sparql.install(server)
    ds = SparqlDataSource(URL, headers=dict(HEADERS), lang=lang)
    for c, given in asks:
        meant = [None if g is None else ('text', g, lang) if k == 'text' else ('num', float(g)) if k == 'number' else ('iri', g) for k, g in zip(c, given)]
        got = ds.select('wdt:P1', list(c), list(given))
        exp = expect(triples, 'wdt:P1', c, given, meant, lang)
        require(got == exp, lambda: f"{kind} {n}: select wdt:P1 {c} {str(given)[:200]} in {lang!r}: {len(got)} rows, {len(exp)} expected; first difference {next(((str(a)[:100], str(b)[:100]) for a, b in itertools.zip_longest(got, exp) if a != b), None)}")
        rec.ev((case, repr(given)), True, kind)
    same(f"{kind} {n}: requests", len(server.requests), len(asks))


FAULTS = [400, 403, 404, 429, 500, 502, 503, 'drop', 'timeout', 'html', 'cut'] + [(st, body) for st in (400, 403, 429)
          for body in ('{"error": "x"}', '{"head": {"vars": []}, "results": {"bindings": []}}', '', '[]')] + [(500, '{"error": "x"}'), (503, '')]


def run_fault(case, rec):
    fault, columns, given, lang = case
    server = sparql.Server(store(lang), URL)
    server.headers = HEADERS
    sparql.install(server)
    ds = SparqlDataSource(URL, headers=dict(HEADERS), lang=lang)
    server.plan = [fault]
    try:
        got = ds.select('wdt:P1', list(columns), list(given))
    except Violation:
        raise
    except Exception as e:
        rec.ev(case, True, type(e).__name__)
        rec.faults += 1
    else:
        raise Violation(f"the server answered {fault!r}, and select {columns} {given!r} gave {got!r}")
    # the next one is not affected
    first = ds.select('wdt:P1', list(columns), list(given))
    same("a query after a refused one", first, expect(server.store, 'wdt:P1', columns, given, [dict(args(k, lang))[g] for k, g in zip(columns, given)], lang))


def run_wikidata(case, rec):
    columns, given = case
    server = sparql.Server(store('en'), "https://query.wikidata.org/sparql")
    sparql.install(server)
    ds = WikidataDataSource()
    got = ds.select('wdt:P1', list(columns), list(given))
    same(f"wikidata {columns} {given!r}", got, expect(server.store, 'wdt:P1', columns, given, [dict(args(k, 'en'))[g] for k, g in zip(columns, given)], 'en'))
    require((server.requests[0][2] or {}).get('User-Agent'), "a user agent is sent")
    rec.ev(case)


def spaces(tier):
    kinds = list(KINDS)
    pairs = list(itertools.product(kinds, repeat=2))
    langs = LANGS
    cases = [(p, c, l) for l in langs for p in PREDS for c in pairs]
    fa = []
    for c in pairs:
        for pat in itertools.product((0, 1), repeat=2):
            given = tuple(None if not b else args(k, 'en')[1 + b * 1][0] for b, k in zip(pat, c))
            fa += [(f, c, given, 'en') for f in FAULTS]
    wd = [(c, tuple(args(k, 'en')[i][0] for k, i in zip(c, ix))) for c in pairs for ix in itertools.product((0, 1, 2), repeat=2)]
    N = [10, 16, 17, 32, 33, 50, 64, 65, 99, 100, 101, 128, 129, 200, 256, 257] + ([500, 501] if tier == 'quick' else [500, 501, 999, 1000, 1001])
    big = [(k, n, l) for k in ('rows', 'same', 'text', 'id', 'queries') for n in N for l in LANGS[:2] if k != 'queries' or n < 130]
    return [Space("large", big, run_large, 1), Space("patterns", cases, run, 1), Space("refusals", fa, run_fault), Space("wikidata", wd, run_wikidata)]
