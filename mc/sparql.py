"""
A stand-in for the `requests` module in front of a tiny triple store. It parses the part of SPARQL that a query for one triple pattern
with language filters can be written in, and evaluates it: what is judged is what the query asks, not how it is written.
"""
import json, re, sys, types
from .core import Violation

TOK = re.compile(r"""\s*(?:
  (?P<iri><[^<>"{}|^`\\\x00-\x20]*>)
 |(?P<str>'(?:[^'\\\n\r]|\\.)*'|"(?:[^"\\\n\r]|\\.)*")
 |(?P<lang>@[a-zA-Z]+(?:-[a-zA-Z0-9]+)*)
 |(?P<num>[+-]?(?:\d+\.\d+|\d+)(?:[eE][+-]?\d+)?)
 |(?P<var>[?$]\w+)
 |(?P<pname>[A-Za-z][\w-]*:[\w-]*(?:/[A-Za-z][\w-]*:[\w-]*)*)
 |(?P<word>[A-Za-z]+)
 |(?P<p>\^\^|!=|[{}().,=*;])
)""", re.X)
ESC = {'t': '\t', 'b': '\b', 'n': '\n', 'r': '\r', 'f': '\f', '"': '"', "'": "'", '\\': '\\'}


class BadQuery(Exception):
    pass


def tokens(q):
    pos, out = 0, []
    q = q.rstrip()
    while pos < len(q):
        m = TOK.match(q, pos)
        if not m: raise BadQuery(f"cannot read {q[pos:pos + 30]!r}")
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out + [('end', '')]


def unescape(s):
    def f(m):
        if m[1] in 'uU': return chr(int(m[2] or m[3], 16))
        if m[1] not in ESC: raise BadQuery("bad escape in " + s)
        return ESC[m[1]]
    return re.sub(r'\\(?:(u)([0-9A-Fa-f]{4})|(U)([0-9A-Fa-f]{8})|(.))', lambda m: chr(int(m[2] or m[4], 16)) if (m[1] or m[3]) else f(re.match(r'(.)', m[5])), s[1:-1], flags=re.S)


class Parser:
    def __init__(self, q):
        self.t, self.i = tokens(q), 0

    def peek(self): return self.t[self.i]

    def next(self, kind=None, value=None):
        k, v = self.t[self.i]
        if (kind and k != kind) or (value and v.upper() != value): raise BadQuery(f"expected {value or kind}, found {v!r}")
        self.i += 1
        return v

    def has(self, value):
        k, v = self.t[self.i]
        if k in ('word', 'p') and v.upper() == value:
            self.i += 1
            return True
        return False

    def term(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'iri': return ('iri', v[1:-1])
        if k == 'pname': return ('const', v)
        if k == 'var': return ('var', v[1:])
        if k == 'num': return ('num', float(v))
        if k == 'str':
            if self.peek()[0] == 'lang': return ('text', unescape(v), self.next()[1:].lower())
            return ('text', unescape(v), '')
        raise BadQuery(f"a term expected, found {v!r}")

    def parse(self):
        self.next('word', 'SELECT')
        distinct = self.has('DISTINCT')
        vs = []
        if self.has('*'): vs = None
        else:
            while self.peek()[0] == 'var': vs.append(self.next()[1:])
            if not vs: raise BadQuery("nothing selected")
        self.has('WHERE')
        self.next('p', '{')
        triples, filters = [], []
        while not self.has('}'):
            if self.has('FILTER'):
                if self.has('LANGMATCHES'):
                    self.next('p', '(')
                    f = self.lang()
                    self.next('p', ',')
                    filters.append((f, unescape(self.next('str')).lower()))
                    self.next('p', ')')
                else:
                    self.next('p', '(')
                    if self.peek()[0] == 'str':
                        s = self.next()
                        self.next('p', '=')
                        filters.append((self.lang(), unescape(s).lower()))
                    else:
                        f = self.lang()
                        self.next('p', '=')
                        filters.append((f, unescape(self.next('str')).lower()))
                    self.next('p', ')')
            else:
                s = self.term()
                p = self.term()
                o = self.term()
                triples.append((s, p, o))
                if self.peek()[1] not in ('.', '}') and self.peek()[1].upper() != 'FILTER': raise BadQuery(f"'.' expected, found {self.peek()[1]!r}")
            self.has('.')
        self.next('end')
        return vs, distinct, triples, filters

    def lang(self):
        self.next('word', 'LANG')
        self.next('p', '(')
        v = self.next('var')[1:]
        self.next('p', ')')
        return v


def lang_of(t):
    return t[2] if t[0] == 'text' else ''


def evaluate(store, q):
    """-> (variables, list of bindings)"""
    vs, distinct, triples, filters = Parser(q).parse()
    sols = [{}]
    for pat in triples:
        new = []
        for b in sols:
            for tr in store:
                c = dict(b)
                for x, y in zip(pat, tr):
                    if x[0] == 'var':
                        if c.setdefault(x[1], y) != y: break
                    elif x != y: break
                else:
                    new.append(c)
        sols = new
    for v, lang in filters:
        sols = [b for b in sols if v in b and lang_of(b[v]) == lang]
    seen = sorted({x[1] for t in triples for x in t if x[0] == 'var'})
    if vs is None: vs = seen
    out = [{v: b[v] for v in vs if v in b} for b in sols]
    if distinct:
        out = [b for i, b in enumerate(out) if b not in out[:i]]
    return vs, out


def value_of(t):
    if t[0] == 'num': return repr(int(t[1]) if t[1] == int(t[1]) else t[1])
    return t[1]


def to_json(t):
    if t[0] == 'iri': return {'type': 'uri', 'value': t[1]}
    if t[0] == 'const': return {'type': 'uri', 'value': t[1]}
    if t[0] == 'num': return {'datatype': 'http://www.w3.org/2001/XMLSchema#decimal', 'type': 'literal', 'value': value_of(t)}
    return {'xml:lang': t[2], 'type': 'literal', 'value': t[1]}


class Response:
    def __init__(self, status, text):
        self.status_code, self.text, self.content, self.ok, self.reason = status, text, text.encode(), status < 400, ''
        self.headers = {}

    def json(self): return json.loads(self.text)

    def raise_for_status(self):
        if self.status_code >= 400: raise HTTPError(str(self.status_code))


class RequestException(IOError): pass
class HTTPError(RequestException): pass
class ConnectionError_(RequestException): pass
class Timeout(RequestException): pass


class Server:
    """plays the endpoint; `plan` is consumed per request: 'ok', a status, 'drop', 'timeout', 'html', 'cut', 'shuffle'"""
    def __init__(self, store, url):
        self.store, self.url, self.requests, self.plan = store, url, [], []
        self.headers = None

    def get(self, url, params=None, headers=None, **kw):
        self.requests.append((url, dict(params or {}), headers))
        what = self.plan.pop(0) if self.plan else 'ok'
        if url != self.url: raise Violation(f"request sent to {url!r} instead of {self.url!r}")
        if (params or {}).get('format') != 'json': raise Violation("JSON not asked for")
        if self.headers is not None and headers != self.headers: raise Violation(f"headers {headers!r} sent instead of {self.headers!r}")
        if what == 'drop': raise ConnectionError_("connection dropped")
        if what == 'timeout': raise Timeout("timeout")
        if what == 'html': return Response(200, "<html>try later</html>")
        if isinstance(what, tuple): return Response(*what)
        if isinstance(what, int): return Response(what, "refused" if what != 400 else '{"error": "bad"}')
        try:
            vs, sols = evaluate(self.store, params['query'])
        except BadQuery as e:
            return Response(400, "Bad query: " + str(e))
        if what == 'shuffle': sols = sols[::-1]
        text = json.dumps({'head': {'vars': vs}, 'results': {'bindings': [dict(sorted(((v, to_json(t)) for v, t in b.items()), reverse=True)) for b in sols]}}, ensure_ascii=(what == 'shuffle'))
        if what == 'cut': text = text[:len(text) // 2]
        return Response(200, text)


def install(server):
    """makes `import requests` give the stand-in"""
    m = types.ModuleType('requests')
    m.get = server.get
    m.request = lambda method, url, **kw: server.get(url, **kw)
    ex = types.ModuleType('requests.exceptions')
    for n, c in [('RequestException', RequestException), ('HTTPError', HTTPError), ('ConnectionError', ConnectionError_), ('Timeout', Timeout)]:
        setattr(m, n, c)
        setattr(ex, n, c)
    m.exceptions = ex

    class Session:
        def __init__(self): self.headers = {}
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def get(self, url, **kw): return server.get(url, **kw)
    m.Session = Session
    sys.modules['requests'] = m
    sys.modules['requests.exceptions'] = ex
