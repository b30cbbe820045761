"""Questions about small worlds: every sentence of a fragment up to a depth x every world, through the whole system, against the truth in that world."""
import itertools
from mc import impl
from mc.core import Space, Violation, require
from mc.impl import Variable, Relation, ReifiedVariable, Range, Body, apply, SemanticTemplate

PROP = "C26"
LEVEL = "exploration"
RULE = ("one evaluation = one question asked to the whole system (read grammar, composer, with or without optimiser, executor, intents as inference rules, write grammar) about one world, twice, "
        "its replies compared with the truth value, set or number computed from the world by a direct evaluation of the question; the data must be unchanged; "
        "non-trivial = the question has a different answer in another world of the space")
ASSUMPTIONS = ["the subject takes scope over the object", "'every' says that there is at least one", "'two' says exactly two", "the sentences are unambiguous in the grammar used",
               "readings of a sentence are computed once per case and reused for the next worlds"]

E1, E2, E3, E4 = (Variable('E%d' % i) for i in range(1, 5))
e1 = ReifiedVariable('E1')
NAMES = ['ann', 'bob', "o'neil"] + ['n' + a + b for a in 'abcdefghijkl' for b in 'abcdefghijklmnopqrstuvwxyz']


def rules():
    det = lambda f: SemanticTemplate([Range, Body], f)
    return [
        {"syn": "s(V) -> 'does' np(E1) vpb(E1) + '?'", "sem": lambda np, vp: [('intent_yn', apply(np, vp))]},
        {"syn": "s(V) -> 'is' np(E1) pred(E1) + '?'", "sem": lambda np, p: [('intent_yn', apply(np, p))]},
        {"syn": "s(V) -> 'is' 'there' np(E1) + '?'", "sem": lambda np: [('intent_yn', apply(np, []))]},
        {"syn": "s(V) -> 'which' nbar(E1) vp(E1) + '?'", "sem": lambda n, vp: [('intent_list', e1, n + vp)]},
        {"syn": "s(V) -> 'how' 'many' nbar(E1) vp(E1) + '?'", "sem": lambda n, vp: [('intent_value', ReifiedVariable('E2'), [('count', E2, n + vp)])]},
        {"syn": "vp(E1) -> tv(E1, E2) np(E2)", "sem": lambda tv, np: apply(np, tv)},
        {"syn": "vp(E1) -> 'is' pred(E1)", "sem": lambda p: p},
        {"syn": "vp(E1) -> 'does' 'not' vpb(E1)", "sem": lambda vp: [('not', vp)]},
        {"syn": "vpb(E1) -> tvb(E1, E2) np(E2)", "sem": lambda tv, np: apply(np, tv)},
        {"syn": "pred(E1) -> adj(E1)", "sem": lambda a: a},
        {"syn": "pred(E1) -> 'older' 'than' np(E2)", "sem": lambda np: apply(np, [('age', E1, E3), ('age', E2, E4), ('greater_than', E3, E4)])},
        {"syn": "np(E1) -> name(E1)", "sem": lambda n: SemanticTemplate([Body], n + Body)},
        {"syn": "np(E1) -> det(E1) nbar(E1)", "sem": lambda d, n: SemanticTemplate([Body], apply(d, n, Body))},
        {"syn": "det(E1) -> 'a'", "sem": lambda: det([('scoped', Range + Body)])},
        {"syn": "det(E1) -> 'every'", "sem": lambda: det([('scoped', [('all', E1, Range, Body)])])},
        {"syn": "det(E1) -> 'no'", "sem": lambda: det([('none', Range + Body)])},
        {"syn": "det(E1) -> 'two'", "sem": lambda: det([('det_equals', Range + Body, 2)])},
        {"syn": "det(E1) -> 'more' 'than' 'one'", "sem": lambda: det([('det_greater_than', Range + Body, 1)])},
        {"syn": "det(E1) -> 'less' 'than' 'two'", "sem": lambda: det([('det_less_than', Range + Body, 2)])},
        {"syn": "nbar(E1) -> noun(E1)", "sem": lambda n: n},
        {"syn": "nbar(E1) -> adj(E1) nbar(E1)", "sem": lambda a, n: a + n},
        {"syn": "nbar(E1) -> noun(E1) 'that' vp(E1)", "sem": lambda n, vp: n + vp},
        {"syn": "noun(E1) -> 'cat'", "sem": lambda: [('cat', E1)]},
        {"syn": "noun(E1) -> 'animal'", "sem": lambda: [('animal', E1)]},
        {"syn": "adj(E1) -> 'tall'", "sem": lambda: [('tall', E1)]},
        {"syn": "tv(E1, E2) -> 'likes'", "sem": lambda: [('likes', E1, E2)]},
        {"syn": "tv(E1, E2) -> 'adores'", "sem": lambda: [('adores', E1, E2)]},
        {"syn": "tvb(E1, E2) -> 'like'", "sem": lambda: [('likes', E1, E2)]},
        {"syn": "tvb(E1, E2) -> 'adore'", "sem": lambda: [('adores', E1, E2)]},
        {"syn": "name(E1) -> /[a-z']+/", "sem": lambda n: [('resolve_name', n, E1)]},
    ]


INTENTS = """
intent_yn(Body) :- ( scoped(Body), store(output_type('yes')) ; store(output_type('no')) ).
intent_list(E1, Sem) :- find_all(E1, Sem, Elements), store(output_type('list'), output_list(Elements)).
intent_value(Variable, Sem) :- find_one(Variable, Sem, Result), store(output_type('value'), output_value(Result)).
adores(A, C) :- likes(A, B), likes(B, C).
adores(E1, E1) :- tall(E1), cat(E1).
"""


class World(impl.SomeModule):
    """relations over python rows or over SQLite tables"""
    def __init__(self, sql):
        super().__init__()
        self.sql = sql
        self.rows = {}
        if sql:
            import sqlite3
            from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
            self.ds = Sqlite3DataSource(sqlite3.connect(':memory:'))
            for t, c in self.COLS.items():
                self.ds.insert  # noqa
                self.ds.connection.execute(f"CREATE TABLE {t} ({', '.join(c)})")
        for t, n, size, args in (('cat', 1, 10, [10]), ('animal', 1, 100, [100]), ('tall', 1, 50, [50]), ('likes', 2, 1000, [100, 50]), ('age', 2, 100, [100, 10])):
            self.add_relation(Relation(t, query_function=self.q, relation_size=size, argument_sizes=args))
        self.add_relation(Relation('adores', query_function=lambda v, c: [], relation_size=1000, argument_sizes=[100, 50]))
        self.add_relation(Relation('resolve_name', query_function=self.name))

    COLS = {'cat': ['c0'], 'animal': ['c0'], 'tall': ['c0'], 'likes': ['c0', 'c1'], 'age': ['c0', 'c1']}

    def set(self, w):
        n, cats, tall, likes, ages = w
        self.rows = {'cat': [[x] for x in cats], 'animal': [[x] for x in range(n)], 'tall': [[x] for x in tall], 'likes': [list(p) for p in likes], 'age': [[x, a] for x, a in enumerate(ages)]}
        if self.sql:
            for t, c in self.COLS.items():
                self.ds.delete(t, c, [None] * len(c)) if False else self.ds.connection.execute(f"DELETE FROM {t}")
                for r in self.rows[t]: self.ds.insert(t, c, r)

    def state(self):
        return {t: [list(r) for r in self.ds.select(t, c, [None] * len(c))] for t, c in self.COLS.items()} if self.sql else {t: [list(r) for r in rs] for t, rs in self.rows.items()}

    def q(self, values, context):
        t = context.relation.predicate
        if self.sql: return self.ds.select(t, self.COLS[t], values)
        return [list(r) for r in self.rows[t] if all(v is None or v == x for v, x in zip(values, r))]

    def name(self, values, context):
        return [[values[0], NAMES.index(values[0])]] if values[0] in NAMES else []


class System:
    def __init__(self, optimizer, sql=False):
        self.world = World(sql)
        buf = impl.BasicOutputBuffer()
        inf = impl.InferenceModule()
        import os, tempfile
        with tempfile.NamedTemporaryFile('w', suffix='.pl', delete=False) as f: f.write(INTENTS)
        inf.import_rules(f.name)
        os.unlink(f.name)
        self.model = impl.Model([self.world, inf, buf])
        self.parser = parser = impl.BasicParser(impl.read_grammar(rules()))
        real, memo = parser.process, {}

        def process(request):
            if request.text not in memo:
                memo.clear()
                memo[request.text] = real(request)
            return memo[request.text]
        parser.process = process
        composer = impl.SemanticComposer(parser, query_optimizer=impl.BasicQueryOptimizer(self.model) if optimizer else None)
        executor = impl.AtomExecutor(composer, self.model)
        write = impl.write_grammar(impl.get_en_us_write_grammar() + [
            {"syn": "s() -> 'Yes'", "if": [('output_type', 'yes')]}, {"syn": "s() -> 'No'", "if": [('output_type', 'no')]},
            {"syn": "s() -> format(E1)", "if": [('output_type', 'list'), ('output_list', E1)], "format": lambda l: ', '.join(NAMES[x] for x in sorted(l)) or 'nobody'},
            {"syn": "s() -> text(E1)", "if": [('output_type', 'value'), ('output_value', E1)]}])
        self.system = impl.System(model=self.model, input_pipeline=[impl.FindOne(parser), impl.FindOne(composer), impl.FindOne(executor)],
                                  output_generator=impl.BasicGenerator(write, self.model, buf))

    def ask(self, text):
        self.system.enter(impl.SentenceRequest(text))
        return self.system.read_output()


# ---- the fragment, as data
def np_text(n): return n[1] if n[0] == 'name' else n[0] + ' ' + nbar_text(n[1])


def nbar_text(n):
    if n[0] == 'noun': return n[1]
    if n[0] == 'adj': return 'tall ' + nbar_text(n[1])
    return n[1] + ' that ' + vp_text(n[2])


def vp_text(v):
    if v[0] == 'not': return 'does not ' + vpb_text(v[1])
    if v[0] in ('like', 'adore'): return v[0] + 's ' + np_text(v[1])
    return 'is ' + pred_text(v)


def vpb_text(v): return v[0] + ' ' + np_text(v[1])
def pred_text(v): return 'tall' if v[0] == 'tall' else 'older than ' + np_text(v[1])


def text(q):
    if q[0] == 'does': return f"does {np_text(q[1])} {vpb_text(q[2])}?"
    if q[0] == 'is': return f"is {np_text(q[1])} {pred_text(q[2])}?"
    if q[0] == 'there': return f"is there {np_text(q[1])}?"
    return f"{ {'which': 'which', 'many': 'how many'}[q[0]]} {nbar_text(q[1])} {vp_text(q[2])}?"


class Truth:
    def __init__(self, w):
        n, cats, tall, likes, ages = w
        self.all, self.cats, self.tall, self.likes, self.ages = range(n), set(cats), set(tall), set(likes), ages
        self.adores = {(a, c) for a, b in self.likes for b2, c in self.likes if b == b2} | {(x, x) for x in self.tall & self.cats}

    def np(self, n, p):
        if n[0] == 'name': return p(NAMES.index(n[1]))
        r = [x for x in self.all if self.nbar(n[1], x)]
        k = sum(1 for x in r if p(x))
        return {'a': k > 0, 'every': k == len(r) > 0, 'no': k == 0, 'two': k == 2, 'more than one': k > 1, 'less than two': k < 2}[n[0]]

    def nbar(self, n, x):
        if n[0] == 'noun': return n[1] == 'animal' or x in self.cats
        if n[0] == 'adj': return x in self.tall and self.nbar(n[1], x)
        return (n[1] == 'animal' or x in self.cats) and self.vp(n[2], x)

    def vp(self, v, x):
        if v[0] == 'not': return not self.vp(v[1], x)
        if v[0] == 'like': return self.np(v[1], lambda y: (x, y) in self.likes)
        if v[0] == 'adore': return self.np(v[1], lambda y: (x, y) in self.adores)
        if v[0] == 'tall': return x in self.tall
        return self.np(v[1], lambda y: self.ages[x] > self.ages[y])

    def answer(self, q):
        if q[0] in ('does', 'is'): return 'Yes' if self.np(q[1], lambda x: self.vp(q[2], x)) else 'No'
        if q[0] == 'there': return 'Yes' if self.np(q[1], lambda x: True) else 'No'
        s = [x for x in self.all if self.nbar(q[1], x) and self.vp(q[2], x)]
        return (', '.join(NAMES[x] for x in s) or 'nobody') if q[0] == 'which' else str(len(s))


# ---- sentences
DETS = ['a', 'every', 'no', 'two', 'more than one', 'less than two']
NOUNS = [('noun', 'cat'), ('noun', 'animal')]
N0 = [('name', 'ann'), ('name', 'bob')]
NP1 = N0 + [(d, n) for d in DETS for n in NOUNS]


def vps(nps, neg=True):
    out = [('tall',)]
    for n in nps:
        out += [('like', n), ('adore', n), ('older', n)]
        if neg: out += [('not', ('like', n)), ('not', ('adore', n))]
    return out


def nbars(vs): return [('adj', NOUNS[0]), ('adj', ('adj', NOUNS[1]))] + [('rel', n[1], v) for n in NOUNS for v in vs]


def questions(tier):
    V1 = vps(NP1)
    q = [('does', a, v) for a in NP1 for v in V1 if v[0] in ('like', 'adore')]
    q += [('is', a, v) for a in NP1 for v in V1 if v[0] in ('tall', 'older')]
    B1 = nbars(V1)
    q += [('there', (d, b)) for d in DETS for b in NOUNS + B1]
    q += [(f, n, v) for f in ('which', 'many') for n in NOUNS + B1[:3] for v in V1]
    # one level deeper
    few = [('rel', 'cat', ('like', ('every', NOUNS[1]))), ('rel', 'animal', ('not', ('like', ('a', NOUNS[0])))), ('rel', 'animal', ('older', ('a', NOUNS[0]))), ('rel', 'cat', ('adore', ('name', 'ann'))),
           ('adj', ('rel', 'cat', ('like', ('two', NOUNS[1]))))]
    NP2 = [(d, b) for d in DETS for b in (few if tier == 'quick' else B1)]
    q += [('does', a, (t, b)) for t in ('like', 'adore') for a in (NP1[:6] if tier == 'quick' else NP1) for b in NP2[::1 if tier != 'quick' else 2]]
    q += [('does', a, (t, b)) for t in ('like', 'adore') for a in NP2[::1 if tier != 'quick' else 2] for b in NP1[:6]]
    q += [('is', a, ('older', b)) for a in NP2[::3] for b in NP1[:8]]
    q += [(f, n, v) for f in ('which', 'many') for n in [NOUNS[1]] + few[:2] for v in vps(NP2[::5 if tier == 'quick' else 1])]
    if tier != 'quick':
        q += [('does', a, ('like', b)) for a in [(d, b) for d in DETS for b in few] for b in [(d, b) for d in DETS for b in few]]
        q += [('there', (d, ('rel', 'cat', v))) for d in DETS[:3] for v in vps([(d2, ('rel', 'animal', ('like', (d3, few[i])))) for d2 in DETS for d3 in DETS for i in (0, 1)])]
    return list(dict.fromkeys(q))


def subsets(xs): return [tuple(c) for k in range(len(xs) + 1) for c in itertools.combinations(xs, k)]


def worlds(tier):
    two = [(2, c, t, l, a) for c in subsets((0, 1)) for l in subsets(list(itertools.product((0, 1), repeat=2))) for t, a in (((), (0, 0)), ((0,), (1, 0)), ((1,), (0, 5)), ((0, 1), (-1, -2)))]
    pairs = list(itertools.product(range(3), repeat=2))
    base = [(3, c, t, l, a) for c in ((0, 1, 2), (0, 2), (1,)) for t, a in (((2,), (0, 7, 3)), ((0, 1), (5, 5, 0)))
            for l in subsets(pairs) if len(l) in (2, 3, 7)]
    if tier == 'quick': return two[::3] + base[::61]
    return two + base[::5]


def check(case, rec):
    opt, sql, qs, ws = case
    s = System(opt, sql)
    ws = worlds(ws[1])[ws[2]::ws[3]] if ws[0] == 'worlds' else ws
    truths = [Truth(w) for w in ws]
    for q in qs:
        t = text(q)
        exps = [tr.answer(q) for tr in truths]
        varied = len(set(exps)) > 1
        for w, exp in zip(ws, exps):
            s.world.set(w)
            before = s.world.state()
            got = s.ask(t)
            if got == exp: again = s.ask(t)
            if got != exp or again != exp or s.world.state() != before:
                raise Violation(f"world (number of entities, cats, tall, likes, ages) = {w}\n   {t!r}: expected {exp!r}, got {got!r}" + (f" and then {again!r}" if got == exp else ''))
            rec.ev((opt, sql, t, w), varied, exp if len(exp) < 4 else 'names')


def large(case, rec):
    """large worlds, simple questions"""
    n, opt, sql, shape = case
    cats, tall = tuple(range(0, n, 2)), tuple(range(0, n, 3))
    likes = {'ring': [(i, (i + 1) % n) for i in range(n)], 'star': [(0, i) for i in range(n)] + [(i, n - 1) for i in range(1, n)], 'few': [(n - 1, n - 2), (1, n - 1)], 'most': [(i, 0) for i in range(n - 1)]}[shape]
    w = (n, cats, tall, tuple(likes), tuple((i * 7) % n if shape != 'few' else 5 + (i == n - 1) for i in range(n)))
    C, A = NOUNS
    some = [('name', 'ann'), ('name', NAMES[n - 1]), ('a', C), ('every', A), ('no', C), ('two', A), ('more than one', C)]
    qs = [(f, x, v) for f in ('which', 'many') for x in (C, A, ('adj', C)) for v in [('tall',), ('like', some[0]), ('like', some[1]), ('not', ('like', some[1])), ('like', ('a', C)), ('like', ('no', C)), ('older', some[0]), ('older', some[1]), ('like', ('two', A))]]
    qs += [('does', x, ('like', y)) for x in some for y in (some[1], ('a', C), ('two', A))] + [('does', x, ('adore', some[1])) for x in some] + [('there', (d, b)) for d in DETS for b in (C, ('adj', A), ('rel', 'cat', ('like', some[1])))] + [('is', x, ('older', some[1])) for x in some]
    s, truth = System(opt, sql), Truth(w)
    s.world.set(w)
    before = s.world.state()
    for q in qs:
        t, exp = text(q), truth.answer(q)
        got = s.ask(t)
        require(got == exp, lambda: f"a world of {n} ({shape}), optimiser {opt}: {t!r}: expected {exp[:300]!r}, got {str(got)[:300]!r}")
        rec.ev((case, t), True, exp if len(exp) < 4 else 'names')
    require(s.world.state() == before, f"a world of {n} ({shape}): the data changed")


def spaces(tier):
    qs = questions('quick')
    chunks = [tuple(qs[i:i + 6]) for i in range(0, len(qs), 6)]
    stride = 6 if tier == 'quick' else 1
    part = lambda i, k: ('worlds', tier, i * 5 % k, k)
    out = [Space('questions about worlds, ' + ('optimised' if o else 'as composed'), [(o, False, c, part(i, stride)) for i, c in enumerate(chunks)], check, chunk=2) for o in (False, True)]
    out.append(Space('worlds in SQLite', [(True, True, c, ('worlds', tier, i % (stride * 4), stride * 4)) for i, c in enumerate(chunks)], check, chunk=2))
    N = [4, 10, 11, 17, 33, 50, 65, 100, 101] if tier == 'quick' else [4, 5, 10, 11, 16, 17, 32, 33, 50, 64, 65, 99, 100, 101, 128, 129, 200]
    out.insert(0, Space('large worlds', [(n, o, o and n % 2 == 0, sh) for n in N for o in (False, True) for sh in ('ring', 'star', 'few', 'most') if sh != 'star' or n < 99 or o], large, 1))
    if tier != 'quick':
        known = set(qs)
        deep = [q for q in questions(tier) if q not in known]
        chunks = [tuple(deep[i:i + 10]) for i in range(0, len(deep), 10)]
        out += [Space('deeper questions, ' + ('optimised' if o else 'as composed'), [(o, False, c, part(i, 41)) for i, c in enumerate(chunks)], check, chunk=10) for o in (False, True)]
    return out
