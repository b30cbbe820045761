"""Several languages: all orders of locales with all outcome tables of their processors, and real grammars with shared words against each language alone."""
import itertools
from mc.core import Space, Violation, require, same
from mc import impl
from mc.impl import Variable, Relation, SomeProcessor, ProcessResult, SentenceRequest
from richard.processor.language_selector.LanguageSelector import LanguageSelector
from richard.processor.language_selector.Multilingual import Multilingual

PROP = "C23"
LEVEL = "exploration"
RULE = ("(1) for all orders and subsets of three locales, all assignments of processors and all outcome tables of two multilingual steps, the calls, the result and the reported error are "
        "compared with the definition; (2) for real grammars that share words, every sentence up to a length over the vocabulary gets the reply of a system for the first language that can process it")
ASSUMPTIONS = ["'alone' in (2) means a system with that language only, which other checks decide"]

LOCALES = ['en_US', 'nl_NL', 'de']
E1, E2, E3 = Variable('E1'), Variable('E2'), Variable('E3')


# ---- (1) outcome tables: per locale an error (0) or readings, each of which the second step refuses (0) or accepts with n products
class Prod:
    def __init__(self, name): self.name = name
    def get_output(self): return self.name
    def log(self, logger): logger.add(str(self.name))


class Step(SomeProcessor):
    def __init__(self, step, locale, world):
        super().__init__()
        self.step, self.locale, self.world = step, locale, world

    def get_name(self): return f"step {self.step} {self.locale}"

    def process(self, request):
        w = self.world
        lang = request.get_current_product(w.selector).get_output()
        if self.step == 1:
            w.calls.append((1, self.locale, lang))
            out = w.table[self.locale]
            if out == 0: return ProcessResult([], 'err_one', [self.locale])
            return ProcessResult([Prod((self.locale, i)) for i in range(len(out))], '')
        cur = request.get_current_product(w.first).get_output()
        w.calls.append((2, self.locale, lang, cur))
        n = w.table[cur[0]][cur[1]]
        if n == 0: return ProcessResult([], 'err_two', [self.locale, repr(cur)])
        return ProcessResult([Prod(cur + (k,)) for k in range(n)], '')


class World: pass


def expected(order, have1, have2, table):
    """-> calls, result or None, error or None, exception?"""
    calls, err = [], None
    for l in order:
        if l not in have1: return calls, None, None, l
        calls.append((1, l, l))
        out = table[l]
        if out == 0:
            err = err or ('err_one', [l])
            continue
        for i, n in enumerate(out):
            if l not in have2: return calls, None, None, l
            calls.append((2, l, l, (l, i)))
            if n: return calls, (l, i, 0), None, None
            err = err or ('err_two', [l, repr((l, i))])
    return calls, None, err, None


def run_tables(case, rec):
    order, have1, have2 = case
    w = World()
    w.selector = LanguageSelector(list(order))
    # registered in the reverse order, and more of them than are asked for
    w.first = Multilingual({l: Step(1, l, w) for l in have1}, w.selector)
    w.second = Multilingual({l: Step(2, l, w) for l in reversed(have2)}, w.selector)
    buf = impl.BasicOutputBuffer()
    buf.add_relation(Relation('output_err_one', arguments=['x']))
    buf.add_relation(Relation('output_err_two', arguments=['x', 'y']))
    model = impl.Model([buf])
    solver = impl.Solver(model)
    system = impl.System(model=model, input_pipeline=[impl.FindOne(w.selector), impl.FindOne(w.first), impl.FindOne(w.second)])
    outs = [0] + list(itertools.product((0, 1, 2), repeat=1)) + list(itertools.product((0, 1), repeat=2))
    # with more than three locales: all fail but one
    k = len(order)
    outcomes = itertools.product(outs, repeat=k) if k <= 3 else [bad[:i] + (good,) + bad[i + 1:] for bad in ((0,) * k, ((0, 0),) * k) for i in range(k) for good in (0, (0, 1), (2,), (0,))]
    for outcome in outcomes:
        w.table, w.calls = dict(zip(order, outcome)), []
        calls, result, err, missing = expected(order, have1, have2, w.table)
        where = f"locales {order}, processors for {have1} and {have2}, outcomes {w.table}"
        req = SentenceRequest("x")
        try:
            got = system.enter(req)
            raised = None
        except Exception as e:
            got, raised = None, str(e)
        require((raised is not None) == (missing is not None), lambda: f"{where}: " + (f"raised {raised}" if raised else f"no error for the missing processor of {missing}"))
        if raised is not None: require(missing in raised, lambda: f"{where}: the error {raised!r} does not name {missing}")
        same(where + ": calls", w.calls, calls)
        same(where + ": result", got, result)
        if result:
            same(where + ": locale of the result", req.get_current_product(w.selector).get_output(), result[0])
            same(where + ": reading", req.get_current_product(w.first).get_output(), result[:2])
        errors = solver.solve([('output_type', E1)])
        same(where + ": error", [b['E1'] for b in errors], [err[0]] if err else [])
        if err: same(where + ": arguments", [list(b.values()) for b in solver.solve([('output_' + err[0], *[E1, E2][:len(err[1])])])], [err[1]])
        buf.clear()
        rec.ev((order, have1, have2, outcome), True, (len(order), result[:2] if result else err[0] if err else 'missing'))


# ---- (2) real grammars
GRAMMARS = {
    # every locale has its own meaning for shared words
    'en_US': [
        {"syn": "s(V) -> 'is' np(E1) 'die'", "sem": lambda n: n + [('found', 'en is die', E1)]},
        {"syn": "s(V) -> np(E1) 'was' np(E2)", "sem": lambda a, b: a + b + [('found', 'en was', E1), ('same', E1, E2)]},
        {"syn": "s(V) -> 'die'", "sem": lambda: [('found', 'en die', 'k')]},
        {"syn": "np(E1) -> 'ann'", "sem": lambda: [('name', E1, 'ann')]},
        {"syn": "np(E1) -> 'bob'", "sem": lambda: [('name', E1, 'bob')]},
    ],
    'nl_NL': [
        {"syn": "s(V) -> 'is' 'die' np(E1)", "sem": lambda n: n + [('found', 'nl is die', E1)]},
        {"syn": "s(V) -> np(E1) 'was' np(E2)", "sem": lambda a, b: a + b + [('found', 'nl was', E2)]},
        {"syn": "s(V) -> np(E1) 'was' np(E2)", "sem": lambda a, b: a + b + [('found', 'nl was ook', E1)]},
        {"syn": "np(E1) -> 'die'", "sem": lambda: [('name', E1, 'die')]},
        {"syn": "np(E1) -> 'ann'", "sem": lambda: [('name', E1, 'anna')]},
    ],
    'de': [
        {"syn": "s(V) -> 'die' np(E1)", "sem": lambda n: n + [('found', 'de die', E1)]},
        {"syn": "s(V) -> np(E1) 'was' np(E2)?".replace('?', ''), "sem": lambda a, b: a + b + [('found', 'de was', E2)]},
        {"syn": "s(V) -> np(E1)", "sem": lambda a: a + [('found', 'de', E1)]},
        {"syn": "np(E1) -> 'bob'", "sem": lambda: [('name', E1, 'bob')]},
        {"syn": "np(E1) -> 'die'", "sem": lambda: [('name', E1, 'dd')]},
    ],
}
WORDS = ['is', 'die', 'ann', 'bob', 'was']
NAMES = [(1, 'ann'), (2, 'bob'), (3, 'anna'), (2, 'die')]


class Data(impl.SomeModule):
    def __init__(self, buf):
        super().__init__()
        self.add_relation(Relation('name', query_function=self.name))
        self.add_relation(Relation('same', query_function=lambda v, c: [[x, x] for x in (1, 2, 3)]))
        self.add_relation(Relation('found', query_function=self.found))

    def name(self, values, context):
        return [list(r) for r in NAMES if all(v is None or v == x for v, x in zip(values, r))]

    def found(self, values, context):
        return [values]


class Check(SomeProcessor):
    """refuses meanings without a result, and puts the others in the output buffer"""
    def __init__(self, executor, composer, model):
        super().__init__()
        self.executor, self.composer, self.model = executor, composer, model

    def get_name(self): return 'check'

    def process(self, request):
        b = request.get_current_product(self.executor).bindings
        if not b: return ProcessResult([], 'no_result', [])
        sem = request.get_current_product(self.composer).get_output()
        tag = [a[1] for a in sem if a[0] == 'found'][0]
        return ProcessResult([Prod((tag, sorted(repr(sorted((k[0], v) for k, v in x.items())) for x in b)))], '')


def system(locales, strict):
    buf = impl.BasicOutputBuffer()
    buf.add_relation(Relation('output_no_result', arguments=[]))
    model = impl.Model([Data(buf), buf])
    sel = LanguageSelector(list(locales))
    parsers = {l: impl.BasicParser(impl.read_grammar(GRAMMARS[l])) for l in LOCALES}
    if len(locales) == 1:
        parser, first = parsers[locales[0]], []
    else:
        parser, first = Multilingual(parsers, sel), [impl.FindOne(sel)]
    composer = impl.SemanticComposer(parser)
    executor = impl.AtomExecutor(composer, model)
    check = Check(executor, composer, model)
    blocks = first + [impl.FindOne(parser), impl.FindOne(composer), impl.FindOne(executor)] + ([impl.FindOne(check)] if strict else [])
    gen = impl.BasicGenerator(impl.write_grammar(impl.get_en_us_write_grammar() + [{"syn": "s() -> 'nothing found'", "if": [('output_type', 'no_result')]}]), model, buf)
    return impl.System(model=model, input_pipeline=blocks, output_generator=gen)


def answer(sys_, text, strict):
    got = sys_.enter(SentenceRequest(text))
    if got is None: return ('error', sys_.read_output())
    if strict: return ('ok', got)
    return ('ok', sorted(repr(sorted((k[0], v) for k, v in b.items())) for b in got))


def run_real(case, rec):
    order, strict, texts = case
    multi = system(order, strict)
    alone = {l: system([l], strict) for l in order}
    for t in texts:
        each = [answer(alone[l], t, strict) for l in order]
        good = [x for x in each if x[0] == 'ok']
        exp = good[0] if good else each[0]
        got = answer(multi, t, strict)
        same(f"locales {order}, sentence {t!r}", got, exp)
        rec.ev((order, strict, t), bool(good), (order[[x[0] for x in each].index('ok')] if good else 'none', len(good)))


def spaces(tier):
    q = tier == 'quick'
    orders = [o for n in (1, 2, 3) for o in itertools.permutations(LOCALES, n)]
    subs = [tuple(s) for n in (0, 1, 2, 3) for s in itertools.combinations(LOCALES, n)]
    tables = [(o, a, b) for o in orders for a in subs for b in subs if (len(a) >= 2 and len(b) >= 2) or len(o) < 3 or not q]
    # names that look alike, and many of them
    alike = ['en_US', 'en_GB', 'en', 'EN', 'en-US', 'en_us', 'e', 'en_US.UTF-8', ' en', '0', 'nl_BE', 'nl_NL']
    for o in itertools.permutations(alike, 2): tables += [(o, o, o), (o[:1], o[1:], o[1:]), (o, o[1:], o), (o, o, o[1:])]
    for n in (4, 5, 8, 9, 10, 11, 12):
        for o in (alike[:n], alike[:n][::-1], alike[n // 2:] + alike[:n // 2]): tables.append((tuple(o), tuple(o), tuple(o[::-1])))
    for n in (16, 17, 20, 33, 64, 65, 100, 101):
        o = tuple(f"l{i}" for i in range(n))
        tables.append((o, o, o))
    d = 5 if q else 6
    texts = [' '.join(w) for n in range(d + 1) for w in itertools.product(WORDS, repeat=n)] + ['xyz', 'ann xyz', 'die xyz', 'is die xyz', 'Ann was Bob', 'is  die']
    real = [(o, strict, texts[i:i + 60]) for o in orders if len(o) > 1 for strict in (False, True) for i in range(0, len(texts), 60)]
    return [Space("outcome tables", tables, run_tables, 4), Space("sentences", real, run_real)]
