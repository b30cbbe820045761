"""Logging: every logger configuration with every sentence kind, against the same system without logging; the log against the products themselves."""
import io, itertools, re, contextlib
from mc.core import Space, Violation, require, same
from mc import impl
from mc.impl import Variable, Relation, SomeProcessor, ProcessResult, SentenceRequest
from richard.core.DialogTester import DialogTester
from richard.core.Logger import Logger
from richard.processor.language_selector.LanguageSelector import LanguageSelector
from richard.processor.language_selector.Multilingual import Multilingual

PROP = "C24"
LEVEL = "exploration"
RULE = ("every logger configuration (which tests, is it the last, products of every subset of processors, statistics) with every sentence kind and pair of sentences, and every dialogue with "
        "repeated tests through the dialogue tester; answers, errors and state must be those without logging, and the log must hold exactly what the configuration asks for")
ASSUMPTIONS = ["dialogue tests that pass (a failing test is always shown)"]

E1, E2, E3 = Variable('E1'), Variable('E2'), Variable('E3')
ANSI = re.compile('\033\\[[0-9;]*m')


class Facts(impl.SomeModule):
    def __init__(self):
        super().__init__()
        self.rows = [['ann', 'bob'], ['bob', "o'x"], ['cy', 0]]
        self.add_relation(Relation('likes', query_function=self.likes, write_function=lambda v, c: self.rows.append(list(v)), relation_size=100, argument_sizes=[10, 10]))
        self.add_relation(Relation('boom', query_function=self.boom))
        self.add_relation(Relation('odd', query_function=lambda v, c: [[x] for x in ([1, ('a', None)], {'k': 'v'}, "a\nb", '')]))

    def likes(self, values, context):
        return [list(r) for r in self.rows if all(v is None or v == x for v, x in zip(values, r))]

    def boom(self, values, context):
        raise ZeroDivisionError("boom")


def out(t, *v):
    return [('store', [('output_type', t)] + ([('output_value', *v)] if v else []))]


RULES = [
    {"syn": "s(V) -> 'who' 'likes' name(E1)", "sem": lambda n: n + [('likes', E2, E1)] + out('value', E2)},
    {"syn": "s(V) -> 'who' 'likes' name(E1)", "sem": lambda n: n + [('likes', E1, E2)] + out('value', E2)},
    {"syn": "s(V) -> name(E1) 'likes' name(E2)", "sem": lambda a, b: a + b, "exec": lambda a, b: a + b + [('store', [('likes', E1, E2)])], "dialog": [('mood', 'fine')]},
    {"syn": "s(V) -> 'explode'", "sem": lambda: [('boom', E1)]},
    {"syn": "s(V) -> 'odd'", "sem": lambda: [('odd', E1)]},
    {"syn": "s(V) -> 'none'", "sem": lambda: [('likes', 'zed', E1)]},
    {"syn": "s(V) -> 'hello'", "sem": lambda: [], "dialog": [('mood', 'good')]},
    {"syn": "s(V) -> 'mood'", "sem": lambda: [('mood', E1)] + out('value', E1)},
    {"syn": "s(V) -> 'count'", "sem": lambda: [('count', E3, [('not', [('likes', E1, 'zed')]), ('likes', E1, E2), ('likes', E2, E1)])] + out('value', E3)},
    {"syn": "name(E1) -> /\\w+/", "sem": lambda w: [('equals', E1, w)]},
    {"syn": "name(E1) -> 'ann'", "sem": lambda: [('likes', E1, 'bob')]},
]
SENTENCES = ['who likes bob', 'who likes ann', 'ann likes cy', 'dan likes dan', 'explode', 'odd', 'none', 'hello', 'mood', 'count', '', 'what', 'who likes', "who likes o'x", 'hello hello']


class Mood(impl.SimpleMemoryModule):
    def __init__(self):
        super().__init__()
        self.add_relation(Relation('mood', arguments=['m']))

    def clear(self):
        from richard.data_source.SimpleDataSource import SimpleDataSource
        self.data_source = SimpleDataSource()


def build(kind, optimizer, block):
    facts = Facts()
    buf = impl.BasicOutputBuffer()
    model = impl.Model([facts, buf, Mood(), impl.BasicDialogContext()])
    parser = impl.BasicParser(impl.read_grammar(RULES))
    procs, blocks = [], []
    if kind == 'multi':
        sel = LanguageSelector(['nl', 'en'])
        other = impl.BasicParser(impl.read_grammar([{"syn": "s(V) -> 'hello' 'hello'", "sem": lambda: [('mood', E1)]}, {"syn": "s(V) -> 'odd' 'odd'", "sem": lambda: []}]))
        parser = Multilingual({'en': parser, 'nl': other}, sel)
        procs.append(sel)
    if kind == 'twice':
        # another processor with the same name
        procs.append(impl.BasicParser(impl.read_grammar(RULES)))
    composer = impl.SemanticComposer(parser, query_optimizer=impl.BasicQueryOptimizer(model) if optimizer else None)
    executor = impl.AtomExecutor(composer, model)
    procs += [parser, composer, executor]
    B = {'1': impl.FindOne, 'A': impl.FindAll, 'T': impl.TryFirst}
    blocks = [(impl.FindOne if i == 0 and kind == 'multi' else B[block])(p) for i, p in enumerate(procs)]
    own = [{"syn": "s() -> 'Value:' text(E1)", "if": [('output_type', 'value'), ('output_value', E1)]}, {"syn": "s() -> 'OK'"}]
    gen = impl.BasicGenerator(impl.write_grammar(impl.get_en_us_write_grammar() + own), model, buf)
    system = impl.System(model=model, input_pipeline=blocks, output_generator=gen)
    calls = []
    for i, p in enumerate(procs):
        def rec(request, p=p, i=i, real=p.process):
            r = real(request)
            calls.append((i, r))
            return r
        p.process = rec
    return system, procs, calls, facts


def say(system, text, logger):
    """-> everything that can be observed of one turn"""
    req = SentenceRequest(text, logger=logger) if logger is not None else SentenceRequest(text)
    try:
        got = system.enter(req)
    except ZeroDivisionError as e:
        got = 'ZeroDivisionError'
    return repr(got), system.read_output()


def text_of(logger):
    return ANSI.sub('', str(logger))


def product_text(p, calls_logger):
    l = Logger()
    p.log(l)
    return ANSI.sub('', str(l))


def errors(calls):
    return [(i, r.error_type, repr(r.error_args), len(r.products)) for i, r in calls]


_expect = {}


def plain(kind, optimizer, block, texts):
    key = (kind, optimizer, block, texts)
    if key not in _expect:
        system, procs, calls, facts = build(kind, optimizer, block)
        outcomes = []
        for t in texts:
            calls.clear()
            outcomes.append((say(system, t, None), errors(calls)))
        _expect[key] = outcomes, repr(facts.rows)
    return _expect[key]


def configured(which, products, stats, procs):
    l = Logger()
    if which == 'all': l.log_all_tests()
    elif which == 'none': l.log_no_tests()
    else: l.log_only_last_test()
    if products is not None: l.log_products(*[procs[i] for i in products])
    if stats: l.log_stats()
    return l


def expected_lines(calls, procs, asked):
    """names and products of the calls that were asked for, in order"""
    return [(procs[i].get_name(), r) for i, r in calls if i in asked]


def check_log(where, text, calls, procs, products, stats):
    if products is None:
        same(where + ": no products asked for, log", text.strip(), '')
        return
    asked = set(range(len(procs))) if not products else set(products)
    exp = expected_lines(calls, procs, asked)
    lines = text.split('\n')
    for n in sorted({p.get_name() for p in procs}):
        same(f"{where}: number of times {n!r} is in the log", lines.count(n), len([1 for m, r in exp if m == n]))
    pos = 0
    for name, r in exp:
        at = text.find(name + '\n', pos)
        require(at >= 0, lambda: f"{where}: {name} is missing from the log, or out of order")
        pos = at + len(name)
        for item in ([r.error_type] if r.error_type else []) + [product_text(p, None) for p in r.products]:
            at = text.find(item.strip('\n'), pos)
            require(at >= 0, lambda: f"{where}: product of {name} is missing from the log (or out of order): {item!r}\nlog: {text}")
            pos = at + len(item.strip('\n'))
    # products of other steps are not there: parse trees, meanings and results have words of their own
    shown = {procs[i].get_name() for i in asked}
    if 'Composer' not in shown and not any('multi' in n.lower() for n in shown): same(where + ": meanings in the log", lines.count('Return variables'), 0)
    same(where + ": number of statistics", lines.count('Stats'), sum(1 for n, r in exp if n == 'Executor' for p in r.products if p.stats))
    if not stats: same(where + ": statistics", lines.count('Stats'), 0)
    elif 'Executor' in shown: require(all(p.stats or not SENTENCE_HAS_ATOMS for n, r in exp if n == 'Executor' for p in r.products), where + ": statistics missing")


SENTENCE_HAS_ATOMS = False      # an empty meaning has no statistics


def run(case, rec):
    kind, optimizer, block, which, last, stats, products, texts = case
    exp, rows = plain(kind, optimizer, block, texts)
    system, procs, calls, facts = build(kind, optimizer, block)
    logger = configured(which, products, stats, procs)
    for n, t in enumerate(texts):
        logger.is_last_test = bool(last[n])
        before = str(logger)
        calls.clear()
        got = say(system, t, logger)
        where = f"{kind} optimizer={optimizer} block={block}, log {which} last={last} stats={stats} products={products}, sentences {texts[:n + 1]}"
        same(where + ": outcome", (got, errors(calls)), exp[n])
        require(str(logger).startswith(before), where + ": the log changed where it was")
        new = ANSI.sub('', str(logger)[len(before):])
        if which == 'all' or (which == 'last' and last[n]):
            check_log(where, new, calls, procs, products, stats)
            if stats and products is not None and (not products or 'Executor' in [procs[i].get_name() for i in products]):
                for i, r in calls:
                    if procs[i].get_name() == 'Executor' and t not in ('hello', 'hello hello'):
                        require(all(p.stats for p in r.products), where + ": no statistics were made")
        else:
            same(where + ": this test is not to be logged, log", new, '')
    same("facts", repr(facts.rows), rows)
    rec.ev(case, True, (which, products is None, stats))


class TestCase:
    def assertEqual(self, a, b):
        if a != b: raise AssertionError(f"{a!r} != {b!r}")


def run_tester(case, rec):
    which, stats, products, texts, profile = case
    system, procs, calls, facts = build('one', True, '1')
    texts = tuple(texts)
    exp, rows = plain('one', True, '1', texts)
    exp = [x for x, errs in exp]
    logger = configured(which, products, stats, procs)
    tests = [[t, e[1]] for t, e in zip(texts, exp)]
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        DialogTester(TestCase(), tests, system, logger, profile=profile).run()
    same(f"facts after {texts}", repr(facts.rows), rows)
    log = text_of(logger)
    where = f"dialogue {texts}, log {which} stats={stats} products={products}"
    shown = list(range(len(texts))) if which == 'all' else [len(texts) - 1] if which == 'last' and texts else []
    lines = log.split('\n')
    same(where + ": sentences in the log", [l[len('[Human] '):] for l in lines if l.startswith('[Human]')], [texts[i] for i in shown])
    same(where + ": answers in the log", [l[len('[Computer] '):] for l in lines if l.startswith('[Computer]')], [exp[i][1] for i in shown])
    same(where + ": test numbers", [int(m[1]) for m in re.finditer(r'^~~\[ (\d+) \]', log, flags=re.M)], [i + 1 for i in shown])
    if not shown: same(where + ": log", log, '')
    # executor (and everything) only for the tests shown
    names = {'Parser': 0, 'Composer': 1, 'Executor': 2}
    # the calls per sentence
    for n, i in names.items():
        asked = products is not None and (not products or i in products)
        per = runs_of(texts)
        same(f"{where}: times {n!r} is in the log", lines.count(n), sum(per[k].count(i) for k in shown) if asked else 0)
    rec.ev(case, True, (which, len(shown)))


_runs = {}


def runs_of(texts):
    """steps made per sentence"""
    if texts not in _runs:
        system, procs, calls, facts = build('one', True, '1')
        res = []
        for t in texts:
            calls.clear()
            say(system, t, None)
            res.append([i for i, r in calls])
        _runs[texts] = res
    return _runs[texts]


def run_many(case, rec):
    for c in case: run(c, rec)


def run_testers(case, rec):
    for c in case: run_tester(c, rec)


class Text:
    def __init__(self, text): self.text = text
    def get_output(self): return self.text
    def log(self, logger): logger.add(self.text)


class Many(SomeProcessor):
    def __init__(self, name, products, error=''):
        super().__init__()
        self.name, self.products, self.error = name, products, error

    def get_name(self): return self.name
    def process(self, request): return ProcessResult(list(self.products), self.error, [])


def large(case, rec):
    """many products, many tests, long products"""
    kind, n = case
    if kind == 'products':
        for last in (True, False):
            a, b = Many('First', [Text(f"product {i}") for i in range(n)]), Many('Second', [Text('same')] * 3)
            system = impl.System(model=impl.Model([]), input_pipeline=[impl.FindAll(a), impl.TryFirst(b)])
            l = Logger()
            l.log_only_last_test()
            l.is_last_test = last
            l.log_products()
            same(f"{case}: result", system.enter(SentenceRequest('x', logger=l)), 'same')
            lines = [x for x in text_of(l).split('\n') if x.strip()]
            exp = ['First'] + [f"product {i}" for i in range(n)] + ['Second', 'same', 'same', 'same'] * n
            same(f"{case}: log", lines, exp if last else [])
    elif kind == 'long product':
        text = ('abc def ' * n)[:n] + '|'
        a = Many('First', [Text(text)])
        system = impl.System(model=impl.Model([]), input_pipeline=[impl.FindOne(a)])
        l = Logger()
        l.log_all_tests()
        l.log_products(a)
        same(f"{case}: result", system.enter(SentenceRequest('x', logger=l)), text)
        same(f"{case}: log", [x for x in text_of(l).split('\n') if x.strip()], ['First', text])
    elif kind == 'processors':
        ps = [Many(f"Step {i}", [Text(f"made by {i}")]) for i in range(n)]
        for asked in ([], ps, ps[::2], ps[-1:], ps[:1], ps[n // 2:]):
            system = impl.System(model=impl.Model([]), input_pipeline=[impl.FindOne(p) for p in ps])
            l = Logger()
            l.log_all_tests()
            l.log_products(*asked)
            same(f"{case}: result", system.enter(SentenceRequest('x', logger=l)), f"made by {n - 1}")
            exp = [x for i, p in enumerate(ps) if not asked or p in asked for x in (f"Step {i}", f"made by {i}")]
            same(f"{case}: log", [x for x in text_of(l).split('\n') if x.strip()], exp)
    elif kind == 'tests':
        texts = tuple(['who likes ann', 'what', 'hello', 'mood'][i * 3 % 4] for i in range(n))
        for which in ('none', 'last', 'all'):
            run_tester((which, False, (0,), texts, False), rec)
    elif kind == 'both':
        # an error together with products: both are shown
        a = Many('First', [Text(f"product {i}") for i in range(n)], 'some_error')
        l = Logger()
        l.log_all_tests()
        l.log_products()
        SentenceRequest('x', logger=l).exec_process(a)
        same(f"{case}: log", [x for x in text_of(l).split('\n') if x.strip()], ['First', 'some_error'] + [f"product {i}" for i in range(n)])
    rec.ev(case, True, kind)


def spaces(tier):
    sizes = (9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 99, 100, 101, 128, 129, 200, 201, 256, 257)
    big = [(k, n) for k in ('products', 'long product', 'tests') for n in sizes] + [('long product', n) for n in (79, 80, 81, 999, 1000, 1001, 4097)] + [('processors', n) for n in sizes if n < 66] + [('both', n) for n in (0, 1, 2, 3)]
    q = tier == 'quick'
    cases = []

    def subsets(n): return [None, ()] + [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
    for kind, n in (('one', 3), ('multi', 4), ('twice', 4)):
        for opt in (False, True):
            for block in ('1', 'A', 'T'):
                for which in ('none', 'last', 'all'):
                    for stats in (False, True):
                        for products in subsets(n):
                            for t in SENTENCES:
                                for last in ((0,), (1,)):
                                    cases.append((kind, opt, block, which, last, stats, products, (t,)))
    two = ['who likes ann', 'ann likes cy', 'explode', 'mood', 'what', 'hello']
    for a, b in itertools.product(two if q else SENTENCES, repeat=2):
        for which, last in (('last', (0, 1)), ('last', (1, 0)), ('all', (0, 0)), ('none', (1, 1))):
            for products in ((), (0, 2), (1,)):
                cases.append(('one', True, '1', which, last, True, products, (a, b, a)[:2]))
    tcases = []
    words = ['who likes ann', 'what', 'hello', 'mood']
    for n in range(0, 4 if q else 5):
        for texts in itertools.product(words, repeat=n):
            for which in ('none', 'last', 'all'):
                for stats, products in ((False, None), (True, ()), (False, (0,)), (True, (1, 2)), (True, None), (False, (2,))):
                    tcases.append((which, stats, products, texts, False))
            tcases.append(('last', True, (), texts, True))
    return [Space("large", sorted(big, key=lambda c: -c[1]), large, chunk=1), Space("configurations", [cases[i:i + 30] for i in range(0, len(cases), 30)], run_many),
            Space("dialogues", [tcases[i:i + 30] for i in range(0, len(tcases), 30)], run_testers)]
