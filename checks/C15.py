"""Output buffer: every history of sentences (with all kinds of outcomes) and replies up to a depth, against a model of the buffer."""
import itertools
from mc.core import Space, Violation, require, same
from mc import impl
from mc.impl import Variable, Relation

PROP = "C15"
LEVEL = "model_checking"
RULE = ("model state = output facts put in the buffer since the last reply; every history of sentences and replies up to a depth runs on a whole system, and "
        "each reply (or failure to reply) must be the one that the model state prescribes, the buffer being empty after it; every prefix of a history is checked too")
ASSUMPTIONS = ["what a sentence put in the buffer before it failed with an exception still counts as output of the turn"]

E1, E2 = Variable('E1'), Variable('E2')

# sentence -> facts it puts in the buffer (None: parse error), in order; 'raise' at the end: an exception
KINDS = {
    'hi': [('output_type', 'hi')],
    'one': [('output_type', 'value'), ('output_value', 'x')],
    'other': [('output_type', 'value'), ('output_value', "it's y")],
    'list': [('output_type', 'list'), ('output_list', ['b', 'a', "c's"])],
    'stray': [('output_value', 'leak')],
    'bad': [('output_type', 'mystery'), ('output_value', 'm')],
    'crash': [('output_type', 'crash'), ('output_value', 'c')],
    'deep': [('output_type', 'deep'), ('output_value_with_unit', 3, 'km')],
    'deeper': [('output_type', 'deep')],
    'table': [('output_type', 'table'), ('output_table', [['r', 1], ['s', 2]], ['', 'km'])],
    'table2': [('output_type', 'table'), ('output_table', [['t', 0]], [])],
    'who': [('output_type', 'name_not_found'), ('output_name_not_found', 'zed')],
    'own': [('output_type', 'own'), ('output_own', 'mine', 0)],
    'nothing': [],
    'answer': [('output_type', 'answer'), ('answer', 'forty')],
    'ask': [('output_type', 'answer')],
    'mute': [('output_type', 'mute'), ('output_value', '')],
    'odd': [('output_type', 'odd'), ('output_value', 7)],
    'key': [('output_type', 'crash'), ('output_value', 'key')],
    'type': [('output_type', 'crash'), ('output_value', 'type')],
    'fail': [('output_type', 'value'), ('raise',)],
    'qqq zz': None, '': None, 'hi hi': None,
}
ERRORS = {'qqq zz': [('output_type', 'unknown_word'), ('output_unknown_word', 'qqq zz ...')], '': [('output_type', 'no_sentence'), ('output_no_sentence',)],
          'hi hi': [('output_type', 'unknown_word'), ('output_unknown_word', ' hi ...')]}


def crash(*a):
    raise {"key": KeyError, "type": TypeError, "stop": StopIteration, "assert": AssertionError, "value": ValueError, "index": IndexError, "attr": AttributeError, "os": OSError, "rec": RecursionError, "not": NotImplementedError}.get(a[0] if a else None, ZeroDivisionError)("format")


def write_rules(default):
    own = [
        {"syn": "s() -> 'Name not found:' text(E1)", "if": [('output_type', 'name_not_found'), ('output_name_not_found', E1)]},
        {"syn": "s() -> 'Hi there!'", "if": [('output_type', 'hi')]},
        {"syn": "s() -> 'Value:' text(E1)", "if": [('output_type', 'value'), ('output_value', E1)]},
        {"syn": "s() -> format(E1)", "if": [('output_type', 'list'), ('output_list', E1)], "format": lambda l: ', '.join(sorted(l))},
        {"syn": "s() -> format(E1)", "if": [('output_type', 'crash'), ('output_value', E1)], "format": crash},
        {"syn": "s() -> value(E1)", "if": [('output_type', 'mute'), ('output_value', E1)]},
        {"syn": "s() -> value(E1)", "if": [('output_type', 'odd'), ('output_value', E1)]},
        {"syn": "s() -> format(E1, E2)", "if": [('output_type', 'table'), ('output_table', E1, E2)], "format": lambda r, u: f"{r} {u}"},
        {"syn": "s() -> 'own' text(E1)+text(E2)", "if": [('output_type', 'own'), ('output_own', E1, E2)]},
        {"syn": "s() -> 'answer' text(E1)", "if": [('output_type', 'answer'), ('answer', E1)]},
        {"syn": "s() -> 'deep' part()", "if": [('output_type', 'deep')]},
        {"syn": "part() -> text(E1)+unit()", "if": [('output_value_with_unit', E1, E2)]},
        {"syn": "unit() -> text(E2)", "if": [('output_value_with_unit', E1, E2)]},
    ]
    if default: own.append({"syn": "s() -> 'OK'"})
    return impl.get_en_us_write_grammar() + own


class Fails:
    def __repr__(self): return 'no reply (error)'


FAIL = Fails()


def reply(buf, default):
    """the reply that the rules prescribe for these output facts"""
    types = [f[1] for f in buf if f[0] == 'output_type']
    values = [f[1] for f in buf if f[0] == 'output_value']
    def get(p): return [f[1:] for f in buf if f[0] == p]
    if 'not_understood' in types: return "Sorry, I don't understand"
    if 'no_sentence' in types: return "No sentence given"
    if 'unknown_word' in types: return "Could not understand: " + get('output_unknown_word')[0][0]
    if 'name_not_found' in types: return "Name not found: " + get('output_name_not_found')[0][0]
    if 'hi' in types: return 'Hi there!'
    if 'value' in types and values: return 'Value: ' + str(values[0])
    if 'list' in types: return ', '.join(sorted(get('output_list')[0][0]))
    if 'crash' in types and values: return FAIL
    if 'mute' in types and values: return values[0]
    if 'odd' in types and values: return values[0]
    if 'table' in types: return "{} {}".format(*get('output_table')[0])
    if 'own' in types: return "own {}{}".format(*get('output_own')[0])
    if 'answer' in types and get('answer'): return 'answer ' + get('answer')[0][0]
    if 'deep' in types:
        wu = get('output_value_with_unit')
        return 'deep ' + str(wu[0][0]) + wu[0][1] if wu else FAIL
    return 'OK' if default else FAIL


def build(default):
    rules = []
    for k, facts in KINDS.items():
        if facts is None: continue
        sem = [('do', k)]
        rules.append({"syn": f"s(E1) -> '{k}'", "sem": (lambda s: lambda: s)(sem)})
    buf = impl.BasicOutputBuffer()
    buf.add_relation(Relation('output_own', arguments=['a', 'b']))
    buf.add_relation(Relation('answer', arguments=['a']))

    class M(impl.SomeModule):
        def __init__(self):
            super().__init__()
            self.add_relation(Relation('do', query_function=self.do))

        def do(self, values, context):
            for f in KINDS[values[0]]:
                if f[0] == 'raise': raise ValueError("sentence")
                context.solver.solve([('store', [tuple(list(x) if isinstance(x, list) else x for x in f)])])
            return [values]
    model = impl.Model([M(), buf])
    parser = impl.BasicParser(impl.read_grammar(rules))
    composer = impl.SemanticComposer(parser)
    executor = impl.AtomExecutor(composer, model)
    gen = impl.BasicGenerator(impl.write_grammar(write_rules(default)), model, buf)
    return impl.System(model=model, input_pipeline=[impl.FindOne(parser), impl.FindOne(composer), impl.FindOne(executor)], output_generator=gen), impl.Solver(model)


PREDS = [('output_type', E1), ('output_value', E1), ('output_list', E1), ('output_value_with_unit', E1, E2), ('output_unknown_word', E1), ('output_no_sentence',), ('output_not_understood',),
         ('output_table', E1, E2), ('output_name_not_found', E1), ('output_own', E1, E2), ('answer', E1)]


def run(case, rec):
    default, hs = case
    for h in hs: one(default, h, rec)


def one(default, h, rec):
    system, solver = build(default)
    buf = []
    got = None
    # after every history, the reply is asked for twice
    for n, op in enumerate(h + ('READ', 'READ')):
        if op == 'READ':
            try:
                got = system.read_output()
            except Exception as e:
                got = FAIL
            same(f"reply {n + 1} of {h} (default rule: {default})", got, reply(buf, default))
            rec.outcomes[str(got)[:30]] += 1
            buf = []
            for p in PREDS:
                require(solver.solve([p], {}) == [], lambda: f"{h[:n + 1]}: the buffer still holds {p[0]} after the reply")
        else:
            try:
                system.enter(impl.SentenceRequest(op))
            except ValueError:
                require(op == 'fail', lambda: f"{op!r} failed")
            new = [f for f in (KINDS[op] if KINDS[op] is not None else ERRORS[op]) if f[0] != 'raise']
            for f in new:
                buf.append(f)
            for p in PREDS:
                got = sorted(repr([b[x.name] for x in p[1:]]) for b in solver.solve([p], {}))
                want = sorted({repr(list(f[1:])) for f in buf if f[0] == p[0]})
                require(got == want, lambda: f"{h[:n + 1]}: the buffer holds {p[0]} {got}, expected {want}")
        rec.transitions += 1
        rec.st((default, repr(buf)))
    rec.traces += 1
    rec.ev((default, h), True, None)


ERROR_VALUES = [(a, b) for a in (7, 0, 2.5, True, ['a', 1], [], ('t', 2), 'text', '', "it's") for b in ('x', 3, ['y'])]


def failing(*args):
    """a system with one step, that fails with an error of its own"""
    class Step(impl.SomeProcessor):
        def get_name(self): return 'Step'
        def process(self, request): return impl.ProcessResult([], 'strange', list(args))
    buf = impl.BasicOutputBuffer()
    buf.add_relation(Relation('output_strange', arguments=['a', 'b']))
    model = impl.Model([buf])
    gen = impl.BasicGenerator(impl.write_grammar([{"syn": "s() -> value(E1)+value(E2)", "if": [('output_type', 'strange'), ('output_strange', E1, E2)]},
                                                  {"syn": "s() -> 'OK'"}]), model, buf)
    return impl.System(model=model, input_pipeline=[impl.FindOne(Step())], output_generator=gen), impl.Solver(model)


def large(case, rec):
    """many turns, much output in one turn, long values"""
    kind, n = case
    system, solver = build(True)

    def store(*facts): solver.solve([('store', list(facts))], {})

    def expect(text, what):
        got = system.read_output()
        require(got == text, lambda: f"{case} {what}: reply {str(got)[:200]!r}, expected {text[:200]!r}")
        for p in PREDS: require(solver.solve([p], {}) == [], lambda: f"{case} {what}: the buffer still holds {p[0]} after the reply")
        rec.transitions += 1
        rec.st((case, what))
    if kind == 'turns':
        menu = ['one', 'qqq zz', 'hi', 'nothing', 'table', 'other', 'own', '', 'list', 'who', 'deep']
        for i in range(n):
            k = menu[i * 5 % len(menu)]
            system.enter(impl.SentenceRequest(k))
            expect(reply(KINDS[k] if KINDS[k] is not None else ERRORS[k], True), f"turn {i} ({k})")
            if i % 7 == 0: expect('OK', f"again after turn {i}")
    elif kind == 'values':
        for i in range(n): store(('output_value', f"v{i}"))
        got = [b['E1'] for b in solver.solve([('output_value', E1)], {})]
        same(f"{case}: values in the buffer", got, [f"v{i}" for i in range(n)])
        expect('OK', 'values without a type')
        store(('output_type', 'value'), ('output_value', 'new'))
        expect('Value: new', 'next turn')
    elif kind == 'long value':
        v = ('abc ' * n)[:n]
        store(('output_type', 'value'), ('output_value', v))
        expect('Value: ' + v, 'long value')
    elif kind == 'long list':
        l = [f"{i:05}" for i in range(n)]
        store(('output_type', 'list'), ('output_list', list(reversed(l))))
        expect(', '.join(l), 'long list')
        store(('output_type', 'table'), ('output_table', [[x] for x in l], l))
        expect(f"{[[x] for x in l]} {l}", 'long table')
    elif kind == 'unread':
        # output of turns that is not read
        for i in range(n): system.enter(impl.SentenceRequest('nothing'))
        expect('OK', 'nothing')
        for i in range(n): system.enter(impl.SentenceRequest('stray'))
        system.enter(impl.SentenceRequest('hi'))
        expect('Hi there!', 'unread values before a greeting')
        system.enter(impl.SentenceRequest('one'))
        expect('Value: x', 'next turn')
    elif kind == 'all at once':
        # output of every kind in one turn, then nothing of it
        fs = [f for k in KINDS.values() if k for f in k if f[0] != 'raise'] + [f for k in ERRORS.values() for f in k]
        store(*(fs[i * 7 % len(fs)] for i in range(n)))
        buf = [fs[i * 7 % len(fs)] for i in range(n)]
        try: system.read_output()
        except Exception: pass
        for p in PREDS: require(solver.solve([p], {}) == [], lambda: f"{case}: the buffer still holds {p[0]} after the reply")
        expect('OK', 'afterwards')
        for k in ('one', 'list', 'table2', 'own', 'deep', 'who'):
            system.enter(impl.SentenceRequest(k))
            expect(reply(KINDS[k], True), 'afterwards ' + k)
    elif kind == 'error values':
        # a step that fails: what it tells about the failure reaches the reply as it is
        v, w = ERROR_VALUES[n]
        system, solver = failing(v, w)
        for i in range(3):
            system.enter(impl.SentenceRequest('x'))
            same(f"{case}: facts in the buffer", [(type(b['E1']), b['E1'], type(b['E2']), b['E2']) for b in solver.solve([('output_strange', E1, E2)], {})], [(type(v), v, type(w), w)])
            got = system.read_output()
            exp = v + w if isinstance(v, str) and isinstance(w, str) else [v, w]
            require(type(got) == type(exp) and got == exp, lambda: f"{case}: reply {got!r} about {[v, w]!r}")
            require(solver.solve([('output_strange', E1, E2)], {}) == [], lambda: f"{case}: the buffer is not empty after the reply")
    elif kind == 'errors':
        for e in ('key', 'type', 'stop', 'assert', 'value', 'index', 'attr', 'os', 'rec', 'not', 'other')[n:n + 1]:
            for i in range(3):
                store(('output_type', 'crash'), ('output_value', e))
                try:
                    got = system.read_output()
                except Exception as x: got = FAIL
                same(f"{case}: reply of a format that raises", got, FAIL)
                for p in PREDS: require(solver.solve([p], {}) == [], lambda: f"{case}: the buffer still holds {p[0]} after the failure")
                expect('OK', 'after the failure')
                system.enter(impl.SentenceRequest('one'))
                expect('Value: x', 'next turn')
    rec.traces += 1
    rec.ev(case, True, kind)


def spaces(tier):
    sizes = (9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 99, 100, 101, 128, 129, 200, 201, 255, 256, 257)
    big = [(k, n) for k in ('turns', 'values', 'long value', 'long list', 'unread') for n in sizes] + [(k, n) for k in ('long value', 'long list', 'values') for n in (999, 1000, 1001, 1025)] + [('all at once', n) for n in range(1, 70)] + [('errors', n) for n in range(11)] + [('error values', n) for n in range(len(ERROR_VALUES))]
    rare = ('mute', 'odd', 'key', 'type', 'table2', 'other')
    syms = [k for k in KINDS if k not in rare] + ['READ']
    few = ['hi', 'one', 'stray', 'bad', 'crash', 'deeper', 'qqq zz', 'READ']
    d = 3 if tier == 'quick' else 4
    hs = [c for n in range(d + 1) for c in itertools.product(syms, repeat=n)]
    hs += list(itertools.product(few, repeat=d + 1))
    hs += [c for n in range(d + 1) for c in itertools.product(rare + ('hi', 'one', 'crash', 'nothing', 'READ'), repeat=n)]
    cases = [(default, hs[i:i + 60]) for default in (False, True) for i in range(0, len(hs), 60)]
    return [Space("large", sorted(big, key=lambda c: -c[1]), large, chunk=1), Space("histories", cases, run)]
