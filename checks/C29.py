"""Executing a reading: every combination of dialogue facts, actions and meaning, through the whole pipeline, against a small model of its effects."""
import itertools
from mc.core import Space, Violation, require
from mc import impl
from mc.impl import Variable, ReifiedVariable, Relation

PROP = "C29"
LEVEL = "exploration"
RULE = ("one evaluation = one sentence (dialogue facts, actions, meaning; one or two readings, or a sequence of sentences) entered into a whole system; everything that was "
        "stored and performed, in order and in which module, and the answers, are compared with a model that runs facts, actions and meaning one after the other; "
        "non-trivial = the reading has at least one dialogue fact or action")
ASSUMPTIONS = ["what remains after an exception is not judged, only that the sentence raises it", "the order of the answers is not judged",
               "an action that follows one with several solutions is the last of its sentence"]

E1, E2, R1 = Variable('E1'), Variable('E2'), Variable('R1')
e1 = ReifiedVariable('E1')


class Boom(Exception):
    pass


# facts of other names
NAMES = ['output_x', 'dialog_y', 'isa', 'x1', 'store_x', 'Fact', 'sentence', '_f', 'name']


class Store(impl.SomeModule):
    """keeps rows and writes down what happens to it"""
    def __init__(self, name, log, predicates, readonly=()):
        super().__init__()
        self.name, self.log, self.rows = name, log, []
        for p, args in predicates.items():
            self.add_relation(Relation(p, arguments=args, query_function=self.read, write_function=None if p in readonly else self.write))

    def read(self, values, context):
        p = context.relation.predicate
        return [list(r) for q, r in self.rows if q == p and len(r) == len(values) and all(v is None or v == x for v, x in zip(values, r))]

    def write(self, values, context):
        if values[0] == 'unwritable': raise values[1]('cannot be stored')
        self.log.append((self.name, context.relation.predicate, tuple(values)))
        self.rows.append((context.relation.predicate, tuple(values)))


import sqlite3
ERRORS = [Boom, ValueError, KeyError, TypeError, IndexError, AttributeError, RuntimeError, OSError, sqlite3.OperationalError, ZeroDivisionError, AssertionError, NotImplementedError, UnicodeError, LookupError, StopIteration]


class Acts(impl.SomeModule):
    def __init__(self, log):
        super().__init__()
        self.log = log
        self.add_relation(Relation('mark', query_function=self.mark))
        self.add_relation(Relation('gen', query_function=lambda v, c: [[x] for x in ('u', 'a') if v[0] in (None, x)]))
        self.add_relation(Relation('never', query_function=lambda v, c: []))
        self.add_relation(Relation('boom', query_function=self.boom))

    def mark(self, values, context):
        self.log.append(('A', 'mark', tuple(values)))
        return [list(values)]

    def boom(self, values, context):
        self.booms = getattr(self, 'booms', len(self.log)) + 1
        raise ERRORS[self.booms % len(ERRORS)]("boom")


class Model:
    """the effects, by the definition"""
    def __init__(self):
        self.log, self.M, self.N, self.rules = [], [], [], []

    def write(self, atom):
        p, args = atom[0], atom[1:]
        if args and args[0] == 'unwritable': raise Boom
        if p in ('fact', 'said', *NAMES):
            self.log.append(('M', p, args)); self.M.append((p, args))
            if p == 'fact':
                self.log.append(('N', p, args)); self.N.append((p, args))
        elif p in ('mark', 'fixed', 'derived'):
            pass
        else:
            raise Boom

    def rows(self, p):
        if p == 'fact': return [r for q, r in self.M + self.N if q == p]
        if p == 'said': return [r for q, r in self.M if q == p]
        if p == 'fixed': return [('r',)]
        if p == 'gen': return [('u',), ('a',)]
        if p == 'never': return []
        raise Boom

    def one(self, atom, b):
        p = atom[0]
        args = tuple(b.get(x.name) if isinstance(x, Variable) else x for x in atom[1:])
        if p == 'mark':
            self.log.append(('A', 'mark', args)); return [args]
        if p == 'boom': raise Boom
        if p == 'store':
            for a in atom[1]: self.write(tuple(b.get(x.name, x) if isinstance(x, Variable) else x for x in a))
            return [(None,)]
        if p == 'learn_rule':
            self.rules.append((atom[1], atom[2])); return [(None, None)]
        if p == 'count':
            return [(len(self.solve(atom[2], b)), None)]
        if p == 'derived':
            out = [('base',)] if args[0] in (None, 'base') else []
            for head, body in self.rules:
                out += [(s['R1'],) for s in self.solve(body, {} if args[0] is None else {'R1': args[0]})]
            return out
        return [r for r in self.rows(p) if all(v is None or v == x for v, x in zip(args, r))]

    def solve(self, atoms, b):
        if not atoms: return [b]
        out = []
        seen = []
        for r in self.one(atoms[0], b):
            if r in seen: continue
            seen.append(r)
            nb = dict(b)
            ok = True
            for x, v in zip(atoms[0][1:], r):
                if isinstance(x, Variable):
                    if x.name in nb and nb[x.name] != v: ok = False
                    nb[x.name] = v
            if not ok: continue
            for s in self.solve(atoms[1:], nb):
                if s not in out: out.append(s)
        return out

    def reading(self, dialog, actions, meaning, n):
        sub = lambda t: tuple(('var', x.name, n) if isinstance(x, ReifiedVariable) else x for x in t)
        for a in dialog: self.write(sub(a))
        self.solve([sub(a) for a in actions], {})
        return self.solve([sub(a) for a in meaning], {})


def norm(x, names):
    """the names of sentence variables are not judged, only which are the same"""
    if isinstance(x, tuple) and len(x) == 3 and x[0] == 'var':
        return names.setdefault(x, f"<{len(names)}>")
    if isinstance(x, str) and x.startswith('$'):
        return names.setdefault(x, f"<{len(names)}>")
    return x


def norm_log(log, names):
    return [(m, p, tuple(norm(a, names) for a in args)) for m, p, args in log]


def same(got, exp, gn, en):
    """two lists of bindings, each once, equal up to a renaming of the variables"""
    if len(got) != len(exp): return False
    if not got: return True
    gv, ev = sorted({k for b in got for k in b}), sorted({k for b in exp for k in b})
    if len(gv) != len(ev): return False
    e = sorted(repr([norm(b.get(k), en) for k in ev]) for b in exp)
    return any(sorted(repr([norm(b.get(k), gn) for k in p]) for b in got) == e for p in itertools.permutations(gv))


def system(sentences, block='one', optimise=False, parts=False):
    """sentences: word -> list of readings (dialog, actions, meaning)"""
    log = []
    infer = impl.InferenceModule()
    from richard.type.InferenceRule import InferenceRule
    infer.insert_rule(InferenceRule(('derived', 'base'), []))
    model = impl.Model([Store('M', log, {'fact': ['x'], 'said': ['x', 'y'], **{p: ['x', 'y'] for p in NAMES}}), Acts(log), Store('N', log, {'fact': ['x']}), Fixed(), infer])
    rules = [{"syn": "n() -> 'now'", "sem": lambda: []}] if parts else []
    for w, readings in sentences.items():
        for i, (d, a, m) in enumerate(readings):
            if parts and d:
                # the same facts, said by the parts of the sentence and the whole; a part without facts in between
                rules += [{"syn": f"h{i}{w}(E1) -> '{w}'", "sem": lambda: [], "dialog": list(d[:1])}, {"syn": f"t{i}{w}(E1) -> n()", "sem": lambda n: [], "dialog": (lambda x: lambda n: x)(list(d[1:2]))}]
                r = {"syn": f"s(E1) -> h{i}{w}(E1) t{i}{w}(E1)", "sem": (lambda m: lambda h, t: m)(list(m)), "boost": -i, "dialog": list(d[2:])}
                if a is not None: r["exec"] = (lambda a: lambda h, t: a)(list(a))
                rules.append(r)
                continue
            r = {"syn": f"s(E1) -> '{w}'", "sem": (lambda m: lambda: m)(list(m)), "boost": -i}
            if d is not None: r["dialog"] = list(d)
            if a is not None: r["exec"] = (lambda a: lambda: a)(list(a))
            rules.append(r)
    parser = impl.BasicParser(impl.read_grammar(rules))
    composer = impl.SemanticComposer(parser, impl.BasicQueryOptimizer(model)) if optimise else impl.SemanticComposer(parser)
    executor = impl.AtomExecutor(composer, model)
    B = {'one': impl.FindOne, 'all': impl.FindAll, 'first': impl.TryFirst}[block]
    return impl.System(model=model, input_pipeline=[B(parser), impl.TryFirst(composer), impl.FindOne(executor)]), log


class Fixed(impl.SomeModule):
    def __init__(self):
        super().__init__()
        self.add_relation(Relation('fixed', query_function=lambda v, c: [['r']] if v[0] in (None, 'r') else []))


def play(sentences, words, block, optimise, rec, key, logger=None, parts=False):
    sysm, log = system(sentences, block, optimise, parts)
    model = Model()
    gn, en = {}, {}
    for t, w in enumerate(words):
        error = False
        try:
            readings = sentences[w] if block == 'all' else sentences[w][:1]
            for i, (d, a, m) in enumerate(readings):
                exp = model.reading(d or [], a or [], m, (t, i))
        except Boom:
            error = True
        text = w + ' now' if parts and sentences[w][0][0] else w
        request = impl.SentenceRequest(text) if logger is None else impl.SentenceRequest(text, logger())
        try:
            got = sysm.enter(request)
        except Exception as e:
            if not error: raise Violation(f"sentence {t} of {words}: {sentences[w]} ({block}) raised {type(e).__name__}: {e}")
            rec.ev((key, t), True, 'error')
            return
        if error: raise Violation(f"sentence {t} of {words}: {sentences[w]} ({block}) raised no error; done: {log}")
        where = lambda: f"sentence {t} of {words}: {sentences[w]} (block {block}, optimised {optimise})"
        # the first comparison fixes which variable is which
        l1, l2 = norm_log(log, gn), norm_log(model.log, en)
        if l1 != l2: raise Violation(f"{where()}\n  expected to be done {l2}\n  done              {l1}")
        if not isinstance(got, list) or not same(got, exp, gn, en):
            raise Violation(f"{where()}\n  expected answers {exp}\n  got              {got}")
        rec.ev((key, t), any(d or a for d, a, m in sentences[w]), f"{len(exp)} answers, {len(log)} effects")


FACTS = [('fact', 'a'), ('fact', 'b'), ('said', 'a', 'b'), ('said', '', 0), ('fact', e1), ('mark', 'x'), ('nowhere', 'a')]
ACTIONS = [('mark', 'x'), ('mark', 'y'), ('store', [('fact', 'c')]), ('store', [('said', 'c', 'a'), ('fact', 'a')]), ('learn_rule', ('derived', R1), [('fact', R1)]), ('never', 'a'), ('fact', E1), ('gen', E1), ('boom',)]
MEANINGS = [[], [('fact', E1)], [('fact', 'a')], [('said', E1, E2)], [('fact', E1), ('mark', E1)], [('derived', E1)], [('count', E2, [('fact', E1)])], [('store', [('fact', 'd')]), ('fact', E1)],
            [('gen', E1), ('fact', E1)], [('boom',)], [('never', 'a'), ('mark', 'z')], [('fact', e1)], [('mark', 'z'), ('never', 'a')], [('store', [('said', 'd', 'd')]), ('fact', 'nobody')]]
PURE = [1, 2, 3, 5, 6, 8]


def actions(n):
    out = [None, ()]
    for k in range(1, n + 1):
        for c in itertools.product(range(len(ACTIONS)), repeat=k):
            many = [i for i, x in enumerate(c) if ACTIONS[x][0] in ('fact', 'gen')]
            if many and many[0] < k - 2: continue
            out.append(c)
    return out


def facts(n):
    return [None, ()] + [c for k in range(1, n + 1) for c in itertools.product(range(len(FACTS)), repeat=k)]


def pick(menu, c):
    return None if c is None else [menu[i] for i in c]


def single(case, rec):
    acts, n = case
    a = pick(ACTIONS, acts)
    for f in facts(n):
        d = pick(FACTS, f)
        for m, meaning in enumerate(MEANINGS):
            for optimise in ((False, True) if m in PURE else (False,)):
                play({'go': [(d, a, meaning)]}, ['go'], 'one', optimise, rec, (acts, f, m, optimise))


def of_parts(case, rec):
    first, n = case
    for rest in [c for k in range(n) for c in itertools.product(range(len(FACTS)), repeat=k)]:
        d = pick(FACTS, (first,) + rest)
        for a in (None, [('mark', 'x')], [('store', [('fact', 'c')])]):
            for m in (MEANINGS[0], MEANINGS[1], MEANINGS[3]): play({'go': [(d, a, m)]}, ['go', 'go'], 'one', False, rec, (case, rest, repr(a), repr(m)), parts=True)


SMALL = [(None, None, [('fact', E1)]), ([('fact', 'a')], None, [('fact', E1)]), (None, [('mark', 'x'), ('store', [('fact', 'c')])], [('fact', E1)]),
         ([('fact', e1)], [('never', 'a')], []), ([('said', e1, 'a')], None, [('said', E1, E2)]), (None, [('learn_rule', ('derived', R1), [('fact', R1)])], [('derived', E1)]),
         ([('fact', 'b'), ('fact', 'b')], None, [('never', 'a')]), (None, [('boom',)], []), (None, [('fact', E1)], [('count', E2, [('fact', E1)])])]


def readings(case, rec):
    i, j = case
    for block in ('one', 'all', 'first'):
        for optimise in (False, True):
            play({'go': [SMALL[i], SMALL[j]]}, ['go', 'go'], block, optimise, rec, (case, block, optimise))


def sequences(case, rec):
    seq = case
    play({f'w{i}': [SMALL[i]] for i in seq}, [f'w{i}' for i in seq], 'one', False, rec, case)


def logged(case, rec):
    i, j = case
    def full():
        l = impl.Logger(); l.log_all_tests(); l.log_stats(); l.log_products(); return l
    play({'go': [SMALL[i]], 'ho': [SMALL[j]]}, ['go', 'ho', 'go'], 'one', False, rec, case, full)


def large(case, rec):
    kind, n = case
    if kind == 'facts':
        s = {'go': [([('fact', f'f{i}') if i % 3 else ('said', i, 'a') for i in range(n)], None, [('fact', E1)])]}
        words = ['go', 'go']
    elif kind == 'names':
        s = {'go': [([(NAMES[i % len(NAMES)], i, 'a') for i in range(n)], [('store', [(NAMES[(2 * i) % len(NAMES)], 'b', i)]) for i in range(n)], [('fact', E1)])]}
        words = ['go', 'go']
    elif kind == 'same':
        s = {'go': [([('fact', 'a')] * n, [('mark', 'x')] * n, [('fact', E1)])]}
        words = ['go']
    elif kind == 'actions':
        s = {'go': [(None, [('mark', i) if i % 2 else ('store', [('fact', i)]) for i in range(n)], [('fact', E1)])]}
        words = ['go']
    elif kind == 'meaning':
        s = {'go': [([('fact', 'a')], None, [('fact', 'a') if i % 2 else ('mark', i) for i in range(n)])]}
        words = ['go']
    elif kind == 'readings':
        s = {'go': [([('said', i, e1)], [('mark', i)], [('said', E1, E2)]) for i in range(n)]}
        words = ['go', 'go']
    else:
        s = {'go': [([('said', 'a', e1)], None, [('said', E1, E2)])], 'ho': [(None, [('mark', 'x')], [('fact', E1)])]}
        words = ['go' if i % 3 else 'ho' for i in range(n)]
    play(s, words, 'all' if kind == 'readings' else 'one', False, rec, case)


def errors(case, rec):
    """an error while storing a fact or in an action, of whatever type, is the error of the sentence"""
    kind, i = case
    bad = ('said', 'unwritable', ERRORS[i])
    d, a, m = {'fact': ([('fact', 'a'), bad, ('fact', 'b')], None, [('fact', E1)]), 'action': (None, [('store', [('fact', 'a'), bad])], [('fact', E1)]), 'meaning': (None, None, [('fact', 'z'), ('fact', E1)]),
               'stored': ([('fact', 'a')], [('mark', 'x')], [('store', [bad]), ('fact', E1)])}[kind]
    for block in ('one', 'all', 'first'):
        play({'go': [(d, a, m), ([('fact', 'c')], None, [('fact', E1)])], 'ho': [(None, None, [('fact', E1)])]}, ['ho', 'go'], block, False, rec, (case, block))


def spaces(tier):
    q = tier == 'quick'
    sizes = [3, 4, 5, 6, 9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 99, 100, 101] + ([] if q else [128, 129, 200, 255, 256, 257])
    return [Space("errors", [(k, i) for k in ('fact', 'action', 'meaning', 'stored') for i in range(len(ERRORS))], errors), Space("large", [(k, n) for k in ('facts', 'names', 'same', 'actions', 'meaning', 'readings', 'sentences') for n in sizes if k != 'readings' or n < 40], large, 1),
            Space("facts of parts", [(f, 4 if q else 5) for f in range(len(FACTS))], of_parts),
            Space("readings", list(itertools.product(range(len(SMALL)), repeat=2)), readings),
            Space("with a log", list(itertools.product(range(len(SMALL)), repeat=2)), logged),
            Space("sequences", [c for n in range(1, (4 if q else 5)) for c in itertools.product(range(len(SMALL)), repeat=n)], sequences),
            Space("single sentences", [(a, 2) for a in actions(1)] + [(a, 2) for a in actions(2 if q else 3) if a and len(a) > 1], single)]
