"""A small system that can be told facts, rules and words, and asked questions; and what it should answer."""
import re
from . import impl
from .impl import Variable, Relation, ReifiedVariable

E1, E2, E3, E4 = (Variable('E%d' % i) for i in range(1, 5))
e1, e2 = ReifiedVariable('E1'), ReifiedVariable('E2')


class Facts(impl.SimpleMemoryModule):
    """facts in an SQLite memory"""
    def __init__(self):
        super().__init__()
        self.add_relation(Relation('isa', arguments=['x', 't']))
        self.add_relation(Relation('likes', arguments=['x', 'y']))
        self.add_relation(Relation('seen', arguments=['x', 'y']))
        self.add_relation(Relation('boom', query_function=self.boom))

    def clear(self):
        super().clear()
        self.data_source.connection.execute("CREATE TABLE isa (x, t)")
        self.data_source.connection.execute("CREATE TABLE likes (x, y)")
        self.data_source.connection.execute("CREATE TABLE seen (x, y)")

    def boom(self, values, context):
        raise ZeroDivisionError("boom")


def ok(): return [('store', [('output_type', 'ok')])]


def say(n):
    def post(kind, var): return [('store', [('output_type', kind), ('output_value', var)])]
    return post


def out(kind, var): return [('store', [('output_type', kind), ('output_value', var)])]


def read_rules():
    return [
        {"syn": "s(V) -> name(E1) 'is' 'a' noun()", "sem": lambda n, t: [('store', [('isa', n, t)])] + ok()},
        {"syn": "s(V) -> 'remember:' name(E1) 'is' 'a' noun()", "sem": lambda n, t: [('isa', E1, E2)] + ok(), "exec": lambda n, t: [('store', [('isa', n, t)])]},
        {"syn": "s(V) -> name(E1) 'likes' name(E2)", "sem": lambda n, m: [('store', [('likes', n, m)])] + ok()},
        {"syn": "s(V) -> 'every' noun() 'is' 'a' noun()", "sem": lambda t, u: [('learn_rule', ('isa', E1, u), [('isa', E1, t)])] + ok()},
        {"syn": "s(V) -> 'who' 'likes' name(E1) 'is' 'a' noun()", "sem": lambda n, t: [('learn_rule', ('isa', E1, t), [('likes', E1, n)])] + ok()},
        {"syn": "s(V) -> 'every' noun() 'likes' name(E1)", "sem": lambda t, n: [('learn_rule', ('likes', E1, n), [('isa', E1, t)])] + ok()},
        {"syn": "s(V) -> /[a-z]+/ 'means' noun()", "sem": lambda w, t: [('learn_grammar_rule', {"syn": f"noun() -> '{w}'", "sem": lambda: t})] + ok()},
        {"syn": "s(V) -> 'is' name(E1) 'a' noun() + '?'", "sem": lambda n, t: [('count', E3, [('isa', n, t)])] + out('yesno', E3)},
        {"syn": "s(V) -> 'who' 'is' 'a' noun() + '?'", "sem": lambda t: [('find_all', e1, [('isa', E1, t)], E3)] + out('list', E3)},
        {"syn": "s(V) -> 'how' 'many' noun() 'are' 'there' + '?'", "sem": lambda t: [('count', E3, [('isa', E1, t)])] + out('number', E3)},
        {"syn": "s(V) -> 'who' 'likes' 'a' noun() + '?'", "sem": lambda t: [('find_all', e1, [('likes', E1, E2), ('isa', E2, t)], E3)] + out('list', E3)},
        {"syn": "s(V) -> 'which' noun() 'likes' 'no' noun() + '?'", "sem": lambda t, u: [('find_all', e1, [('isa', E1, t), ('none', [('likes', E1, E2), ('isa', E2, u)])], E3)] + out('list', E3)},
        {"syn": "s(V) -> 'what' 'is' name(E1) + '?'", "sem": lambda n: [('find_all', e2, [('isa', n, E2)], E3)] + out('list', E3)},
        {"syn": "s(V) -> 'explode'", "sem": lambda: [('boom', E1), ('store', [('isa', 'ann', 'cat')])] + ok()},
        {"syn": "s(V) -> 'misread'", "sem": lambda: [('nonsense', E1), ('store', [('isa', 'ann', 'pet')])] + ok()},
        {"syn": "s(V) -> 'mark'", "sem": lambda: [('start_context', 'marked')] + ok()},
        {"syn": "s(V) -> 'unmark'", "sem": lambda: [('end_context', 'marked')] + ok()},
        {"syn": "s(V) -> 'marked' + '?'", "sem": lambda: [('count', E3, [('context', 'marked')])] + out('yesno', E3)},
        {"syn": "s(E9) -> 'hello'", "sem": lambda: ok(), "dialog": [('dialog_isa', ReifiedVariable('E9'), 'greeting')]},
        {"syn": "s(V) -> 'hi' name(E1)", "sem": lambda n: ok(), "dialog": lambda n: [('dialog_isa', n, 'greeted')]},
        {"syn": "s(V) -> 'greeted' + '?'", "sem": lambda: [('find_all', e1, [('dialog_isa', E1, 'greeted')], E3)] + out('list', E3)},
        {"syn": "s(V) -> waver(E1) 'waves'", "sem": lambda n: ok()},
        {"syn": "s(V) -> waver(E1) 'waves' 'at' waver(E2)", "sem": lambda n, m: ok(), "dialog": [('seen', 'both', 'yes')]},
        {"syn": "waver(E1) -> 'ann'", "sem": lambda: 'ann', "dialog": [('seen', 'ann', 'waves')]}, {"syn": "waver(E1) -> 'bob'", "sem": lambda: 'bob', "dialog": [('seen', 'bob', 'waves')]},
        {"syn": "name(E1) -> 'ann'", "sem": lambda: 'ann'}, {"syn": "name(E1) -> 'bob'", "sem": lambda: 'bob'}, {"syn": "name(E1) -> /o'[a-z]+/", "sem": lambda w: w},
        {"syn": "noun() -> 'cat'", "sem": lambda: 'cat'}, {"syn": "noun() -> 'pet'", "sem": lambda: 'pet'}, {"syn": "noun() -> 'animal'", "sem": lambda: 'animal'},
    ]


def write_rules():
    return impl.get_en_us_write_grammar() + [
        {"syn": "s() -> 'OK'", "if": [('output_type', 'ok')]},
        {"syn": "s() -> 'No'", "if": [('output_type', 'yesno'), ('output_value', 0)]},
        {"syn": "s() -> 'Yes'", "if": [('output_type', 'yesno')]},
        {"syn": "s() -> text(E1)", "if": [('output_type', 'number'), ('output_value', E1)]},
        {"syn": "s() -> format(E1)", "if": [('output_type', 'list'), ('output_value', E1)], "format": lambda l: ', '.join(sorted(l)) or 'nobody'},
    ]


class Dialog:
    def __init__(self, optimizer=False, block='1', rules=None, wrules=None):
        self.facts = Facts()
        self.buf = impl.BasicOutputBuffer()
        self.inf = impl.InferenceModule()
        grammar = impl.read_grammar(rules if rules is not None else read_rules())
        self.model = impl.Model([self.facts, self.inf, self.buf, impl.GrammarModule(grammar), impl.BasicDialogContext()])
        parser = impl.BasicParser(grammar)
        composer = impl.SemanticComposer(parser, query_optimizer=impl.BasicQueryOptimizer(self.model) if optimizer else None)
        executor = impl.AtomExecutor(composer, self.model)
        B = {'1': impl.FindOne, 'T': impl.TryFirst, 'A': impl.FindAll}[block]
        self.system = impl.System(model=self.model, input_pipeline=[B(parser), B(composer), B(executor)],
                                  output_generator=impl.BasicGenerator(impl.write_grammar(wrules if wrules is not None else write_rules()), self.model, self.buf))

    def say(self, text):
        """-> None or the name of an exception"""
        try:
            self.system.enter(impl.SentenceRequest(text))
        except Exception as e:
            return type(e).__name__

    def read(self):
        try:
            return self.system.read_output()
        except Exception as e:
            return None

    def rows(self):
        return {t: sorted(tuple(r) for r in self.facts.data_source.select(t, c, [None, None])) for t, c in (('isa', ['x', 't']), ('likes', ['x', 'y']), ('seen', ['x', 'y']))}


class Belief:
    """what was told"""
    def __init__(self):
        self.isa, self.likes = [], []                  # as told
        self.rules = []                                # ('isa', t, u) ('liker', n, t) ('tlikes', t, n)
        self.words = {'cat': 'cat', 'pet': 'pet', 'animal': 'animal'}
        self.marked = 0
        self.greeted = set()
        self.seen = []

    def key(self):
        return (sorted(self.isa), sorted(self.likes), sorted(self.rules), sorted(self.words.items()), self.marked, sorted(self.greeted), sorted(self.seen))

    def rows(self):
        return {'isa': sorted(self.isa), 'likes': sorted(self.likes), 'seen': sorted(self.seen)}

    def closure(self):
        isa, likes = set(self.isa), set(self.likes)
        while True:
            n = len(isa) + len(likes)
            for r in self.rules:
                if r[0] == 'isa': isa |= {(x, r[2]) for x, t in isa if t == r[1]}
                elif r[0] == 'liker': isa |= {(x, r[2]) for x, y in likes if y == r[1]}
                else: likes |= {(x, r[2]) for x, t in isa if t == r[1]}
            if len(isa) + len(likes) == n: return isa, likes

    def turn(self, text):
        """the reply; None: an exception and no reply"""
        T, m = self.words, None
        NAME, NOUN = r"(ann|bob|o'[a-z]+)", '(' + '|'.join(T) + ')'

        def is_(pattern):
            nonlocal m
            m = re.fullmatch(pattern.replace('NAME', NAME).replace('NOUN', NOUN), text)
            return m
        isa, likes = self.closure()
        lst = lambda xs: ', '.join(sorted(xs)) or 'nobody'
        if text in ('explode', 'misread'): return None
        if is_(r'is NAME a NOUN\?'): return 'Yes' if (m[1], T[m[2]]) in isa else 'No'
        if is_(r'who is a NOUN\?'): return lst({x for x, t in isa if t == T[m[1]]})
        if is_(r'how many NOUN are there\?'): return str(len({x for x, t in isa if t == T[m[1]]}))
        if is_(r'who likes a NOUN\?'): return lst({x for x, y in likes if (y, T[m[1]]) in isa})
        if is_(r'which NOUN likes no NOUN\?'): return lst({x for x, t in isa if t == T[m[1]] and not any(a == x and (y, T[m[2]]) in isa for a, y in likes)})
        if is_(r'what is NAME\?'): return lst({t for x, t in isa if x == m[1]})
        if text == 'marked?': return 'Yes' if self.marked else 'No'
        if text == 'greeted?': return lst(self.greeted)
        if text == 'mark': self.marked += 1
        elif text == 'unmark': self.marked = 0
        elif text == 'hello': pass
        elif is_('hi NAME'): self.greeted.add(m[1])
        elif is_('(ann|bob) waves(?: at (ann|bob))?'):
            self.seen += [(x, 'waves') for x in m.groups() if x] + ([('both', 'yes')] if m[2] else [])
        elif is_('(?:remember: )?NAME is a NOUN'): self.isa.append((m[1], T[m[2]]))
        elif is_('NAME likes NAME'): self.likes.append((m[1], m[2]))
        elif is_('every NOUN is a NOUN'): self.rules.append(('isa', T[m[1]], T[m[2]]))
        elif is_('every NOUN likes NAME'): self.rules.append(('tlikes', T[m[1]], m[2]))
        elif is_('who likes NAME is a NOUN'): self.rules.append(('liker', m[1], T[m[2]]))
        elif is_('([a-z]+) means NOUN'): self.words[m[1]] = T[m[2]]
        else: return ('not understood',)
        return 'OK'


def not_understood(reply):
    return reply is not None and (reply.startswith('Could not understand') or reply in ("Sorry, I don't understand", 'No sentence given'))


def agrees(reply, expected):
    return not_understood(reply) if expected == ('not understood',) else reply == expected
