"""Two systems: every interleaving of the construction and the turns of two dialogues in one process, against each dialogue alone."""
import itertools
from mc.core import Space, Violation, require, same
from mc import dialog, impl

PROP = "C25"
LEVEL = "model_checking"
RULE = ("model state = position in both scripts; every interleaving of the steps (construct, enter a sentence, read the output) of every pair of scripts is executed on two real systems, and each step "
        "must give what it gives in the same script run alone; the final stored facts too. A model of the dialogue gives the expected replies of the single scripts as well")
ASSUMPTIONS = ["steps of the two systems do not overlap in time (one thread)", "rule lists given to both systems may be the same Python objects"]

SCRIPTS = {
    'facts': ['build', 'ann is a cat', 'read', 'who is a cat?', 'read'],
    'rules': ['build', 'every cat is a pet', 'bob is a cat', 'read', 'who is a pet?', 'read'],
    'words': ['build', 'kitten means cat', 'ann is a kitten', 'read', 'who is a cat?', 'read'],
    'context': ['build', 'mark', 'hi ann', 'read', 'marked?', 'read'],
    'greeted': ['build', 'hi bob', 'greeted?', 'read', 'marked?', 'read'],
    'unread': ['build', 'ann likes bob', 'what is ann?', 'explode', 'read', 'is ann a kitten?', 'read'],
    'errors': ['build', 'blah', 'misread', 'read', 'is bob a pet?', 'read'],
    'rules2': ['build', 'who likes bob is a pet', 'ann likes bob', 'read', 'is ann a pet?', 'read'],
    'ask': ['build', 'who is a pet?', 'read', 'kitten means pet', 'read', 'who is a kitten?', 'read'],
    'kitten': ['build', 'ann is a cat', 'who is a kitten?', 'read', 'is ann a kitten?', 'read'],
    'restart': ['build', 'ann is a cat', 'read', 'build', 'who is a cat?', 'read'],
    'longer': ['build', 'ann is a cat', 'read', 'every cat is a pet', 'read', 'bob is a pet', 'is ann a pet?', 'read', 'how many cat are there?', 'read'],
}
RULES, WRITE = dialog.read_rules(), dialog.write_rules()


def step(d, op, shared, opt, log):
    if op == 'build':
        return dialog.Dialog(opt, '1', RULES if shared else None, WRITE if shared else None), 'built'
    if op == 'read':
        return d, ('reply', d.read())
    if log:
        # a logger of its own for each sentence
        l = impl.Logger()
        l.log_all_tests()
        l.log_products()
        try:
            d.system.enter(impl.SentenceRequest(op, logger=l))
            return d, ('error', None)
        except Exception as e:
            return d, ('error', type(e).__name__)
    return d, ('error', d.say(op))


_alone = {}


def alone(name, shared, opt):
    if (name, shared, opt) not in _alone:
        d, out = None, []
        for op in SCRIPTS[name]:
            d, r = step(d, op, shared, opt, False)
            out.append(r)
        _alone[name, shared, opt] = out, d.rows()
    return _alone[name, shared, opt]


def check_alone(name, rec):
    """the single script against the model: only the replies that are read after one sentence"""
    d, b, last = None, None, []
    for op in SCRIPTS[name]:
        if op == 'build': b, last = dialog.Belief(), []
        elif op == 'read':
            exp = [r for r in last if r is not None]
            if len(last) == 1: require(dialog.agrees(d.read(), exp[0]), f"script {name}: {op}")
            else: d.read()
            last = []
        else: last.append(b.turn(op))
        if op != 'read': d = step(d, op, False, False, False)[0]
    rec.ev(('alone', name))


def run(case, rec):
    if case[0] == 'alone':
        return check_alone(case[1], rec)
    a, b, shared, opts, inter = case
    exp = [alone(a, shared, opts[0]), alone(b, shared, opts[1])]
    names = (a, b)
    for order in inter:
        ds, pos = [None, None], [0, 0]
        done = []
        for who in order:
            op = SCRIPTS[names[who]][pos[who]]
            ds[who], got = step(ds[who], op, shared, opts[who], who == 1)
            done.append((who, op))
            want = exp[who][0][pos[who]]
            if got != want:
                raise Violation(f"scripts {names}, shared rule lists: {shared}, steps {done}:\n   alone    {want!r}\n   together {got!r}")
            pos[who] += 1
            rec.transitions += 1
            rec.st((names, tuple(pos), shared, opts))
        for who in (0, 1):
            same(f"scripts {names}, steps {done}: facts of system {who}", ds[who].rows(), exp[who][1])
        rec.traces += 1
        rec.ev((names, shared, opts, order), True, names)


def many(case, rec):
    """n systems, k sentences each, round-robin or one after the other; every one ends up with what it was told itself"""
    n, k, shared, order = case
    talk = [[["ann is a cat", "bob is a cat", "kitten means cat", "every cat is a pet", "mark", "hi ann", "blah"][(w * 3 + i * (1 + w % 3)) % 7] for i in range(k)] for w in range(n)]
    ask = ['who is a cat?', 'who is a pet?', 'marked?', 'greeted?', 'is ann a kitten?', 'how many cat are there?']
    beliefs = [dialog.Belief() for w in range(n)]
    ds = [None] * n
    if order == 'build first':
        for w in range(n): ds[w] = dialog.Dialog(w % 2 == 1, '1', RULES if shared else None, WRITE if shared else None)
    steps = [(i, w) for i in range(k) for w in range(n)] if order != 'one by one' else [(i, w) for w in range(n) for i in range(k)]

    def turn(w, text):
        exp, err = beliefs[w].turn(text), ds[w].say(text)
        got = ds[w].read()
        require(err is None and dialog.agrees(got, exp), lambda: f"system {w + 1} of {n} (shared rule lists: {shared}, {order}), told {talk[w]}: {text!r} is answered {got!r} {err or ''}, expected {exp!r}")
        rec.transitions += 1
    for i, w in steps:
        if ds[w] is None: ds[w] = dialog.Dialog(w % 2 == 1, '1', RULES if shared else None, WRITE if shared else None)
        turn(w, talk[w][i])
    for q in ask:
        for w in range(n): turn(w, q)
    for w in range(n):
        same(f"system {w + 1} of {n}: facts stored", ds[w].rows(), beliefs[w].rows())
        rec.st((case, w))
    rec.traces += 1
    rec.ev(case, True, 'many')


def interleavings(n, m):
    for c in itertools.combinations(range(n + m), n):
        s = set(c)
        yield tuple(0 if i in s else 1 for i in range(n + m))


def spaces(tier):
    q = tier == 'quick'
    out = []
    k = 60
    if q:
        short = ['facts', 'rules', 'words', 'context', 'greeted', 'errors']
        pairs = [(a, b) for i, a in enumerate(short) for b in short[i:]]
        pairs = [(a, b, i % 2 == 0, ((False, False), (True, False))[i % 3 == 0]) for i, (a, b) in enumerate(pairs)]
        pairs += [('facts', 'restart', True, (False, False)), ('facts', 'ask', True, (False, False)), ('facts', 'rules2', False, (True, True)), ('words', 'kitten', True, (False, False)), ('words', 'kitten', False, (True, False)), ('words', 'words', True, (False, True)), ('context', 'context', True, (False, False))]
    else:
        names = list(SCRIPTS)[:-1]
        pairs = [(a, b, s, o) for i, a in enumerate(names) for b in names[i:] for s, o in ((True, (False, False)), (False, (True, False)))]
        pairs += [('facts', 'longer', True, (True, True)), ('rules', 'longer', False, (False, True))]
    for a, b, s, o in pairs:
        ils = list(interleavings(len(SCRIPTS[a]), len(SCRIPTS[b])))
        for i in range(0, len(ils), k): out.append((a, b, s, o, ils[i:i + k]))
    big = [(n, k, s, o) for n in (2, 3, 4, 5, 8, 10, 11, 16, 17) + ((20, 33, 50) if not q else ()) for k in (1, 2, 3, 5, 7) + ((10, 20) if n < 6 else ()) + ((33, 65, 101) if n == 2 else ()) for s in (False, True) for o in ('build first', 'build late', 'one by one')]
    return [Space("many systems", big, many, 1), Space("scripts alone", [('alone', n) for n in SCRIPTS], run), Space("interleavings", out, run, 1)]
