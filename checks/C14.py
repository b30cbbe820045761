"""Dialogue contexts: every nesting of blocks and outcomes, and every history of starting, ending, blocks, facts and clearing."""
import itertools
from mc.core import Space, Violation, require
from mc import impl, ref
from mc.impl import Variable, Relation

PROP = "C14"
LEVEL = "model_checking"
RULE = ("model state = set of active contexts + facts about entities; every program of nested blocks (bodies that succeed, have no or several solutions, or raise "
        "an error) and every history of operations up to a depth is run on the real module; the contexts seen at every observation point inside, and the "
        "contexts and facts after every operation, must be those of the model")
ASSUMPTIONS = ["a context that is started in a block without a block of its own is ended in that block, and was not active before", "whether a block whose body has no solutions counts as success is not judged"]

E1, E2, E9 = Variable('E1'), Variable('E2'), Variable('E9')


class Probe(impl.SomeModule):
    def __init__(self):
        super().__init__()
        self.seen = []
        self.add_relation(Relation('observe', query_function=self.observe))
        self.add_relation(Relation('boom', query_function=self.boom))
        self.add_relation(Relation('q', query_function=lambda v, c: [[x] for x in ('u', 'w') if v[0] in (None, x)]))

    def observe(self, values, context):
        self.seen.append(active(context.solver))
        return [[]]

    def boom(self, values, context):
        raise ValueError("boom")


def active(solver):
    return sorted({b['E9'] for b in solver.solve([('context', E9)], {})})


# statements: ('obs',) ('fail',) ('err',) ('multi',) ('pair', name) ('with', name, body)
def atoms(body, depth=0):
    out = []
    for s in body:
        if s[0] == 'obs': out.append(('observe',))
        elif s[0] == 'fail': out.append(('equals', 0, 1))
        elif s[0] == 'err': out.append(('boom',))
        elif s[0] == 'multi': out.append(('q', Variable(f'M{depth}')))
        elif s[0] == 'pair': out += [('start_context', s[1]), ('observe',), ('end_context', s[1])]
        else: out.append(('with_context', s[1], atoms(s[2], depth + 1)))
    return out


class Boom(Exception):
    pass


class AfterFailure(Exception):
    pass


def simulate(body, act, seen, depth=0, bound=frozenset()):
    """-> True if the body has a solution; depth-first over solutions of the statements, as the solver does it; raises Boom"""
    def go(i, act, bound):
        # the solver solves statement i for the current solution, then the rest for each of its results
        if i == len(body): return 1
        s = body[i]
        if s[0] == 'obs':
            seen.append(sorted(act))
        elif s[0] == 'fail': return 0
        elif s[0] == 'err': raise Boom()
        elif s[0] == 'multi':
            if depth not in bound:
                return sum([go(i + 1, act, bound | {depth}) for _ in range(2)])
        elif s[0] == 'pair':
            if s[1] in act: raise AfterFailure()     # not judged
            seen.append(sorted(act | {s[1]}))
        else:
            simulate(s[2], act | {s[1]}, seen, depth + 1, bound)
        return go(i + 1, act, bound)
    return go(0, act, bound) > 0


def run(case, rec):
    pre, bodies = case
    for body in bodies: program(pre, body, rec)


def program(pre, body, rec):
    exp, err = [], False
    try:
        simulate(body, frozenset(pre), exp)
    except Boom:
        err = True
    except AfterFailure:
        return
    ctx, probe = impl.BasicDialogContext(), Probe()
    solver = impl.Solver(impl.Model([ctx, probe]))
    for n in pre: solver.solve([('start_context', n)], {})
    what = lambda: f"contexts {pre} active before {body}"
    try:
        solver.solve(atoms(body), {'E8': 1})
        got_err = False
    except ValueError:
        got_err = True
    except Exception as e:
        raise Violation(f"{what()}: {e!r}")
    # a block without solutions may or may not let what follows it run
    skips = any(s[0] == 'with' and not solvable(s[2]) for s in flat(body))
    if not skips:
        require(probe.seen == exp, lambda: f"{what()}: contexts seen inside {probe.seen}, expected {exp}")
        require(got_err == err, lambda: f"{what()}: error {got_err}, expected {err}")
    after = active(solver)
    require(after == sorted(pre), lambda: f"{what()}: active afterwards {after}, expected {sorted(pre)}")
    rec.transitions += len(exp) + 1
    rec.traces += 1
    for s in exp: rec.st(s)
    rec.ev((pre, body), len(exp) > 0, f"err={err}")


def flat(body):
    for s in body:
        yield s
        if s[0] == 'with': yield from flat(s[2])


def solvable(body):
    return not any(s[0] in ('fail',) or (s[0] == 'with' and not solvable(s[2])) for s in body)


# ---- histories
NAMES = ['a', "it's", '', 'A', 'ab', '_', '%', 'a ']
OPS = [('start', 'a'), ('start', "it's"), ('end', 'a'), ('end', "it's"), ('with', 'a', 'ok'), ('with', "it's", 'err'), ('with', '', 'fail'), ('isa', 'e1', 'man'), ('isa', "e'2", 'a"b'), ('clear',), ('vwith', 'a'), ('each',), ('falsy', 'a'), ('opens', 'a', "it's"), ('shuts', "it's", 'a')]
# names that look alike
ALIKE = [('start', 'ab'), ('start', 'A'), ('end', 'A'), ('end', '%'), ('end', '_'), ('start', 'a_'), ('with', 'ab', 'ok'), ('with', 'A', 'err'), ('with', 'a%', 'fail'), ('end', ''), ('start', 'a '), ('isa', 'E1', 'Man'), ('isa', 'e_', 'man'), ('isa', '007', '1e2')]


def history(case, rec):
    for ops in case: one_history(ops, rec)


def one_history(ops, rec):
    ctx, probe = impl.BasicDialogContext(), Probe()
    other = impl.SimpleMemoryModule()
    other.data_source.connection.execute("CREATE TABLE fact (x)")
    other.add_relation(Relation('fact', arguments=['x']))
    buf = impl.BasicOutputBuffer()
    solver = impl.Solver(impl.Model([ctx, probe, other, buf]))
    solver.solve([('store', [('fact', 'stays'), ('output_value', 'stays')])], {})
    act, isa = set(), []
    for op in ops:
        inside = None
        try:
            if op[0] == 'start':
                solver.solve([('start_context', op[1])], {})
                act.add(op[1])
            elif op[0] == 'end':
                solver.solve([('end_context', op[1])], {})
                act.discard(op[1])
            elif op[0] == 'with':
                inside = sorted(act | {op[1]})
                solver.solve([('with_context', op[1], [('observe',)] + {'ok': [], 'err': [('boom',)], 'fail': [('equals', 0, 1)]}[op[2]])], {})
            elif op[0] in ('opens', 'shuts'):
                # another context is started (or ended) in the block; whether that lasts longer than the block is not judged: it is ended
                inside = sorted(act | {op[1], op[2]} if op[0] == 'opens' else (act | {op[1]}) - {op[2]})
                solver.solve([('with_context', op[1], [('start_context' if op[0] == 'opens' else 'end_context', op[2]), ('observe',)])], {})
                solver.solve([('end_context', op[2])], {})
                act.discard(op[2])
            elif op[0] == 'vwith':
                # the name and the body's variables are bound outside
                inside = sorted(act | {op[1]})
                solver.solve([('equals', E1, op[1]), ('equals', E2, 'e1'), ('with_context', E1, [('context', E1), ('observe',), ('store', [('dialog_isa', E2, 'seen')])])], {})
                isa.append(('e1', 'seen'))
            elif op[0] == 'falsy':
                # the values bound outside are seen inside, whatever they are
                inside = sorted(act | {op[1]})
                solver.solve([('equals', E1, 0), ('equals', E2, ''), ('with_context', op[1], [('observe',), ('equals', E1, 5), ('store', [('dialog_isa', 'wrong', 'wrong')])]),
                              ('with_context', op[1], [('equals', E2, 'x'), ('store', [('dialog_isa', 'wrong', 'wrong')])]), ('with_context', op[1], [('equals', E1, 0), ('equals', E2, ''), ('store', [('dialog_isa', 'right', E2)])])], {})
                isa.append(('right', ''))
            elif op[0] == 'isa':
                solver.write_atom(('dialog_isa', op[1], op[2]))
                isa.append(op[1:])
            elif op[0] == 'each':
                solver.solve([('q', E1), ('with_context', E1, [('context', E1), ('store', [('dialog_isa', E1, 'each')])])], {})
                isa += [('u', 'each'), ('w', 'each')]
            else:
                ctx.clear()
                act, isa = set(), []
        except ValueError:
            pass
        if inside is not None:
            require(probe.seen[-1:] == [inside], lambda: f"{ops}: inside {op} active {probe.seen[-1:]}, expected {inside}")
        rec.transitions += 1
        rec.st((sorted(act), sorted(set(isa))))
        got = active(solver)
        require(got == sorted(act), lambda: f"{ops}, after {op}: active {got}, expected {sorted(act)}")
        for n in NAMES:
            require(len(solver.solve([('context', n)], {})) == len(solver.solve([('context', E9)], {'E9': n})) == (n in act), lambda: f"{ops}, after {op}: context {n!r} active is not {n in act}")
        got = sorted((b['E1'], b['E2']) for b in solver.solve([('dialog_isa', E1, E2)], {}))
        require(got == sorted(set(isa)), lambda: f"{ops}, after {op}: known {got}, expected {sorted(set(isa))}")
        for t in ('man', 'Man', 'MAN', 'a"b', 'each', 'm%', '', '1e2', '100'):
            got = sorted(b['E1'] for b in solver.solve([('dialog_isa', E1, E2)], {'E2': t}))
            require(got == sorted({e for e, x in isa if x == t}), lambda: f"{ops}, after {op}: of type {t!r} {got}, known {isa}")
        for e in ('e1', 'E1', 'e_', 'e%', 'u', '', '007', '7'):
            got = sorted(b['E2'] for b in solver.solve([('dialog_isa', E1, E2)], {'E1': e}))
            require(got == sorted({x for y, x in isa if y == e}), lambda: f"{ops}, after {op}: {e!r} is {got}, known {isa}")
        require(solver.solve([('fact', E1), ('output_value', E1)], {}) == [{'E1': 'stays'}], lambda: f"{ops}, after {op}: other facts were touched")
    rec.traces += 1
    rec.ev(ops, True, f"{len(act)} active {len(set(isa))} facts")


def large(case, rec):
    """many contexts, deep nesting, long histories"""
    kind, n = case
    ctx, probe = impl.BasicDialogContext(), Probe()
    solver = impl.Solver(impl.Model([ctx, probe]))
    names = [f"c{i}" for i in range(n)]

    def expect(act, what):
        got = active(solver)
        require(got == sorted(act), lambda: f"{case} {what}: active {str(got)[:200]} ({len(got)}), expected {str(sorted(act))[:200]} ({len(act)})")
        rec.transitions += 1
        rec.st((kind, n, what))
    if kind == 'open':
        for i, c in enumerate(names):
            solver.solve([('start_context', c)], {})
            expect(names[:i + 1], f"after opening {i + 1}")
        for c in names: require(solver.solve([('context', c)], {}) == [{}], lambda: f"{case}: {c} is not active")
        solver.solve([('with_context', 'other', [('observe',)])], {})
        require(probe.seen[-1] == sorted(names + ['other']), lambda: f"{case}: inside a block {probe.seen[-1]}")
        expect(names, "after a block")
        order = names[::2] + names[1::2]
        for i, c in enumerate(order):
            solver.solve([('end_context', c)], {})
            expect(order[i + 1:], f"after closing {i + 1}")
    elif kind in ('nested', 'nested same', 'nested error'):
        body = [('boom',)] if kind == 'nested error' else [('observe',)]
        inner = []
        for i in reversed(range(n)):
            c = 'same' if kind == 'nested same' else names[i]
            body = [('observe',), ('with_context', c, body), ('observe',)]
        solver.solve([('start_context', 'outer')], {})
        try:
            solver.solve(body, {})
            require(kind != 'nested error', f"{case}: the error is lost")
        except ValueError:
            require(kind == 'nested error', f"{case}: an error")
        stack = [['outer'] + (['same'] * min(i, 1) if kind == 'nested same' else names[:i]) for i in range(n + 1)]
        exp = [sorted(x) for x in (stack[:-1] if kind == 'nested error' else stack + stack[:-1][::-1])]
        require(probe.seen == exp, lambda: f"{case}: contexts seen inside differ at {[i for i, (a, b) in enumerate(zip(probe.seen, exp)) if a != b][:3]} ({len(probe.seen)} of {len(exp)} observations)")
        expect(['outer'], "afterwards")
    elif kind == 'again':
        # one context opened and closed again and again, with another one open
        solver.solve([('start_context', 'other')], {})
        for i in range(n):
            solver.solve([('start_context', 'a')], {})
            expect(['a', 'other'], f"opened {i}")
            solver.solve([('end_context', 'a')], {})
            expect(['other'], f"closed {i}")
        for i in range(n):
            solver.solve([('with_context', 'a', [('observe',)])], {})
            require(probe.seen[-1] == ['a', 'other'], lambda: f"{case}: inside block {i}: {probe.seen[-1]}")
            expect(['other'], f"after block {i}")
    elif kind == 'facts':
        for i in range(n): solver.write_atom(('dialog_isa', f"e{i}", f"t{i % 7}"))
        got = sorted((b['E1'], b['E2']) for b in solver.solve([('dialog_isa', E1, E2)], {}))
        require(got == sorted((f"e{i}", f"t{i % 7}") for i in range(n)), lambda: f"{case}: {len(got)} facts remembered of {n}")
        for t in range(7):
            got = sorted(b['E1'] for b in solver.solve([('dialog_isa', E1, f"t{t}")], {}))
            require(got == sorted(f"e{i}" for i in range(n) if i % 7 == t), lambda: f"{case}: of type t{t}: {got}")
        expect([], "no context opened")
    elif kind == 'long names':
        solver.solve([('start_context', 'x' * n)], {})
        for c in ('x' * (n - 1), 'x' * (n + 1), 'x' * (n - 1) + 'y', 'X' * n):
            require(solver.solve([('context', c)], {}) == [], lambda: f"{case}: {c[-5:]!r} is active")
            solver.solve([('end_context', c)], {})
        expect(['x' * n], "after closing others")
    rec.traces += 1
    rec.ev(case, True, kind)


MANY = ['', ' ', 'a', 'A', ' a', 'a ', "it's", '"', '%', '_', 'a%', '\n', '\x00', '0', '1', '01', '1.0', '1e1', '-1', 'None', 'NULL', 'null', 'True', 'é', 'É', 'ß', 'ss', 'a;b', '--', '$1', 'E9', '?', '[]', 'a,b', '\U0001f600', 'context', 'x' * 300]


def names(case, rec):
    """contexts of every two names, opened, observed in a block, and closed"""
    n = case
    for m in MANY:
        if m == n: continue
        ctx, probe = impl.BasicDialogContext(), Probe()
        solver = impl.Solver(impl.Model([ctx, probe]))
        steps = [([('start_context', n)], [n]), ([('start_context', m)], [n, m]), ([('end_context', n)], [m]), ([('with_context', n, [('observe',)])], [m]),
                 ([('equals', E1, n), ('start_context', E1)], [n, m]), ([('equals', E1, m), ('end_context', E1)], [n]), ([('with_context', n, [('with_context', m, [('observe',)])])], [n]), ([('end_context', n)], [])]
        for i, (atoms_, exp) in enumerate(steps):
            solver.solve(atoms_, {})
            got = active(solver)
            require(got == sorted(exp), lambda: f"names {n!r} and {m!r}, step {i} {atoms_}: active {got}, expected {sorted(exp)}")
            for x in (n, m):
                require(len(solver.solve([('context', E9)], {'E9': x})) == (x in exp), lambda: f"names {n!r} and {m!r}, step {i}: {x!r} active is not {x in exp}")
            rec.transitions += 1
        require(probe.seen == [sorted([n, m])] * 2, lambda: f"names {n!r} and {m!r}: seen inside {probe.seen}")
        rec.traces += 1
        rec.ev((n, m), True, 'names')


def spaces(tier):
    sizes = (9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 99, 100, 101, 128, 129, 200, 201, 255, 256, 257)
    big = [(k, n) for k in ('open', 'again', 'facts', 'long names') for n in sizes] + [(k, n) for k in ('nested', 'nested same', 'nested error') for n in range(3, 41)]
    base = [('obs',), ('fail',), ('err',), ('multi',), ('pair', 'c')]
    def seqs(st, n): return [c for k in range(n + 1) for c in itertools.product(st, repeat=k)]
    l0 = seqs(base, 2)
    l0 = [b for b in l0 if ('obs',) in b or b == () or len(b) == 1 or b[0] != ('obs',)]
    st1 = base + [('with', n, b + (('obs',),) if len(b) < 2 else b) for n in 'ab' for b in l0]
    l1 = seqs(st1, 2)
    progs = [(('with', n, b), ('obs',)) for n in 'ab' for b in l1] + l1
    if tier == 'thorough':
        st2 = base + [('with', n, b) for n in 'ab' for b in seqs(base + [('with', m, (('obs',), x)) for m in 'abc' for x in base], 2)]
        progs += [(('with', n, (s, t)), ('obs',)) for n in 'ab' for s in st2 for t in st2[:40]]
    pres = [(), ('a',), ('a', 'b'), ('b', 'c')]
    cases = [(p, progs[i:i + 100]) for p in pres for i in range(0, len(progs), 100)]
    d = 4 if tier == 'quick' else 5
    hs = [c for n in range(1, 4) for c in itertools.product(OPS[:4] + ALIKE + OPS[9:10], repeat=n)] if tier == 'thorough' else [c for n in range(1, 4) for c in itertools.product(OPS[:1] + OPS[2:3] + ALIKE, repeat=n)]
    hs += [c for n in range(1, d) for c in itertools.product(OPS, repeat=n)] + list(itertools.product([o for o in OPS if tier == 'thorough' or o not in (('end', "it's"), ('start', "it's"), ('isa', "e'2", 'a"b'))], repeat=d))
    return [Space("large", sorted(big, key=lambda c: -c[1]), large, chunk=1), Space("names", MANY, names), Space("blocks", cases, run), Space("histories", [hs[i:i + 100] for i in range(0, len(hs), 100)], history)]
