"""Logical built-ins: every formula over menus of bodies and contexts x databases x bindings, against their definitions."""
import copy, itertools
from mc.core import Space, Violation, require
from mc import impl, ref
from mc.impl import Variable

PROP = "C08"
LEVEL = "exploration"
RULE = ("one evaluation = one list of atoms with one to three nested logical built-ins solved with one binding on one database, its set of "
        "resulting bindings (each once) compared with a naive evaluator of the definitions; the binding and the atoms must be unchanged; "
        "non-trivial = the database gives the body of the built-in at least one row to look at")
ASSUMPTIONS = ["the variable that receives a collected list is not bound before", "values of different types that are equal (1, True) are not mixed",
               "order of collected values is the order of the solutions of the body"]

E1, E2, E3, E9 = Variable('E1'), Variable('E2'), Variable('E3'), Variable('E9')
q, r, p = (lambda x: ('q', x)), (lambda x: ('r', x)), (lambda x, y: ('p', x, y))

BODIES = [
    [q(E1)], [r(E1)], [q(E2)], [p(E1, E2)], [p(E2, E1)], [q(E1), r(E1)], [q(E2), p(E1, E2)], [p(E1, E2), p(E2, E3)], [q('a')], [p(E1, 'a')], [p(E1, E1)],
    [r(E3), q(E1)], [],
]
NUMS = [0, 1, 2]


def ops(bodies, second, nums=NUMS):
    for b in bodies:
        for f in ('not', 'none', 'scoped'):
            yield (f, b)
        for f in ('det_equals', 'det_greater_than', 'det_less_than'):
            for n in nums:
                yield (f, b, n)
    for b in bodies:
        for c in second:
            yield ('$disjunction', [b, c])
            yield ('$disjunction', [b, c, [q(E2)]])
            if any(isinstance(x, Variable) and x.name == 'E1' for a in b for x in a[1:]):
                yield ('all', E1, b, c)
            if any(isinstance(x, Variable) and x.name == 'E2' for a in b for x in a[1:]):
                yield ('all', E2, b, c)
    for b in bodies:
        for v in ('E1', 'E2', ['E1', 'E2'], ['E2'], ['E3', 'E1', 'E1'], ['E3', 'E2', 'E1']):
            yield ('find_all', v, b, E9)
            yield ('find_one', v, b, E9)


def valid(a):
    """the variable of 'all' is given by its range"""
    if a[0] == 'all':
        return any(isinstance(x, Variable) and x.name == a[1].name for at in a[2] for x in at[1:])
    return True


CONTEXTS = [([], []), ([q(E1)], []), ([], [r(E1)]), ([p(E1, E2)], []), ([q(E2)], [p(E2, E1)]), ([p(E2, E3)], [('not', [r(E2)])])]
BINDINGS = [{}, {'E1': 'a'}, {'E2': 'b', 'E8': 0}, {'E1': 0, 'E2': 'a', 'E3': 'b'}]


def dbs(tier):
    vals = ['a', 'b', 0]
    qs = [[], ['a'], ['b', 'a'], ['a', 'b', 0]]
    rs = [[], ['a'], [0, 'b', 'a']]
    ps = [[], [('a', 'a')], [('a', 'b'), ('b', 'a')], [('a', 'b'), ('a', 0), ('b', 'b')], [('a', 'b'), ('b', 'a'), ('b', 0), (0, 'b')], [('b', 0), (0, 'a'), ('a', 'a'), ('a', 'b')]]
    if tier == 'thorough':
        qs = [list(c) for n in range(4) for c in itertools.combinations(vals, n)]
        rs = [list(c) for n in range(4) for c in itertools.combinations(vals, n)]
        ps += [list(c) for n in (2, 3) for c in itertools.combinations([('a', 'a'), ('a', 'b'), ('b', 'a'), ('b', 'b')], n)]
    # texts that look like numbers, and texts that differ in case or space only
    alike = [([0, '0', 'a'], ['0', 0], [('0', 0), (0, '0'), ('0', '0'), (0, 0)]), (['a', 'A', 'a ', '', 'None'], ['A', ''], [('a', 'A'), ('A', 'a'), ('a ', 'a'), ('a, b', 'c'), ('a', 'b, c')])]
    return [{'q': [[x] for x in a], 'r': [[x] for x in b], 'p': [list(x) for x in c]} for a in qs for b in rs for c in ps] + [{'q': [[x] for x in a], 'r': [[x] for x in b], 'p': [list(x) for x in c]} for a, b, c in alike]


_dbs = {}
_forms = {}


def forms(which):
    if which not in _forms:
        base = [a for a in ops(BODIES, BODIES) if valid(a)]
        if which == 'flat':
            _forms[which] = base
        elif which == 'deep':
            inner = [a for a in ops(BODIES[:5] + [[p(E1, E2), p(E2, E3)]], [[r(E1)], [p(E1, E2)]], [1]) if valid(a) and a[0] not in ('find_one',)]
            bodies = [[a] for a in inner] + [[q(E1), a] for a in inner] + [[a, r(E2)] for a in inner]
            _forms[which] = [a for b in bodies for a in [('not', b), ('none', b), ('scoped', b), ('det_equals', b, 1), ('det_greater_than', b, 0), ('det_less_than', b, E3),
                                                         ('all', E1, [q(E1)], b), ('all', E2, [p(E1, E2)], b), ('$disjunction', [b, [r(E1)]]), ('$disjunction', [[r(E2)], b]),
                                                         ('find_all', ['E1', 'E2'], b, Variable('E7')), ('all', E1, [q(E1)] + b, [r(E1)])] if a[0] != 'det_less_than']
    return _forms[which]


def run(case, rec):
    which, i, j, lo, hi, tier = case
    if tier not in _dbs: _dbs[tier] = dbs(tier)
    fs = forms(which)[i:j]
    for d in _dbs[tier][lo:hi]:
        db = copy.deepcopy(d)
        solver = impl.Solver(impl.Model([ref.tables(db)]))
        for f in fs:
            for pre, post in CONTEXTS if which == 'flat' else CONTEXTS[:3]:
                atoms = pre + [f] + post
                for b in BINDINGS if which == 'flat' else BINDINGS[:2]:
                    one(solver, atoms, b, db, rec)
        require(db == d, "the data was changed")


def one(solver, atoms, b, db, rec):
    exp = ref.evaluate(atoms, dict(b), db)
    b1 = dict(b)
    got = solver.solve(atoms, b1)
    if b1 != b:
        raise Violation(f"the binding became {b1}: atoms {atoms} binding {b} data {db}")
    if got != exp and sorted(map(ref.frz, exp)) != sorted(map(ref.frz, got)):
        raise Violation(f"atoms {atoms} binding {b} data {db}\n  expected {exp}\n  got      {got}")
    rec.ev((repr(atoms), repr(b), repr(db)), any(db.values()), f"{atoms[0][0] if len(atoms) == 1 else 'conjunction'} {len(exp)}")


def numbers(case, rec):
    """numeric quantifiers: body with n solutions against number m given as constant or bound variable; also sizes only"""
    n, m, how = case
    db = {'q': [[i] for i in range(n)], 'm': [[m]]}
    mods = [ref.tables(db)]

    class Big(impl.SomeModule):
        def __init__(self):
            super().__init__()
            self.add_relation(impl.Relation('big', query_function=lambda v, c: impl.ResultIterator([1], n)))
    mods.append(Big())
    solver = impl.Solver(impl.Model(mods))
    body = [('big', E1)] if how == 'size' else [q(E1)]
    for f, t in (('det_equals', n == m), ('det_greater_than', n > m), ('det_less_than', n < m)):
        atoms = [('m', E3), (f, body, E3)] if how == 'var' else [(f, body, m)]
        got = solver.solve(atoms, {'E8': 1})
        exp = [({'E8': 1, 'E3': m} if how == 'var' else {'E8': 1})] if t else []
        require(got == exp, lambda: f"{atoms} with {n} solutions: expected {exp}, got {got}")
        rec.ev((case, f), True, f"{f} {t}")
    for f, t in (('not', n == 0), ('none', n == 0), ('scoped', n > 0)):
        got = solver.solve([(f, body)], {'E8': 1})
        require(got == ([{'E8': 1}] if t else []), lambda: f"{f} with {n} solutions: {got}")
        rec.ev((case, f), True, f"{f} {t}")


def large(case, rec):
    """ranges, lists, alternatives and nestings that are long"""
    n, k = case
    db = {'q': [[i] for i in range(n)], 'r': [[i] for i in range(n) if i != k], 's': [[k]], 'e': [], 'p': [[i % 3, i] for i in range(n)]}
    solver = impl.Solver(impl.Model([ref.tables(db)]))
    todo = []
    for m in (n - 1, n, n + 1, 0, 1, 10):
        todo += [[(f, [q(E1)], m)] for f in ('det_equals', 'det_greater_than', 'det_less_than')]
    todo += [[('all', E1, [q(E1)], [r(E1)])], [('all', E1, [r(E1)], [q(E1)])], [('not', [q(E1), ('s', E1)])], [('none', [q(E1), ('not', [r(E1)])])], [('scoped', [q(E1), ('s', E1)])],
             [('find_all', 'E1', [q(E1)], E9)], [('find_all', 'E1', [p(E1, E2)], E9)], [('find_all', ['E2', 'E1'], [p(E1, E2)], E9)], [('find_one', 'E1', [q(E1), ('not', [r(E1)])], E9)],
             [q(E1), ('not', [r(E1)])], [('$disjunction', [[('e', E1)]] * k + [[q(E1)]] + [[r(E1)]] * 2)], [('$disjunction', [[('q', n)]] * k + [[('s', E1)], [q(E1)]])],
             [('$disjunction', [[('q', n + i)] for i in range(k)] + [[('q', k)], [('nothing', E1)]])], [('s', E1), ('$disjunction', [[('p', 5, i)] for i in range(k)] + [[('p', E2, k)], [('p', E2, E1)]])]]
    f, g = [('s', E1)], [('e', E1)]
    for i in range(min(k, 40)):
        f = [(('not', f), ('scoped', f), ('none', f), ('det_equals', f, i % 2), ('$disjunction', [[('e', E2)], f]))[(i * n) % 5]]
        g = [('not', g) if i % 2 else ('all', E2, [('s', E2)], g)]
    todo += [f, g]
    # long bodies, of which only the last condition makes the difference
    for last in (('s', E1), ('r', E1), ('e', E1)):
        body = [('s', E1)] + [('q', (i * k) % n) for i in range(min(n, 40))] + [last]
        todo += [[(f, body)] for f in ('not', 'none', 'scoped')] + [[(f, body, 1)] for f in ('det_equals', 'det_greater_than', 'det_less_than')]
        todo += [[('all', E1, body[:-1], [last])], [('all', E1, body, [q(E1)])], [('find_all', 'E1', body, E9)], [('find_one', 'E1', body, E9)], [('$disjunction', [body, [r(E1)]])], body]
    for atoms in todo:
        for b in ({}, {'E8': 1}):
            exp, got = ref.evaluate(atoms, dict(b), db), solver.solve(atoms, dict(b))
            if got != exp and sorted(map(ref.frz, exp)) != sorted(map(ref.frz, got)):
                raise Violation(f"size {n}, position {k}: atoms {str(atoms)[:400]} with {b}\n  expected {str(exp)[:300]}\n  got      {str(got)[:300]}")
            rec.ev((case, repr(atoms)[:200], repr(b)), True, None)


def spaces(tier):
    nd = len(dbs(tier))
    nf = len(forms('flat'))
    step = 10 if tier == 'quick' else 24
    cases = [('flat', i, i + 40, lo, lo + step, tier) for i in range(0, nf, 40) for lo in range(0, nd, step)]
    nq = len(dbs('quick'))
    deep = len(forms('deep'))
    sel = [(lo, lo + 1) for lo in range(0, nq, 11 if tier == 'quick' else 3)]
    cases2 = [('deep', i, i + 100, lo, hi, 'quick') for i in range(0, deep, 100) for lo, hi in sel]
    sizes = [6, 10, 11, 31, 33, 64, 65, 99, 100, 101, 128, 129] + ([] if tier == 'quick' else [200, 255, 256, 257, 300])
    return [Space("large", [(n, k) for n in sizes for k in sorted({0, 1, 2, 3, 4, 5, n // 2, n - 2, n - 1})], large, 1), Space("numbers", [(n, m, h) for n in range(5) for m in (-1, 0, 1, 2, 3, 4, 5, 2.5) for h in ('const', 'var', 'size')], numbers),
            Space("one built-in in context", cases, run), Space("nested built-ins", cases2, run)]
