"""Optimiser: every question up to a size x size hints x databases; same answers, every atom kept once."""
import collections, copy, itertools
from mc.core import Space, Violation, require
from mc import impl, ref
from mc.impl import Variable, Relation

PROP = "C10"
LEVEL = "exploration"
RULE = ("one evaluation = one question (look-ups with zero to two built-ins, its answer variables) optimised for one assignment of size hints and "
        "solved on one database, the set of values of the answer variables compared with that of the question as written, and its atoms with the atoms written; "
        "non-trivial = the optimised form differs from the written one")
ASSUMPTIONS = ["a variable of a built-in that also occurs outside of it is bound by an earlier look-up; a variable that a built-in gives a value is used only by "
               "later comparisons or as an answer", "questions are pure: no storing, no collecting in order, no disjunctions, no resolving of names inside negations",
               "size hints of arguments are positive"]

E = {f'E{i}': Variable(f'E{i}') for i in range(1, 10)}
E1, E2, E3, E4, E5, E6, E7, E8, E9 = [E[f'E{i}'] for i in range(1, 10)]

LOOK = [('q', E1), ('q', E2), ('q', 'a'), ('r', E2), ('p', E1, E2), ('p', E2, E1), ('p', E2, E3), ('p', E1, 'a'), ('s', E3, E1), ('s', E3, E4), ('q', E3), ('z',)]
# built-ins: (atom, outer variables it shares, answer variable)
BUILT = [
    (('not', [('q', E1)]), ['E1'], None), (('not', [('p', E1, E5)]), ['E1'], None), (('not', [('p', E1, E5), ('s', E5, E2)]), ['E1', 'E2'], None),
    (('none', [('p', E5, E6), ('q', E6)]), [], None), (('not', [('s', E5, E2), ('not', [('q', E5)])]), ['E2'], None),
    (('det_equals', [('p', E1, E5)], 1), ['E1'], None), (('det_greater_than', [('s', E5, E6), ('p', E6, E1)], 0), ['E1'], None), (('det_less_than', [('p', E5, E2)], 2), ['E2'], None),
    (('det_equals', [('q', E5), ('r', E6)], 2), [], None),
    (('all', E5, [('q', E5)], [('p', E5, E1)]), ['E1'], 'E5'), (('all', E5, [('r', E5), ('q', E5)], [('s', E5, E6), ('not', [('q', E6)])]), [], 'E5'),
    (('all', E5, [('p', E1, E5)], [('det_equals', [('s', E5, E6)], 1)]), ['E1'], 'E5'),
    (('scoped', [('p', E1, E5), ('q', E5)]), ['E1'], None), (('scoped', [('s', E5, E6), ('r', E6), ('q', E5)]), [], None),
    (('count', E9, [('p', E1, E5)]), ['E1'], 'E9'), (('count', E9, [('s', E5, E6), ('q', E6)]), [], 'E9'),
    (('greater_than', E1, 'a'), ['E1'], None), (('equals', E1, E2), ['E1', 'E2'], None), (('less_than', E2, E1), ['E1', 'E2'], None),
]
PAIRS = [(('count', E9, [('p', E1, E5)]), ('greater_than', E9, 0), ['E1']), (('count', E9, [('q', E5)]), ('equals', E9, 2), []), (('count', E9, [('s', E2, E5)]), ('less_than', E9, 2), ['E2']),
         (('not', [('p', E1, E5)]), ('det_equals', [('p', E6, E1)], 1), ['E1']), (('let', E9, 1), ('det_equals', [('p', E1, E5)], E9), ['E1']), (('q', 'a'), ('q', 'a'), []), (('p', E1, 'a'), ('p', E1, 'a'), ['E1'])]

DBS = [
    {'q': ['a', 'b'], 'r': ['b', 'c'], 'p': ['ab', 'ba', 'bc', 'aa'], 's': ['ab', 'cb', 'ca', 'bb'], 'z': True},
    {'q': ['c'], 'r': ['a'], 'p': ['ac', 'ca'], 's': ['aa', 'bc', 'ca'], 'z': True},
    {'q': ['a', 'b', 'c'], 'r': [], 'p': ['ab', 'bb', 'cb'], 's': ['ba', 'bc'], 'z': True},
    {'q': ['b'], 'r': ['a', 'b', 'c'], 'p': ['ba', 'bb', 'ac'], 's': [], 'z': False},
    {'q': [], 'r': ['b'], 'p': [], 's': ['ab'], 'z': True},
]
IG = impl.IGNORED
# size of relation and of its arguments
HINTS = [
    {'q': (IG, []), 'r': (IG, []), 'p': (IG, []), 's': (IG, []), 'z': (IG, [])},
    {'q': (10, [10]), 'r': (100, [100]), 'p': (1000, [10, 100]), 's': (100, [100, 10]), 'z': (1, [])},
    {'q': (1000, [IG]), 'r': (10, [1]), 'p': (1, [1, 1]), 's': (10000, [1000, 1000]), 'z': (0, [])},
    {'q': (IG, []), 'r': (1, [1]), 'p': (10, [IG, 10]), 's': (IG, []), 'z': (IG, [])},
    {'q': (10, [1]), 'r': (IG, []), 'p': (IG, []), 's': (0, [1, IG]), 'z': (1000, [])},
    {'q': (impl.INFINITE, [impl.INFINITE]), 'r': (500, [500]), 'p': (500, [1, 500]), 's': (500, [500, 1]), 'z': (500, [])},
]


def make(dbi, hi, split):
    d = DBS[dbi]
    db = {n: [list(x) for x in d[n]] for n in 'qrps'}
    db['z'] = [[]] if d['z'] else []
    h = HINTS[hi]
    if not split:
        mods = [ref.tables(db)]
        for n, rel in mods[0].relations.items():
            rel.relation_size, rel.argument_sizes = h[n]
    else:
        # the relations divided over two modules with different hints
        one = {n: rows[::2] for n, rows in db.items()}
        two = {n: rows[1::2] for n, rows in db.items() if n != 'z'}
        mods = [ref.tables(one), ref.tables(two)]
        h2 = HINTS[(hi + 1) % len(HINTS)]
        for m, hh in zip(mods, (h, h2)):
            for n, rel in m.relations.items():
                rel.relation_size, rel.argument_sizes = hh[n]
    return impl.Model(mods), db


def outer_vars(atoms):
    out = []
    for a in atoms:
        if a[0] in ('count', 'all', 'let'):
            out.append(a[1].name)
        elif not any(isinstance(x, list) for x in a[1:]):
            out += [x.name for x in a[1:] if isinstance(x, Variable)]
    return out


def leaves(x):
    """all atoms in a question, without the wrapper that only limits the scope"""
    if isinstance(x, list):
        for y in x: yield from leaves(y)
    elif isinstance(x, tuple):
        if x[0] != 'scoped':
            yield (x[0],) + tuple(repr(y) for y in x[1:] if not isinstance(y, list))
        for y in x[1:]:
            if isinstance(y, list): yield from leaves(y)


def answers(solver, atoms, roots):
    return {tuple(repr(b.get(r)) for r in roots) for b in solver.solve(atoms, {})}


def run(case, rec):
    hi, split, qs = case
    envs = []
    for di in range(len(DBS)):
        m, db = make(di, hi, split)
        envs.append((impl.Solver(m), m, db))
    for atoms in qs:
        ov = sorted(set(outer_vars(atoms)))
        base = [{tuple([b.get(v) for v in ov]) for b in solver.solve(atoms, {})} for solver, m, db in envs]
        rootsets = [[]] + [[v] for v in ov] + ([ov[:1] + ov[-1:]] if len(ov) > 1 else []) + ([ov] if len(ov) > 2 else [])
        kept = collections.Counter(leaves(atoms))
        before = repr(atoms)
        for roots in rootsets:
            # hints do not depend on the data: one optimised form
            opt = list(impl.BasicQueryOptimizer(envs[0][1]).optimize(atoms, list(roots)).values())[-1]
            require(repr(atoms) == before, lambda: f"optimising changed the question {before} itself")
            if collections.Counter(leaves(opt)) != kept:
                raise Violation(f"atoms of {atoms} (answer {roots}, hints {HINTS[hi]}) are not kept exactly once: {opt}")
            idx = [ov.index(r) for r in roots]
            for (solver, m, db), bs in zip(envs, base):
                exp = {tuple(repr(t[i]) for i in idx) for t in bs}
                got = answers(solver, opt, roots)
                if exp != got:
                    raise Violation(f"question {atoms} for {roots} hints {HINTS[hi]} data {db}\n optimised {opt}\n expected {sorted(exp)}\n got      {sorted(got)}")
            rec.ev((hi, split, before, tuple(roots)), repr(opt) != before, f"{len(opt)} parts of {len(atoms)}")


def positions(base, extra, need):
    """extra inserted wherever the variables it shares are bound by a look-up before it"""
    for i in range(len(base) + 1):
        seen = outer_vars(base[:i])
        if all(v in seen for v in need):
            yield base[:i] + extra + base[i:]


def questions(tier):
    seen, out = set(), []
    def add(a):
        if repr(a) not in seen:
            seen.add(repr(a))
            out.append(a)
    looks = [list(c) for k in (1, 2, 3) for c in itertools.product(LOOK, repeat=k)]
    if tier == 'thorough':
        looks += [list(c) for c in itertools.product([LOOK[i] for i in (0, 2, 3, 4, 6, 8, 9)], repeat=4)]
    for l in looks: add(l)
    for l in looks:
        if len(l) > 3 or (tier == 'quick' and len(l) > 2): continue
        for a, need, _ in BUILT:
            for qn in positions(l, [a], need): add(qn)
    add([])
    for l in looks:
        if len(l) > 2: continue
        for a, b, need in PAIRS:
            for qn in positions(l, [a, b], need): add(qn)
        if tier == 'thorough' or len(l) == 1:
            for a, need, _ in BUILT:
                for b, need2, ans in BUILT:
                    if a is not b and ans is None or (ans and ans not in outer_vars([a])):
                        for qn in positions(l, [a, b], need + need2): add(qn)
    add([('det_equals', [('p', E1, E2)], 2)])
    for a, need, _ in BUILT:
        if not need: add([a])
    return out


def resolve(case, rec):
    """names are resolved first, once each; look-ups by name"""
    order, nest = case
    db = {'name': [['x', 'a'], ['y', 'b'], ['y', 'c']], 'p': [['a', 'b'], ['b', 'c'], ['c', 'a']], 'q': [['b'], ['c']]}

    class M(impl.SomeModule):
        def __init__(self):
            super().__init__()
            self.add_relation(Relation('resolve_name', query_function=lambda v, c: [list(r) for r in db['name'] if all(a is None or a == b for a, b in zip(v, r))]))
    model = impl.Model([M(), ref.tables({'p': db['p'], 'q': db['q']})])
    solver = impl.Solver(model)
    n1, n2 = ('resolve_name', 'x', E1), ('resolve_name', 'y', E2)
    atoms = [[('p', E3, E1), n1, ('q', E3)], [n1, n2, ('p', E1, E2), ('q', E2)], [('q', E2), n2, ('p', E2, E3)], [('p', E1, E2), n2, n1], [('p', E3, E4), n1, n2, ('p', E1, E4)]][order]
    if nest: atoms = [('q', E5), ('scoped', atoms)] if nest == 1 else [('scoped', [('p', E6, E7), atoms[0]])] + atoms[1:]
    ov = sorted(set(outer_vars(atoms)))
    for roots in [[]] + [[v] for v in ov if v not in ('E1', 'E2')]:
        opt = list(impl.BasicQueryOptimizer(model).optimize(atoms, roots).values())[-1]
        require(collections.Counter(leaves(opt)) == collections.Counter(leaves(atoms)), lambda: f"atoms of {atoms} not kept exactly once: {opt}")
        # a name that is resolved in an inner scope may be resolved outside of it
        full = [('scoped', atoms)] if not roots else atoms
        exp, got = answers(solver, full, roots), answers(solver, opt, roots)
        require(exp == got, lambda: f"{atoms} for {roots}: optimised {opt}: expected {exp} got {got}")
        rec.ev((case, tuple(roots)), True, "names")


def many_names(case, rec):
    """names in long and deep questions, the same name more than once"""
    n, place, dup = case
    rows = [[f"n{i}", i] for i in range(n)] + [["n0", n]]

    class M(impl.SomeModule):
        def __init__(self):
            super().__init__()
            self.add_relation(Relation('resolve_name', query_function=lambda v, c: [list(r) for r in rows if all(a is None or a == b for a, b in zip(v, r))]))
    model = impl.Model([M(), ref.tables({'p': [[i, i + 1] for i in range(n + 2)], 'q': [[i] for i in range(0, n, 2)], 's': [[i, 0] for i in range(n + 1)], 'r': []})])
    solver = impl.Solver(model)
    W = [Variable(f"E{i + 1}") for i in range(2 * n + 2)]
    names = [('resolve_name', f"n{i}", W[i]) for i in range(n)]
    look = [('p', W[i], W[n + i]) for i in range(n)]
    if dup: names = names + names[:dup]
    if place == 'last': atoms = look[:3] + names + look[3:]
    elif place == 'mixed': atoms = [a for p in zip(names, look) for a in p] + names[n:]
    elif place == 'scoped': atoms = [('scoped', names + look)]
    elif place == 'after': atoms = [('s', W[0], Variable('E900')), ('scoped', look[1:3] + names + look[3:])]
    else:
        # a name at every level
        atoms = look[:1] + names[n:]
        for i in range(n - 1, -1, -1): atoms = [('scoped', [names[i]] + ([look[i]] if i else []) + atoms)]
    # what is asked: the same with the names in front
    flat = names + look if place != 'after' else names + [('s', W[0], Variable('E900'))] + look[1:]
    sols = solver.solve(flat, {})
    vs = [] if place in ('scoped', 'deep') else ['E900'] if place == 'after' else [W[n].name, W[n + 2].name]
    for roots in [[]] + [[v] for v in vs]:
        before = repr(atoms)
        opt = list(impl.BasicQueryOptimizer(model).optimize(atoms, list(roots)).values())[-1]
        require(repr(atoms) == before, lambda: f"optimising changed the question {before[:300]}")
        if collections.Counter(leaves(opt)) != collections.Counter(leaves(atoms)):
            raise Violation(f"{case}: atoms of {str(atoms)[:300]} (answer {roots}) are not kept exactly once: {str(opt)[:300]}")
        exp, got = {tuple(repr(b.get(r)) for r in roots) for b in sols}, answers(solver, opt, roots)
        require(exp == got, lambda: f"{case}: question {str(atoms)[:300]} for {roots}: optimised {str(opt)[:300]}: expected {str(sorted(exp))[:200]} got {str(sorted(got))[:200]}")
        rec.ev((case, tuple(roots)), True, place)


_small = {}


def small_envs(hi):
    """every database with one or two p and one or two s over two values"""
    if hi not in _small:
        pairs = ['aa', 'ab', 'ba', 'bb']
        some = [list(c) for k in (1, 2) for c in itertools.combinations(pairs, k)]
        _small[hi] = []
        for ps in some:
            for ss in some:
                db = {'q': [['k']], 'r': [], 'p': [list(x) for x in ps], 's': [list(x) for x in ss], 'z': [[]]}
                mod = ref.tables(db)
                for n, rel in mod.relations.items(): rel.relation_size, rel.argument_sizes = HINTS[hi][n]
                m = impl.Model([mod])
                _small[hi].append((m, db, impl.Solver(m)))
    return _small[hi]


def chains(case, rec):
    """a chain of look-ups in any order, beside a part that has nothing to do with it"""
    hi, n, shape, orders = case
    ends = {'path': [(i, i + 1) for i in range(n)], 'star': [(0, i + 1) for i in range(n)], 'twig': [(i, i + 1) for i in range(n - 1)] + [(1, n)], 'ring': [(i, (i + 1) % n) for i in range(n)], 'linked': [(0, 1), (2, 3), (4, 5), (0, 4), (2, 5), (1, 3)][:n]}[shape]
    names = ['p', 's']
    look = [(names[i % 2], Variable(f'E{a + 1}'), Variable(f'E{b + 1}')) for i, (a, b) in enumerate(ends)]
    envs = [(m, db, impl.Solver(m)) for m, db in (make(i, hi, False) for i in (0, 1, 4))]
    if shape == 'linked': envs = small_envs(hi)
    ref_atoms = {}
    for order in orders:
        atoms = [look[i] for i in order]
        for at, extra in ((None, None), (0, ('q', Variable('E9'))), (n, ('q', Variable('E9'))), (n // 2, ('not', [('p', look[0][1], Variable('E8')), ('s', Variable('E8'), Variable('E7'))]))):
            if at is None: qn = atoms
            elif shape == 'linked' and at != 0: continue
            elif extra[0] == 'not' and look[0] not in atoms[:at]: continue
            else: qn = atoms[:at] + [extra] + atoms[at:]
            for roots in ([], ['E9']) if shape == 'linked' else ([], ['E1'], ['E2'], ['E9'] if extra and extra[0] == 'q' else [f'E{n}'], ['E1', 'E2']):
                opt = list(impl.BasicQueryOptimizer(envs[0][0]).optimize(qn, list(roots)).values())[-1]
                if collections.Counter(leaves(opt)) != collections.Counter(leaves(qn)):
                    raise Violation(f"atoms of {qn} (answer {roots}, hints {HINTS[hi]}) are not kept exactly once: {opt}")
                for m, db, solver in envs:
                    k = (id(db), repr(extra), tuple(roots))
                    if k not in ref_atoms: ref_atoms[k] = answers(solver, qn, roots)
                    got = answers(solver, opt, roots)
                    if got != ref_atoms[k]:
                        raise Violation(f"question {qn} for {roots} hints {HINTS[hi]} data {db}\n optimised {opt}\n expected {sorted(ref_atoms[k])}\n got      {sorted(got)}")
                rec.ev((hi, shape, repr(qn), tuple(roots)), repr(opt) != repr(qn), f"chain {len(opt)} parts of {len(qn)}")


def large(case, rec):
    """long questions: a chain in which each step has one way on, parts that have nothing to do with each other, many conditions, deep nesting"""
    kind, n, hi, step = case
    W = [Variable(f"E{i + 1}") for i in range(n + 1)]
    db = {'p': [[i, i + 1] for i in range(n + 1)], 's': [[i + 1, i] for i in range(n + 1)], 'q': [[n // 2], [n]], 'r': [[1], [n - 1]], 'z': [[]]}
    mod = ref.tables(db)
    for name, rel in mod.relations.items(): rel.relation_size, rel.argument_sizes = HINTS[hi][name]
    model = impl.Model([mod])
    solver = impl.Solver(model)
    chain = [('p', W[i], W[i + 1]) for i in range(n)]
    if kind == 'chain':
        atoms = [('p', 0, W[1])] + chain[1:]
        # neighbours exchanged, or every third one put off a little (more would be too many ways to go)
        if step == 3: atoms = [atoms[i ^ 1] if (i ^ 1) < n else atoms[i] for i in range(n)]
        if step == 7: atoms = [atoms[j] for i in range(0, n, 3) for j in (i + 1, i + 2, i) if j < n]
        want = atoms if step == 1 else [('p', 0, W[1])] + chain[1:]
    elif kind == 'tests':
        # a chain with a condition after each step
        atoms = [('p', 0, W[1])]
        for i in range(1, n):
            atoms.append(chain[i])
            atoms.append([('not', [('p', W[i + 1], W[i])]), ('det_equals', [('p', W[i], Variable('E900'))], 1), ('scoped', [('p', W[i], Variable('E901'))]), ('less_than', W[i], W[i + 1])][(i * step) % 4])
        want = atoms
    elif kind == 'apart':
        # n conditions that have nothing to do with each other
        atoms = [('p', i, W[i]) for i in range(n)]
        if step > 1: atoms = atoms[::-1]
        want = atoms
    elif kind == 'nested':
        inner = [('p', W[1], W[2])]
        for i in range(n): inner = [('not' if (i * step) % 2 else 'scoped', [('p', W[1], Variable(f"E{800 + i}"))] + inner)]
        atoms = [('q', W[1])] + inner
        want = atoms
    else:
        # the same condition again and again
        atoms = [('q', W[1])] * n + [('p', W[1], W[2])] * n
        want = [('q', W[1]), ('p', W[1], W[2])]
    sols = solver.solve(want, {})
    if kind == 'nested': vs = ['E2']
    elif kind == 'same': vs = ['E2', 'E3']
    else: vs = [W[1].name, W[n // 2].name, W[n - 1].name]
    for roots in [[]] + [[v] for v in vs] + [vs[:1] + vs[-1:]]:
        opt = list(impl.BasicQueryOptimizer(model).optimize(atoms, list(roots)).values())[-1]
        if collections.Counter(leaves(opt)) != collections.Counter(leaves(atoms)):
            raise Violation(f"{kind} {n}: atoms of {str(atoms)[:300]} (answer {roots}, hints {HINTS[hi]}) are not kept exactly once: {str(opt)[:300]}")
        exp, got = {tuple(repr(b.get(r)) for r in roots) for b in sols}, answers(solver, opt, roots)
        require(exp == got, lambda: f"{kind} {n}: question {str(atoms)[:300]} for {roots} hints {HINTS[hi]}: optimised {str(opt)[:300]}: expected {str(sorted(exp))[:200]} got {str(sorted(got))[:200]}")
        rec.ev((case, tuple(roots)), repr(opt) != repr(atoms), kind)


COMPLEX = {b[0][0] for b in BUILT}


def spaces(tier):
    qs = questions(tier)
    cases = []
    for hi in range(len(HINTS)):
        for split in (False, True):
            if tier == 'quick' and split and hi not in (1, 2): continue
            sub = qs if tier == 'thorough' or (hi in (1, 3) and not split) else [x for i, x in enumerate(qs) if len(x) != 3 or any(a[0] in COMPLEX for a in x)]
            for i in range(0, len(sub), 60):
                cases.append((hi, split, sub[i:i + 60]))
    ch = []
    for hi in (0, 1) if tier == 'quick' else range(len(HINTS)):
        for shape in ('path', 'star', 'twig', 'ring', 'linked'):
            for n in (4, 5) if tier == 'quick' else (4, 5, 6):
                orders = list(itertools.permutations(range(n)))
                if n == 5 and tier == 'quick': orders = [o for o in orders if o[0] < 2 or shape == 'linked']
                ch += [(hi, n, shape, orders[i:i + 24]) for i in range(0, len(orders), 24)]
    N = [8, 10, 12, 16, 17, 20, 25, 32, 33, 40, 50, 51] + ([] if tier == 'quick' else [64, 65, 80, 100])
    big = [(w, n, h, st) for w in ('chain', 'tests', 'apart', 'nested', 'same') for n in N for h in range(len(HINTS)) for st in (1, 3, 7) if (w != 'nested' or n < 34) and (w != 'chain' or st == 1 or n <= (10 if st == 7 else 12))]
    return [Space("large", big, large, 1), Space("chains", ch, chains), Space("many names", [(n, pl, d) for n in (3, 4, 5, 6, 7, 8, 9, 10, 12) + (() if tier == 'quick' else (16, 17, 20, 25)) for pl in ('last', 'mixed', 'scoped', 'after', 'deep') for d in (0, 1, 2) if n < 11 or d == 0], many_names, 1), Space("names", [(o, n) for o in range(5) for n in range(3)], resolve), Space("questions", [(h, s, i) for h, s, i in [(c[0], c[1], k) for k, c in enumerate(cases)]], lambda case, rec: run((case[0], case[1], cases[case[2]][2]), rec))]
