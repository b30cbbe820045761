"""Aggregates, comparisons, assignment: every small table of values x bodies x positions, against exact arithmetic."""
import itertools
from fractions import Fraction
from mc.core import Space, Violation, require
from mc import impl, ref
from mc.impl import Variable

PROP = "C09"
LEVEL = "exploration"
RULE = ("one evaluation = one aggregate, comparison, equality, product or assignment solved over one table of values with one binding, compared "
        "with exact arithmetic over the distinct solutions of the body (averages and percentages up to rounding; the first of the tied entities for "
        "minimum and maximum); non-trivial = the body has solutions, or the expected answer is 'absent'")
ASSUMPTIONS = ["the entity and element variables of an aggregate are unbound", "values that are aggregated are numbers",
               "values that are equal but of different types are not mixed as results"]

E1, E2, E3, E4, E5 = [Variable(f'E{i}') for i in range(1, 6)]
VALUES = [-2, 0, 0.5, 3, 3]


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)) and not isinstance(a, str)


BODIES = [
    [('v', E1, E2)], [('q', E1), ('v', E1, E2)], [('v', E1, E2), ('not', [('q', E1)])], [('v', E1, E2), ('greater_than', E2, 0)],
    [('v', E1, E2), ('w', E3)], [('v', E1, E2), ('v', E3, E2)], [('v', E1, E2), ('less_than', E2, E4)], [('v', E4, E2), ('v', E1, E2)],
    [('scoped', [('v', E1, E2)]), ('v', E1, E2)], [('v', E1, E3), ('multiply', E3, -2, E2)],
]


def drop(bindings):
    return [{k: v for k, v in b.items() if k != 'E2' or v is not None} for b in bindings]


def agg(case, rec):
    rows, qs = case
    db = {'v': [[n, x] for n, x in rows], 'q': [[x] for x in qs], 'w': [['k'], ['l']]}
    solver = impl.Solver(impl.Model([ref.tables(db)]))
    for bi, body in enumerate(BODIES):
        for binding in ({'E4': 3, 'E8': 'keep'}, {'E4': 0, 'E1': 'a'}) if bi != 7 else ({'E4': 'a'}, {'E8': 'keep'}):
            sols = ref.evaluate(body, dict(binding), db)
            vs = [Fraction(s['E2']) for s in sols]
            n = len(sols)
            exp = {'count': n, 'sum': sum(vs), 'avg': sum(vs) / n if n else None, 'arg_min': min(vs) if n else None, 'arg_max': max(vs) if n else None}
            for f in exp:
                a = (f, E5, body) if f == 'count' else (f, E5, E2, body) if f in ('sum', 'avg') else (f, E1, E2, body)
                b = dict(binding)
                got = solver.solve([a], b)
                what = lambda: f"{a} with {binding} over v={rows} q={qs}: got {got}"
                require(b == binding, lambda: f"binding changed: {what()}")
                if exp[f] is None:
                    require(got == [], lambda: f"there is nothing to take it over, so no answer expected: {what()}")
                else:
                    require(len(got) == 1, lambda: f"one answer expected: {what()}")
                    g = got[0]
                    var = 'E2' if f.startswith('arg') else 'E5'
                    keys = set(binding) | ({'E1', 'E2'} if f.startswith('arg') else {'E5'})
                    # the element variable of a sum or average has no value outside of it
                    if f in ('sum', 'avg') and 'E2' not in keys and g.get('E2', 0) is None: g = {k: v for k, v in g.items() if k != 'E2'}
                    require(set(g) == keys and all(g[k] == binding[k] for k in binding), lambda: f"variables {sorted(keys)} expected: {what()}")
                    require(isinstance(g[var], (int, float)) and close(g[var], float(exp[f])), lambda: f"value {exp[f]} expected: {what()}")
                    if f.startswith('arg'):
                        first = [s['E1'] for s in sols if s['E2'] == exp[f]][0]
                        require(g['E1'] == first, lambda: f"the first entity with value {exp[f]}, {first}, expected: {what()}")
                    # the result can be used by what follows, and compared with a constant
                    for op, t in (('greater_than', exp[f] > 2), ('less_than', exp[f] < 2)):
                        r = solver.solve([a, (op, Variable(var), 2)], dict(binding))
                        require(len(r) == (1 if t else 0), lambda: f"followed by {op} 2: {r}; {what()}")
                    if f in ('count', 'sum'):
                        for k in (n, n + 1, 0):
                            r = solver.solve([(f, k) + a[2:]], dict(binding))
                            require(drop(r) == ([binding] if k == exp[f] else []), lambda: f"with the constant {k}: {r}; {what()}")
                # a variable that has a value already: it must be that value
                if f in ('count', 'sum', 'avg') and exp[f] is not None and Fraction(float(exp[f])) == exp[f]:
                    for k in (exp[f] + 1, exp[f], 0, exp[f] + Fraction(1, 10 ** 7)):
                        k = int(k) if k == int(k) else float(k)
                        r = solver.solve([a], {**binding, 'E5': k})
                        require(drop(r) == ([{**binding, 'E5': k}] if k == exp[f] else []), lambda: f"with the bound value {k}: {r}; {what()}")
                rec.ev((case, bi, f, repr(binding)), n > 0 or exp[f] is None, f"{f} {'absent' if exp[f] is None else 'present'}")
            for ci, nom in enumerate(BODIES):
                if bi > 4 or ci > 4: continue
                m = len(ref.evaluate(nom, dict(binding), db))
                got = solver.solve([('percentage', E5, nom, body)], dict(binding))
                if n == 0:
                    require(got == [], lambda: f"percentage of {nom} in {body} with {binding} over {db}: expected none, got {got}")
                else:
                    require(len(got) == 1 and close(got[0]['E5'], 100.0 * m / n), lambda: f"percentage of {nom} in {body} with {binding} over {db}: expected {100.0 * m / n}, got {got}")
                rec.ev((case, bi, ci, 'percentage', repr(binding)), True, f"percentage {'absent' if n == 0 else 'present'}")


def again(case, rec):
    """two aggregates in one query that use the same element variable"""
    f, g = case
    db = {'v': [['a', 1], ['b', 2]], 'w': [['a', 4], ['b', 8]]}
    solver = impl.Solver(impl.Model([ref.tables(db)]))
    exp = {('sum', 'v'): 3, ('avg', 'v'): 1.5, ('arg_min', 'v'): 1, ('arg_max', 'v'): 2, ('sum', 'w'): 12, ('avg', 'w'): 6, ('arg_min', 'w'): 4, ('arg_max', 'w'): 8}
    atom = lambda f, res, t: (f, res, E2, [(t, E1 if res == E5 else E3, E2)]) if f in ('sum', 'avg') else None
    try:
        got = solver.solve([atom(f, E5, 'v'), atom(g, E4, 'w')], {})
        ok = len(got) == 1 and got[0]['E5'] == exp[f, 'v'] and got[0]['E4'] == exp[g, 'w']
    except Exception as e:
        got, ok = repr(e), False
    rec.ev(case, True, f"reuse {ok}")
    require(ok, lambda: f"{f} over v and then {g} over w, with the same element variable: got {got}", key="element-variable-reused")


def sizes(case, rec):
    """result sets given only by their size"""
    n, m = case
    for size in (n, m):
        if size <= 1000:
            it = impl.ResultIterator([1], size)
            require(len(it) == size and sum(1 for _ in it) == size and len(it) == size, lambda: f"a result of {size} rows does not give {size} rows")

    class Big(impl.SomeModule):
        def __init__(self):
            super().__init__()
            self.add_relation(impl.Relation('big', query_function=lambda v, c: impl.ResultIterator([1], n)))
            self.add_relation(impl.Relation('huge', query_function=lambda v, c: impl.ResultIterator([1], m)))
    solver = impl.Solver(impl.Model([Big()]))
    got = solver.solve([('count', E5, [('big', E1)])], {})
    require(got == [{'E5': n}], lambda: f"count of {n} results: {got}")
    got = solver.solve([('percentage', E5, [('big', E1)], [('huge', E1)])], {})
    if m == 0:
        require(got == [], lambda: f"percentage {n} of 0: {got}")
    else:
        require(len(got) == 1 and close(got[0]['E5'], 100 * n / m), lambda: f"percentage {n} of {m}: {got}")
    rec.ev(case, True, "size")


NUMS = [-3, -0.5, 0, 0.25, 2, 10, 10 ** 20, 0.0, 2.0, -3.0, 1e-7, 1e20]
STRS = ['', 'a', 'B', '10', '2', 'é']


def compare(case, rec):
    a, b, how = case
    solver = impl.Solver(impl.Model([]))
    # how: which sides are variables
    la = E1 if how[0] == 'v' else a
    lb = E2 if how[1] == 'v' else b
    base = {'E8': 0}
    if how[0] == 'v': base['E1'] = a
    if how[1] == 'v': base['E2'] = b
    todo = [('equals', a == b)]
    if type(a) == str or not isinstance(b, str):
        if isinstance(a, str) == isinstance(b, str):
            todo += [('greater_than', a > b), ('less_than', a < b)]
    for f, t in todo:
        got = solver.solve([(f, la, lb)], dict(base))
        require(got == ([base] if t else []), lambda: f"({f} {a!r} {b!r}) as {how}: {got}")
        rec.ev((case, f), True, f"{f} {t}")
    if not isinstance(a, str) and not isinstance(b, str):
        got = solver.solve([('multiply', la, lb, E3)], dict(base))
        require(got == [{**base, 'E3': a * b}], lambda: f"(multiply {a!r} {b!r}) as {how}: {got}")
        for k in (a * b, a * b + 1, 0):
            got = solver.solve([('multiply', la, lb, k)], dict(base))
            require(got == ([base] if k == a * b else []), lambda: f"(multiply {a!r} {b!r} {k!r}) as {how}: {got}")
            got = solver.solve([('multiply', la, lb, E3)], {**base, 'E3': k})
            require(got == ([{**base, 'E3': k}] if k == a * b else []), lambda: f"(multiply {a!r} {b!r} E3) as {how} with E3 = {k!r}: {got}")
        rec.ev((case, 'multiply'), True, "multiply")
    # equality binds an unbound side; let assigns
    b0 = {'E8': 0, **({'E2': b} if how[1] == 'v' else {})}
    for f in ('equals', 'let'):
        got = solver.solve([(f, E1, lb)], dict(b0))
        require(got == [{**b0, 'E1': b}], lambda: f"({f} E1 {b!r}) as {how}: {got}")
        # and what follows sees it
        got = solver.solve([(f, E1, lb), ('equals', E1, a)], dict(b0))
        require(got == ([{**b0, 'E1': b}] if a == b else []), lambda: f"({f} E1 {b!r}) (equals E1 {a!r}) as {how}: {got}")
        rec.ev((case, f, 'bind'), True, f"{f} binds")
    got = solver.solve([('equals', lb, E1)], dict(b0))
    require(got == [{**b0, 'E1': b}], lambda: f"(equals {b!r} E1) as {how}: {got}")


LISTS = [[], [1], [1, 2], [2, 1], [1, 2, 3], [3, 2, 1], [1, [2, 3]], [[2, 3], 1], [[1, 2], 3], ['1', 2], ['a', 'b'], ['b', 'a'], [['a', 1], ['b', 2]], [['b', 2], ['a', 1]], [['a', 'b']], ['a'], ['A'], ['', 0], [0, ''], [''], [0], ['a, b'], [[]], 1, 'a', '', '[]']


def lists(case, rec):
    """lists are equal when they have the same elements in the same order"""
    a, b, how = case
    solver = impl.Solver(impl.Model([]))
    base = {'E8': 0, **({'E1': a} if how[0] == 'v' else {}), **({'E2': b} if how[1] == 'v' else {})}
    for wrap in (lambda x: x, lambda x: ('not', [x]), lambda x: ('scoped', [x])):
        atom = wrap(('equals', E1 if how[0] == 'v' else a, E2 if how[1] == 'v' else b))
        got = solver.solve([atom], dict(base))
        require(got == ([base] if (a == b) != (atom[0] == 'not') else []), lambda: f"{atom} with {base}: {got}")
    rec.ev(case, True, f"lists {a == b}")


def unbound(case, rec):
    """an unbound side of a comparison is an error, never an answer; so are two unbound sides of an equality"""
    f, args = case
    try:
        got = impl.Solver(impl.Model([])).solve([(f,) + tuple(E1 if x == '$1' else E2 if x == '$2' else x for x in args)], {})
    except Exception:
        rec.ev(case, True, "error")
        return
    raise Violation(f"({f} {args}) gave {got} and no error")


def large(case, rec):
    """long tables with the extreme at any place, large and small numbers"""
    n, k, scale = case
    vals = [((i * 37 + 11) % 101 - 50) * scale for i in range(n)]
    for low, high in ((k, n - 1 - k), (n - 1 - k, k)):
        vs = list(vals)
        vs[low] = -60 * scale
        if low != high: vs[high] = 60 * scale
        db = {'v': [[i, x] for i, x in enumerate(vs)]}
        solver = impl.Solver(impl.Model([ref.tables(db)]))
        fr = [Fraction(x) for x in vs]
        exp = {'count': len(fr), 'sum': float(sum(fr)), 'avg': float(sum(fr) / n), 'arg_min': float(min(fr)), 'arg_max': float(max(fr))}
        body = [('v', E1, E2)]
        for f in exp:
            got = solver.solve([(f, E5, body) if f == 'count' else (f, E5, E2, body) if f in ('sum', 'avg') else (f, E1, E2, body)], {})
            var = 'E2' if f.startswith('arg') else 'E5'
            require(len(got) == 1 and abs(got[0][var] - exp[f]) <= 1e-9 * abs(scale) * n * 60, lambda: f"{f} over {n} values {str(vs)[:200]}: expected {exp[f]}, got {got}")
            if f.startswith('arg'):
                e = vs.index(min(vs) if f == 'arg_min' else max(vs))
                require(got[0]['E1'] == e, lambda: f"{f} over {n} values: entity {e} expected, got {got}")
            rec.ev((case, low, f), True, f)
        m = sum(1 for x in vs if x > 0)
        got = solver.solve([('percentage', E5, [('v', E1, E2), ('greater_than', E2, 0)], body)], {})
        require(len(got) == 1 and close(got[0]['E5'], 100 * m / n), lambda: f"percentage of {m} in {n}: {got}")


def entities(es, rec):
    """the entity of the least and the greatest value, whatever the entity looks like"""
    for vs in itertools.product([-1, 0, 2], repeat=len(es)):
        rows = [list(r) for r in zip(es, vs)]
        if len(set(map(str, rows))) < len(rows): continue

        class M(impl.SomeModule):
            def __init__(self):
                super().__init__()
                self.add_relation(impl.Relation('v', query_function=lambda v, c: [list(r) for r in rows]))
        solver = impl.Solver(impl.Model([M()]))
        for f, best in (('arg_min', min(vs)), ('arg_max', max(vs))):
            got = solver.solve([(f, E1, E2, [('v', E1, E2)])], {})
            require(len(got) == 1 and got[0]['E2'] == best and [got[0]['E1'], best] in rows, lambda: f"{f} over {rows}: got {got}")
            rec.ev((es, vs, f), True, "entity")


def spaces(tier):
    n = 4 if tier == 'quick' else 5
    names = ['a', 'b', 'c', 'd', 'e']
    cases = []
    for k in range(n + 1):
        for vals in itertools.product([-2, 0, 0.5, 3], repeat=k):
            for nm in ([tuple(names[:k])] + ([('a',) * k, ('a', 'b', 'a', 'b', 'c')[:k]] if k > 1 else [])):
                for qs in (['a'], ['b', 'a', 'c'], []):
                    cases.append((list(zip(nm, vals)), qs))
    cmpc = [(a, b, h) for a in NUMS + STRS for b in NUMS + STRS for h in ('cc', 'cv', 'vc', 'vv')]
    big = [(n, k, sc) for n in [2, 5, 10, 11, 16, 50, 64, 65, 100, 101, 129] + [255, 257, 512, 1000] + ([] if tier == 'quick' else [2049, 4001]) for k in sorted({0, 1, n // 3, n - 2, n - 1}) for sc in (1, 10 ** 12, 1e-6, 0.1, 3e-9, -1)]
    return [Space("large", big, large, 1), Space("entities", [es for k in (1, 2, 3) for es in itertools.product([None, 0, '', 'a', False, 1.5], repeat=k)], entities), Space("same element variable", [(f, g) for f in ('sum', 'avg') for g in ('sum', 'avg')], again), Space("aggregates", cases, agg), Space("sizes only", [(a, b) for a in (0, 1, 3, 10 ** 9) for b in (0, 1, 4, 10 ** 9)], sizes),
            Space("comparisons", cmpc, compare),
            Space("lists", [(a, b, h) for a in LISTS for b in LISTS for h in ("cc", "cv", "vc", "vv")], lists),
            Space("unbound sides", [(f, a) for f in ('greater_than', 'less_than') for a in (('$1', 1), (0, '$1'), ('$1', '$2'))] + [('equals', ('$1', '$2')), ('multiply', ('$1', 2, '$2')), ('multiply', (2, '$1', '$2'))], unbound)]
