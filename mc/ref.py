"""
Reference meaning of queries, written from the documentation: a naive left-to-right evaluator over lists of rows.
Atoms are tuples; variables are impl.Variable. Bindings are dicts; each result once.
"""
from .impl import Variable


class Unsafe(Exception):
    """the query has no defined meaning here (e.g. a comparison with an unbound side)"""


def val(x, b):
    if isinstance(x, Variable):
        return b.get(x.name)
    return x


def put(b, arg, value):
    """b extended with arg = value; None if it conflicts"""
    if isinstance(arg, Variable):
        if arg.name in b:
            return b if b[arg.name] == value else None
        c = dict(b)
        c[arg.name] = value
        return c
    return b if arg == value else None


def evaluate(atoms, b, db):
    out = [b]
    for a in atoms:
        new = []
        for x in out:
            for y in atom(a, x, db):
                if y not in new:
                    new.append(y)
        out = new
    return out


def lookup(a, b, rows):
    res = []
    for row in rows:
        if len(row) != len(a) - 1: continue
        c = b
        for arg, v in zip(a[1:], row):
            c = put(c, arg, v)
            if c is None: break
        else:
            res.append(c)
    return res


def num(x, b):
    v = val(x, b)
    if v is None:
        raise Unsafe()
    return v


def atom(a, b, db):
    f = a[0]
    if f in ('not', 'none'):
        return [] if evaluate(a[1], b, db) else [b]
    if f == 'scoped':
        return [b] if evaluate(a[1], b, db) else []
    if f == 'det_equals':
        return [b] if len(evaluate(a[1], b, db)) == num(a[2], b) else []
    if f == 'det_greater_than':
        return [b] if len(evaluate(a[1], b, db)) > num(a[2], b) else []
    if f == 'det_less_than':
        return [b] if len(evaluate(a[1], b, db)) < num(a[2], b) else []
    if f == 'all':
        name = a[1].name
        rng = []
        for x in evaluate(a[2], b, db):
            if x[name] not in rng: rng.append(x[name])
        if not rng: return []
        for v in rng:
            if not evaluate(a[3], {**b, name: v}, db): return []
        return [{**b, name: v} for v in rng]
    if f == '$disjunction':
        for alt in a[1]:
            r = evaluate(alt, b, db)
            if r: return r
        return []
    if f in ('find_all', 'find_one'):
        vals = []
        for x in evaluate(a[2], b, db):
            if isinstance(a[1], list):
                v = [x.get(n) for n in a[1]]
            elif a[1] in x:
                v = x[a[1]]
            else:
                continue
            if v not in vals: vals.append(v)
        if f == 'find_one':
            if not vals: return []
            vals = vals[0]
        c = put(b, a[3], vals)
        return [c] if c is not None else []
    if f == 'count':
        c = put(b, a[1], len(evaluate(a[2], b, db)))
        return [c] if c is not None else []
    if f in ('sum', 'avg', 'arg_min', 'arg_max'):
        sols = evaluate(a[3], b, db)
        vs = [x[a[2].name] for x in sols]
        if f == 'sum':
            r = [put(b, a[1], sum(vs))]
        elif not vs:
            r = []
        elif f == 'avg':
            r = [put(b, a[1], sum(vs) / len(vs))]
        else:
            best = min(vs) if f == 'arg_min' else max(vs)
            e = [x[a[1].name] for x in sols if x[a[2].name] == best][0]
            c = put(b, a[1], e)
            r = [put(c, a[2], best)] if c is not None else []
        return [c for c in r if c is not None]
    if f == 'percentage':
        n, d = len(evaluate(a[2], b, db)), len(evaluate(a[3], b, db))
        if d == 0: return []
        c = put(b, a[1], n / d * 100.0)
        return [c] if c is not None else []
    if f == 'equals':
        l, r = val(a[1], b), val(a[2], b)
        if l is None and r is None: raise Unsafe()
        if l is None: return [put(b, a[1], r)]
        if r is None: return [put(b, a[2], l)]
        return [b] if l == r else []
    if f == 'greater_than':
        return [b] if num(a[1], b) > num(a[2], b) else []
    if f == 'less_than':
        return [b] if num(a[1], b) < num(a[2], b) else []
    if f == 'multiply':
        c = put(b, a[3], num(a[1], b) * num(a[2], b))
        return [c] if c is not None else []
    if f == 'let':
        c = put(b, a[1], num(a[2], b))
        return [c] if c is not None else []
    return db[f](a, b, db) if callable(db[f]) else lookup(a, b, db[f])


def frz(b):
    return tuple(sorted((k, repr(v)) for k, v in b.items()))


def tables(db):
    """a module with exactly these rows, filtering by value"""
    from .impl import SomeModule, Relation

    class Tables(SomeModule):
        def __init__(self, db, **kw):
            super().__init__()
            self.db = db
            for n in db:
                self.add_relation(Relation(n, query_function=self.q, **{k: v[n] for k, v in kw.items()}))

        def q(self, values, context):
            return [list(r) for r in self.db[context.relation.predicate] if all(v is None or v == c for v, c in zip(values, r))]
    return Tables(db)
