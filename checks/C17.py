"""Pipeline blocks: every pipeline of up to three (four) blocks of all kinds, with every outcome table of its processors, on the real System."""
import itertools
from mc.core import Space, Violation, require, same
from mc import impl
from mc.impl import Variable, Relation, SomeProcessor, ProcessResult, SentenceRequest

PROP = "C17"
LEVEL = "exploration"
RULE = ("for every sequence of block kinds, all outcome tables (for every combination of earlier products: an error, or 1..n products) are run through one system per sequence; "
        "calls made (with the products visible to each step), result, kept alternatives and the reported error are compared with a recursive definition of the blocks")
ASSUMPTIONS = ["a processor gives an error or at least one product", "which success is the result is checked for find-one and try-first; with find-all it must be one of the successes"]

KINDS = {'1': impl.FindOne, 'A': impl.FindAll, 'T': impl.TryFirst}


# outcome tree: 0 = error; or a tuple of outcome trees (one per product); at the last step an int n > 0 = n products
def trees(depth, width, last_width):
    if depth == 1:
        return [0] + list(range(1, last_width + 1))
    sub = trees(depth - 1, width, last_width)
    out = [0]
    for w in range(1, width + 1):
        out += list(itertools.product(sub, repeat=w))
    return out


def error_of(ctx, kind):
    """each place has its own error; types with 0, 1 and 2 arguments, in the second run the ones that the parser gives"""
    n = len(ctx)
    k = (sum(ctx) + n + kind) % 3
    if kind == 2 and k == 0: return ['not_understood', 'no_sentence'][n % 2], []
    if kind == 2 and k == 1: return ['unknown_word', 'name_not_found'][n % 2], [repr(ctx)]
    return 'err%d_%d' % (n, k), [repr(ctx), 0][:k] if k else []


class Product:
    def __init__(self, ctx, step): self.ctx, self.step = ctx, step
    def get_output(self): return ('out', self.step, self.ctx)
    def log(self, logger): logger.add(str(self.ctx))


class Falsy(Product):
    def __bool__(self): return False
    def __len__(self): return 0


class Equal(Product):
    """products that look the same are still so many products"""
    def __eq__(self, other): return isinstance(other, Equal)
    def __hash__(self): return 1


PRODUCTS = [Product, Falsy, Equal]


class Proc(SomeProcessor):
    def __init__(self, step, world):
        super().__init__()
        self.step, self.world = step, world

    # the steps may have the same name
    def get_name(self): return 'P%d' % self.step if self.world.kind < 2 else 'Parser'

    def process(self, request):
        world = self.world
        ctx = ()
        seen = []
        for p in world.procs[:self.step]:
            cur = request.get_current_product(p)
            seen.append(cur.ctx)
            ctx = cur.ctx
        world.calls.append((self.step, tuple(seen)))
        out = world.table
        for i in ctx: out = out[i]
        if out == 0:
            t, args = error_of(ctx, world.kind)
            return ProcessResult([], t, args)
        n = out if isinstance(out, int) else len(out)
        return ProcessResult([PRODUCTS[world.kind](ctx + (i,), self.step) for i in range(n)], "")


class World: pass


def model_run(kinds, table, kind):
    """-> (calls, ok, error, successes, alternatives per FindAll step)"""
    calls, succ, alts = [], [], {}

    def step(k, ctx, out):
        if k == len(kinds):
            succ.append(ctx)
            return True, None
        calls.append((k, tuple(ctx[:i + 1] for i in range(len(ctx)))))
        if out == 0:
            return False, error_of(ctx, kind)
        n = out if isinstance(out, int) else len(out)
        mine = [ctx + (i,) for i in range(n)]
        alts[k] = alts.get(k, []) + mine if kinds[k] == 'A' else mine
        err, good = None, False
        for i in range(n):
            ok, e = step(k + 1, ctx + (i,), None if isinstance(out, int) else out[i])
            if ok:
                good = True
                if kinds[k] == '1': return True, None
            elif err is None: err = e
            if kinds[k] == 'T': break
        return (True, None) if good else (False, err)
    ok, err = step(0, (), table)
    return calls, ok, err, succ, alts


def build(kinds):
    w = World()
    w.procs = [Proc(i, w) for i in range(len(kinds))]
    buf = impl.BasicOutputBuffer()
    for n in range(20):
        for k in range(3):
            buf.add_relation(Relation('output_err%d_%d' % (n, k), arguments=['x', 'y'][:k]))
    w.model = impl.Model([buf])
    w.buf = buf
    w.solver = impl.Solver(w.model)
    w.system = impl.System(model=w.model, input_pipeline=[KINDS[k](p) for k, p in zip(kinds, w.procs)])
    return w


def run(case, rec):
    kinds, tables = case
    w = build(kinds)
    E1, E2 = Variable('E1'), Variable('E2')
    for table in tables:
        for again in range(3):
            w.table, w.calls, w.kind = table, [], again
            req = SentenceRequest("x")
            got = w.system.enter(req)
            calls, ok, err, succ, alts = model_run(kinds, table, again)
            where = lambda what: f"pipeline {kinds}, outcomes {table!r}: {what}"
            same(where("calls (step, products of the steps before it)"), w.calls, calls)
            errors = w.solver.solve([('output_type', E1)])
            if ok:
                require(errors == [], lambda: where(f"succeeds, but reported {errors}"))
                results = [('out', len(kinds) - 1, s) for s in succ]
                if 'A' not in kinds:
                    same(where("result"), got, results[0])
                    for k, p in enumerate(w.procs):
                        same(where(f"final product of step {k}"), req.get_current_product(p).ctx, succ[0][:k + 1])
                else:
                    require(got in results, lambda: where(f"result {got!r} is none of the successes {results!r}"))
            else:
                same(where("reported error"), errors, [{'E1': err[0]}])
                args = w.solver.solve([('output_' + err[0], *[E1, E2][:len(err[1])])])
                same(where("error arguments"), args, [dict(zip(('E1', 'E2'), err[1]))])
            for k, p in enumerate(w.procs):
                if k in alts:
                    same(where(f"alternatives kept by step {k}"), [x.ctx for x in req.get_alternative_products(p)], alts[k])
            w.buf.clear()
            rec.ev((kinds, table), True, (kinds, ok, len(calls)))
            rec.transitions += len(calls)


def many(n):
    """outcome tables with n products: all fail, one succeeds, all succeed; at the first, second and third step"""
    for k in sorted({0, 1, n // 2, n - 2, n - 1}):
        yield 2, tuple(1 if i == k else 0 for i in range(n))
        yield 2, tuple(0 if i == k else 2 for i in range(n))
        yield 3, tuple((0, 1) if i == k else (0, 0) if i % 2 else 0 for i in range(n))
        yield 3, (0, tuple(2 if i == k else 0 for i in range(n)), (1,))
    yield 1, n
    for t in ((0,) * n, (1,) * n, (n, 0), (0, n)): yield 2, t
    yield 3, ((0,) * n, (0,) * n)


def run_long(case, rec):
    """many blocks: one way through, one choice somewhere, errors anywhere behind it"""
    ks, n = case
    kinds = (ks * n)[:n]

    def way(a, b, last=1):
        """from step a on: one product each; an error at step b (or none)"""
        if a == b: return 0
        return last if a == n - 1 else (way(a + 1, b, last),)
    tables = [way(0, b) for b in range(1, n + 1)] + [way(0, n, 2)]
    for d in range(n - 1):
        for b1, b2 in ((d + 1, n), (n - 1, n), (n, n), (d + 1, d + 1), (n - 1, d + 1), (d + 1, n - 1)):
            t = (way(d + 1, b1), way(d + 1, b2, 2))
            for i in range(d): t = (t,)
            tables.append(t)
    run((kinds, tables), rec)


def run_many(case, rec):
    kinds, n = case
    run((kinds, [t for d, t in many(n) if d == len(kinds)]), rec)


def spaces(tier):
    def cases(n, tables, k=400):
        return [(''.join(ks), tables[i:i + k]) for ks in itertools.product('1AT', repeat=n) for i in range(0, len(tables), k)]
    q = tier == 'quick'
    out = [Space("one block", cases(1, trees(1, 4, 4)), run),
           Space("two blocks", cases(2, trees(2, 3, 3)), run),
           Space("three blocks", cases(3, trees(3, 2, 2)), run)]
    sizes = (5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 21, 25, 26, 32, 33, 50, 51, 64, 65, 99, 100, 101, 128, 129, 200, 256, 257)
    out.append(Space("many products", [(''.join(ks), n) for n in reversed(sizes) for d in (1, 2, 3) for ks in itertools.product('1AT', repeat=d)], run_many, chunk=2))
    out.append(Space("many blocks", [(ks, n) for n in range(4, 17) for ks in ('1', 'A', 'T', '1A', 'AT', '1T', '11A', 'A11', 'T1A')], run_long, 1))
    t3 = trees(3, 3, 1)
    if q: out.append(Space("three blocks, three products", cases(3, t3), run))
    else:
        out.append(Space("three blocks, three products", cases(3, t3), run))
        out.append(Space("four blocks", cases(4, trees(4, 2, 1)), run))
        out.append(Space("two blocks, four products", cases(2, trees(2, 4, 4)), run))
    return out
