"""
Grammars as plain data, the rendering of that data into grammar notation, and the reference reading of it.

rule  = (category, [variables], items, seps)     items: tuple, seps: tuple of ' ', '+', '~' between the items
item  = ('w', word) | ('w?', word) | ('r', regexp) | ('n', category, (variables...))
A grammar is a tuple of rules; the reference enumerates derivations by spans, and knows nothing of charts.
"""
import re, itertools


def W(w): return ('w', w)
def O(w): return ('w?', w)
def R(r): return ('r', r)
def N(c, *vs): return ('n', c, tuple(vs))
def rule(cat, vs, *parts):
    """parts: items and optional separators in between; no separator means a space"""
    items, seps = [], []
    pend = None
    for p in parts:
        if isinstance(p, str):
            pend = p
        else:
            if items:
                seps.append(pend or ' ')
            items.append(p)
            pend = None
    return (cat, tuple(vs), tuple(items), tuple(seps))


def quote(w, q="'"):
    return q + w.replace(q, "\\" + q) + q


def render_item(it, q="'"):
    if it[0] == 'w': return quote(it[1], q)
    if it[0] == 'w?': return quote(it[1], q) + '?'
    if it[0] == 'r': return '/' + it[1].replace('/', '\\/') + '/'
    return it[1] + '(' + ', '.join(it[2]) + ')'


def render(r, q="'", glue=' + ', opt=' ~ '):
    cat, vs, items, seps = r
    s = cat + '(' + ', '.join(vs) + ') -> '
    for i, it in enumerate(items):
        if i:
            s += {' ': ' ', '+': glue, '~': opt}[seps[i - 1]]
        s += render_item(it, q)
    return s


def variants(r):
    """the sequences of symbols a right-hand side stands for; a space is the word ' '"""
    cat, vs, items, seps = r
    out = []
    choices = [[True, False] if it[0] == 'w?' else [True] for it in items]
    for present in itertools.product(*choices):
        seqs = [()]
        first = True
        for i, it in enumerate(items):
            if not present[i]:
                continue
            sym = ('w', it[1]) if it[0] == 'w?' else it
            if first:
                alts = [()]
                first = False
            else:
                s = seps[i - 1]
                alts = {' ': [(('w', ' '),)], '+': [()], '~': [(('w', ' '),), ()]}[s]
            seqs = [q + a + (sym,) for q in seqs for a in alts]
        out += seqs
    return out


def unit_cyclic(grammar):
    edges = {}
    for r in grammar:
        for v in variants(r):
            if len(v) == 0:
                return True
            if len(v) == 1 and v[0][0] == 'n':
                edges.setdefault((r[0], len(r[1])), set()).add((v[0][1], len(v[0][2])))
    def reach(a, seen):
        for b in edges.get(a, ()):
            if b not in seen:
                seen.add(b)
                reach(b, seen)
        return seen
    return any(k in reach(k, set()) for k in edges)


def normalize(text):
    return re.sub(r'\s+', ' ', text)


def same_letters(a, b):
    """equal, whatever the case of the letters"""
    return len(a) == len(b) and a.casefold() == b.casefold()


class Reference:
    def __init__(self, grammar, text):
        self.text = normalize(text)
        self.rules = {}
        for i, r in enumerate(grammar):
            for v in variants(r):
                self.rules.setdefault((r[0], len(r[1])), []).append((i, v))
        self.memo = {}
        self.ends_memo = {}

    # all readings of the whole text
    def readings(self):
        out = []
        for (cat, n) in list(self.rules):
            if cat == 's':
                out += self.trees(cat, n, 0, len(self.text))
        return out

    def trees(self, cat, n, i, j):
        k = (cat, n, i, j)
        if k not in self.memo:
            self.memo[k] = None      # unit cycles are excluded, so this is never read back
            res = []
            for rid, v in self.rules.get((cat, n), ()):
                for kids in self.seq(v, 0, i, j):
                    res.append((cat, rid, kids))
            self.memo[k] = res
        return self.memo[k]

    def seq(self, v, p, i, j):
        """all child tuples of v[p:] covering [i, j)"""
        if p == len(v):
            return [()] if i == j else []
        rest = len(v) - p - 1
        out = []
        sym = v[p]
        if sym[0] == 'w':
            w = sym[1]
            if i + len(w) <= j and same_letters(self.text[i:i + len(w)], w):
                out = [((w, w),) + t for t in self.seq(v, p + 1, i + len(w), j)]
        elif sym[0] == 'r':
            for e in self.regexp_ends(sym[1], i):
                if e <= j:
                    for t in self.seq(v, p + 1, e, j):
                        out.append(((sym[1], self.text[i:e]),) + t)
        else:
            for e in ([j] if rest == 0 else range(i + 1, j - rest + 1)):
                tails = self.seq(v, p + 1, e, j)
                if tails:
                    heads = self.trees(sym[1], len(sym[2]), i, e)
                    out += [(h,) + t for h in heads for t in tails]
        return out

    def regexp_ends(self, rx, i):
        m = re.match(rx, self.text[i:])
        if not m:
            return []
        g = m.group(0)
        return [i + n for n in range(1, len(g) + 1) if n == len(g) or re.fullmatch(rx, g[:n])]

    # top-down, left-to-right recognition: the furthest position at which something was recognised
    def furthest(self):
        """end of the furthest word, regexp or category instance that can be recognised after a viable prefix"""
        far = -1
        seen = set()
        agenda = []
        ends = {}        # (cat, n, i) -> set of ends
        waiting = {}     # (cat, n, i) -> list of (rid-variant, dot, start-key)
        def call(cat, n, i, cont):
            key = (cat, n, i)
            if key not in ends:
                ends[key] = set()
                waiting[key] = []
                if cont: waiting[key].append(cont)
                for rid, v in self.rules.get((cat, n), ()):
                    agenda.append((key, v, 0, i))
            else:
                if cont is not None and cont not in waiting[key]:
                    waiting[key].append(cont)
                    for e in list(ends[key]):
                        agenda.append((cont[0], cont[1], cont[2], e))
        for (cat, n) in list(self.rules):
            if cat == 's':
                call(cat, n, 0, None)
        while agenda:
            item = agenda.pop()
            if item in seen:
                continue
            seen.add(item)
            key, v, p, i = item
            if p == len(v):
                if i not in ends[key]:
                    ends[key].add(i)
                    far = max(far, i)
                    for c in waiting[key]:
                        agenda.append((c[0], c[1], c[2], i))
                continue
            sym = v[p]
            if sym[0] == 'w':
                w = sym[1]
                if i < len(self.text) and same_letters(self.text[i:i + len(w)], w):
                    far = max(far, i + len(w))
                    agenda.append((key, v, p + 1, i + len(w)))
            elif sym[0] == 'r':
                if i < len(self.text):
                    for e in self.regexp_ends(sym[1], i):
                        far = max(far, e)
                        agenda.append((key, v, p + 1, e))
            else:
                call(sym[1], len(sym[2]), i, (key, v, p + 1))
        return max(far, 0)


def all_texts(alphabet, maxlen, minlen=0):
    out = []
    for n in range(minlen, maxlen + 1):
        out += [''.join(t) for t in itertools.product(alphabet, repeat=n)]
    return out
