"""The dialogue tester: every dialogue with every placement of right and wrong expectations, exceptions, logging and profiling, against its definition."""
import contextlib, io, itertools, re, unittest
from mc.core import Space, Violation, require, same
from mc import impl
from mc.impl import SomeProcessor, ProcessResult, SentenceRequest
from richard.core.DialogTester import DialogTester
from richard.core.Logger import Logger
from richard.interface.Product import SomeProduct
from richard.interface.SomeGenerator import SomeGenerator

PROP = "C28"
LEVEL = "exploration"
RULE = ("every dialogue up to the bound over replies (plain, empty, capitals, blanks, several lines, number-like) with every expectation (right, and each kind of near miss), a crash of the pipeline or the generator "
        "at any turn, under every log setting and with profiling on and off; the run ends with an error at the first wrong turn, exactly there, and passes otherwise")
ASSUMPTIONS = ["replies and expectations are strings", "the test case is one of Python's unittest"]

ANSI = re.compile('\033\\[[0-9;]*m')
REPLIES = ['yes', 'No idea', '', 'a\nb', '0', 'é x', 'a\n', ' b ']
# near misses of a reply
MISSES = {
    'other': lambda r: r + 'x' if r else 'x',
    'empty': lambda r: '' if r else ' ',
    'case': lambda r: r.swapcase() if r.swapcase() != r else r + '!',
    'blank': lambda r: r + ' ',
    'front': lambda r: ' ' + r,
    'prefix': lambda r: r[:-1] if r else '0',
    'line': lambda r: r + '\n',
    'none': lambda r: None,
    'dot': lambda r: r + '.',
    'tab': lambda r: r + '\t',
    'strip': lambda r: r.strip() if r.strip() != r else '\n' + r,
}


TEXTS = ['', ' ', 'the same', 'a\nb', '0', 'quit', '# no comment', 'É? "x"']


class Crash(Exception):
    pass


# a crash may be an error of any type
KINDS = [Crash] + [type('Crash' + e.__name__, (Crash, e), {}) for e in (KeyError, ValueError, TypeError, IndexError, AttributeError, RuntimeError, OSError, AssertionError, StopIteration, ZeroDivisionError, UnicodeError, NotImplementedError, TimeoutError)]
crashes = 0


def crash(text):
    global crashes
    crashes += 1
    return KINDS[crashes % len(KINDS)](text)


class Out(SomeProduct):
    def __init__(self, text): self.text = text
    def get_output(self): return self.text
    def log(self, logger): logger.add(self.text)


class Script(SomeProcessor):
    """crashes, or takes down the sentence and what logging was asked for"""
    def __init__(self, replies):
        super().__init__()
        self.replies, self.heard, self.reply = replies, [], None

    def get_name(self): return 'Script'

    def process(self, request):
        self.heard.append((request.text, request.logger.is_active()))
        r = self.replies[len(self.heard) - 1]
        if r == 'CRASH': raise crash('in the pipeline')
        self.reply = r
        return ProcessResult([Out(request.text)], '', [])


class Gen(SomeGenerator):
    def __init__(self, script): self.script, self.reads = script, 0

    def generate_output(self):
        self.reads += 1
        if self.script.reply == 'CRASH-OUT': raise crash('in the generator')
        return self.script.reply


def run(case, rec):
    turns, which, profile, generator, *texts = case
    # what is entered at each turn: anything will do
    texts = texts[0] if texts else [f"sentence {i}" for i in range(len(turns))]
    # turns: (reply or a crash, None for the right expectation or the kind of miss)
    replies = [r for r, m in turns]
    script = Script(replies)
    gen = Gen(script) if generator else None
    system = impl.System(model=impl.Model([]), input_pipeline=[impl.FindOne(script)], output_generator=gen)
    logger = Logger()
    # what was asked for last counts
    choose = {'all': logger.log_all_tests, 'last': logger.log_only_last_test, 'none': logger.log_no_tests}
    if len(turns) > 1: choose[('all', 'last', 'none')[len(turns) % 3 - 2]]()
    choose[which]()
    said = [r if generator else '' for r in replies]
    tests, wrong = [], None
    for i, (r, m) in enumerate(turns):
        crash = r in ('CRASH',) or (r == 'CRASH-OUT' and generator)
        real = '' if crash else said[i]
        expected = real if m is None else MISSES[m](real)
        tests.append([texts[i], expected])
        if wrong is None and (crash or expected != real): wrong = i, 'crash' if crash else 'reply'
    before = [list(t) for t in tests]
    sink = io.StringIO()
    got = None
    with contextlib.redirect_stdout(sink):
        try:
            DialogTester(unittest.TestCase(), tests, system, logger, profile=profile).run()
        except Crash:
            got = 'crash'
        except AssertionError:
            got = 'reply'
    where = f"dialogue {turns}, log {which}, profile={profile}, generator={generator}"
    same(where + ": ends with", got, wrong[1] if wrong else None)
    n = wrong[0] + 1 if wrong else len(turns)
    shown = [which == 'all' or (which == 'last' and i == len(turns) - 1) for i in range(n)]
    same(where + ": sentences entered, and whether they were logged", script.heard, [(texts[i], shown[i]) for i in range(n)])
    if gen: same(where + ": replies read", gen.reads, n - (1 if wrong and wrong[1] == 'crash' and replies[wrong[0]] == 'CRASH' else 0))
    same(where + ": the list of tests", tests, before)
    log = ANSI.sub('', str(logger))
    if wrong and wrong[1] == 'reply':
        require('[Computer] ' + said[wrong[0]] in log, lambda: where + f": the wrong reply is not in the log {log!r}")
    if wrong:
        require(log.strip() in ANSI.sub('', sink.getvalue()), lambda: where + ": the log is not shown on failure")
    elif not profile:
        same(where + ": printed although it passed", sink.getvalue(), '')
    rec.ev(case, bool(turns), (got, which, profile, generator))


def run_many(case, rec):
    for c in case: run(c, rec)


def spaces(tier):
    q = tier == 'quick'
    cases = []
    single = [(r, m) for r in REPLIES for m in (None, *MISSES)] + [('CRASH', None), ('CRASH-OUT', None), ('CRASH', 'other')]
    few = [('yes', None), ('', None), ('a\nb', None), ('yes', 'case'), ('', 'blank'), ('yes', 'empty'), ('CRASH', None), ('CRASH-OUT', None)]
    config = [(w, p, g) for w in ('all', 'last', 'none') for p in (False, True) for g in (True, False)]
    for w, p, g in config:
        cases.append(((), w, p, g))
        cases += [((t,), w, p, g) for t in single]
        cases += [(t, w, p, g) for t in itertools.product(few, repeat=2)]
    for w in ('all', 'last', 'none'):
        cases += [(t, w, False, True) for t in itertools.product(single, repeat=2)]
        cases += [(t, w, p, True) for p in ((False,) if q else (False, True)) for t in itertools.product(few, repeat=3)]
        if not q: cases += [(t, w, False, True) for t in itertools.product(few, repeat=4)]
        # other sentences: empty, blank, the same one again, of several lines, odd ones
        for n in (1, 2, 3):
            for texts in itertools.product(TEXTS, repeat=n):
                for m in (None, 'other'): cases.append((tuple(('yes', m if i == n - 1 else None) for i in range(n)), w, False, True, texts))
        # long dialogues with one wrong turn, or none
        for n in (10, 63, 64, 65, 101, 257):
            for at in sorted({0, 1, n // 2, n - 2, n - 1}) + [None]:
                cases.append((tuple(('yes' if i % 3 else '', 'case' if i == at and i % 3 else 'blank' if i == at else None) for i in range(n)), w, False, True))
    return [Space("dialogues", [cases[i:i + 40] for i in range(0, len(cases), 40)], run_many)]
