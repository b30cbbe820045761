"""
The explorer: runs a check function on every case of a finite space, on all cores, and reports.

A check module (checks/CNN.py) defines
    PROP, LEVEL, RULE, ASSUMPTIONS
    spaces(tier) -> list of Space(name, cases, fn)
where `cases` is a finite, deterministic list of plain Python literals (so that each can be written to a replay file)
and fn(case, rec) drives the real code, compares it with a reference, and raises Violation when they differ.
Any exception that comes out of fn is a violation too (the code under test crashed, or returned something the driver
cannot read), as is a case that does not end within HANG_S seconds of processor time or outgrows the memory limit.
There is no sampling anywhere: every case of every space is run.
"""
import ast, collections, hashlib, json, multiprocessing, multiprocessing.connection, os, resource, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RICHARD_REPO", "/repo")
HANG_S = int(os.environ.get("VERIF_HANG_S", "40"))
MEM = 3 << 30


class Violation(Exception):
    """The property does not hold. `key` identifies the failing input for the known-findings file."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Hang(BaseException):
    pass


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def same(what, got, expected, key=None):
    if got != expected:
        raise Violation(f"{what}:\n   expected {expected!r}\n   got      {got!r}", key)


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big")


class Space:
    def __init__(self, name, cases, fn, chunk=None):
        self.name, self.cases, self.fn = name, cases if isinstance(cases, list) else list(cases), fn
        self.chunk = chunk


class Rec:
    """what was covered, measured while running"""
    def __init__(self):
        self.evals = 0
        self.distinct = set()      # distinct non-trivial evaluations
        self.states = set()        # distinct (model) states
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.known = {}            # key -> (message, times)
        self.faults = 0
        self.slowest = 0.0         # processor seconds of the slowest case

    def ev(self, key, nontrivial=True, outcome=None):
        """one evaluation; key identifies it"""
        self.evals += 1
        if nontrivial:
            self.distinct.add(h64(key))
        if outcome is not None:
            self.outcomes[str(outcome)[:60]] += 1

    def st(self, state):
        self.states.add(h64(state))

    def merge(self, o):
        self.evals += o.evals
        self.distinct |= o.distinct
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.outcomes.update(o.outcomes)
        self.faults += o.faults
        self.slowest = max(self.slowest, o.slowest)
        for k, (m, n) in o.known.items():
            self.known[k] = (m, n + self.known.get(k, (m, 0))[1])


_spaces = None
_known = set()


def _alarm(signum, frame):
    raise Hang()


def run_case(space, case, rec):
    """-> None or (message, key)"""
    try:
        # processor time, so that a busy machine does not matter; the clock only for code that waits
        t = time.process_time()
        signal.setitimer(signal.ITIMER_PROF, HANG_S)
        signal.setitimer(signal.ITIMER_REAL, 10 * HANG_S)
        try:
            space.fn(case, rec)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            rec.slowest = max(rec.slowest, time.process_time() - t)
    except Violation as e:
        return str(e), e.key
    except Hang:
        return f"no result within {HANG_S} s of processor time", None
    except RecursionError:
        return "RecursionError: maximum recursion depth exceeded", None
    except MemoryError:
        return "MemoryError", None
    except Exception as e:
        tb = traceback.format_exc()
        return f"unexpected {type(e).__name__}: {e}\n{tb[-1800:]}", None
    return None


def _work(job, at, w):
    si, lo, hi = job
    space = _spaces[si]
    rec = Rec()
    bad = None
    for i in range(lo, hi):
        at[w] = i
        r = run_case(space, space.cases[i], rec)
        if r:
            msg, key = r
            if key is not None and key in _known:
                m, n = rec.known.get(key, (msg, 0))
                rec.known[key] = (m, n + 1)
            else:
                bad = (si, i, msg, key)
                break
    return rec, bad


def _init():
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    except (ValueError, OSError):
        pass
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)


def _worker(conn, at, w, jobs):
    _init()
    try:
        # do not outlive the parent
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass
    try:
        while True:
            conn.send(_work(jobs[conn.recv()], at, w))
    except (EOFError, OSError):
        pass
    finally:
        os._exit(0)


def _explore(jobs, ncpu, total):
    """runs all jobs on ncpu forked processes (they share the prepared case lists); -> the first violation (in the order of the jobs), or None"""
    ctx = multiprocessing.get_context("fork")
    at = ctx.RawArray('q', ncpu)        # the case each process is at
    procs, busy, bad, nxt = {}, {}, None, 0

    def start(w):
        mine, theirs = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(theirs, at, w, jobs), daemon=True)
        p.start()
        theirs.close()
        procs[mine] = p, w
        return mine

    def give(conn):
        nonlocal nxt
        if bad is None and nxt < len(jobs):
            busy[conn] = nxt
            conn.send(nxt)
            nxt += 1

    def found(j, b):
        nonlocal bad
        if bad is None or j < bad[0]: bad = j, b
    try:
        for w in range(ncpu): give(start(w))
        # after a violation only the jobs before it are waited for
        while any(bad is None or j < bad[0] for j in busy.values()):
            for conn in multiprocessing.connection.wait(list(busy)):
                j = busy.pop(conn)
                p, w = procs[conn]
                try:
                    rec, b = conn.recv()
                except (EOFError, OSError):
                    # out of memory, or a crashed interpreter
                    found(j, (jobs[j][0], at[w], "the process died while running this case", None))
                    continue
                total.merge(rec)
                if b: found(j, b)
                give(conn)
    finally:
        for p, w in procs.values(): p.kill()
        for p, w in procs.values(): p.join()
    return bad[1] if bad else None


def known_findings(prop):
    """lines of KNOWN_FINDINGS: 'finding: property=<id> key=<key> <what fails>' (suppresses exactly that key);
    'fixed: ...' lines suppress nothing"""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                _, p, k, what = line.rstrip("\n").split(" ", 3)
                if p == "property=" + prop:
                    out[k[len("key="):]] = what
    return out


def main(mod, tier, seed, replay=None):
    global _spaces, _known
    t0 = time.time()
    prop = mod.PROP
    findings = known_findings(prop)
    _known = set(findings)
    if replay:
        d = json.load(open(replay))
        for sp in mod.spaces(d.get("tier", tier)):
            if sp.name == d["space"]:
                signal.signal(signal.SIGALRM, _alarm)
                signal.signal(signal.SIGPROF, _alarm)
                r = run_case(sp, ast.literal_eval(d["case"]), Rec())
                print("case:", d["case"])
                print("result:", r[0] if r else "holds")
                return 1 if r else 0
        print("unknown space", d["space"])
        return 2
    _spaces = mod.spaces(tier)
    total = Rec()
    bad = None
    jobs = []
    ncpu = min(8, os.cpu_count() or 1)
    per_space = {}
    for si, sp in enumerate(_spaces):
        n = len(sp.cases)
        per_space[sp.name] = n
        c = sp.chunk or max(1, min(500, n // (ncpu * 6) + 1))
        jobs += [(si, lo, min(n, lo + c)) for lo in range(0, n, c)]
    build_s = time.time() - t0
    bad = _explore(jobs, ncpu, total)
    wall = time.time() - t0
    violations = 0
    out = []
    for key in sorted(total.known):
        out.append(f"KNOWN-FINDING: property={prop} {findings[key]} [{total.known[key][1]} cases]")
    if bad:
        violations = 1
        si, i, msg, key = bad
        sp = _spaces[si]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop}-{h64((sp.name, sp.cases[i])):016x}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "space": sp.name, "case": repr(sp.cases[i]), "message": msg,
                       "key": key, "replay": f"./check {prop} {tier} --replay {path}"}, f, indent=1)
        out.append(f"property {prop} violated in space '{sp.name}', case {i}: {sp.cases[i]!r}"[:3000])
        out.append(msg)
        out.append(f"VIOLATION property={prop} replay={path}")
    samples = []
    for sp in _spaces:
        if sp.cases:
            samples.append({"space": sp.name, "case": repr(sp.cases[len(sp.cases) // 2])[:600]})
    cov = {"samples": samples[:12], "exhaustive": not bad,
           "spaces": per_space, "distinct_observed_outcomes": len(total.outcomes),
           "outcomes": dict(total.outcomes.most_common(25))}
    if mod.LEVEL == "model_checking":
        cov.update({"states": len(total.states), "transitions": total.transitions,
                    "traces_validated_against_impl": total.traces, "rule": mod.RULE})
    else:
        cov.update({"evaluations": total.evals, "distinct_nontrivial": len(total.distinct), "rule": mod.RULE})
        if total.faults:
            cov["faults_injected"] = total.faults
    ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{prop}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))
    print(f"{prop} {tier}: {sum(per_space.values())} cases in {len(_spaces)} spaces, evaluations={total.evals} "
          f"distinct={len(total.distinct)} states={len(total.states)} transitions={total.transitions} traces={total.traces} "
          f"outcomes={len(total.outcomes)} slowest={total.slowest:.1f}s build={build_s:.1f}s wall={wall:.1f}s")
    for line in out:
        print(line)
    sys.stdout.flush()
    return 1 if bad else 0
