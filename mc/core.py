"""
Common engine of all checks.

A check is a module mc/checks/<id>.py exposing

    LEVEL, ASSUMPTIONS
    explore(ctx)       enumerate the bounded space, executing the real code on every member
    replay(case)       re-execute one recorded case; return a list of (key, message)

The engine supplies
  * Ctx            counters, samples, violations, known findings, evidence, exit code
  * Ctx.each       exhaustive evaluation of a finite list/generator of cases on all cores
  * Ctx.bfs        explicit-state search: a state is the operation history reaching it, every
                   transition re-executes the history on fresh real objects, states are
                   deduplicated by a canonical form supplied by the check
Every case runs under a watchdog, an exception escaping from the code under test on a legal input is
a violation of the property.
"""
import collections
import concurrent.futures as cf
import concurrent.futures.process
import contextlib
import hashlib
import itertools
import json
import mmap
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
NPROC = min(8, os.cpu_count() or 1)
CASE_TIMEOUT = 30.0          # seconds of processor time for one case (does not depend on the load of the machine)
MEM_LIMIT = 6 << 30          # address space of one worker


class Hang(BaseException):
    pass


class Violation(Exception):
    """Raised by an oracle: key identifies the failing input/history, message explains."""
    def __init__(self, message):
        super().__init__(message)
        self.message = message


def require(cond, message, *args):
    if not cond:
        raise Violation(message.format(*args) if args else message)


def _alarm(signum, frame):
    raise Hang()


HANG = "does not terminate (watchdog)"


@contextlib.contextmanager
def watchdog(seconds=None):
    seconds = seconds or CASE_TIMEOUT
    old = signal.signal(signal.SIGPROF, _alarm), signal.signal(signal.SIGALRM, _alarm)
    prof = signal.setitimer(signal.ITIMER_PROF, seconds)[0]
    real = signal.setitimer(signal.ITIMER_REAL, 8 * seconds)[0]      # waiting without computing
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, prof)
        signal.setitimer(signal.ITIMER_REAL, real)
        signal.signal(signal.SIGPROF, old[0])
        signal.signal(signal.SIGALRM, old[1])


@contextlib.contextmanager
def quiet():
    """Discard what the code under test prints (python level)."""
    with open(os.devnull, "w") as nul:
        with contextlib.redirect_stdout(nul):
            yield


def describe(exc):
    if isinstance(exc, Violation):
        return exc.message
    if isinstance(exc, Hang):
        return HANG
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f for f in tb if "/bgem/" in f.filename]
    loc = ""
    if where:
        loc = " at {}:{}".format(os.path.basename(where[-1].filename), where[-1].name)
    return "exception {}: {}{}".format(type(exc).__name__, str(exc)[:200], loc)


def guarded(func, *args):
    """Run func; return (result, None) or (None, message)."""
    try:
        with watchdog(), quiet():
            return func(*args), None
    except Hang as e:
        return None, describe(e)
    except RecursionError:
        return None, "exception RecursionError"
    except Exception as e:
        return None, describe(e)


class Out:
    """What a worker reports for one chunk of cases."""
    __slots__ = ("states", "transitions", "traces", "extra", "violations", "samples", "succ", "outcomes")

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = collections.Counter()
        self.violations = []      # (size, key, message, case)
        self.samples = []
        self.succ = []
        self.outcomes = set()


_JOB = None
_NOTES = mmap.mmap(-1, 64 * 4096)        # what every worker is just executing, survives its death
_SLOT = None


def note(case):
    if _SLOT is not None:
        text = json.dumps(case, default=str).encode()
        if len(text) > 4000:
            text = b'"' + text[:1000].replace(b'"', b"'").replace(b"\\", b"/") + b'"'
        _NOTES[_SLOT * 4096:_SLOT * 4096 + len(text) + 1] = text + b"\0"


def notes():
    res = []
    for k in range(64):
        t = _NOTES[k * 4096:(k + 1) * 4096].split(b"\0")[0]
        if t:
            res.append(json.loads(t))
    return res


def _dies(job, case):
    """Execute one case in a process of its own; is the process killed?"""
    pid = os.fork()
    if pid == 0:
        try:
            job([case])
        finally:
            os._exit(0)
    return os.WIFSIGNALED(os.waitpid(pid, 0)[1])


def _init_worker(counter):
    global _SLOT
    with counter.get_lock():
        _SLOT = counter.value % 64
        counter.value += 1
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except Exception:
        pass
    sys.setrecursionlimit(3000)


def _run_chunk(chunk):
    return _JOB(chunk)


def _chunks(it, size):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, size))
        if not c:
            return
        yield c


def canon_hash(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=16).digest()


class Ctx:
    def __init__(self, prop, tier, seed, level, assumptions, budget):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.budget = budget
        self.states = self.transitions = self.traces = 0
        self.extra = collections.Counter()
        self.info = {}
        self.samples = []
        self.outcomes = set()
        self.violations = {}
        self.exhaustive = True
        self.bounds = []
        self.known = load_known(prop)

    # ---------------------------------------------------------------- helpers
    @property
    def quick(self):
        return self.tier != "thorough"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.t0

    def out_of_time(self):
        return self.elapsed() > self.budget

    def bound(self, text):
        self.bounds.append(text)

    def truncated(self, text):
        self.exhaustive = False
        self.bounds.append("NOT COMPLETED: " + text)

    def merge(self, out):
        self.states += out.states
        self.transitions += out.transitions
        self.traces += out.traces
        self.extra.update(out.extra)
        self.outcomes |= out.outcomes
        for s in out.samples:
            if len(self.samples) < 6:
                self.samples.append(s)
        for size, key, msg, case in out.violations:
            self.add_violation(size, key, msg, case)

    def add_violation(self, size, key, msg, case):
        old = self.violations.get(key)
        if old is None or old[0] > size:
            self.violations[key] = (size, msg, case)

    def real_violations(self):
        return [k for k in self.violations if k not in self.known]

    def enough(self, more=()):
        """Many violations, or some that cost the whole time limit of a case each: no need to look further."""
        msgs = [self.violations[k][1] for k in self.real_violations()] + [v[2] for v in more if v[1] not in self.known]
        return len(msgs) > 200 or sum(HANG in m for m in msgs) >= 8

    # ---------------------------------------------------------------- engines
    def pool_map(self, job, items, chunk, procs=None):
        """Run job on chunks of items in forked workers; a worker that dies or never ends is a violation."""
        global _JOB
        _JOB = job
        procs = procs or NPROC
        chunks = _chunks(items, chunk)
        sys.stdout.flush()
        again = []
        for attempt in (1, 2):
            _NOTES[:] = bytes(len(_NOTES))
            ctx = mp.get_context("fork")
            ex = cf.ProcessPoolExecutor(procs, mp_context=ctx, initializer=_init_worker, initargs=(ctx.Value("i", 0),))
            kill = True
            todo = {}
            try:
                source = itertools.chain(again, chunks)
                for c in itertools.islice(source, 4 * procs):
                    todo[ex.submit(_run_chunk, c)] = c
                while todo:
                    done, _ = cf.wait(todo, timeout=max(60, self.budget + 120 - self.elapsed()), return_when=cf.FIRST_COMPLETED)
                    if not done:
                        yield self._lost(notes(), "does not end (native code)")
                        return
                    for f in done:
                        res = f.result()
                        todo.pop(f)
                        yield res
                    if self.out_of_time():
                        return
                    for c in itertools.islice(source, len(done)):
                        todo[ex.submit(_run_chunk, c)] = c
                kill = False
                return
            except cf.process.BrokenProcessPool:
                again = list(todo.values()) + again
                bad = [n for n in notes() if _dies(job, n["case"])]
                if bad or attempt == 2:
                    yield self._lost(bad or notes(), "kills the process (crash in native code or memory exhausted)")
                    return
            finally:
                if kill:
                    for p in list((getattr(ex, "_processes", None) or {}).values()):
                        p.kill()
                ex.shutdown(wait=True, cancel_futures=True)

    def _lost(self, cases, message):
        out = Out()
        for case in sorted(cases, key=lambda c: len(json.dumps(c))):
            out.violations.append((1, "lost:" + json.dumps(case), "one of the running cases " + message, case))
        if not out.violations:
            out.violations.append((1, "lost", "a case " + message, {"space": "?"}))
        return out

    def each(self, name, cases, evaluate, chunk=64, key=None, trace=True, procs=None, size=None):
        """
        evaluate(case, out) executes the real code for one member of the space and compares it with
        the oracle; it raises Violation (or lets an exception of the code escape).
        It may add to out.states/out.transitions/out.extra/out.outcomes; if it leaves states and
        transitions alone one case counts as one state and one transition.
        """
        key = key or (lambda c: name + ":" + json.dumps(c, default=str, separators=(",", ":")))
        if not isinstance(cases, (list, tuple)):
            cases = list(cases)
        done = [0]

        def job(chunk_cases):
            out = Out()
            for c in chunk_cases:
                s, t = out.states, out.transitions
                note({"space": name, "case": c})
                _, err = guarded(evaluate, c, out)
                if (out.states, out.transitions) == (s, t):
                    out.states += 1
                    out.transitions += 1
                if trace:
                    out.traces += 1
                out.extra["cases:" + name] += 1
                if err is not None:
                    out.violations.append((size(c) if size else len(json.dumps(c, default=str)), key(c), err,
                                           {"space": name, "case": c}))
                    if len(out.violations) > 50 or err == HANG:
                        break
                if not out.samples and len(chunk_cases):
                    out.samples.append({"space": name, "case": c})
            return out

        # interleave deterministically so that chunks are balanced
        n = 0
        for out in self.pool_map(job, cases, chunk, procs):
            self.merge(out)
            n = self.extra["cases:" + name]
            if self.enough():
                break
        if n < len(cases) and not self.violations:
            self.truncated("{}: {} of {} cases within the time budget".format(name, n, len(cases)))
        else:
            self.bound("{}: all {} cases".format(name, len(cases)))

    def bfs(self, name, root_histories, expand, max_depth, chunk=8, procs=None, max_states=None):
        """
        Breadth first explicit-state search with replayed histories.
        expand(history, out) -> iterable of (canon, op): executes the history on fresh real objects for
        every enabled operation, checks the property on the resulting state (adding violations to out)
        and returns the successor canonical forms.
        """
        seen = set()
        frontier = list(root_histories)

        def job(hists):
            out = Out()
            for h in hists:
                note({"space": name, "case": h})
                res, err = guarded_long(expand, h, out)
                if err is not None:
                    out.violations.append((len(h), name + ":" + json.dumps(h, default=str), err,
                                           {"space": name, "case": h}))
                elif res:
                    for canon, op in res:
                        out.succ.append((canon_hash(canon), list(h) + [op]))
                if not out.samples:
                    out.samples.append({"space": name, "history": h})
            return out

        depth = 0
        total = len(frontier)
        completed = 0
        while frontier and depth < max_depth:
            nxt = []
            layer = []
            for out in self.pool_map(job, frontier, chunk, procs):
                layer.append(out)
                if any(o.violations for o in layer[-1:]) and self.enough([v for o in layer for v in o.violations]):
                    break
            for out in layer:
                self.merge(out)
            n_in = sum(o.extra["expanded"] for o in layer)
            new = {}
            for out in layer:
                for c, h in out.succ:
                    if c in seen:
                        continue
                    k = json.dumps(h, default=str)
                    if c not in new or (len(k), k) < (len(new[c][0]), new[c][0]):
                        new[c] = (k, h)
            for c in new:
                seen.add(c)
            self.states += len(new)
            total += len(new)
            nxt = [h for k, h in sorted(new.values(), key=lambda x: (len(x[0]), x[0]))]
            if self.real_violations():
                break
            if self.out_of_time():
                self.truncated("{}: layer {} interrupted".format(name, depth + 1))
                break
            depth += 1
            completed = depth
            frontier = nxt
            if max_states and total > max_states and depth < max_depth:
                self.truncated("{}: stopped after depth {} ({} states)".format(name, depth, total))
                break
        self.bound("{}: every history up to depth {} ({} distinct states{})".format(
            name, completed, total, ", frontier empty" if not frontier else ""))
        return seen

    # ---------------------------------------------------------------- end
    def finish(self):
        wall = time.time() - self.t0
        real, found = [], []
        for k, (size, msg, case) in self.violations.items():
            (found if k in self.known else real).append((size, k, msg, case))
        real.sort(key=lambda x: (x[0], x[1]))
        cov = {
            "states": int(self.states),
            "transitions": int(self.transitions),
            "traces_validated_against_impl": int(self.traces),
            "samples": self.samples[:6],
            "distinct_observed_outcomes": len(self.outcomes),
            "exhaustive": bool(self.exhaustive and not real),
            "bounds": self.bounds,
            "counters": {k: int(v) for k, v in sorted(self.extra.items())},
        }
        cov.update(self.info)
        ev = {"property": self.prop, "tier": "thorough" if self.tier == "thorough" else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(real)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("property={} tier={} states={} transitions={} traces={} outcomes={} exhaustive={} wall={:.1f}s".format(
            self.prop, self.tier, self.states, self.transitions, self.traces, len(self.outcomes),
            cov["exhaustive"], wall))
        for b in self.bounds:
            print("  " + b)
        for k, desc in self.known.items():
            print("KNOWN-FINDING: property={} {}".format(self.prop, desc))
        if not real:
            return 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, (size, k, msg, case) in enumerate(real[:5]):
            h = hashlib.sha1(k.encode()).hexdigest()[:10]
            path = os.path.join("replays", "{}-{}.json".format(self.prop, h))
            with open(os.path.join(VERIF, path), "w") as f:
                json.dump({"property": self.prop, "key": k, "message": msg, "case": case,
                           "replay": "./run.sh replay " + path}, f, indent=1, default=str)
            print("  {}: {}".format(k[:400], msg[:600]))
            print("VIOLATION property={} replay={}".format(self.prop, path))
        if len(real) > 5:
            print("  ... {} further violations".format(len(real) - 5))
        return 1


def guarded_long(func, *args):
    try:
        with quiet():
            return func(*args), None
    except Hang as e:
        return None, describe(e)
    except RecursionError:
        return None, "exception RecursionError"
    except Exception as e:
        return None, describe(e)


def load_known(prop):
    """known_findings.jsonl: {"property":..., "key":..., "what":...}; entries with "fixed" suppress nothing."""
    res = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            rec = json.loads(line)
            if rec.get("property") == prop and "key" in rec:
                res[rec["key"]] = rec["what"]
    return res
