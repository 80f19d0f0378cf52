"""The check framework: exhaustive case enumeration, explicit-state search, deviation-bounded choice exploration.

A *case* is a JSON value that determines one execution of the real code completely (configuration plus operation
sequence, schedule or input), so every violation is replayable from its case alone:  ./run C05 --replay FILE
"""
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback
from collections import deque

from . import env

NPROC = int(os.environ.get("MC_NPROC", "0")) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    """The property is broken on the current case."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key          # identifies a known finding, when one is listed


class CaseTimeout(BaseException):
    pass


def digest(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "backslashreplace"), digest_size=8).digest()


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


class Stats:
    """What one worker measured."""
    def __init__(self):
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.distinct = set()      # digests of distinct observed outcomes
        self.states = set()        # digests of distinct states (state searches)
        self.samples = []
        self.violations = []       # (kind, case, message, key)
        self.per_kind = {}
        self.notes = {}

    def merge(self, o):
        self.evaluations += o.evaluations
        self.transitions += o.transitions
        self.traces += o.traces
        self.distinct |= o.distinct
        self.states |= o.states
        self.samples += o.samples
        self.violations += o.violations
        for k, v in o.per_kind.items():
            self.per_kind[k] = self.per_kind.get(k, 0) + v
        for k, v in o.notes.items():
            if isinstance(v, int):
                self.notes[k] = self.notes.get(k, 0) + v
            else:
                self.notes[k] = v


class Check:
    """Subclass this.  ``cases(tier)`` enumerates (kind, case) pairs, simplest first; ``run(kind, case)`` executes one
    on the real code and raises Violation, or returns the observed outcome.  State searches override ``explore``."""

    id = None
    level = "model_checking"
    rule = ""
    assumptions = []
    case_timeout = 60.0
    max_violations = 6

    def __init__(self, tier="quick", seed=1):
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.stats = Stats()

    # -- to override -----------------------------------------------------------------------------------------------
    def prepare(self):
        pass

    def cases(self):
        return iter(())

    def run(self, kind, case):
        raise NotImplementedError

    # -- machinery ------------------------------------------------------------------------------------------------
    def execute(self, kind, case):
        """Run one case under a time limit; record what happened.  Returns the outcome, or None on violation."""
        st = self.stats
        st.evaluations += 1
        st.traces += 1
        if self._beats is not None:
            self._beats[self._part] = time.monotonic()
        st.per_kind[kind] = st.per_kind.get(kind, 0) + 1
        fired = []

        def alarm(signum, frame):
            # again and again, as code (of the case, or under test) may take it for an error of its own; in the end, at
            # once, as nothing else stops a search of cases none of which ends
            fired.append(1)
            self.unending()
            if len(fired) > 10 and self._bail is not None:
                self.record(kind, case, "did not terminate within %gs" % self.case_timeout, None)
                self._bail()
            raise CaseTimeout()
        old = signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, self.case_timeout, 2.0)
        try:
            try:
                out = self.run(kind, case)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
        except Violation as e:
            self.record(kind, case, str(e), e.key)
            return None
        except CaseTimeout:
            self.record(kind, case, "did not terminate within %gs" % self.case_timeout, None)
            return None
        except (KeyboardInterrupt, SystemExit) as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            self.record(kind, case, "unexpected SystemExit: %s" % e, None)
            return None
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:])
            self.record(kind, case, "unexpected %s: %s [%s]" % (type(e).__name__, short(str(e)), where), None)
            return None
        if fired:
            self.record(kind, case, "did not terminate within %gs" % self.case_timeout, None)
            return None
        if out is not None:
            st.distinct.add(digest((kind, out)))
        if st.per_kind[kind] in (1, 50) and len(st.samples) < 40:
            st.samples.append({"kind": kind, "case": case, "outcome": short(out, 300)})
        return out

    def record(self, kind, case, msg, key):
        self.stats.violations.append((kind, case, msg, key))

    _shared = None          # of all the workers: whether a case of any did not end
    _bail = None
    _beats = None           # when each worker last began a case
    _part = 0
    idle_limit = 240.0      # for enumerating, which may run the code as well

    def unending(self):
        if self._shared is None:
            self._shared = bytearray(1)
        self._shared[0] = 1

    def enough(self):
        if self._shared is not None and self._shared[0]:
            return True
        known = self.known_keys()
        return sum(1 for v in self.stats.violations if v[3] not in known) >= self.max_violations

    def explore(self, part, nparts):
        for i, (kind, case) in enumerate(self.cases()):
            if i % nparts != part:
                continue
            self.execute(kind, case)
            if self.enough():
                break

    # -- known findings -------------------------------------------------------------------------------------------
    _known = None

    def known(self):
        if self._known is None:
            fn = os.path.join(env.VERIF, "known_findings.json")
            d = json.load(open(fn)) if os.path.exists(fn) else {"findings": []}
            self._known = {f["key"]: f for f in d["findings"] if f["property"] == self.id}
        return self._known

    def known_keys(self):
        return set(self.known())

    # -- driver ---------------------------------------------------------------------------------------------------
    parallel = True

    def main(self):
        t0 = time.time()
        def alarm(signum, frame):
            raise CaseTimeout()
        old = signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, self.idle_limit, 2.0)
        try:
            self.prepare()
        except CaseTimeout:
            self.record("(exploration)", {}, "preparing did not terminate within %gs" % self.idle_limit, None)
        except Exception as e:
            self.unexplored(e)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        if self.stats.violations:
            return self.finish(time.time() - t0)
        n = NPROC if self.parallel else 1
        if n == 1:
            self.explore(0, 1)
        else:
            self._fork(n)
        return self.finish(time.time() - t0)

    def unexplored(self, e):
        """Preparing, or finding out what there is to explore, failed: of the code, which cannot do what is asked of it,
        unless nothing of it took part, and the check itself is amiss."""
        tb = traceback.extract_tb(e.__traceback__)
        traceback.print_exception(e)
        if not any(os.path.abspath(f.filename).startswith(os.path.abspath(env.REPO) + os.sep) for f in tb) and \
                isinstance(e, (ImportError, AttributeError, NameError)):
            raise e
        where = "; ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:])
        self.record("(exploration)", {}, "unexpected %s: %s [%s]" % (type(e).__name__, short(str(e)), where), None)

    def _fork(self, n):
        import mmap
        import pickle
        import tempfile
        self._shared = mmap.mmap(-1, 1)
        self._beats = memoryview(mmap.mmap(-1, 8 * n)).cast("d")
        for i in range(n):
            self._beats[i] = time.monotonic()
        sys.stdout.flush()
        sys.stderr.flush()
        kids = []
        for part in range(n):
            f = tempfile.TemporaryFile()
            pid = os.fork()
            if pid == 0:
                code = 3

                def bail():
                    pickle.dump(self.stats, f)
                    f.flush()
                    os._exit(0)
                self._bail = bail
                self._part = part
                try:
                    # what takes memory without end is to fail here, not to end whatever runs beside it
                    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
                except (OSError, ValueError):
                    pass
                try:
                    self.stats = Stats()
                    try:
                        self.explore(part, n)
                    except Exception as e:
                        self.unexplored(e)
                    pickle.dump(self.stats, f)
                    f.flush()
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            kids.append((pid, f))
        bad = 0
        for part, (pid, f) in enumerate(kids):
            wait, idle = 0.002, False
            while True:
                p, status = os.waitpid(pid, os.WNOHANG)
                if p:
                    break
                time.sleep(wait)
                wait = min(wait * 1.5, 0.1)
                if time.monotonic() - self._beats[part] > max(self.idle_limit, 2 * self.case_timeout):
                    idle = True
                    self.unending()
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    break
            if idle or os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT):
                self.record("(exploration)", {}, "a worker did not go on" if idle else
                            "a worker was ended by signal %d" % os.WTERMSIG(status), None)
                continue
            f.seek(0)
            if status != 0:
                bad += 1
                continue
            self.stats.merge(pickle.load(f))
        if bad:
            raise RuntimeError("%d exploration worker(s) died" % bad)

    def coverage(self):
        st = self.stats
        cov = {"exhaustive": True, "samples": sorted(st.samples, key=lambda s: (s["kind"], str(s["case"])))[:24],
               "cases_by_kind": dict(sorted(st.per_kind.items()))}
        if self.level == "model_checking":
            # for enumerations of executions a state is a distinct observed outcome, a transition an operation applied
            # to the real objects
            cov["states"] = len(st.states) or len(st.distinct)
            cov["transitions"] = max(st.transitions, st.evaluations)
            cov["traces_validated_against_impl"] = st.traces
        cov["evaluations"] = st.evaluations
        cov["distinct_nontrivial"] = len(st.distinct) or len(st.states)
        cov["rule"] = self.rule
        if st.notes:
            cov["measured"] = dict(sorted(st.notes.items()))
        return cov

    def finish(self, wall):
        st = self.stats
        known = self.known()
        seen_known, new = {}, []
        for v in sorted(st.violations, key=lambda v: (len(json.dumps(v[1], default=str)), json.dumps(v[1], default=str))):
            if v[3] is not None and v[3] in known:
                seen_known.setdefault(v[3], v)
            else:
                new.append(v)
        cov = self.coverage()
        if new:
            cov["exhaustive"] = False
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": list(self.assumptions), "wall_s": round(wall, 2), "violations": len(new)}
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(env.VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
            f.write("\n")
        print("%s %s: %d executions, %d distinct outcomes, %d states, %d transitions, %.1fs"
              % (self.id, self.tier, st.evaluations, len(st.distinct), len(st.states), st.transitions, wall))
        for k in sorted(st.per_kind):
            print("   %-40s %d" % (k, st.per_kind[k]))
        for k in sorted(seen_known):
            print("KNOWN-FINDING: property=%s %s" % (self.id, known[k]["what"]))
        if not new:
            if st.evaluations == 0 and not st.states:
                print("ERROR: nothing was explored")
                return 2
            return 0
        d = os.path.join(env.VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for i, (kind, case, msg, key) in enumerate(new[:self.max_violations]):
            fn = os.path.join(d, "%s-%d.json" % (self.id, i))
            with open(fn, "w") as f:
                json.dump({"property": self.id, "kind": kind, "case": case, "message": msg, "key": key}, f, indent=1,
                          default=str)
                f.write("\n")
            print("VIOLATION property=%s replay=%s" % (self.id, fn))
            print("   kind=%s case=%s" % (kind, short(json.dumps(case, default=str))))
            print("   %s" % short(msg, 1200))
        return 1

    def replay(self, fn):
        d = json.load(open(fn))
        if d["kind"] == "(exploration)":
            return self.main()
        self.prepare()
        self.execute(d["kind"], d["case"])
        for kind, case, msg, key in self.stats.violations:
            print("VIOLATION property=%s replay=%s" % (self.id, fn))
            print("   %s" % msg)
            return 1
        print("replay: the case holds")
        return 0

    # -- explicit-state search --------------------------------------------------------------------------------------
    def bfs(self, kind, config, alphabet, build, canon, depth, part=0, nparts=1, shift=0):
        """Breadth-first search over operation histories on the real object.

        ``build(config, ops)`` replays a history on fresh objects, checking the oracle on every step, and returns the
        final (real, model) pair; ``canon`` maps it to a hashable canonical state.  Histories whose final states are
        equal under ``canon`` have the same futures, so only one is extended.  The first level is split over workers.
        """
        st = self.stats
        seen = set()
        frontier = deque()
        root = ()
        roots = [root]
        out = self._step(kind, config, root, build)
        if out is None:
            return 0
        seen.add(digest(canon(out)))
        frontier.append((root, 0))
        maxd = 0
        del roots
        while frontier:
            hist, d = frontier.popleft()
            if d >= depth:
                continue
            for j, op in enumerate(alphabet(config, hist)):
                if d == 0 and (j + shift) % nparts != part:
                    continue
                nh = hist + (op,)
                st.transitions += 1
                out = self._step(kind, config, nh, build)
                if out is None:
                    if self.enough():
                        return len(seen)
                    continue
                k = digest(canon(out))
                if k not in seen:
                    seen.add(k)
                    maxd = max(maxd, d + 1)
                    frontier.append((nh, d + 1))
        tag = digest((kind, config))
        st.states |= {tag + k for k in seen}
        st.notes["max_depth_" + kind] = maxd
        return len(seen)

    # -- schedule exploration ---------------------------------------------------------------------------------------
    def schedules(self, kind, config, one, bound=None, limit=None):
        """Executes one(config, chooser) under every sequence of choices (with at most ``bound`` non-zero ones)."""
        def go(ch):
            case = {"config": config, "choices": None}
            real_run = self.run

            def body(kind_, case_):
                try:
                    return one(config, ch)
                finally:
                    case["choices"] = list(ch.choices)
            self.run = body
            try:
                self.execute(kind, case)
            finally:
                self.run = real_run
            self.stats.transitions += len(ch.choices)
        n = 0
        for _ in explore_choices(go, bound, limit):
            n += 1
            if self.enough():
                break
        return n

    def _step(self, kind, config, hist, build):
        box = []
        real_run = self.run

        def one(kind_, case):
            r = build(case["config"], [tuple(o) if isinstance(o, list) else o for o in case["ops"]])
            box.append(r)
            return None
        self.run = one
        try:
            self.execute(kind, {"config": config, "ops": [list(o) if isinstance(o, tuple) else o for o in hist]})
        finally:
            self.run = real_run
        return box[0] if box else None


def sequences(alphabet, depth):
    """All operation sequences up to a depth, shortest first."""
    import itertools
    for n in range(depth + 1):
        yield from itertools.product(alphabet, repeat=n)


class Chooser:
    """Answers every environment question with choice 0 after replaying a prefix; records the menu sizes."""
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []
        self.choices = []

    def choose(self, n, what=""):
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError("replay diverged at choice %d (%s): %d of %d" % (i, what, c, n))
        self.points.append((n, what))
        self.choices.append(c)
        return c


def explore_choices(run, bound=None, limit=None):
    """Stateless exploration: run(chooser) for every choice sequence with at most ``bound`` non-zero choices.
    Yields (choices, result).  bound=None explores everything."""
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        res = run(ch)
        yield tuple(ch.choices), res
        n += 1
        if limit is not None and n >= limit:
            raise RuntimeError("exploration limit reached")
        dev = sum(1 for c in ch.choices[:len(prefix)] if c)
        if bound is not None and dev >= bound:
            continue
        for i in range(len(ch.points) - 1, len(prefix) - 1, -1):
            for alt in range(ch.points[i][0] - 1, 0, -1):
                stack.append(tuple(ch.choices[:i]) + (alt,))
