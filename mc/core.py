"""Explicit-state / exhaustive exploration core.

Every check is a set of *families*.  A family is

* ``cases(tier)``: a deterministic generator that enumerates, completely and
  simplest first, a bounded space (all words over an alphabet up to a length,
  all trees up to a size, all operation histories up to a depth, ...).  Each
  case is plain JSON data, so that it can be written to a replay file;
* ``check(case, rec)``: executes the real code of /repo for that case, in lock
  step with a reference model, and raises :class:`Violation` (or calls
  ``rec.fail``) on a disagreement.

The driver partitions the enumeration over forked workers (case number modulo
the number of workers), so the union of what the workers do is the whole space.
Nothing is sampled.  A time cap exists as a safety net only; if it is hit, the
evidence says so (``exhaustive: false``) together with the number of cases done.
"""

import collections
import hashlib
import itertools
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
CASE_SECONDS = 30          # a single case takes milliseconds; this is a hang
MAX_FAILS = 40             # per worker; enough to report


class Violation(Exception):
    """The code under test breaks the property."""
    def __init__(self, key, detail=""):
        super().__init__(key, detail)
        self.key = key
        self.detail = detail


class CaseTimeout(BaseException):
    pass


def stable(obj):
    """A 64 bit digest of the repr of obj, for visited-state sets."""
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big")


class Recorder:
    """Collects what was explored, in one worker."""
    def __init__(self, deadline=None):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.outcomes = set()
        self.samples = []
        self.fails = []
        self.counts = collections.Counter()
        self.deadline = deadline
        self.capped = False
        self._family = None
        self._case = None
        self.failed = 0     # in this family

    # -- called by the checks
    def state(self, canon):
        """Register a reached state; return True if it is new (in this worker)."""
        h = stable(canon)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        """Register executed transitions (operations run on the real code)."""
        self.transitions += n

    def trace(self, n=1):
        """Register model traces that were replayed against the real code."""
        self.traces += n

    def outcome(self, value):
        """Register an observed outcome (vacuity guard: many distinct ones expected)."""
        if len(self.outcomes) < 200000:
            self.outcomes.add(stable(value))

    def count(self, name, n=1):
        self.counts[name] += n

    def fail(self, key, detail=""):
        self.failed += 1
        if self.failed <= MAX_FAILS:
            self.fails.append((self._family, self._case, str(key), str(detail)))

    def expect(self, ok, key, detail=""):
        if not ok:
            self.fail(key, detail() if callable(detail) else detail)
        return ok

    def out_of_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            self.capped = True
            return True
        return False


class Family:
    """Base class for families."""
    name = None
    case_seconds = CASE_SECONDS

    def cases(self, tier):
        raise NotImplementedError

    def check(self, case, rec):
        raise NotImplementedError


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(family, case, rec):
    """Run one case; anything that goes wrong in it is a violation."""
    rec._family = family.name
    rec._case = case
    rec.cases += 1
    signal.setitimer(signal.ITIMER_REAL, family.case_seconds)
    try:
        family.check(case, rec)
    except Violation as v:
        rec.fail(v.key, v.detail)
    except CaseTimeout:
        rec.fail("no termination within {} s".format(family.case_seconds))
    except MemoryError:
        rec.fail("memory exhausted")
    except Exception as e:
        rec.fail("exception {}: {}".format(type(e).__name__, e), traceback.format_exc(limit=-8))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(families, tier, shard, nshards, deadline, conn):
    signal.signal(signal.SIGALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except (ValueError, OSError):
        pass
    # the code under test may print diagnostics; keep them out of our output
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    sys.stderr = devnull
    rec = Recorder(deadline)
    done = {}
    for family in families:
        n = 0
        rec.failed = 0
        complete = True
        t0 = time.time()
        for i, case in enumerate(family.cases(tier)):
            if i % nshards != shard:
                continue
            if rec.out_of_time() or rec.failed >= MAX_FAILS:
                complete = False
                break
            if len(rec.samples) < 3 and n in (0, 7):
                rec.samples.append([family.name, case])
            run_case(family, case, rec)
            n += 1
        done[family.name] = (n, complete, time.time() - t0)
    conn.send((done, rec.states, rec.transitions, rec.traces, rec.cases, rec.outcomes,
               rec.samples, rec.fails, dict(rec.counts), rec.capped))
    conn.close()


def explore(families, tier, deadline):
    """Run all families in WORKERS forked processes, merge the results."""
    ctx = multiprocessing.get_context("fork")
    procs = []
    for shard in range(WORKERS):
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(families, tier, shard, WORKERS, deadline, w))
        p.start()
        w.close()
        procs.append((p, r))
    total = Recorder()
    done = {f.name: [0, True, 0.0] for f in families}
    pending = dict(enumerate(procs))
    for shard, (p, r) in pending.items():
        try:
            d, states, tr, traces, cases, outcomes, samples, fails, counts, capped = r.recv()
        except EOFError:
            p.join()
            total.fails.append(("worker", None, "worker process died (exit code {}) while "
                                "running the code under test".format(p.exitcode), ""))
            for v in done.values():
                v[1] = False
            continue
        p.join()
        for name, (n, complete, secs) in d.items():
            done[name][0] += n
            done[name][1] &= complete
            done[name][2] = max(done[name][2], secs)
        total.states |= states
        total.transitions += tr
        total.traces += traces
        total.cases += cases
        total.outcomes |= outcomes
        total.samples.extend(samples)
        total.fails.extend(fails)
        total.counts.update(counts)
        total.capped |= capped
    return total, done


# -- enumeration helpers -----------------------------------------------------

def words(alphabet, maxlen, minlen=0):
    """All words over the alphabet, shortest first."""
    for n in range(minlen, maxlen + 1):
        yield from map(list, itertools.product(alphabet, repeat=n))


def bfs(init, successors, canon, depth, rec, visit):
    """Breadth-first explicit state search.

    A state is the history (list of operations) reaching it; ``successors(hist)``
    yields operations; ``visit(hist)`` rebuilds a fresh real object and the model
    from the history, checks them, and returns the object to be canonicalised.
    """
    seen = set()
    frontier = collections.deque([[]])
    seen.add(canon(visit([])))
    while frontier:
        hist = frontier.popleft()
        if len(hist) >= depth:
            continue
        for op in successors(hist):
            h = hist + [op]
            obj = visit(h)
            rec.step()
            c = canon(obj)
            if c not in seen:
                seen.add(c)
                rec.state(c)
                frontier.append(h)
    return len(seen)
