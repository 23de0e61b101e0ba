"""Runner core: seeded cases, event recording, oracle verdicts, evidence.

Every check drives the real code from /repo, records what it observed as events,
and lets an oracle (reference model, trace automaton or sanitizer) judge them.
"""

import hashlib
import json
import logging
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENVIRON = dict(os.environ)  # as they were before the library was imported
UMASK = os.umask(0o22)
os.umask(UMASK)
KNOWN = os.path.join(HERE, "known_findings.txt")


class Violation(Exception):
    """An observed execution breaks the property."""

    def __init__(self, what, trace=None):
        Exception.__init__(self, what)
        self.what = what
        self.trace = trace


class Hang(BaseException):
    """The watchdog fired."""


HUNG = []


class Inconclusive(Exception):
    """The monitors did not observe enough to give an answer."""


class Outcome:
    """What a call into the code under test did."""

    __slots__ = ("value", "error")

    def __init__(self, value=None, error=None):
        self.value = value
        self.error = error

    @property
    def ok(self):
        return self.error is None

    def __repr__(self):
        return (
            "returned %s" % brief(self.value)
            if self.ok
            else "raised %s" % brief(self.error)
        )


def brief(x, n=400):
    try:
        s = repr(x)
    except Exception as e:  # a repr of the code under test may fail
        s = "<%s: repr failed: %s>" % (type(x).__name__, type(e).__name__)
    return s if len(s) <= n else s[:n] + "..."


def call(fn, *args, **kwargs):
    """Call into the code under test; exceptions are observations, not errors."""
    try:
        return Outcome(value=fn(*args, **kwargs))
    except (Violation, Inconclusive):
        raise
    except Exception as e:
        return Outcome(error=e)


def jsonable(x):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).hex()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    return brief(x)


class _Reader(logging.Handler):
    """As a handler of the standard library: what can not be shown harms nobody."""

    def emit(self, record):
        try:
            record.getMessage()
        except Exception:
            pass


class Ctx:
    def __init__(self, pid, tier, seed, only=None):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.only = only  # (section, index) when replaying
        self.counts = {}
        self.distinct = {}
        self.samples = []
        self.trace = []
        self.section = None
        self.index = None
        self.evaluations = 0
        self.checks = 0
        self.known_hit = {}
        self.known = load_known(pid)
        self.rule = ""
        self.assumptions = []
        self.exhaustive = []

    # ---- workload -------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def more(self, quick, thorough):
        """As scale, for cases which take next to no time."""
        return thorough if self.thorough else min(4 * quick, thorough)

    def rng(self, *key):
        h = hashlib.sha256(repr((self.seed, self.pid) + key).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    def cases(self, section, n):
        """n cases, each with its own generator, so that one can be replayed."""
        for i in range(n):
            if self.only and self.only != (section, i):
                continue
            self.begin(section, i)
            yield i, self.rng(section, i)

    def sweep(self, section, items):
        """Cases made from an enumerated space."""
        for i, item in enumerate(items):
            if self.only and self.only != (section, i):
                continue
            self.begin(section, i)
            yield item

    def begin(self, section, index):
        self.section, self.index = section, index
        self.trace = []
        self.evaluations += 1
        self.count("cases/" + section)
        # what the code logs is read, or not
        heard = isinstance(index, int) and index % 4 == 3
        log = logging.getLogger("knx_stack")
        if heard != (log.level == logging.DEBUG):
            log.setLevel(logging.DEBUG if heard else logging.NOTSET)
            log.handlers[:] = [_Reader()] if heard else []

    def limit(self, quick, thorough=3000):
        """A workload which needs this long is not going to end."""
        signal.setitimer(signal.ITIMER_REAL, self.scale(quick, thorough), 5)

    # ---- observation ----------------------------------------------------
    def event(self, kind, *what):
        """Record one observed event of the current case."""
        self.count("events/" + kind)
        if len(self.trace) < 3000:
            self.trace.append((kind,) + what)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def see(self, kind, *sig):
        """A distinct, non-trivial situation the monitor observed."""
        s = self.distinct.setdefault(kind, set())
        if len(s) < 2000000:
            s.add(sig)

    def sample(self, what):
        if len(self.samples) < 6:
            self.samples.append(jsonable(what))

    # ---- verdicts -------------------------------------------------------
    def expect(self, cond, what, *detail):
        self.checks += 1
        if not cond:
            raise Violation(
                what % detail if detail and "%" in what else what + (
                    " " + " ".join(brief(d) for d in detail) if detail else ""
                )
            )

    def finding(self, mechanism, what):
        """A violation with a mechanism that may be a listed known finding."""
        for key, text in self.known:
            if key == mechanism:
                self.known_hit[mechanism] = text
                return True
        raise Violation(what)

    def floor(self, **mins):
        """The monitors must have observed at least this much (not in a replay)."""
        if self.only:
            return
        for name, n in mins.items():
            key = name.replace("__", "/")
            got = self.counts.get(key, len(self.distinct.get(key, ())))
            if got < n:
                raise Inconclusive("observed %d of %s, need %d" % (got, key, n))


def load_known(pid):
    """known: property=<id> mechanism=<m> <text>; 'fixed:' lines suppress nothing."""
    out = []
    try:
        lines = open(KNOWN).read().splitlines()
    except OSError:
        return out
    for line in lines:
        if not line.startswith("known:"):
            continue
        head, _, text = line[len("known:"):].strip().partition(" mechanism=")
        if head.strip() != "property=%s" % pid:
            continue
        mech, _, text = text.partition(" ")
        out.append((mech, text))
    return out


def in_repo(tb):
    """Is the code under test on this traceback, below the harness?"""
    root = os.path.join(os.path.realpath(REPO), "")
    return any(
        os.path.realpath(f.filename).startswith(root)
        for f in traceback.extract_tb(tb)
    )


def replay_file(ctx, what):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(
        d,
        "%s-%s-seed%d-%s-%s.json"
        % (ctx.pid, ctx.tier, ctx.seed, str(ctx.section).replace("/", "_"), ctx.index),
    )
    with open(path, "w") as f:
        json.dump(
            {
                "property": ctx.pid,
                "what": what,
                "replay": "./check %s --tier %s --seed %d --case %s:%s"
                % (ctx.pid, ctx.tier, ctx.seed, ctx.section, ctx.index),
                "trace": jsonable(ctx.trace),
            },
            f,
            indent=1,
        )
    return path


def run_check(fn, pid, tier, seed, only=None, limit=None):
    ctx = Ctx(pid, tier, seed, only)
    t0 = time.time()
    limit = limit or (600 if tier == "quick" else 3600)

    def fire(*_):
        HUNG.append(time.time())
        raise Hang("no answer within the time limit")

    signal.signal(signal.SIGALRM, fire)
    signal.setitimer(signal.ITIMER_REAL, limit, 5)
    code, what = 0, None
    try:
        fn(ctx)
        if ctx.checks == 0:
            raise Inconclusive("no oracle was evaluated")
    except Violation as v:
        code, what = 1, v.what
        if v.trace is not None:
            ctx.trace = v.trace
    except Inconclusive as e:
        if only:
            print("replayed case gave no violation (%s)" % e)
        else:
            code, what = 2, "inconclusive: %s" % e
    except (Exception, Hang) as e:
        tb = e.__traceback__
        text = "".join(traceback.format_exception(type(e), e, tb))
        sys.stderr.write(text)
        odd = isinstance(e, (TypeError, ValueError, AttributeError, LookupError))
        if in_repo(tb) or (odd and ctx.section is not None):
            # the code under test failed, or gave something of an unusable shape
            code, what = 1, "unexpected %s: %s" % (type(e).__name__, e)
            ctx.trace.append(("traceback", text[-3000:]))
        else:
            code, what = 2, "harness error: %s: %s" % (type(e).__name__, e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    wall = time.time() - t0
    coverage = {
        "evaluations": ctx.evaluations,
        "distinct_nontrivial": sum(len(s) for s in ctx.distinct.values()),
        "rule": ctx.rule,
        "samples": ctx.samples or jsonable([ctx.trace[:20]]),
        "oracle_evaluations": ctx.checks,
        "observed": dict(sorted(ctx.counts.items())),
        "distinct_by_kind": {k: len(s) for k, s in sorted(ctx.distinct.items())},
    }
    if ctx.exhaustive:
        coverage["enumerated_completely"] = ctx.exhaustive
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": ctx.assumptions,
        "wall_s": round(wall, 3),
        "violations": 1 if code == 1 else 0,
    }
    if ctx.known_hit:
        evidence["coverage"]["known_findings_observed"] = ctx.known_hit
    if not only:
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d.tmp" % (pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(d, pid + ".json"))
    for text in ctx.known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if code == 1:
        path = replay_file(ctx, what)
        print(what)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    elif code == 2:
        print("NO ANSWER property=%s %s" % (pid, what))
    else:
        print(
            "ok property=%s cases=%d distinct=%d oracle=%d wall=%.1fs"
            % (pid, ctx.evaluations, coverage["distinct_nontrivial"], ctx.checks, wall)
        )
    sys.stdout.flush()
    return code
