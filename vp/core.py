"""Shared machinery of the monitors: observed calls, verdict recording, CPU-time guard."""
from __future__ import annotations

import contextlib
import hashlib
import json
import logging
import random
import signal
import traceback
import warnings

CPU_LIMIT = 25.0  # CPU seconds for one case; cases normally take milliseconds


class CaseTimeout(BaseException):
    """The case used up its CPU time."""


class Violation(Exception):
    def __init__(self, message, detail=None):
        super().__init__(message)
        self.message = message
        self.detail = detail or {}


class Skip(Exception):
    """The generated case is outside the domain (e.g. too large)."""


class Err:
    """An exception raised by the code under test, as an observed outcome."""

    def __init__(self, exc):
        self.exc = exc
        self.type = type(exc).__name__

    def __repr__(self):
        return f"<raised {self.type}: {str(self.exc)[:200]}>"

    def __eq__(self, other):
        return isinstance(other, Err) and self.type == other.type

    __hash__ = None


_in_sut = 0


@contextlib.contextmanager
def sut():
    """Marks execution of the code under test."""
    global _in_sut
    _in_sut += 1
    try:
        yield
    finally:
        _in_sut -= 1


def in_sut():
    return _in_sut > 0


def call(fn, *args, **kwargs):
    """Runs the code under test; an exception is an outcome, not an error of the harness."""
    global _in_sut
    _in_sut += 1
    try:
        r = fn(*args, **kwargs)
    except Exception as e:  # noqa: BLE001 - any exception is an observation
        r = Err(e)
    except CaseTimeout:
        raise  # _in_sut stays up, so the worker knows where it happened
    _in_sut -= 1
    return r


def reset_sut():
    global _in_sut
    _in_sut = 0


def install_alarm():
    def handler(signum, frame):
        raise CaseTimeout()
    signal.signal(signal.SIGPROF, handler)


def arm(seconds=CPU_LIMIT):
    signal.setitimer(signal.ITIMER_PROF, seconds)


def disarm():
    signal.setitimer(signal.ITIMER_PROF, 0)


def quiet():
    warnings.simplefilter("ignore")
    logging.lastResort = None
    logging.getLogger().addHandler(logging.NullHandler())


class Rec:
    """Collects what the monitors of one worker observed."""

    def __init__(self):
        self.evaluations = 0
        self.counters = {}
        self.seen = set()
        self.samples = []
        self.violations = []

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def distinct(self, *key):
        """Registers a distinct non-trivial case or state."""
        h = hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()
        self.seen.add(h)

    def sample(self, value, every=1, limit=6):
        if len(self.samples) < limit:
            self.samples.append(value)

    def dump(self):
        return {"evaluations": self.evaluations, "counters": self.counters,
                "seen": sorted(self.seen), "samples": self.samples,
                "violations": self.violations}


def case_rng(seed, prop, index):
    return random.Random(f"{seed}:{prop}:{index}")


def show(x, limit=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= limit else s[:limit] + f"... ({len(s)} chars)"


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return show(x)


def trace(exc):
    return "".join(traceback.format_exception(exc))[-3000:]


def raised_by(exc, src):
    """Whether the exception was raised within the code below `src`."""
    tb, last = exc.__traceback__, ""
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if "/vp/" in name or name.startswith(src):
            last = name
        tb = tb.tb_next
    return last.startswith(src)


class Check:
    """Base class of the property monitors."""

    id = ""
    level = "exploration"
    technique = ""
    rule = ""
    quick = 1000       # number of generated cases
    thorough = 20000
    required = ()      # counters that must be positive, else the run is inconclusive
    assumptions = ()
    cpu_limit = CPU_LIMIT
    may_be_slow = False  # the workloads include enumerations that are legitimately long: those are skipped

    def __init__(self, rec: Rec, tier: str, seed: int, scratch: str):
        self.rec = rec
        self.tier = tier
        self.seed = seed
        self.scratch = scratch

    def directed(self):
        """Fixed cases: list of callables taking (rng)."""
        return []

    def case(self, rng, index):
        raise NotImplementedError

    def setup(self):
        pass

    def teardown(self):
        pass

    def expect(self, cond, message, **detail):
        self.rec.count("comparisons")
        if not cond:
            raise Violation(message, {k: show(v, 2000) for k, v in detail.items()})

    def expect_eq(self, got, want, message, **detail):
        self.rec.count("comparisons")
        if isinstance(got, Err) or got != want:
            raise Violation(message, {"got": show(got, 2000), "expected": show(want, 2000),
                                      **{k: show(v, 2000) for k, v in detail.items()}})
