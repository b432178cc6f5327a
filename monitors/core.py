"""Core of the runtime monitoring harness.

A monitor module (monitors/cNN_*.py) defines

  ID, RULE          property id; how cases are made and what is non-trivial
  QUICK, THOROUGH   number of cases per tier
  REQUIRED          {event kind: minimum count}; fewer observed => inconclusive
  case(ctx)         runs ONE execution of the real code under instrumentation
                    and lets the oracle judge what it observed.

Everything random in a case is drawn from ctx.rng (a random.Random seeded by
property, VERIF_SEED and case index), and the global numpy / random states are
seeded from it as well, so that (property, seed, index) replays an execution.
"""

import hashlib
import json
import math
import random
import shutil
import tempfile
import traceback


class Violation(Exception):
    """The oracle refuted the property on an observed execution."""

    def __init__(self, message, key=None, **details):
        super().__init__(message)
        self.message = message
        self.key = key or "unclassified"
        self.details = details


class Inconclusive(Exception):
    """The execution could not be judged (never folded into held/violated)."""


class Skip(Exception):
    """The generated case is degenerate; not counted."""


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, (str, bool, int)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:300]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:2000]]
    if hasattr(x, "tolist"):
        return jsonable(x.tolist(), depth + 1)
    return repr(x)[:500]


class Ctx:
    """What a case sees: its randomness, its event counters, its oracle."""

    def __init__(self, prop, seed, tier, index):
        self.prop, self.seed, self.tier, self.index = prop, seed, tier, index
        h = hashlib.sha256("{}|{}|{}".format(prop, seed, index).encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))
        self.np_seed = int.from_bytes(h[8:12], "big")
        self.events = {}
        self.keys = set()
        self.sample = None
        self._tmp = None
        self.finalizers = []
        self.oracle_checks = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def tmpdir(self):
        """A scratch directory, removed when the case ends."""
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="case-")
        return self._tmp

    def cleanup(self):
        for f in self.finalizers:
            f()
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)

    # -- instrumentation ---------------------------------------------------
    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def seen(self, *key):
        """Registers a distinct non-trivial behaviour that was observed."""
        self.keys.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def note(self, **kw):
        """Records the inputs of this case (for samples and replays)."""
        if self.sample is None:
            self.sample = {}
        self.sample.update(jsonable(kw))

    # -- oracle --------------------------------------------------------------
    def fail(self, message, key=None, **details):
        raise Violation(message, key, **details)

    def check(self, cond, message, key=None, **details):
        self.oracle_checks += 1
        if not cond:
            raise Violation(message, key, **details)

    def equal(self, got, want, message, key=None, **details):
        self.oracle_checks += 1
        if not (got == want):
            raise Violation(message, key, got=got, want=want, **details)

    def close(self, got, want, message, rel=1e-9, abs_=1e-9, key=None, **details):
        self.oracle_checks += 1
        g, w = float(got), float(want)
        if math.isnan(g) and math.isnan(w):
            return
        if g == w:
            return
        if not (abs(g - w) <= max(abs_, rel * max(abs(g), abs(w)))):
            raise Violation(message, key, got=g, want=w, **details)

    def close_list(self, got, want, message, rel=1e-9, abs_=1e-9, key=None, **details):
        got, want = list(got), list(want)
        self.equal(len(got), len(want), message + " (length)", key, **details)
        for i, (g, w) in enumerate(zip(got, want)):
            self.close(g, w, message, rel, abs_, key, position=i, **details)

    def raises(self, exc_types, f, message, key=None, **details):
        """f() must raise one of exc_types."""
        self.oracle_checks += 1
        try:
            got = f()
        except exc_types:
            self.event("rejected_invalid_input")
            return
        raise Violation(
            message + ": accepted", key, returned=repr(got)[:300], **details
        )


def run_case(module, seed, tier, index):
    """Runs one case; returns a JSON-able record."""
    import numpy as np

    ctx = Ctx(module.ID, seed, tier, index)
    random.seed(ctx.np_seed)
    np.random.seed(ctx.np_seed)
    rec = {"index": index}
    try:
        module.case(ctx)
        rec["verdict"] = "held"
    except Violation as v:
        rec["verdict"] = "violated"
        rec["message"] = v.message
        rec["key"] = v.key
        rec["details"] = jsonable(v.details)
        rec["traceback"] = traceback.format_exc()[-3000:]
    except Skip as e:
        rec["verdict"] = "skipped"
        rec["message"] = str(e)
    except Inconclusive as e:
        rec["verdict"] = "inconclusive"
        rec["message"] = str(e)
    except MemoryError as e:
        rec["verdict"] = "inconclusive"
        rec["message"] = "MemoryError"
    except CpuBudgetExceeded as e:
        rec["verdict"] = "violated"
        rec["key"] = "no-answer"
        rec["message"] = (
            "no answer within {} s of CPU time on an input of bounded size".format(
                e.args[0]
            )
        )
        rec["details"] = {}
        rec["traceback"] = traceback.format_exc()[-3000:]
    except Exception as e:  # the code under test failed on a valid input
        rec["verdict"] = "violated"
        rec["key"] = "exception"
        rec["message"] = "unexpected {}: {}".format(type(e).__name__, str(e)[:500])
        rec["details"] = {}
        rec["traceback"] = traceback.format_exc()[-3000:]
    finally:
        ctx.cleanup()
    rec["events"] = ctx.events
    rec["keys"] = sorted(ctx.keys)
    rec["checks"] = ctx.oracle_checks
    rec["sample"] = ctx.sample
    return rec


class CpuBudgetExceeded(BaseException):
    """The code under test used an absurd amount of CPU for one case."""
