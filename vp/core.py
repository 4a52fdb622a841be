"""Monitor, case runner, verdicts and evidence.

A *check* module defines
    ID, LEVEL, RULE          identification, evidence level and the rule describing its cases
    kinds(tier) -> {kind: number of cases}
    run(kind, rng, mon)      execute ONE workload under observation; report through ``mon``
A case is (kind, seed); everything random in it derives from that pair, so a case is its own replay.

Verdict of a case
    violation   an oracle saw the property broken, or the library crashed / hung in a valid workload
    skip        the workload could not be driven to the point of observation (numerical breakdown of
                the surrogate, ...).  Counted; too many skips is itself reported (see run.py)
    ok          at least one oracle evaluation, none failed
    error       the *harness* failed: the check ends inconclusive (exit 2), never as a pass
"""
import collections
import hashlib
import json
import os
import random
import signal
import sys
import traceback

import numpy as np


class Skip(Exception):
    """the workload cannot reach its observation point; not a verdict on the property"""


class Hang(BaseException):
    pass


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(f"{key}: {msg}")
        self.key, self.msg = key, msg


class Monitor:
    """collects what the oracles observed during one case"""

    MAXV = 20

    def __init__(self):
        self.events = collections.Counter()  # what was observed, by event type
        self.evals = 0  # oracle evaluations
        self.states = set()  # digests of distinct non-trivial observed situations
        self.violations = []  # dicts {key, msg}
        self.sample = None
        self.skips = collections.Counter()

    def event(self, name, n=1):
        self.events[name] += n

    def state(self, *parts):
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest()
        self.states.add(h)

    def fail(self, key, msg):
        if len(self.violations) < self.MAXV:
            self.violations.append({"key": key, "msg": str(msg)[:1500]})

    def check(self, cond, key, msg=""):
        """one oracle evaluation"""
        self.evals += 1
        if not cond:
            if callable(msg):
                msg = msg()
            self.fail(key, msg)
            return False
        return True

    def note(self, **kw):
        if self.sample is None:
            self.sample = {k: _short(v) for k, v in kw.items()}


def _short(v):
    s = v if isinstance(v, (int, float, bool, type(None))) else repr(v)
    return s if not isinstance(s, str) or len(s) < 400 else s[:400] + "..."


REPO = os.environ.get("REPO", "/repo")


def in_library(tb):
    """was the exception raised while library code was on the stack?"""
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(os.path.join(REPO, "bayes_optim") + os.sep):
            return True
    return False


def lib_site(tb):
    site = None
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(os.path.join(REPO, "bayes_optim") + os.sep):
            site = f"{os.path.relpath(fr.filename, REPO)}:{fr.name}"
    return site


# numerical breakdowns inside third-party linear algebra are not verdicts on any property
NUMERIC = ("LinAlgError",)


def is_numeric(e):
    n = type(e).__name__
    s = str(e)
    if n in NUMERIC:
        return True
    return "ill conditioned" in s or "not positive definite" in s or "Input contains NaN, infinity" in s and False


FORM = (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError, AssertionError, StopIteration)


def _alarm(signum, frame):
    raise Hang()


def case_seed(pid, kind, base, i):
    h = hashlib.blake2b(f"{pid}/{kind}/{base}/{i}".encode(), digest_size=4).digest()
    return int.from_bytes(h, "little") & 0x7FFFFFFF


def run_case(mod, kind, seed, timeout):
    """-> dict(kind, seed, status, evals, events, states, violations, sample, err)"""
    mon = Monitor()
    rng = np.random.RandomState(seed)
    np.random.seed(seed ^ 0x5EED)
    random.seed(seed)
    status, err = "ok", None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        mod.run(kind, rng, mon)
    except Skip as e:
        mon.skips[str(e)[:80]] += 1
    except Violation as e:
        mon.evals += 1
        mon.fail(e.key, e.msg)
    except Hang:
        mon.evals += 1
        mon.fail(f"hang:{kind}", f"workload did not finish within {timeout} s")
    except MemoryError:
        raise
    except Exception as e:
        tb = sys.exc_info()[2]
        text = f"{type(e).__name__}: {str(e)[:300]} | " + "".join(traceback.format_tb(tb))[-1150:]
        if is_numeric(e):
            mon.skips[type(e).__name__] += 1
        elif in_library(tb):
            mon.evals += 1
            mon.fail(f"crash:{kind}:{type(e).__name__}:{lib_site(tb)}", text)
        elif isinstance(e, FORM) and not os.environ.get("VP_STRICT"):
            # the oracles could not read what the library returned: on the unchanged tree this never happens
            # (VP_STRICT=1 turns it into a harness error while developing)
            mon.evals += 1
            mon.fail(f"unreadable:{kind}:{type(e).__name__}", "the observed result does not have the documented form: " + text)
        else:
            status, err = "error", text
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if mon.violations:
        status = "violation"
    elif status == "ok" and mon.skips and mon.evals == 0:
        status = "skip"
    elif status == "ok" and mon.evals == 0:
        status, err = "error", "case evaluated no oracle"
    return dict(
        kind=kind, seed=seed, status=status, evals=mon.evals, events=dict(mon.events),
        states=mon.states, violations=mon.violations, sample=mon.sample, err=err, skips=dict(mon.skips),
    )
