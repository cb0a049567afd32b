"""Stateless model-checking core.

An *execution* is a run of a driver against the real code in which every
source of nondeterminism (random draws, task completion order, thread
switches, driver inputs) asks a Chooser for its outcome.  `explore` enumerates
every sequence of outcomes (depth-first, by replay), optionally bounded by the
number of deviations from outcome 0.
"""
import hashlib
import json
import time
import traceback


class Violation(Exception):
    """The property under check does not hold on this execution."""


class Divergence(Exception):
    """Replaying a recorded prefix met a different choice point."""


class Capped(Exception):
    """A stated cap (executions, time) was reached."""


class Skip(Exception):
    """This execution is outside the property's preconditions."""


class HarnessError(Exception):
    """The harness itself is in an impossible state."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def canon(obj):
    """Deterministic, hashable text for a harness-level observation."""
    if isinstance(obj, float):
        return repr(obj)
    if isinstance(obj, dict):
        return "{" + ",".join(sorted(canon(k) + ":" + canon(v) for k, v in obj.items())) + "}"
    if isinstance(obj, (set, frozenset)):
        return "s{" + ",".join(sorted(canon(x) for x in obj)) + "}"
    if isinstance(obj, (list, tuple)):
        return "[" + ",".join(canon(x) for x in obj) + "]"
    return repr(obj)


def digest(obj):
    return hashlib.blake2b(canon(obj).encode(), digest_size=8).digest()


class Chooser:
    def __init__(self, prefix=(), sizes=()):
        self.prefix = list(prefix)
        self.prefix_sizes = list(sizes)
        self.choices = []
        self.sizes = []
        self.labels = []
        self.weight = 1.0   # probability of this execution, for exact distributions
        self.limit = 100000

    def choose(self, n, label="", probs=None):
        if n <= 0:
            raise HarnessError("choice point without outcomes: %s" % label)
        if n == 1:
            return 0
        i = len(self.choices)
        if i > self.limit:
            raise Violation("execution does not terminate: more than %d choice points" % self.limit)
        c = 0
        if i < len(self.prefix):
            c = self.prefix[i]
            if i < len(self.prefix_sizes) and self.prefix_sizes[i] != n:
                raise Divergence(
                    "choice %d (%s) had %d outcomes, now %d"
                    % (i, label, self.prefix_sizes[i], n))
            if c >= n:
                raise Divergence("choice %d (%s): outcome %d of %d" % (i, label, c, n))
        self.weight *= (1.0 / n) if probs is None else probs[c]
        self.choices.append(c)
        self.sizes.append(n)
        self.labels.append(label)
        return c

    def pick(self, seq, label=""):
        seq = list(seq)
        return seq[self.choose(len(seq), label)]


class Ctx:
    """Per-case exploration context; collects coverage and violations."""

    def __init__(self, prop, case, deadline, max_execs, tier, replay=None):
        self.prop, self.case, self.tier = prop, case, tier
        self.deadline, self.max_execs = deadline, max_execs
        self.states = set()
        self.execs = 0
        self.transitions = 0
        self.steps = 0
        self.capped = None
        self.samples = []
        self.divergences = 0
        self.skipped = 0
        self.violation = None
        self.replay_choices = replay
        self.notes = {}
        self.sub = 0

    # -- bookkeeping used by drivers
    def seen(self, obs):
        self.states.add(digest((self.case, obs)))

    def step(self, n=1):
        self.steps += n

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def time_left(self):
        return self.deadline - time.monotonic()

    def _fail(self, exc, ch, inputs):
        self.violation = {
            "property": self.prop, "case": self.case, "message": str(exc),
            "exploration": self.sub,
            "choices": list(ch.choices) if ch else [],
            "sizes": list(ch.sizes) if ch else [],
            "labels": list(ch.labels) if ch else [],
            "inputs": inputs,
        }
        raise exc

    def explore(self, body, bound=None, on_run=None, rng=True, alphabet=None,
                divergence_is_violation=False, confirm=True):
        """Run body(ch) for every outcome sequence.  body raises Violation."""
        from . import rng as R
        self.sub += 1
        sub = self.sub
        if self.replay_choices is not None and self.replay_choices[0] != sub:
            return 0
        prefix, sizes = [], []
        if self.replay_choices is not None:
            prefix = self.replay_choices[1]
        n = 0
        while True:
            if self.execs >= self.max_execs or (n % 16 == 0 and time.monotonic() > self.deadline):
                self.capped = "executions" if self.execs >= self.max_execs else "time"
                return n
            ch = Chooser(prefix, sizes)
            self.execs += 1
            n += 1
            try:
                if rng:
                    with R.controlled(ch, alphabet):
                        body(ch)
                else:
                    body(ch)
                if len(ch.choices) < len(ch.prefix):
                    raise Divergence("replay ended after %d of %d choices" % (len(ch.choices), len(ch.prefix)))
            except Skip:
                self.skipped += 1
            except Divergence as e:
                self.divergences += 1
                if divergence_is_violation or self.replay_choices is not None:
                    self._fail(Violation("same choices, different execution: %s" % e), ch, None)
                # cannot trust this subtree: drop it, and say the run is not exhaustive
                self.capped = self.capped or "divergence"
                ch.choices, ch.sizes = list(prefix), list(sizes)
            except Violation as e:
                self._fail(e, ch, getattr(ch, "inputs", None))
            except (Capped, HarnessError):
                raise
            except RecursionError as e:
                self._fail(Violation("RecursionError: %s" % e), ch, getattr(ch, "inputs", None))
            except Exception as e:
                tb = traceback.format_exc(limit=-6)
                self._fail(Violation("the code under check raised %s: %s\n%s"
                                     % (type(e).__name__, e, tb)), ch,
                           getattr(ch, "inputs", None))
            self.transitions += max(0, len(ch.choices) - max(0, len(prefix) - 1))
            if n <= 2:
                self.sample({"case": self.case, "choices": [
                    "%s=%d/%d" % t for t in zip(ch.labels[:24], ch.choices[:24], ch.sizes[:24])]})
            if self.replay_choices is not None:
                return n
            # next prefix (odometer), within the deviation bound
            cs, ss = ch.choices, ch.sizes
            i = len(cs) - 1
            while i >= 0:
                if cs[i] + 1 < ss[i]:
                    if bound is None or cs[i] > 0 or sum(1 for c in cs[:i] if c) + 1 <= bound:
                        break
                i -= 1
            if i < 0:
                return n
            prefix = cs[:i] + [cs[i] + 1]
            sizes = ss[:i + 1]

    def one(self, body, inputs=None, rng=False):
        """A single concrete execution (explicit inputs, no choice points)."""
        def b(ch):
            ch.inputs = inputs
            body()
        return self.explore(b, rng=rng)
