"""Monitor primitives shared by the property modules."""
import random, zlib
import numpy


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key, self.msg = key, msg


class Case:
    """One monitored execution: its random sources, its event log and its verdicts."""

    def __init__(self, kind, idx, tier, s):
        self.kind, self.idx, self.tier, self.seed = kind, idx, tier, s
        self.r = random.Random(s ^ 0x5bd1e995)
        self.np = numpy.random.RandomState((s * 2654435761 + 97) % (2 ** 32))
        self.events, self.sigs, self.samples, self.violations = {}, set(), [], []
        self._keys = set()

    # --- what the monitors observed
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def sig(self, *what):
        """Register a distinct, non-trivial observed case."""
        self.sigs.add('%s-%08x' % (self.kind, zlib.crc32(repr(what).encode())))

    def sample(self, what):
        if not self.samples:
            self.samples.append(what)

    # --- verdicts
    def fail(self, key, msg):
        if key not in self._keys:
            self._keys.add(key)
            self.violations.append((key, str(msg)))

    def ok(self, cond, key, msg=''):
        """Record a violation (and go on) when cond is false."""
        self.ev('assertions')
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
            return False
        return True

    def must(self, cond, key, msg=''):
        if not self.ok(cond, key, msg):
            raise Violation(key, msg() if callable(msg) else msg)

    def close(self, a, b, key, tol=1e-8, msg=''):
        self.ev('assertions')
        try:
            a_ = numpy.asarray(a, dtype=float)
            b_ = numpy.asarray(b, dtype=float)
        except Exception as e:
            self.fail(key, '%s: not numeric: %r vs %r (%s)' % (msg, a, b, e))
            return False
        if a_.shape != b_.shape:
            self.fail(key, '%s: shape %s, expected %s\n got %s\n expected %s'
                      % (msg, a_.shape, b_.shape, str(a_)[:300], str(b_)[:300]))
            return False
        good = (a_ == b_) | (numpy.isnan(a_) & numpy.isnan(b_)) | \
            (abs(a_ - b_) <= tol * (1 + abs(b_)))
        if not numpy.all(good):
            self.fail(key, '%s: got %s\n expected %s' % (msg, str(a_)[:600], str(b_)[:600]))
            return False
        return True

    def eq(self, a, b, key, msg=''):
        self.ev('assertions')
        if not (a == b):
            self.fail(key, '%s: got %r, expected %r' % (msg, a, b))
            return False
        return True

    def raises(self, exc, fn, key, msg=''):
        self.ev('assertions')
        try:
            r = fn()
        except exc:
            return True
        self.fail(key, '%s: expected %s, returned %r' % (msg, exc, r))
        return False


def frozen(a):
    """A read-only copy: code under test that writes to its input raises."""
    a = numpy.array(a, dtype=float)
    a.setflags(write=False)
    return a


class Unchanged:
    """Snapshot of arrays/lists that the monitored call must not modify."""

    def __init__(self, **things):
        import copy
        self.things = things
        self.snap = {k: copy.deepcopy(v) for k, v in things.items()}

    def verify(self, c, key):
        for k, v in self.things.items():
            a, b = numpy.asarray(v), numpy.asarray(self.snap[k])
            c.ok(a.shape == b.shape and bool(numpy.all((a == b) | ((a != a) & (b != b)))),
                 key, 'input %r was modified: %s, was %s' % (k, v, self.snap[k]))


def rnd_vec(c, n, scale=1.0):
    return numpy.array([c.r.gauss(0, scale) for _ in range(n)])
