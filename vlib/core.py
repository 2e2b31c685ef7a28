"""Case context: event counters, violations and expected-behaviour assertions of a monitor."""
import hashlib
import json
import traceback


class Reject(Exception):
    """The generated case is outside the property's domain (e.g. float32 cannot hold an intermediate exactly)."""


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(f'{key}: {msg}')
        self.key, self.msg = key, msg


class Ctx:
    """What a monitor observed while one case ran."""

    def __init__(self, pid, seed, idx, tier):
        self.pid, self.seed, self.idx, self.tier = pid, seed, idx, tier
        self.evaluations = 0
        self.counters = {}
        self.distinct = set()
        self.violations = []
        self.sample = None
        self.log = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def saw(self, *key):
        """Register a distinct non-trivial state/behaviour seen by the oracle."""
        self.distinct.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def step(self, s):
        self.log.append(str(s))

    def check(self, cond, key, msg=''):
        self.evaluations += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def fail(self, key, msg):
        if len(self.violations) < 20:
            self.violations.append({'key': key, 'msg': (lambda t: t if len(t) < 3000 else t[:600] + ' ... ' + t[-2400:])(str(msg))})

    def equal(self, got, want, key, msg='', tol=0.0):
        """Elementwise (exact by default) comparison, one evaluation per element."""
        import numpy as np
        got, want = np.asarray(got), np.asarray(want)
        self.evaluations += int(max(got.size, 1))
        if got.shape != want.shape:
            try:
                want = np.broadcast_to(want, got.shape)
            except ValueError:
                self.fail(key, f'{msg}: shape {got.shape} != {want.shape}')
                return False
        g, w = got.astype(np.float64), want.astype(np.float64)
        if np.isscalar(tol) and tol == 0:
            bad = ~((g == w) | (np.isnan(g) & np.isnan(w)))
        else:
            bad = ~((np.abs(g - w) <= tol) | (g == w) | (np.isnan(g) & np.isnan(w)))
        if bad.any():
            pos = np.argwhere(bad)[:3]
            ex = [f'{tuple(int(v) for v in p)}: got {g[tuple(p)]!r} want {w[tuple(p)]!r}' for p in pos]
            self.fail(key, f'{msg}: {int(bad.sum())}/{bad.size} differ; ' + '; '.join(ex))
            return False
        return True


def through_repo(exc):
    """True when the exception went through the code under test."""
    from .env import SRC
    e = exc
    while e is not None:
        for fr in traceback.extract_tb(e.__traceback__):
            if fr.filename.startswith(SRC):
                return True
        if SRC in str(e):
            return True
        e = e.__cause__ or e.__context__
    return False


def result_json(ctx):
    return json.dumps({'idx': ctx.idx, 'evaluations': ctx.evaluations, 'counters': ctx.counters, 'distinct': sorted(ctx.distinct),
                       'violations': ctx.violations, 'sample': ctx.sample, 'log': ctx.log if ctx.violations else []})
