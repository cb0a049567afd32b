"""Random draws of the code under check, put under the explorer's control.

Installed before eckity is imported, so `from random import x`, `random.x`,
`np.random.x` and `random.Random()` all pass through here.  When no explorer
is active the draws are the ordinary seeded ones.
"""
import contextlib
import math
import operator
import random as _r

_Orig = _r.Random

ALPHABET = {
    # outcomes of random()
    "random": (0.0, 0.4, 0.999999),
    # outcomes of uniform(a, b): a + f*(b-a)
    "uniform": (0.0, 0.5, 1.0),
    # outcomes of gauss(mu, sigma): mu + z*sigma
    "gauss": (0.0, 1.0, -1.0),
    # largest integer range enumerated completely
    "int_full": 8,
}


class _State:
    ch = None
    alpha = ALPHABET
    log = None


S = _State()


@contextlib.contextmanager
def controlled(ch, alphabet=None):
    old = (S.ch, S.alpha, S.log)
    a = dict(ALPHABET)
    a.update(alphabet or {})
    S.ch, S.alpha, S.log = ch, a, []
    try:
        yield
    finally:
        S.ch, S.alpha, S.log = old


@contextlib.contextmanager
def uncontrolled():
    old = S.ch
    S.ch = None
    try:
        yield
    finally:
        S.ch = old


def _int(lo, hi, label):
    """an integer of [lo, hi]"""
    n = hi - lo + 1
    if n <= 0:
        raise ValueError("empty range for randrange() (%d, %d)" % (lo, hi + 1))
    if n <= S.alpha["int_full"]:
        return lo + S.ch.choose(n, label)
    opts = sorted({lo, lo + 1, lo + n // 2, hi - 1, hi})
    return S.ch.pick(opts, label)


class MCRandom(_Orig):
    def random(self):
        if S.ch is None:
            return super().random()
        return S.ch.pick(S.alpha["random"], "random")

    def getrandbits(self, k):
        if S.ch is None:
            return super().getrandbits(k)
        return _int(0, (1 << k) - 1, "getrandbits")

    def _randbelow(self, n):
        if S.ch is None:
            return _Orig._randbelow_with_getrandbits(self, n)
        return _int(0, n - 1, "randbelow")

    def seed(self, *a, **k):
        if S.ch is None:
            return super().seed(*a, **k)
        return None

    def uniform(self, a, b):
        if S.ch is None:
            return super().uniform(a, b)
        f = S.ch.pick(S.alpha["uniform"], "uniform")
        return a if f == 0 else b if f == 1 else a + (b - a) * f

    def gauss(self, mu=0.0, sigma=1.0):
        if S.ch is None:
            return super().gauss(mu, sigma)
        return mu + S.ch.pick(S.alpha["gauss"], "gauss") * sigma

    def normalvariate(self, mu=0.0, sigma=1.0):
        if S.ch is None:
            return super().normalvariate(mu, sigma)
        return mu + S.ch.pick(S.alpha["gauss"], "gauss") * sigma

    def randint(self, a, b):
        if S.ch is None:
            return super().randint(a, b)
        return _int(operator.index(a), operator.index(b), "randint")

    def choice(self, seq):
        if S.ch is None:
            return super().choice(seq)
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[S.ch.choose(len(seq), "choice")]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if S.ch is None:
            return super().choices(population, weights, cum_weights=cum_weights, k=k)
        pop = list(population)
        idx = list(range(len(pop)))
        if weights is not None:
            idx = [i for i in idx if weights[i] > 0]
        elif cum_weights is not None:
            idx = [i for i in idx if cum_weights[i] > (cum_weights[i - 1] if i else 0)]
        pr = None
        if weights is not None or cum_weights is not None:
            w = list(weights) if weights is not None else [
                c - (cum_weights[i - 1] if i else 0) for i, c in enumerate(cum_weights)]
            t = float(sum(w))
            pr = [w[i] / t for i in idx]
        return [pop[idx[S.ch.choose(len(idx), "choices", pr)]] for _ in range(k)]

    def sample(self, population, k, *, counts=None):
        if S.ch is None or counts is not None:
            return super().sample(population, k, counts=counts)
        pool = list(population)
        if not 0 <= k <= len(pool):
            raise ValueError("Sample larger than population or is negative")
        out = []
        for _ in range(k):
            out.append(pool.pop(S.ch.choose(len(pool), "sample")))
        return out

    def shuffle(self, x):
        if S.ch is None:
            return super().shuffle(x)
        for i in range(len(x) - 1, 0, -1):
            j = i - S.ch.choose(i + 1, "shuffle")
            x[i], x[j] = x[j], x[i]


_NAMES = ("random getrandbits uniform gauss normalvariate randint randrange choice "
          "choices sample shuffle triangular seed getstate setstate betavariate "
          "expovariate gammavariate lognormvariate vonmisesvariate "
          "paretovariate weibullvariate randbytes").split()


def install():
    if getattr(_r, "_mc_installed", False):
        return
    inst = MCRandom()
    for n in _NAMES:
        if hasattr(inst, n):
            setattr(_r, n, getattr(inst, n))
    _r._inst = inst
    _r.Random = MCRandom
    _r._mc_installed = True
    import numpy as np
    o = {n: getattr(np.random, n) for n in
         "choice random rand random_sample uniform normal randint permutation shuffle seed randn".split()}

    def fill(size, draw):
        if size is None:
            return draw()
        a = np.empty(size, dtype=float)
        for i in np.ndindex(a.shape):
            a[i] = draw()
        return a

    def rnd():
        return S.ch.pick(S.alpha["random"], "np.random")

    def choice(a, size=None, replace=True, p=None):
        if S.ch is None:
            return o["choice"](a, size=size, replace=replace, p=p)
        n = int(a) if np.ndim(a) == 0 else len(a)
        if p is not None:
            pp = np.asarray(p, dtype=float)
            if len(pp) != n:
                raise ValueError("'a' and 'p' must have same size")
            if np.any(pp < 0) or np.any(np.isnan(pp)):
                raise ValueError("probabilities are not non-negative")
            if abs(pp.sum() - 1) > 1e-8:
                raise ValueError("probabilities do not sum to 1")
            idx = [i for i in range(n) if pp[i] > 0]
        else:
            idx = list(range(n))
        S.log.append(("np.choice", None if p is None else [float(x) for x in p]))

        def one():
            pr = None
            if p is not None and replace:
                pr = [float(pp[i]) for i in idx]
            j = S.ch.choose(len(idx), "np.choice", pr)
            return idx[j] if replace else idx.pop(j)
        if size is None:
            i = one()
            return i if np.ndim(a) == 0 else a[i]
        shape = (size,) if np.ndim(size) == 0 else tuple(size)
        total = int(np.prod(shape))
        got = [one() for _ in range(total)]
        if np.ndim(a) == 0:
            return np.array(got, dtype=int).reshape(shape)
        out = np.empty(total, dtype=object if not isinstance(a, np.ndarray) else a.dtype)
        for k, i in enumerate(got):
            out[k] = a[i]
        return out.reshape(shape)

    def wrap(name, fn):
        def w(*a, **k):
            if S.ch is None:
                return o[name](*a, **k)
            return fn(*a, **k)
        w.__name__ = name
        setattr(np.random, name, w)

    np.random.choice = choice
    wrap("random", lambda size=None: fill(size, rnd))
    wrap("random_sample", lambda size=None: fill(size, rnd))
    wrap("rand", lambda *d: fill(d if d else None, rnd))
    wrap("uniform", lambda low=0.0, high=1.0, size=None: fill(
        size, lambda: low + (high - low) * S.ch.pick(S.alpha["uniform"], "np.uniform")))
    wrap("normal", lambda loc=0.0, scale=1.0, size=None: fill(
        size, lambda: loc + scale * S.ch.pick(S.alpha["gauss"], "np.normal")))
    wrap("randn", lambda *d: fill(d if d else None, lambda: S.ch.pick(S.alpha["gauss"], "np.randn")))

    def randint(low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        if size is None:
            return _int(int(lo), int(hi) - 1, "np.randint")
        return fill(size, lambda: _int(int(lo), int(hi) - 1, "np.randint")).astype(dtype)
    wrap("randint", randint)

    def shuffle(x):
        for i in range(len(x) - 1, 0, -1):
            j = i - S.ch.choose(i + 1, "np.shuffle")
            if i != j:
                t = x[i].copy() if hasattr(x[i], "copy") else x[i]
                x[i] = x[j]
                x[j] = t
    wrap("shuffle", shuffle)

    def permutation(x):
        a = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        shuffle(a)
        return a
    wrap("permutation", permutation)
    wrap("seed", lambda *a, **k: None)
