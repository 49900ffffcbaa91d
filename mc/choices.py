"""Exhaustive exploration of random choices: the pseudo-random sources of Python and numpy become a choice tree.

`install()` must run before pm4py is imported.  Inside `explore`, every draw asks the explorer for an index; the
explorer enumerates all index sequences (depth-first), cutting runs that draw more than `depth` times.
Draws from [0,1) are resolved to the midpoints of `grid` equal slices.
"""
import random, itertools

_cur = None          # active chooser


class Cut(BaseException):
    """run exceeds the choice bound"""


class Chooser:
    def __init__(self, prefix, depth, grid, cont):
        self.prefix, self.depth, self.grid, self.cont = prefix, depth, grid, cont
        self.taken, self.width, self.forced = [], [], 0

    def pick(self, n):
        if n <= 1:
            self.forced += 1
            if self.forced > 100:
                raise Cut()
            return 0
        i = len(self.taken)
        if i >= self.depth:
            raise Cut()
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append(c)
        self.width.append(n)
        return c

    def unit(self):
        return (self.pick(self.grid) + 0.5) / self.grid


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    inst = random._inst
    real_below, real_random = inst._randbelow, inst.random

    def below(n):
        return _cur.pick(n) if _cur is not None else real_below(n)

    def rnd():
        return _cur.unit() if _cur is not None else real_random()
    inst._randbelow = below
    inst.random = rnd
    random.random = rnd
    import numpy.random as nr
    real_choice, real_exp = nr.choice, nr.exponential

    def choice(a, size=None, replace=True, p=None):
        if _cur is None:
            return real_choice(a, size, replace, p)
        xs = list(range(a)) if isinstance(a, int) else list(a)
        idx = [i for i in range(len(xs)) if p is None or p[i] > 0]
        if p is not None and abs(sum(p) - 1) > 1e-8:
            raise ValueError("probabilities do not sum to 1")
        if size is None:
            return xs[idx[_cur.pick(len(idx))]]
        n = size if isinstance(size, int) else size[0]
        out = []
        for _ in range(n):
            j = _cur.pick(len(idx))
            out.append(xs[idx[j]])
            if not replace:
                idx = idx[:j] + idx[j + 1:]
        return out

    def exponential(scale=1.0, size=None):
        if _cur is None or size is not None:
            return real_exp(scale, size)
        return scale * (_cur.pick(_cur.cont) + 0.5) if _cur.cont > 1 else scale
    nr.choice = choice
    nr.exponential = exponential
    for nm in ("random", "rand", "random_sample", "sample", "ranf"):
        if hasattr(nr, nm):
            def mk(real):
                def f(*a, **k):
                    return _cur.unit() if _cur is not None and not a and not k else real(*a, **k)
                return f
            setattr(nr, nm, mk(getattr(nr, nm)))

    def mkint(real):
        def f(low, high=None, size=None, dtype=int):
            if _cur is None or size is not None:
                return real(low, high, size, dtype)
            lo, hi = (0, low) if high is None else (low, high)
            return lo + _cur.pick(hi - lo)
        return f
    nr.randint = mkint(nr.randint)
    real_shuf, real_perm = nr.shuffle, nr.permutation

    def shuffle(x):
        if _cur is None:
            return real_shuf(x)
        for i in reversed(range(1, len(x))):
            j = _cur.pick(i + 1)
            x[i], x[j] = x[j], x[i]

    def permutation(x):
        if _cur is None:
            return real_perm(x)
        l = list(range(x)) if isinstance(x, int) else list(x)
        shuffle(l)
        return l
    nr.shuffle, nr.permutation = shuffle, permutation


def explore(run, depth, grid=2, limit=None, cont=1):
    """yield (result, choices, cut) for every choice sequence; run() is executed afresh each time"""
    global _cur
    prefix, n = [], 0
    while True:
        ch = Chooser(prefix, depth, grid, cont)
        _cur = ch
        cut = False
        res = None
        try:
            res = run()
        except Cut:
            cut = True
        finally:
            _cur = None
        n += 1
        yield res, list(ch.taken), cut
        taken, width = ch.taken, ch.width
        while taken and taken[-1] + 1 >= width[len(taken) - 1]:
            taken.pop()
        if not taken:
            return
        prefix = taken[:-1] + [taken[-1] + 1]
        if limit is not None and n >= limit:
            yield None, None, "limit"
            return
