"""Randomness as an input: while a program runs, every draw from the standard library's generators
comes from a provider (fresh solver variables, or the recorded values of a counterexample)."""
import random

PROVIDER = None
BIGINT = (-2 ** 63, 2 ** 63 - 1)
WIDE = 2 ** 32


class Drawn(int):
    """an integer that came from a provider"""


def chosen(v):
    return type(v).__name__ == 'SymVal' or isinstance(v, Drawn)


def install():
    """before anything imports names from random"""
    def patch(cls):
        randint, randrange, getrandbits, seed, setstate = cls.randint, cls.randrange, cls.getrandbits, cls.seed, cls.setstate

        def open_(self):
            """not a generator that was put into a known state"""
            return PROVIDER is not None and not getattr(self, 'settled', False)

        def new_randint(self, a, b):
            return PROVIDER.draw(a, b) if open_(self) else randint(self, a, b)

        def new_randrange(self, start, stop=None, step=1):
            if step == 1 and open_(self):
                return PROVIDER.draw(0, start - 1) if stop is None else PROVIDER.draw(start, stop - 1)
            return randrange(self, start, stop, step) if stop is not None else randrange(self, start)

        def new_getrandbits(self, k):
            return PROVIDER.draw(0, 2 ** k - 1) if open_(self) else getrandbits(self, k)

        def new_seed(self, a=None, version=2):
            self.settled = a is not None and not chosen(a)
            seed(self, None if chosen(a) else a, version)

        def new_setstate(self, state):
            self.settled = True
            setstate(self, state)
        cls.randint, cls.randrange, cls.getrandbits = new_randint, new_randrange, new_getrandbits
        if cls is random.Random:
            cls.seed, cls.setstate = new_seed, new_setstate
    patch(random.Random)
    patch(random.SystemRandom)
    for name in ('randint', 'randrange', 'getrandbits', 'seed', 'setstate'):
        setattr(random, name, getattr(random._inst, name))


class SymDraws(object):
    """fresh variables"""

    def __init__(self, path):
        from .terms import z3
        self.z3 = z3
        self.path = path
        self.draws = []
        self.avoid = None           # () -> terms fresh draws are assumed to differ from

    def draw(self, lo, hi):
        from .explore import SymVal
        v = self.z3.Int('draw%d' % len(self.draws))
        self.path.assume(self.z3.And(v >= lo, v <= hi))
        if self.avoid is not None:
            for t in self.avoid() + [d[0] for d in self.draws]:
                self.path.assume(v != t)
        self.draws.append((v, lo, hi))
        return SymVal(v)

    def fresh(self, key, since):
        """the key is an injective function of one wide draw made since then"""
        from .terms import _num, Not, And
        from .explore import check
        if _num(key):
            return False
        pairs = [(v, self.z3.Int(str(v) + "'")) for v, lo, hi in self.draws[since:]]
        other = self.z3.substitute(key, *pairs)
        if not pairs or other.eq(key):
            return False
        for (v, w), (_, lo, hi) in zip(pairs, self.draws[since:]):
            if hi - lo + 1 >= WIDE and not check(self.path.solver, And(w >= lo, w <= hi, key == other, v != w)):
                return True
        return False


class Recorded(object):
    """values of a counterexample; other=True differs from them in every draw"""

    def __init__(self, values, other=False):
        self.values, self.other = list(values), other
        self.draws = []

    def draw(self, lo, hi):
        i = len(self.draws)
        v = self.values[i] if i < len(self.values) else lo + 7 * i
        if not lo <= v <= hi:
            v = lo
        if self.other:
            v = lo + (v - lo + (hi - lo + 1) // 3 + 1) % (hi - lo + 1)
        self.draws.append((v, lo, hi))
        return Drawn(v)
