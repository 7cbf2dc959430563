"""Stand-ins for the random functions of numpy.random and random that the
untouched code is loaded with.  They pass each call on to whatever is active
(scripted draws, counted draws) or to the real function, so that functions and
generators the code obtained while it was being imported are covered too."""
import random
import numpy as np

ACTIVE = [None]         # object with call(module name, function, real, a, k)
GENUINE = [False]       # generators made by the code draw by themselves
PyRandom = random.Random

NP_NAMES = ('random_sample', 'rand', 'uniform', 'randint', 'choice',
            'permutation', 'shuffle', 'random', 'ranf', 'sample', 'seed',
            'normal', 'standard_normal', 'randn')
PY_NAMES = ('random', 'uniform', 'randint', 'randrange', 'choice', 'choices',
            'sample', 'shuffle', 'seed')
REAL = {('np', n): getattr(np.random, n) for n in NP_NAMES}
REAL.update({('py', n): getattr(random, n) for n in PY_NAMES})
CLASSES = [(np.random, 'default_rng'), (np.random, 'RandomState'),
           (random, 'Random'), (random, 'SystemRandom')]
REAL_CLASS = {(o, n): getattr(o, n) for o, n in CLASSES}


def stream(seed):
    """the draws of a generator with a fixed seed; None if they are free"""
    if isinstance(seed, (int, float, np.integer)) and not isinstance(
            seed, bool):
        return PyRandom(int(seed))
    return None


def free_state(rs):
    """random_state of a scipy distribution: generator made by the code, or
    what was given"""
    if isinstance(rs, (NpGen, PyGen)):
        return None if rs.stream is None else rs.real
    return rs


def pick(u, weights, less):
    """index drawn with the given weights by the fixed draw u"""
    tot = 0
    for i, w in enumerate(weights[:-1]):
        tot = tot + w
        if less(u, tot):
            return i
    return len(weights) - 1


def stand_in(kind, n, gen=None):
    real = REAL[kind, n]
    if gen is not None and gen.stream is not None:
        real = getattr(gen.real, n)

    def f(*a, **k):
        if ACTIVE[0] is None:
            return real(*a, **k)
        return ACTIVE[0].call(kind, n, real, a, k,
                              None if gen is None else gen.stream)
    f.__name__ = f.__qualname__ = n
    f.__doc__ = real.__doc__
    return f


FUN = {key: stand_in(*key) for key in REAL}


class NpGen:
    """a numpy generator made by the code"""
    kind = 'np'

    def __init__(self, seed=None, *a, **k):
        # generators made while the code is imported count as free
        self.stream = stream(seed) if ACTIVE[0] is not None else None
        if GENUINE[0]:
            self.stream = 'genuine'
            self.real = REAL_CLASS[np.random, 'RandomState'](seed)
        elif self.stream is not None:
            self.real = REAL_CLASS[np.random, 'RandomState'](int(seed))

    def fun(self, n):
        return stand_in(self.kind, n, self)

    def random(self, size=None, *a, **k):
        return self.fun('random_sample')(size)

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.fun('randint')(low, high + 1 if endpoint else high, size)

    def choice(self, a, size=None, replace=True, p=None, axis=0,
               shuffle=True):
        return self.fun('choice')(a, size, replace, p)

    def permuted(self, x, axis=None, out=None):
        return self.fun('permutation')(x)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self.fun(n) if (self.kind, n) in REAL else \
            getattr(np.random, n)


class PyGen:
    kind = 'py'

    def __init__(self, seed=None, *a):
        self.stream = stream(seed) if ACTIVE[0] is not None else None
        if GENUINE[0]:
            self.stream, self.real = 'genuine', PyRandom(seed)
        elif self.stream is not None:
            self.real = PyRandom(int(seed))
    fun = NpGen.fun

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self.fun(n) if (self.kind, n) in REAL else getattr(random, n)


class Installed:
    """within it the stand-ins are what the modules offer"""

    def __enter__(self):
        self.saved = []

        def put(o, n, v):
            self.saved.append((o, n, getattr(o, n)))
            setattr(o, n, v)
        for kind, o in (('np', np.random), ('py', random)):
            for k, n in FUN:
                if k == kind:
                    put(o, n, FUN[k, n])
        put(np.random, 'default_rng', NpGen)
        put(np.random, 'RandomState', NpGen)
        put(random, 'Random', PyGen)
        put(random, 'SystemRandom', PyGen)
        return self

    def __exit__(self, *a):
        for o, n, v in reversed(self.saved):
            setattr(o, n, v)
