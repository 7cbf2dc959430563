"""Facades for numpy, scipy, random, math and time seen by the code under test
when it is executed symbolically."""
import cmath
import itertools
import math
import random as _random
import time as _time
import types
from fractions import Fraction as F

import numpy as np
import scipy
import scipy.linalg
import scipy.sparse
import scipy.stats

from . import poly as P
from .poly import Sym, SymBool, Unsupported
from . import rand as R
from . import symarr as A
from .symarr import SymArray, has_sym, to_sym, wrap

ENGINE = {'e': None}        # current engine


def eng():
    return ENGINE['e']


def liftres(r):
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype.kind in 'fc' and r.ndim > 0:
            return to_sym(r)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(liftres(x) for x in r)
    return r


def wrapfn(real, name=None):
    def g(*a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            ov = A.FUNCS.get(real)
            if ov is not None:
                return ov(*a, **k)
            return A.function_(real, a, k)
        return liftres(real(*a, **k))
    g.__name__ = name or getattr(real, '__name__', 'fn')
    return g


EXACT_UFUNCS = {np.cos, np.sin, np.tan, np.exp, np.sqrt, np.conjugate}


def wrapufunc(real):
    class U:
        __name__ = real.__name__

        def __call__(self, *a, **k):
            if real in EXACT_UFUNCS and len(a) == 1 and not k:
                x = a[0]
                if isinstance(x, (int, float, complex, np.number)) and \
                        not isinstance(x, bool):
                    return A.ufunc_(real, '__call__', (Sym.of(x),), {})
            if any(has_sym(x) for x in a):
                return A.ufunc_(real, '__call__', a, dict(k))
            return liftres(real(*a, **k))

        def reduce(self, a, axis=0, **k):
            if has_sym(a):
                return A._reduce(real, A._coerce(a), {'axis': axis})
            return liftres(real.reduce(a, axis=axis, **k))

        def __getattr__(self, n):
            f = getattr(real, n)
            if callable(f):
                def h(*a, **k):
                    if any(has_sym(x) for x in a):
                        return A.ufunc_(real, n, a, dict(k))
                    return liftres(f(*a, **k))
                return h
            return f
    return U()


def np_array(x, dtype=None, copy=True, ndmin=0, subok=False, order=None,
             like=None):
    if has_sym(x):
        if isinstance(x, SymArray):
            r = x.copy() if copy else x
        elif isinstance(x, (Sym, SymBool)):
            r = to_sym(np.array([x, None], dtype=object)[:1]).reshape(())
        else:
            r = wrap(np.array(A._unwrap_lists(x), dtype=object))
        if dtype is not None and isinstance(r, SymArray):
            r = r.astype(dtype)
        return r
    kw = {'ndmin': ndmin}
    if dtype is not None:
        kw['dtype'] = dtype
    r = np.array(x, **kw)
    return liftres(r)


def np_asarray(x, dtype=None, **k):
    if isinstance(x, SymArray) and dtype is None:
        return x
    return np_array(x, dtype=dtype, copy=False)


# --------------------------------------------------------------------------
# randomness

class Rand:
    """numpy.random-like draws as symbolic values"""
    kind = 'np'

    def __init__(self, stream=None):
        self.stream = stream

    def eng(self):
        e = eng()
        e.fixed = self.stream or e.seeded.get(self.kind)
        return e

    def seed(self, seed=None, *a, **k):
        if ENGINE.get('e') is not None:
            eng().seeded[self.kind] = R.stream(seed)

    def random_sample(self, size=None):
        return self._u(size, 0, 1)
    random = ranf = sample = random_sample

    def rand(self, *shape):
        return self._u(shape if shape else None, 0, 1)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._u(size, low, high)

    def _u(self, size, lo, hi):
        def one():
            u = self.eng().uniform()
            if (isinstance(lo, int) and lo == 0 or lo == 0.0) and \
                    (not isinstance(hi, Sym) and hi == 1):
                return u
            return Sym.of(lo) + (Sym.of(hi) - Sym.of(lo)) * u
        if size is None:
            return one()
        sh = (size,) if isinstance(size, int) else tuple(size)
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            out[i] = one()
        return out.view(SymArray)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)
        if high <= low:
            raise ValueError('low >= high')
        return self._sized(size, lambda: low + self.eng().choose(high - low))

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, high + 1 if endpoint else high, size)

    def permuted(self, x, axis=None, out=None):
        return self.permutation(x)

    def _sized(self, size, one):
        if size is None:
            return one()
        sh = (size,) if isinstance(size, int) else tuple(size)
        out = np.empty(sh, dtype=int)
        for i in np.ndindex(*sh):
            out[i] = one()
        return out

    def choice(self, a, size=None, replace=True, p=None, axis=0,
               shuffle=True):
        if isinstance(a, (int, np.integer)) or isinstance(a, Sym):
            n = int(a)
            if n <= 0 and size != 0:
                raise ValueError(
                    'a must be a positive integer unless no samples are taken')
            arr = None
        else:
            arr = np_array(a)
            if isinstance(arr, np.ndarray) and arr.ndim != 1:
                raise ValueError('a must be 1-dimensional')
            n = len(arr)
            if n == 0:
                raise ValueError("'a' cannot be empty unless no samples are "
                                 "taken")
        if p is not None:
            ps = [Sym.of(e) for e in
                  (p.ravel() if isinstance(p, np.ndarray) else list(p))]
            if len(ps) != n:
                raise ValueError("'a' and 'p' must have same size")
            tot = Sym.of(0)
            for e in ps:
                if bool(e < 0):
                    raise ValueError('probabilities are not non-negative')
                tot = tot + e
            if not bool(A.close_formula(tot, 1, 0, 1.4e-8)):
                raise ValueError('probabilities do not sum to 1')
        else:
            ps = None
        if size is None:
            k, shape = 1, None
        elif isinstance(size, (int, np.integer)):
            k, shape = int(size), (int(size),)
        else:
            shape = tuple(int(s) for s in size)
            k = int(np.prod(shape))
        if not replace and k > n:
            raise ValueError("Cannot take a larger sample than population "
                             "when 'replace=False'")
        idx = []
        for _ in range(k):
            avail = [i for i in range(n) if replace or i not in idx]
            if ps is None:
                w = None
            else:
                w = [ps[i] for i in avail]
                if not replace and idx:
                    s = sum(w, Sym.of(0))
                    w = [x / s for x in w]
                if not replace and all(not x.p for x in w):
                    raise ValueError('Fewer non-zero entries in p than size')
            idx.append(avail[self.eng().choose(len(avail), w)])
        if shape is None:
            i = idx[0]
            return arr[i] if arr is not None else i
        ii = np.array(idx, dtype=int).reshape(shape)
        return arr[ii] if arr is not None else ii

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            x = np.arange(int(x))
        x = np_array(x)
        perm = self._perm(len(x))
        return x[np.array(perm, dtype=int)]

    def _perm(self, n):
        if self.eng().one_order:
            return list(range(1, n)) + list(range(min(n, 1)))
        rest = list(range(n))
        out = []
        while rest:
            i = self.eng().choose(len(rest)) if len(rest) > 1 else 0
            out.append(rest.pop(i))
        return out

    def shuffle(self, x, axis=0):
        perm = self._perm(len(x))
        ys = [x[i] for i in perm]
        for i, y in enumerate(ys):
            x[i] = y

    def normal(self, *a, **k):
        raise Unsupported('normal draw')
    randn = standard_normal = normal

    def default_rng(self, seed=None, *a, **k):
        s = R.stream(seed) if ENGINE.get('e') is not None else None
        return Rand(s) if s is not None else self

    RandomState = default_rng

    def get_state(self, *a, **k):
        return None

    def set_state(self, *a, **k):
        return None

    def __getattr__(self, n):
        raise Unsupported('np.random.' + n)


RAND = Rand()


class PyRandom(types.ModuleType):
    def __init__(self, stream=None):
        super().__init__('random')
        self.__dict__['stream'] = stream

    kind = 'py'
    eng = Rand.eng
    seed = Rand.seed

    def random(self):
        return self.eng().uniform()

    def uniform(self, a, b):
        return Sym.of(a) + (Sym.of(b) - Sym.of(a)) * self.eng().uniform()

    def randint(self, a, b):
        return int(a) + self.eng().choose(int(b) - int(a) + 1)

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return r[self.eng().choose(len(r))]

    def choice(self, seq):
        if not len(seq):
            raise IndexError('Cannot choose from an empty sequence')
        return seq[self.eng().choose(len(seq))]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        pop = list(population)
        w = None
        if cum_weights is not None:
            cum = [Sym.of(x) for x in cum_weights]
            weights = [y - x for x, y in zip([Sym.of(0)] + cum, cum)]
        if weights is not None:
            ws = [Sym.of(x) for x in weights]
            tot = sum(ws, Sym.of(0))
            w = [x / tot for x in ws]
        return [pop[self.eng().choose(len(pop), w)] for _ in range(k)]

    def sample(self, population, k, **kw):
        pop = list(population)
        if k > len(pop):
            raise ValueError('Sample larger than population')
        out = []
        for _ in range(k):
            out.append(pop.pop(self.eng().choose(len(pop))))
        return out

    _perm = Rand._perm
    shuffle = Rand.shuffle

    def Random(self, seed=None, *a):
        s = R.stream(seed) if ENGINE.get('e') is not None else None
        return PyRandom(s) if s is not None else self

    def SystemRandom(self, *a):
        return PyRandom()

    def __getattr__(self, n):
        raise Unsupported('random.' + n)


class TimeFacade(types.ModuleType):
    def __init__(self):
        super().__init__('time')

    def _t(self, *a):
        return eng().clock()
    perf_counter = time = monotonic = _t

    def process_time(self):
        raise Unsupported('processor time')
    thread_time = process_time

    def perf_counter_ns(self):
        raise Unsupported('integer clock')

    def sleep(self, x):
        return None

    def __getattr__(self, n):
        return getattr(_time, n)


class MathFacade(types.ModuleType):
    def __init__(self, real):
        super().__init__(real.__name__)
        self.__dict__['_r'] = real

    def __getattr__(self, n):
        real = getattr(self.__dict__['_r'], n)
        if not callable(real):
            return real
        m = {'sqrt': np.sqrt, 'cos': np.cos, 'sin': np.sin, 'exp': np.exp,
             'tan': np.tan, 'fabs': np.absolute, 'log': np.log,
             'log2': np.log2, 'expm1': np.expm1, 'hypot': np.hypot,
             'pow': np.power, 'atan2': np.arctan2, 'radians': np.radians,
             'degrees': np.degrees}.get(n)
        if m is not None:
            def g(*a):
                if any(has_sym(x) for x in a):
                    return A.ufunc_(m, '__call__', a, {})
                if m in EXACT_UFUNCS and len(a) == 1:
                    return A.ufunc_(m, '__call__', (Sym.of(a[0]),), {})
                return real(*a)
            return g
        if n in ('phase', 'polar', 'rect'):
            def g(*a):
                if not any(has_sym(x) for x in a):
                    return real(*a)
                if n == 'rect':
                    return Sym.of(a[0]) * P.exp_(P.imag_unit() * a[1])
                ph = P.angle_(a[0])
                return ph if n == 'phase' else (A.abs_full(Sym.of(a[0])), ph)
            return g
        if n in ('floor', 'ceil', 'trunc'):
            return real         # Sym defines the dunder methods
        if n == 'isclose':
            def g(a, b, *, rel_tol=1e-9, abs_tol=0.0):
                if has_sym(a) or has_sym(b):
                    a, b = Sym.of(a), Sym.of(b)
                    mx = A._mx(Sym.of(abs(a).p), Sym.of(abs(b).p))
                    bd = A._mx(Sym.of(rel_tol) * mx, Sym.of(abs_tol))
                    d = a - b
                    return SymBool(P.simp(('and', (('le', d - bd),
                                                   ('le', -d - bd)))))
                return real(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
            return g
        if n in ('isfinite', 'isnan', 'isinf'):
            def g(a):
                if has_sym(a):
                    return n == 'isfinite'
                return real(a)
            return g
        if n in ('fsum', 'prod'):
            def g(xs, **k):
                xs = list(xs)
                if has_sym(xs):
                    t = Sym.of(0 if n == 'fsum' else 1)
                    for x in xs:
                        t = t + x if n == 'fsum' else t * x
                    return t
                return real(xs, **k)
            return g

        def g(*a, **k):
            if any(has_sym(x) for x in a):
                raise Unsupported('math.' + n)
            return real(*a, **k)
        return g


# --------------------------------------------------------------------------
class NPLinalg(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.linalg')

    def __getattr__(self, n):
        real = getattr(np.linalg, n)
        if isinstance(real, type):
            return real

        def g(*a, **k):
            a = tuple(_up(x) for x in a)
            ov = A.FUNCS.get(real)
            if ov is not None:
                return ov(*a, **k)
            raise Unsupported('np.linalg.' + n)
        return g


def _up(x):
    if isinstance(x, np.ndarray) and x.dtype.kind in 'fci':
        return to_sym(x)
    if isinstance(x, (float, complex, np.floating, np.complexfloating)):
        return Sym.of(x)
    return x


class NPFacade(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        d = self.__dict__
        d['array'] = np_array
        d['asarray'] = np_asarray
        d['asanyarray'] = np_asarray
        d['ascontiguousarray'] = np_asarray
        d['random'] = RAND
        d['linalg'] = NPLinalg()

    def __getattr__(self, n):
        if n.startswith('__'):
            return getattr(np, n)
        real = getattr(np, n)
        if isinstance(real, np.ufunc):
            g = wrapufunc(real)
        elif isinstance(real, type) or isinstance(real, types.ModuleType):
            return real
        elif n == 'isscalar':
            def g(a):
                return isinstance(a, (Sym, SymBool)) or np.isscalar(a)
        elif callable(real):
            g = wrapfn(real, n)
        else:
            return real
        self.__dict__[n] = g
        return g


# --------------------------------------------------------------------------
class Sparse:
    """scipy.sparse stand-in: a dense matrix with sparse-matrix semantics"""
    __array_ufunc__ = None
    __array_priority__ = 1e7

    def __init__(self, dense, is_array=False, kind='csr'):
        self.m = dense if isinstance(dense, SymArray) else to_sym(dense)
        self.is_array = is_array
        self.format = kind

    shape = property(lambda s: s.m.shape)
    ndim = 2

    def _new(self, m):
        return Sparse(m, self.is_array, self.format)

    @property
    def T(self):
        return self._new(self.m.T.copy())

    def transpose(self, *a, **k):
        return self.T

    def conj(self, *a, **k):
        return self._new(self.m.conj())
    conjugate = conj

    def getH(self):
        return self._new(self.m.conj().T)
    H = property(getH)

    def tocsr(self, *a, **k):
        return self
    tocsc = tocoo = todia = tolil = tobsr = asformat = copy = tocsr

    def toarray(self, *a, **k):
        return self.m.copy()
    todense = toarray

    def astype(self, *a, **k):
        return self

    def _mat(self, o):
        if isinstance(o, Sparse):
            return self._new(A.matmul(self.m, o.m))
        return A.matmul(self.m, o)

    def __matmul__(self, o):
        if np.ndim(o if not isinstance(o, Sparse) else o.m) == 0:
            raise ValueError("Scalar operands are not allowed, use '*'")
        return self._mat(o)

    def dot(self, o):
        return self * o if not self.is_array else self._mat(o)

    def __rmatmul__(self, o):
        return A.matmul(o, self.m)

    def __mul__(self, o):
        if isinstance(o, (int, float, complex, Sym, np.number)):
            return self._new(self.m * o)
        if self.is_array:
            return self.multiply(o)
        return self._mat(o)

    def __rmul__(self, o):
        if isinstance(o, (int, float, complex, Sym, np.number)):
            return self._new(self.m * o)
        if self.is_array:
            return self.multiply(o)
        return A.matmul(o, self.m)

    def multiply(self, o):
        return self._new(self.m * (o.m if isinstance(o, Sparse) else o))

    def __add__(self, o):
        return self._new(self.m + o.m) if isinstance(o, Sparse) else self.m + o

    def __sub__(self, o):
        return self._new(self.m - o.m) if isinstance(o, Sparse) else self.m - o

    def __getitem__(self, i):
        r = self.m[i]
        return self._new(r) if isinstance(r, np.ndarray) and r.ndim == 2 else r

    def diagonal(self, *a):
        return np.diagonal(self.m)

    def trace(self):
        return A._trace(self.m)

    def __deepcopy__(self, memo):
        return self._new(self.m.copy())

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('sparse.' + n)


class SparseFacade(types.ModuleType):
    def __init__(self):
        super().__init__('scipy.sparse')

    def __getattr__(self, n):
        if n.startswith('__'):
            return getattr(scipy.sparse, n)
        real = getattr(scipy.sparse, n)
        if n in ('issparse', 'isspmatrix'):
            return lambda x: isinstance(x, Sparse)
        arr = n.endswith('_array')
        if n == 'kron':
            def g(a, b, format=None):
                a = a.m if isinstance(a, Sparse) else a
                b = b.m if isinstance(b, Sparse) else b
                return Sparse(A.kron(a, b))
            return g

        def g(*a, **k):
            if a and isinstance(a[0], Sparse):
                return Sparse(a[0].m, arr)
            if a and isinstance(a[0], SymArray):
                return Sparse(a[0], arr)
            if a and isinstance(a[0], tuple) and len(a[0]) == 2 and \
                    has_sym(a[0][0]):
                data, (r, c) = a[0]
                sh = k.get('shape') or (a[1] if len(a) > 1 else None)
                m = to_sym(np.zeros(sh))
                for x, i, j in zip(data, np.asarray(r), np.asarray(c)):
                    m[int(i), int(j)] = m[int(i), int(j)] + x
                return Sparse(m, arr)
            r = real(*a, **k)
            if scipy.sparse.issparse(r):
                return Sparse(r.toarray(), arr or isinstance(
                    r, scipy.sparse.sparray))
            return r
        return g


def _mono_gcd(p):
    """common real monomial factor (with even exponents) of a Poly"""
    g = None
    for m in p:
        r = dict(P.mono(m)[0])
        if g is None:
            g = r
        else:
            g = {v: min(e, r.get(v, 0)) for v, e in g.items() if r.get(v, 0)}
    return {v: e - (e % 2) for v, e in (g or {}).items() if e >= 2}


def _root_of(c):
    """r with r*r == c for a real non-negative-valued polynomial c"""
    if c.is_const():
        return Sym.of(math.sqrt(max(c.const_value().real, 0.0)))
    g = _mono_gcd(c.p)
    f = Sym.of(1)
    for v, e in g.items():
        x = Sym(P.dvar(P.REG.vars[v]))
        for _ in range(e // 2):
            f = f * x
    rest = c
    for v, e in g.items():
        rest = rest * Sym(P._finish(((v, -e),), (), F(0)))
    return f * P.sqrt_(rest)


def expm(M):
    M = to_sym(M)
    if M.ndim != 2 or M.shape[0] != M.shape[1]:
        raise ValueError('expected square matrix')
    n = M.shape[0]
    p = M.view(np.ndarray)
    if all(Sym.of(e).is_const() for e in p.flat):
        m = np.array([Sym.of(e).const_value() for e in p.flat]).reshape(n, n)
        r = scipy.linalg.expm(m)
        out = np.empty((n, n), dtype=object)
        for i in np.ndindex(n, n):
            x = complex(r[i])
            re = 0.0 if abs(x.real) < 1e-15 else x.real
            im = 0.0 if abs(x.imag) < 1e-15 else x.imag
            out[i] = A.snap(complex(re, im)) if abs(abs(x) - 1) < 1e-13 \
                else Sym.of(complex(re, im))
        return out.view(SymArray)
    # connected components
    comp = list(range(n))

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    for i in range(n):
        for j in range(n):
            if Sym.of(p[i, j]).p:
                comp[find(i)] = find(j)
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    out = np.empty((n, n), dtype=object)
    for i in np.ndindex(n, n):
        out[i] = Sym({})
    trace_ok = True
    for g in groups.values():
        blk = p[np.ix_(g, g)]
        e = _expm_block(blk.view(SymArray))
        for a, i in enumerate(g):
            for b, j in enumerate(g):
                out[i, j] = e[a, b]
    r = out.view(SymArray)
    tr = Sym.of(0)
    for i in range(n):
        tr = tr + Sym.of(p[i, i])
    if trace_ok:
        A.set_det(r, P.exp_(tr))
    if all(not (Sym.of(p[i, j]) + Sym.of(p[j, i]).conjugate()).p
           for i in range(n) for j in range(i, n)):
        A.mark_unitary(r)       # exponential of an anti-Hermitian matrix
    return r


def _expm_block(M):
    n = M.shape[0]
    p = M.view(np.ndarray)
    if n == 1:
        return to_sym(np.array([[P.exp_(Sym.of(p[0, 0]))]], dtype=object))
    # M = mu*I + N with N^2 = -c I
    mu = Sym.of(0)
    for i in range(n):
        mu = mu + Sym.of(p[i, i])
    mu = mu * F(1, n)
    N = M - mu * to_sym(np.identity(n))
    factors, rest = P.common_factors([Sym.of(x) for x in N.flat])
    scale = Sym.of(1)
    if factors:
        for f in factors:
            scale = scale * f
        N = to_sym(np.array(rest + [None], dtype=object)[:-1].reshape(n, n))
    N2 = A.matmul(N, N)
    c = -Sym.of(N2[0, 0])
    scalar = c.is_real() and all(
        not (Sym.of(N2[i, j]) + (c if i == j else Sym.of(0))).p
        for i in range(n) for j in range(n))
    if scalar:
        r = _root_of(c)
        cosr, sinr = P.cos_(scale * r), P.sin_(scale * r)
        e = P.exp_(mu)
        idn = to_sym(np.identity(n))
        if not r.p:
            return (idn + scale * N) * e
        # sin(r)/r * N, entries of N usually share the factor r
        out = np.empty((n, n), dtype=object)
        for i in np.ndindex(n, n):
            x = Sym.of(N.view(np.ndarray)[i])
            if not x.p:
                y = Sym({})
            else:
                y = _divide(x, r) * sinr
            out[i] = ((cosr if i[0] == i[1] else Sym({})) + y) * e
        return out.view(SymArray)
    parts = commuting_parts(M)
    if len(parts) > 1:
        e = _expm_block(parts[0])
        for x in parts[1:]:
            e = A.matmul(e, _expm_block(x))
        return e
    return opaque_expm(M)


_PAULI = (((1, 0), (0, 1)), ((0, 1), (1, 0)), ((0, -1j), (1j, 0)),
          ((1, 0), (0, -1)))


def commuting_parts(M):
    """M as a sum of matrices that commute with each other, found from its
    expansion in products of Pauli matrices: products that anticommute,
    directly or in a chain, belong to the same part"""
    n = M.shape[0]
    k = n.bit_length() - 1
    if n != 1 << k or k > 3:
        return [M]
    p = M.view(np.ndarray)
    found = []
    for word in itertools.product(range(4), repeat=k):
        w = np.identity(1)
        for x in word:
            w = np.kron(w, np.array(_PAULI[x]))
        c = Sym.of(0)
        for i, j in zip(*np.nonzero(w)):
            c = c + Sym.of(p[j, i]) * Sym.of(complex(w[i, j]))
        c = c * F(1, n)
        if c.p:
            found.append((word, c, w))
    group = list(range(len(found)))

    def find(x):
        while group[x] != x:
            x = group[x]
        return x
    for i, (a, _, _w) in enumerate(found):
        for j, (b, _, _w) in enumerate(found[:i]):
            if sum(x and y and x != y for x, y in zip(a, b)) % 2:
                group[find(i)] = find(j)
    out = {}
    for i, (word, c, w) in enumerate(found):
        m = to_sym(w) * c
        g = find(i)
        out[g] = out[g] + m if g in out else m
    return list(out.values())


def _divide(x, r):
    """x / r for r a monomial times constant when possible; r == 0 is the
    removable singularity (the quotient's limit is what expm returns)"""
    if len(r.p) == 1:
        (m, c), = r.p.items()
        reals, ph, pi = P.mono(m)
        if not ph and pi == 0:
            out = {}
            for m2, c2 in x.p.items():
                r2, ph2, pi2 = P.mono(m2)
                for k, cc in P._finish(
                        P._merge(r2, tuple((v, -e) for v, e in reals)),
                        ph2, pi2, F(c2) / F(c)).items():
                    out[k] = out.get(k, 0) + cc
            return Sym({k: v for k, v in out.items() if v != 0})
    if r.is_const():
        return x * (1 / r.const_value().real)
    return x / r


def opaque_expm(M):
    n = M.shape[0]
    flat = [Sym.of(e) for e in M.flat]
    sign = 1
    for e in flat:
        if e.p:
            lead = e.p[min(e.p)]
            if lead < 0:
                sign = -1
            break
    nf = [e * sign for e in flat]
    key = tuple(P.key_of(e.p) for e in nf)
    anti = all(not (nf[i * n + j] + nf[j * n + i].conjugate()).p
               for i in range(n) for j in range(n))
    if not anti:
        raise Unsupported('expm of a non anti-Hermitian symbolic matrix')

    def ev(env):
        k = ('expm', key)
        r = env.get(k)
        if r is None:
            m = np.array([e.eval(env) for e in nf]).reshape(n, n)
            r = scipy.linalg.expm(m)
            env[k] = r
        return r
    U = opaque_unitary('expm', ('expm', key), n, ev)
    P.REG.assumptions.add('scipy.linalg.expm of an anti-Hermitian matrix '
                          'without closed form is an arbitrary unitary matrix '
                          'determined by its argument, expm(-A)=expm(A)^dagger')
    return U if sign == 1 else U.conj().T.copy()


_UNI = {}


def opaque_unitary(prefix, key, n, ev=None, kind='defined', lo=-1, hi=1):
    """n x n unitary of free entries with unitarity side constraints"""
    k = (prefix, key)
    if k in _UNI:
        return _UNI[k].copy()
    out = np.empty((n, n), dtype=object)
    vs = []
    for i in range(n):
        for j in range(n):
            pair = []
            for part in ('re', 'im'):
                nm = '%s_%d%d%s' % (prefix, i, j, part) if kind != 'defined' \
                    else '%s%d_%d%d%s' % (prefix, len(_UNI), i, j, part)
                v = P.REG.new(nm, F(lo), F(hi), kind=kind)
                if ev is not None:
                    v.evalfn = (lambda env, i=i, j=j, part=part:
                                ev(env)[i, j].real if part == 're'
                                else ev(env)[i, j].imag)
                pair.append(v)
                vs.append(v)
            out[i, j] = Sym(P.dvar(pair[0])) + \
                P.imag_unit() * Sym(P.dvar(pair[1]))
    U = out.view(SymArray)
    fs = []
    for W in (A.matmul(U, U.conj().T), A.matmul(U.conj().T, U)):
        for i in range(n):
            for j in range(i, n):
                e = W[i, j] - (1 if i == j else 0)
                fs.append(('eq', e.real))
                if i != j:
                    fs.append(('eq', e.imag))
    for v in vs:
        v.side = list(fs)
    vs[0].side = list(fs)
    _UNI[k] = U
    for W in (U, U.T, U.conj(), U.conj().T):
        A.mark_unitary(W)
    return U.copy()


def reset():
    _UNI.clear()
    A.reset()


class UnitaryGroup:
    def rvs(self, dim, size=1, random_state=None):
        if size != 1:
            raise Unsupported('rvs size')
        dim = int(dim)
        e = eng()
        stream = e.seeded.get('np')
        if random_state is not None and random_state is not NP.random:
            stream = getattr(random_state, 'stream', None) if not isinstance(
                random_state, (int, np.integer)) else R.stream(random_state)
            if isinstance(random_state, (int, np.integer)):
                return A.to_sym(e.constant_haar(dim, int(random_state)))
        if stream is not None:
            return A.to_sym(e.constant_haar(dim, int(stream.random() * 2**31)))
        return e.haar(dim)

    def __call__(self, dim=None, seed=None):
        ug = self

        class Fz:
            def rvs(self, size=1, random_state=None):
                return ug.rvs(dim, size)
        return Fz()


class SciStats(types.ModuleType):
    unitary_group = UnitaryGroup()

    def __init__(self):
        super().__init__('scipy.stats')

    def __getattr__(self, n):
        raise Unsupported('scipy.stats.' + n)


class SciLinalg(types.ModuleType):
    def __init__(self):
        super().__init__('scipy.linalg')

    def __getattr__(self, n):
        if n == 'expm':
            return lambda M: expm(M)
        m = getattr(np.linalg, n, None)
        if m is not None and m in A.FUNCS:
            return lambda *a, **k: A.FUNCS[m](*(_up(x) for x in a), **{
                kk: v for kk, v in k.items()
                if kk not in ('check_finite', 'overwrite_a')})
        raise Unsupported('scipy.linalg.' + n)


class Scipy(types.ModuleType):
    def __init__(self):
        super().__init__('scipy')
        self.stats = SciStats()
        self.sparse = SparseFacade()
        self.linalg = SciLinalg()

    def __getattr__(self, n):
        if n.startswith('__'):
            return getattr(scipy, n)
        raise Unsupported('scipy.' + n)


NP = NPFacade()
SP = Scipy()
MODULES = {
    'numpy': NP, 'numpy.random': RAND, 'numpy.linalg': NP.linalg,
    'scipy': SP, 'scipy.stats': SP.stats, 'scipy.sparse': SP.sparse,
    'scipy.linalg': SP.linalg, 'random': PyRandom(), 'time': TimeFacade(),
    'math': MathFacade(math), 'cmath': MathFacade(cmath),
}


# --------------------------------------------------------------------------
# replacements for builtin calls (the loader rewrites the call sites)

def b_isinstance(x, t):
    if isinstance(x, t):
        return True
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for y in ts:
        flat.extend(y if isinstance(y, tuple) else (y,))
    if isinstance(x, Sym):
        import numbers
        if x.is_real() and any(y in (float, np.floating, np.float64,
                                     np.number, np.inexact, numbers.Real,
                                     numbers.Number, numbers.Complex)
                               for y in flat):
            return True
        if not x.is_real() and any(
                y in (complex, np.complexfloating, np.complex128, np.number,
                      np.inexact, numbers.Number, numbers.Complex)
                for y in flat):
            return True
        if x.is_real() and eng_is_int(x) and int in flat:
            return True
    if isinstance(x, SymBool) and any(y in (bool, np.bool_) for y in flat):
        return True
    if isinstance(x, Sparse) and any(
            getattr(y, '__module__', '').startswith('scipy.sparse')
            for y in flat):
        return True
    return False


def eng_is_int(x):
    if len(x.p) == 1:
        (m, c), = x.p.items()
        reals, ph, pi = P.mono(m)
        return not ph and pi == 0 and c == 1 and len(reals) == 1 and \
            reals[0][1] == 1 and P.REG.vars[reals[0][0]].is_int
    return False


def b_float(*a):
    if a and isinstance(a[0], Sym):
        if not a[0].is_real():
            raise TypeError("can't convert complex to float")
        return Sym(a[0].p)
    if a and isinstance(a[0], SymBool):
        return float(bool(a[0]))
    if a and isinstance(a[0], SymArray) and a[0].size == 1:
        return b_float(a[0].item())
    return float(*a)


def b_int(*a):
    if a and isinstance(a[0], Sym):
        x = P.trunc_(a[0])
        return int(x) if not isinstance(x, Sym) or x.is_const() else x
    return int(*a)


def b_complex(*a):
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            return a[0]
        return Sym.of(a[0]) + P.imag_unit() * Sym.of(a[1])
    return complex(*a)


def b_bool(*a):
    return bool(*a)


def b_range(*a):
    return range(*[int(x.__index__()) if isinstance(x, Sym) else x for x in a])


BUILTINS = {'isinstance': b_isinstance, 'float': b_float, 'int': b_int,
            'complex': b_complex, 'bool': b_bool, 'range': b_range}
