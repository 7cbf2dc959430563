"""Exact symbolic numbers.

A Sym is a finite sum   sum_j q_j * R_j * exp(i*A_j)   with rational q_j, R_j a
Laurent monomial in real variables and A_j a rational linear combination of
"angle atoms" (monomials in real variables) and of pi.  This is closed under
+, -, *, conjugation, cos, sin and exp(i.), and equality of such sums is
syntactic up to cyclotomic relations, so most algebraic identities of the code
under test collapse; everything that is left is decided by the SMT solver
(see solver.py).  Whatever is not expressible (roots, quotients, norms, real
exponentials, eigen-/singular values, matrix exponentials) becomes a *defined*
variable keyed by its argument and carrying side constraints.
"""
import math
import cmath
import itertools
from fractions import Fraction as F


class Unsupported(BaseException):
    """The engine cannot encode what the code under test just did.

    BaseException on purpose: the code under test must not swallow it."""


MAX_TERMS = 60000

# --------------------------------------------------------------------------
# variables


class Var:
    __slots__ = ('id', 'name', 'lo', 'hi', 'is_int', 'square', 'side',
                 'evalfn', 'kind', 'nonzero', 'cobound', 'declared', 'soft')

    def __init__(self, id, name, lo=None, hi=None, is_int=False, kind='input'):
        self.id = id
        self.name = name
        self.lo = lo
        self.hi = hi
        self.is_int = is_int
        self.square = None      # Poly dict: var**2 rewrites to this
        self.side = []          # side constraints (formulas)
        self.evalfn = None      # env -> float, for defined variables
        self.kind = kind        # input | draw | defined
        self.nonzero = False
        self.cobound = None
        self.soft = False       # a rounded value


class Registry:
    def __init__(self):
        self.vars = []
        self.by_name = {}
        self.keyed = {}
        self.inverse_of = {}    # id of a reciprocal: its denominator
        self.assumptions = set()
        self.new('pi', F('3.14159265358979'), F('3.14159265358980'))
        self.vars[0].evalfn = lambda env: math.pi
        self.vars[0].kind = 'const'
        self.vars[0].nonzero = True

    def new(self, name, lo=None, hi=None, is_int=False, kind='input'):
        base = name
        n = 1
        while name in self.by_name:
            n += 1
            name = base + '#' + str(n)
        v = Var(len(self.vars), name, lo, hi, is_int, kind)
        self.vars.append(v)
        self.by_name[name] = v
        return v


REG = Registry()
PI_ID = 0

_mono_ids = {}
_monos = []
_mul_cache = {}
_conj_cache = {}


def reset():
    global REG
    REG = Registry()
    _mono_ids.clear()
    _monos.clear()
    _mul_cache.clear()
    _conj_cache.clear()
    _exp_cache.clear()
    ROOTS.clear()
    ANGLES.clear()
    _exp_args.clear()
    global ONE_M
    ONE_M = _intern(((), (), F(0)))


def _intern(m):
    i = _mono_ids.get(m)
    if i is None:
        i = len(_monos)
        _mono_ids[m] = i
        _monos.append(m)
    return i


def mono(i):
    return _monos[i]


def _merge(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        e2 = d.get(k, 0) + e
        if e2 == 0:
            del d[k]
        else:
            d[k] = e2
    return tuple(sorted(d.items()))


def _pi_terms(r):
    """exp(i*pi*r) as [(coef, r')], r' in [0,1) on a Q-independent basis."""
    r = r % 2
    s = 1
    if r >= 1:
        r -= 1
        s = -1
    den = r.denominator
    if den % 3 == 0 and (den // 3) % 3 != 0:
        # r = dyadic-ish + 2b/3
        for b in (0, 1, 2):
            if (r - F(2 * b, 3)).denominator % 3 != 0:
                break
        if b == 2:
            out = []
            for c, x in _pi_terms(r - F(4, 3)) + _pi_terms(r - F(2, 3)):
                out.append((-s * c, x))
            return out
    return [(s, r)]


def _finish(reals, phases, pi, coef=1):
    """normalise a raw monomial -> list of (id, coef)"""
    out = {}
    for s, r in _pi_terms(pi):
        out2 = _reduce_squares(reals, phases, r)
        for k, c in out2.items():
            v = out.get(k, 0) + c * s * coef
            if v == 0:
                out.pop(k, None)
            else:
                out[k] = v
    return out


def _reduce_squares(reals, phases, r):
    for vid, e in reals:
        if e >= 2 and REG.vars[vid].square is not None:
            rest = tuple((v, x) for v, x in reals if v != vid)
            if e % 2:
                rest = tuple(sorted(rest + ((vid, 1),)))
            p = {_intern((rest, phases, r)): 1}
            sq = REG.vars[vid].square
            for _ in range(e // 2):
                p = dmul(p, sq)
            return p
    return {_intern((reals, phases, r)): 1}


def _mul_mono(a, b):
    if a > b:
        a, b = b, a
    k = (a, b)
    r = _mul_cache.get(k)
    if r is None:
        ma, mb = _monos[a], _monos[b]
        d = _finish(_merge(ma[0], mb[0]), _merge(ma[1], mb[1]), ma[2] + mb[2])
        r = tuple(d.items())
        _mul_cache[k] = r
    return r


def dmul(p, q):
    if len(p) * len(q) > 40 * MAX_TERMS:
        raise Unsupported('polynomial product too large')
    out = {}
    if len(q) == 1:
        p, q = q, p
    for a, ca in p.items():
        for b, cb in q.items():
            c = ca * cb
            for m, cm in _mul_mono(a, b):
                v = out.get(m, 0) + c * cm
                if v == 0:
                    out.pop(m, None)
                else:
                    out[m] = v
    if len(out) > MAX_TERMS:
        raise Unsupported('polynomial too large')
    return out


def dadd(p, q, s=1):
    if len(q) > len(p) and s == 1:
        p, q = q, p
    out = dict(p)
    for m, c in q.items():
        v = out.get(m, 0) + s * c
        if v == 0:
            out.pop(m, None)
        else:
            out[m] = v
    return out


def dconj(p):
    out = {}
    for m, c in p.items():
        r = _conj_cache.get(m)
        if r is None:
            reals, phases, pi = _monos[m]
            if not phases and pi == 0:
                r = ((m, 1),)
            else:
                r = tuple(_finish(
                    reals, tuple((a, -e) for a, e in phases), -pi).items())
            _conj_cache[m] = r
        for m2, c2 in r:
            v = out.get(m2, 0) + c * c2
            if v == 0:
                out.pop(m2, None)
            else:
                out[m2] = v
    return out


def dscale(p, q):
    return {m: c * q for m, c in p.items()} if q != 0 else {}


ONE_M = _intern(((), (), F(0)))


def dconst(q):
    return {ONE_M: q} if q != 0 else {}


def dvar(v):
    return {_intern((((v.id, 1),), (), F(0))): 1}


def dphase_pi(r):
    return _finish((), (), F(r))


def dphase_atom(atom, e):
    return _finish((), ((atom, F(e)),), F(0))


# --------------------------------------------------------------------------
# lifting machine numbers to exact numbers

_SPECIAL = None


def _special_table():
    """floats of c*cos(k*pi/16) and c*cos(k*pi/12) for a few rational c"""
    global _SPECIAL
    if _SPECIAL is None:
        t = []
        for k in range(1, 16):
            t.append((math.cos(math.pi * k / 16), F(k, 16)))
        for k in (1, 2, 4, 5, 7, 8, 10, 11):
            t.append((math.cos(math.pi * k / 12), F(k, 12)))
        _SPECIAL = [x for x in t if abs(x[0]) > 1e-12]
    return _SPECIAL


_lift_cache = {}


def _lift_float(x):
    """Read a float as the real number it stands for (recorded assumption)."""
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non-finite float')
    if x == int(x) and abs(x) < 2**53:
        return ('q', F(int(x)))
    tol = abs(x) * 4.5e-16
    fr = F(x).limit_denominator(4096)
    if abs(float(fr) - x) <= tol:
        return ('q', fr)
    s = repr(x)
    if len(s) <= 13:
        return ('q', F(s))
    y = x / math.pi
    fr = F(y).limit_denominator(128)
    if fr != 0 and abs(float(fr) - y) <= abs(y) * 4.5e-16:
        return ('pi', fr)
    for c, r in _special_table():
        y = x / c
        fr = F(y).limit_denominator(64)
        if fr != 0 and abs(float(fr) - y) <= abs(y) * 9e-16:
            return ('cos', fr, r)
    return ('q', F(x))


def lift_float_dict(x):
    x = float(x)
    r = _lift_cache.get(x)
    if r is None:
        r = _lift_float(x)
        if len(_lift_cache) < 100000:
            _lift_cache[x] = r
    if r[0] == 'q':
        return dconst(r[1] if r[1].denominator != 1 else int(r[1]))
    if r[0] == 'pi':
        return dscale(dvar(REG.vars[PI_ID]), r[1])
    d = dadd(dphase_pi(r[2]), dphase_pi(-r[2]))
    return dscale(d, r[1] / 2)


# --------------------------------------------------------------------------
# exp(i p)
_exp_cache = {}


def _key(d):
    return tuple(sorted(d.items()))


def key_of(d):
    return _key(d)


def dexpi(p):
    k = _key(p)
    r = _exp_cache.get(k)
    if r is not None:
        return r
    out = dconst(1)
    for m, c in p.items():
        reals, phases, pi = _monos[m]
        if not phases and pi == 0 and len(reals) == 1 and \
                reals[0][1] == 1 and reals[0][0] in ANGLES:
            # exp(i c arg z) is the c-th power of z/|z|
            q = F(c)
            root = ANGLES[reals[0][0]]
            if q.denominator != 1:
                root = root_power(root, F(1, q.denominator))
            if q < 0:
                root = root.conjugate()
            for _ in range(abs(q.numerator)):
                out = dmul(out, root.p)
            continue
        if phases or pi != 0:
            # an angle that is itself trigonometric: name it
            if len(p) != len([1 for mm in p if True]):
                pass
            v = named_value(p, 'ang')
            out = dphase_atom(((v.id, 1),), 1)
            break
        if reals == ((PI_ID, 1),):
            f = dphase_pi(c)
        else:
            f = dphase_atom(reals, c)
        out = dmul(out, f)
    _exp_cache[k] = out
    return out


# --------------------------------------------------------------------------
# formulas: ('true',) ('false',) ('le',p) p<=0, ('lt',p), ('eq',p), ('not',f)
#           ('and',fs) ('or',fs); p are Poly dicts frozen as Sym

def named_value(d, prefix):
    """a real variable constrained equal to polynomial d"""
    k = (prefix, _key(d))
    v = REG.keyed.get(k)
    if v is None:
        v = REG.new(prefix, kind='defined')
        REG.keyed[k] = v
        s = Sym(d)
        v.side.append(('eq', Sym(dvar(v)) - s))
        v.evalfn = lambda env, s=s: s.eval(env).real
    return v


def dbound(d):
    """upper bound on |d| from declared variable ranges, or None"""
    tot = F(0)
    for m, c in d.items():
        b = mono_bound(m)
        if b is None:
            return None
        tot += abs(F(c)) * b
    return tot


def mono_bound(m):
    reals = _monos[m][0]
    b = F(1)
    for vid, e in reals:
        v = REG.vars[vid]
        if e < 0 or v.lo is None or v.hi is None:
            return None
        b *= max(abs(v.lo), abs(v.hi)) ** e
    return b


HOOK = {'decide': None}
ANGLES = {}         # angle var id -> the unit number it is the argument of
ROOTS = {}          # root phase var id -> (base Sym, exponent)


class Sym:
    """symbolic complex number (real when conj-invariant)"""
    __slots__ = ('_p', '_real')
    __array_priority__ = 1e6

    def __init__(self, p):
        self._p = p
        self._real = None

    @property
    def p(self):
        return self._p

    # ---- construction
    @staticmethod
    def of(x):
        s = Sym.try_of(x)
        if s is None:
            raise Unsupported('cannot lift %r' % (type(x),))
        return s

    @staticmethod
    def try_of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return Sym(dconst(1)) if bool(x) else Sym({})
        if isinstance(x, bool):
            return Sym(dconst(int(x)))
        if isinstance(x, int):
            return Sym(dconst(x))
        if isinstance(x, F):
            return Sym(dconst(x))
        if isinstance(x, float):
            return Sym(lift_float_dict(x))
        if isinstance(x, complex):
            return Sym(dadd(lift_float_dict(x.real),
                            dmul(lift_float_dict(x.imag), dphase_pi(F(1, 2)))))
        tn = type(x).__module__
        if tn == 'numpy' and hasattr(x, 'item') and getattr(x, 'ndim', 1) == 0:
            y = x.item()
            if y is not x:
                return Sym.try_of(y)
        return None

    # ---- basic
    def is_const(self):
        for m in self.p:
            r, ph, pi = _monos[m]
            if ph or any(v != PI_ID for v, _ in r):
                return False
        return True

    def const_value(self):
        return self.eval({})

    def is_real(self):
        if self._real is None:
            self._real = not dadd(self.p, dconj(self.p), -1)
        return self._real

    def is_zero(self):
        return not self.p

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def __hash__(self):
        # rounded values coincide for different inputs: one hash, so that
        # dictionaries and sets compare them, which forks the path
        return 77 if self.is_soft() else hash(_key(self.p))

    def is_soft(self):
        return any(REG.vars[v].soft for m in self.p for v, _ in mono(m)[0])

    def eval(self, env):
        tot = 0j
        for m, c in self.p.items():
            tot += float(c) * eval_mono(m, env)
        return tot

    def __repr__(self):
        return 'Sym(%s)' % self.pretty()

    def pretty(self, limit=6):
        out = []
        for m, c in itertools.islice(self.p.items(), limit):
            r, ph, pi = _monos[m]
            s = str(c)
            for v, e in r:
                s += '*%s^%s' % (REG.vars[v].name, e)
            for a, e in ph:
                s += '*E(%s*%s)' % (e, '.'.join(REG.vars[v].name for v, _ in a))
            if pi:
                s += '*E(%s pi)' % pi
            out.append(s)
        if len(self.p) > limit:
            out.append('...[%d terms]' % len(self.p))
        return ' + '.join(out) or '0'

    # ---- arithmetic
    def _bin(self, o, f):
        if type(o).__module__ == 'numpy' and hasattr(o, '__array__') and \
                getattr(o, 'ndim', 0) > 0:
            return NotImplemented
        if isinstance(o, (list, tuple)):
            return HOOK['listop'](self, o, f)
        s = Sym.try_of(o)
        if s is None:
            return NotImplemented
        return f(self, s)

    def __add__(self, o):
        return self._bin(o, lambda a, b: Sym(dadd(a.p, b.p)))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: Sym(dadd(a.p, b.p, -1)))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: Sym(dadd(b.p, a.p, -1)))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: Sym(dmul(a.p, b.p)))
    __rmul__ = __mul__

    def __neg__(self):
        return Sym(dscale(self.p, -1))

    def __pos__(self):
        return self

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a * reciprocal(b))

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b * reciprocal(a))

    def __pow__(self, o):
        return self._bin(o, lambda a, b: power(a, b))

    def __rpow__(self, o):
        return self._bin(o, lambda a, b: power(b, a))

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: floor_(a / b))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: floor_(b / a))

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a - b * floor_(a / b))

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: b - a * floor_(b / a))

    def __abs__(self):
        return abs_(self)

    def __complex__(self):
        if self.is_const():
            return self.const_value()
        raise Unsupported('complex() of symbolic value')

    def __float__(self):
        if self.is_const() and self.is_real():
            return self.const_value().real
        raise Unsupported('float() of symbolic value')

    def __int__(self):
        if self.is_const() and self.is_real():
            return int(round_const(self.const_value().real))
        raise Unsupported('int() of symbolic value')

    def __index__(self):
        return HOOK['index'](self)

    def __round__(self, n=None):
        return round_(self, n)

    def __trunc__(self):
        return trunc_(self)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    def __bool__(self):
        return bool(SymBool.neg(SymBool(('eqc', self))))

    # ---- complex API (numpy object loops call these)
    def conjugate(self):
        if self.is_real():
            return self
        return Sym(dconj(self.p))

    @property
    def real(self):
        if self.is_real():
            return self
        return Sym(dscale(dadd(self.p, dconj(self.p)), F(1, 2)))

    @property
    def imag(self):
        if self.is_real():
            return Sym({})
        d = dscale(dadd(self.p, dconj(self.p), -1), F(1, 2))
        return Sym(dmul(d, dphase_pi(F(-1, 2))))

    def item(self):
        return self

    def is_integer(self):
        raise Unsupported('is_integer')

    # numpy object-dtype ufunc methods
    def cos(self):
        return cos_(self)

    def sin(self):
        return sin_(self)

    def tan(self):
        return sin_(self) / cos_(self)

    def exp(self):
        return exp_(self)

    def sqrt(self):
        return sqrt_(self)

    def rint(self):
        return round_(self, 0)

    def log2(self):
        if self.is_const():
            return math.log2(self.const_value().real)
        raise Unsupported('log2 of symbolic')

    def log(self):
        if self.is_const():
            return math.log(self.const_value().real)
        return log_(self)

    def expm1(self):
        return exp_(self) - 1

    def arctan2(self, o):
        return angle_(Sym.of(o) + imag_unit() * self)

    def hypot(self, o):
        return sqrt_(self * self + Sym.of(o) * Sym.of(o))

    # ---- comparison
    def __eq__(self, o):
        s = self._bin(o, lambda a, b: SymBool(('eqc', a - b)).simp())
        return s

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else r.__invert__()

    def __le__(self, o):
        return self._bin(o, lambda a, b: cmp_le(a, b))

    def __lt__(self, o):
        return self._bin(o, lambda a, b: cmp_lt(a, b))

    def __ge__(self, o):
        return self._bin(o, lambda a, b: cmp_le(b, a))

    def __gt__(self, o):
        return self._bin(o, lambda a, b: cmp_lt(b, a))

    # ---- strings: placeholders resolved by the harness
    def __str__(self):
        return HOOK['token'](self)

    def __format__(self, spec):
        return HOOK['format'](self, spec)

    # ---- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return HOOK['ufunc'](ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return HOOK['function'](func, args, kwargs)


class LazyAbs(Sym):
    """|x|; materialised as a root variable only when really used"""
    __slots__ = ('inner',)

    def __init__(self, inner):
        self.inner = inner
        self._p = None
        self._real = True

    @property
    def p(self):
        if self._p is None:
            self._p = sqrt_(self.inner * self.inner.conjugate()).p
        return self._p


def round_const(x):
    r = round(x)
    return r if abs(x - r) < 1e-9 else x


def eval_mono(m, env):
    reals, phases, pi = _monos[m]
    x = 1.0
    for v, e in reals:
        x *= eval_var(v, env) ** e
    a = math.pi * float(pi)
    for atom, e in phases:
        y = float(e)
        for v, k in atom:
            y *= eval_var(v, env) ** k
        a += y
    if a:
        return x * cmath.exp(1j * a)
    return complex(x)


def eval_var(vid, env):
    v = REG.vars[vid]
    if v.evalfn is not None:
        key = ('v', vid)
        r = env.get(key)
        if r is None:
            r = v.evalfn(env)
            env[key] = r
        return r
    return env[v.name]


class SymBool:
    __slots__ = ('f', 'raw')
    __array_priority__ = 1e6

    def __init__(self, f, raw=()):
        self.f = f
        self.raw = raw      # pairs of terms whose equality makes f trivial

    TRUE = None
    FALSE = None

    def simp(self):
        f = simp(self.f)
        return SymBool(f)

    @staticmethod
    def neg(b):
        return SymBool(simp(('not', b.f)))

    def __bool__(self):
        f = simp(self.f)
        if f[0] == 'true':
            return True
        if f[0] == 'false':
            return False
        return HOOK['decide'](f)

    def __invert__(self):
        return SymBool.neg(self)

    @staticmethod
    def of(x):
        if isinstance(x, SymBool):
            return x
        return SymBool(('true',) if x else ('false',))

    def _arr(self, o):
        return type(o).__module__ == 'numpy' and getattr(o, 'ndim', 0) > 0

    def __and__(self, o):
        if self._arr(o):
            return NotImplemented
        return SymBool(simp(('and', (self.f, SymBool.of(o).f))))
    __rand__ = __and__

    def __or__(self, o):
        if self._arr(o):
            return NotImplemented
        return SymBool(simp(('or', (self.f, SymBool.of(o).f))))
    __ror__ = __or__

    def __xor__(self, o):
        a, b = self.f, SymBool.of(o).f
        return SymBool(simp(('or', (('and', (a, ('not', b))),
                                    ('and', (('not', a), b))))))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ in ('bool', 'bool_'):
            return ~(self ^ SymBool.of(o))
        return bool(self) == o

    def __ne__(self, o):
        return ~(self == o) if isinstance(self == o, SymBool) else not (self == o)

    def __hash__(self):
        return id(self)

    def logical_and(self, o):
        return self & o

    def logical_or(self, o):
        return self | o

    def logical_not(self):
        return ~self

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __rsub__(self, o):
        return o - int(bool(self))

    def __sub__(self, o):
        return int(bool(self)) - o

    def __deepcopy__(self, memo):
        return self

    def any(self, *a, **k):
        return self

    all = any

    def item(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return HOOK['ufunc'](ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return HOOK['function'](func, args, kwargs)

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return 'SymBool(%r)' % (self.f,)


TRUE = ('true',)
FALSE = ('false',)


def simp(f):
    t = f[0]
    if t in ('true', 'false'):
        return f
    if t in ('le', 'lt', 'eq', 'eqc'):
        p = f[1]
        if not p.p:
            return FALSE if t == 'lt' else TRUE
        if p.is_const():
            v = p.const_value()
            if t == 'eqc':
                return FALSE if abs(v) > 1e-13 else TRUE
            x = v.real
            if t == 'eq':
                return FALSE if abs(x) > 1e-13 else TRUE
            # nonzero constant that evaluates to ~0 is rounding residue of
            # the float->real reading; treat it as zero
            if abs(x) <= 1e-14:
                return FALSE if t == 'lt' else TRUE
            return TRUE if x < 0 else FALSE
        if t == 'eqc':
            if p.is_real():
                return ('eq', p)
            return simp(('and', (('eq', p.real), ('eq', p.imag))))
        return f
    if t == 'not':
        g = simp(f[1])
        if g == TRUE:
            return FALSE
        if g == FALSE:
            return TRUE
        if g[0] == 'not':
            return g[1]
        if g[0] == 'le':      # not p<=0  ->  -p<0
            return ('lt', -g[1])
        if g[0] == 'lt':
            return ('le', -g[1])
        return ('not', g)
    if t in ('and', 'or'):
        absorbing, unit = (FALSE, TRUE) if t == 'and' else (TRUE, FALSE)
        out = []
        for x in f[1]:
            x = simp(x)
            if x == absorbing:
                return absorbing
            if x == unit:
                continue
            if x[0] == t:
                out.extend(x[1])
            else:
                out.append(x)
        if not out:
            return unit
        if len(out) == 1:
            return out[0]
        return (t, tuple(out))
    raise AssertionError(t)


TINY = 1e-11


def cmp_le(a, b):
    r = _tiny(a, b)
    if r is not None:
        return r
    return SymBool(simp(('le', _re(a) - _re(b))))


def cmp_lt(a, b):
    r = _tiny(a, b)
    if r is not None:
        return r
    return SymBool(simp(('lt', _re(a) - _re(b))))


def _constant(a):
    if isinstance(a, LazyAbs):
        return abs(a.inner.const_value()) if a.inner.is_const() else None
    if a.is_const() and a.is_real():
        return a.const_value().real
    return None


def _tiny(a, b):
    """|x| < eps for a rounding-noise eps: a structural zero test.

    Recorded assumption: no symbolic quantity lies in (0, 1e-11).
    Two constants, one of them such an eps, are compared as they are."""
    x, y = _constant(a), _constant(b)
    if x is not None and y is not None:
        if 0 < abs(x) <= TINY or 0 < abs(y) <= TINY:
            return SymBool(TRUE if x < y else FALSE)
        return None
    if isinstance(a, LazyAbs) and not isinstance(b, LazyAbs) and b.is_const():
        c = b.const_value().real
        if 0 < c <= TINY and not a.inner.is_const():
            REG.assumptions.add('no symbolic matrix component has magnitude in '
                                '(0, 1e-11): the small-value clean-up is '
                                'treated as rounding')
            return SymBool(FALSE if not a.inner.is_zero() else TRUE)
    if isinstance(b, LazyAbs) and not isinstance(a, LazyAbs) and a.is_const():
        c = a.const_value().real
        if 0 < c <= TINY and not b.inner.is_const():
            REG.assumptions.add('no symbolic matrix component has magnitude in '
                                '(0, 1e-11): the small-value clean-up is '
                                'treated as rounding')
            return SymBool(TRUE if not b.inner.is_zero() else FALSE)
    return None


def _re(a):
    if a.is_real():
        return a
    raise TypeError("'<' not supported between complex values")


def depends_on_draw(p):
    """does the polynomial contain a continuous draw, or an unrounded
    variable defined by others?"""
    for m in p:
        reals, phases, _pi = _monos[m]
        vs = [v for v, _ in reals] + [v for a, _ in phases for v, _ in a]
        for v in vs:
            v = REG.vars[v]
            if v.kind == 'draw' or v.kind == 'defined' and not v.soft:
                return True
    return False


def decide(f):
    return bool(SymBool(f))


I = None


def imag_unit():
    return Sym(dphase_pi(F(1, 2)))


# --------------------------------------------------------------------------
# derived functions


def defined(prefix, key, make):
    k = (prefix, key)
    v = REG.keyed.get(k)
    if v is None:
        v = REG.new(prefix, kind='defined')
        REG.keyed[k] = v
        make(v)
    return v


def clear_roots(s):
    """the square-root variables that occur with negative exponents in s (they
    are nonzero there), as often as needed to clear them; None if none.  To be
    multiplied one after the other: squares are rewritten at once."""
    need = {}
    for m in s.p:
        for v, e in mono(m)[0]:
            if e < 0 and REG.vars[v].square is not None:
                need[v] = max(need.get(v, 0), -e)
    if not need:
        return None
    return [Sym(dvar(REG.vars[v])) for v, e in sorted(need.items())
            for _ in range(e)]


def common_factors(entries):
    """polynomials f1, f2, ... of several terms, without angles, dividing all
    of the given polynomials, and the quotients; only factors whose variables
    multiply no other variable of the same factor are found"""
    found = []
    entries = list(entries)
    for _ in range(4):
        vs = set()
        pairs = set()
        for s in entries:
            for m in s.p:
                r = _monos[m][0]
                k = [v for v, e in r]
                vs.update(k)
                for i in k:
                    for j in k:
                        pairs.add((i, j))
        comp = {v: v for v in vs}

        def find(x):
            while comp[x] != x:
                x = comp[x]
            return x
        for i in vs:
            for j in vs:
                if i < j and (i, j) not in pairs:
                    comp[find(i)] = find(j)
        classes = {}
        for v in vs:
            classes.setdefault(find(v), set()).add(v)
        hit = None
        for cl in classes.values():
            if any(REG.vars[v].square is not None for v in cl):
                continue
            rows = {}
            bad = False
            for n, s in enumerate(entries):
                for m, c in s.p.items():
                    reals, phases, pi = _monos[m]
                    part = tuple((v, e) for v, e in reals if v in cl)
                    if len(part) > 1 or (part and part[0][1] != 1):
                        bad = True
                        break
                    rest = (n, tuple(x for x in reals if x[0] not in cl),
                            phases, pi)
                    rows.setdefault(rest, {})[part] = F(c)
                if bad:
                    break
            if bad or not rows:
                continue
            base = rows[next(iter(rows))]
            k0 = min(base)
            base = {k: c / base[k0] for k, c in base.items()}
            if len(base) < 2 or any(
                    set(r) != set(base) or any(
                        r[k] != base[k] * r[k0] for k in base)
                    for r in rows.values()):
                continue
            f = Sym.of(0)
            for k, c in base.items():
                f = f + Sym(dscale(_finish(k, (), F(0)), c))
            out = [Sym.of(0) for _ in entries]
            for (n, rest, phases, pi), r in rows.items():
                out[n] = out[n] + Sym(dscale(_finish(rest, phases, pi),
                                             r[k0]))
            hit = f, out
            break
        if hit is None:
            break
        found.append(hit[0])
        entries = hit[1]
    return found, entries


def _power_of(vid, e):
    return Sym(_finish(((vid, e),), (), F(0)))


def reciprocal(b):
    d = b.p
    if not d:
        raise ZeroDivisionError('division by zero')
    if len(d) == 1:
        (m, c), = d.items()
        reals, phases, pi = _monos[m]
        for v, e in reals:
            var = REG.vars[v]
            if not var.nonzero:
                if decide(('eq', Sym(dvar(var)))):
                    raise ZeroDivisionError('division by zero')
        return Sym(dscale(_finish(
            tuple((v, -e) for v, e in reals),
            tuple((a, -e) for a, e in phases), -pi), F(1) / F(c)))
    if b.is_const():
        return Sym.of(1 / b.const_value() if not b.is_real()
                      else 1 / b.const_value().real)
    if not b.is_real():
        q = b * b.conjugate()
        return b.conjugate() * reciprocal(q)
    if decide(('eq', b)):
        raise ZeroDivisionError('division by zero')
    # normalise scale so that keys are canonical
    lead = b.p[min(b.p)]
    nb = Sym(dscale(b.p, F(1) / F(lead)))

    def make(v):
        v.nonzero = True
        s = Sym(dvar(v))
        v.side.append(('eq', s * nb - 1))
        v.evalfn = lambda env: 1.0 / nb.eval(env).real
        REG.inverse_of[v.id] = nb
    v = defined('inv', _key(nb.p), make)
    return Sym(dscale(dvar(v), F(1) / F(lead)))


def _square_part(c):
    """rational q such that c / q**2 is a square-free integer (over the small
    primes), so that roots of proportional terms share one variable"""
    c = abs(F(c))
    if c.numerator.bit_length() > 60 or c.denominator.bit_length() > 60:
        return F(1)
    q = F(1, c.denominator)
    n = c.numerator * c.denominator
    for p in (2, 3, 5, 7, 11, 13):
        while n % (p * p) == 0:
            n //= p * p
            q *= p
    r = math.isqrt(n)
    if r * r == n:
        q *= r
    return q


def sqrt_(a):
    a = Sym.of(a)
    if a.is_const():
        x = a.const_value()
        if a.is_real():
            if x.real >= -1e-15:
                return Sym.of(math.sqrt(max(x.real, 0.0)))
            return Sym.of(complex(0, math.sqrt(-x.real)))
        return Sym.of(cmath.sqrt(x))
    if not a.is_real():
        return power(a, Sym.of(F(1, 2)))
    if len(a.p) == 1:
        (m, c), = a.p.items()
        reals, phases, pi = _monos[m]
        if not phases and pi == 0 and c > 0 and all(
                e % 2 == 0 for _, e in reals):
            out = Sym.of(math.sqrt(c))
            for v, e in reals:
                var = REG.vars[v]
                x = Sym(dvar(var))
                if (e // 2) % 2 and not (var.lo is not None and var.lo >= 0):
                    x = _absvar(var)
                    out = out * x * Sym(_finish(((v, e // 2 - 1),), (), F(0))
                                        if e // 2 != 1 else dconst(1))
                else:
                    out = out * Sym(_finish(((v, e // 2),), (), F(0)))
            return out

    sc = _square_part(a.p[min(a.p)])
    if sc != 1:
        return Sym.of(sc) * sqrt_(Sym(dscale(a.p, F(1) / (sc * sc))))

    def make(v):
        v.lo = F(0)
        b = dbound(a.p)
        if b is not None:
            v.hi = F(math.sqrt(float(b)) * (1 + 1e-9)) + F(1, 10**9)
        v.square = a.p
        s = Sym(dvar(v))
        v.side.append(('le', -s))
        v.side.append(('le', -a))
        # v**2 == a, written without the rewriting rule
        v.side.append(('sq', v.id, a))
        # v == 0 iff a == 0, and tangent bounds (linear help for layer 1):
        v.side.append(('or', (('not', ('eq', a)), ('eq', s))))
        v.side.append(('or', (('not', ('eq', s)), ('eq', a))))
        v.side.append(('le', s - (a + 1) * F(1, 2)))     # sqrt(a) <= (a+1)/2
        v.side.append(('or', (('not', ('le', a - 1)), ('le', a - s))))
        v.side.append(('or', (('not', ('le', 1 - a)), ('le', s - a))))
        v.evalfn = lambda env: math.sqrt(max(a.eval(env).real, 0.0))
    return Sym(dvar(defined('root', _key(a.p), make)))


def _absvar(var):
    if decide(('le', -Sym(dvar(var)))):
        return Sym(dvar(var))
    return -Sym(dvar(var))


def abs_(a):
    if a.is_const():
        return Sym.of(abs(a.const_value()))
    return LazyAbs(a)


def exp_(a):
    a = Sym.of(a)
    re, im = a.real, a.imag
    out = Sym(dexpi(im.p)) if im.p else Sym(dconst(1))
    if re.p:
        out = out * real_exp(re)
    return out


def real_exp(a):
    if a.is_const():
        return Sym.of(math.exp(a.const_value().real))

    def make(v):
        s = Sym(dvar(v))
        v.lo = F(0)
        v.nonzero = True
        v.side.append(('lt', -s))
        v.side.append(('le', a + 1 - s))
        v.side.append(('or', (('not', ('le', a)), ('le', s - 1))))
        v.side.append(('or', (('not', ('lt', a)), ('lt', s - 1))))
        v.side.append(('or', (('not', ('lt', -a)), ('lt', 1 - s))))
        _exp_args[v.id] = a
        v.evalfn = lambda env: math.exp(min(a.eval(env).real, 700.0))
    return Sym(dvar(defined('exp', _key(a.p), make)))


_exp_args = {}


def log_(a):
    def make(v):
        v.evalfn = lambda env: math.log(a.eval(env).real)
    return Sym(dvar(defined('log', _key(a.p), make)))


def angle_(z):
    """the argument of z in (-pi, pi], zero for zero"""
    z = Sym.of(z)
    if z.is_const():
        return Sym.of(cmath.phase(complex(z.const_value())))
    if z.is_real():
        return Sym.of(0) if decide(('le', -z)) else Sym.of(math.pi)
    if not is_unit(z):
        n = sqrt_((z * z.conjugate()).real)
        if decide(('eq', n)):
            return Sym.of(0)
        z = z / n

    def make(v):
        v.lo = F('-3.1415926535898')
        v.hi = F('3.1415926535898')
        a = Sym(dvar(v))
        up, down = ('lt', -z.imag), ('lt', z.imag)
        pi = Sym(dvar(REG.vars[PI_ID]))
        v.side.append(('or', (('not', up), ('lt', -a))))
        v.side.append(('or', (('not', down), ('lt', a))))
        v.side.append(('or', (up, down, ('eq', a), ('eq', a - pi))))
        v.side.append(('or', (('le', z.real), ('le', 2 * a - pi))))
        v.side.append(('or', (('le', z.real), ('le', -2 * a - pi))))
        v.side.append(('or', (('le', -z.real), ('lt', pi - 2 * a),
                              ('lt', 2 * a + pi))))
        v.evalfn = lambda env: cmath.phase(complex(z.eval(env)))
    v = defined('angle', _key(z.p), make)
    ANGLES[v.id] = z
    return Sym(dvar(v))


def is_unit(a):
    """whether |a| is recognised to be one"""
    if len(a.p) == 1:
        (m, c), = a.p.items()
        reals, phases, pi = _monos[m]
        if not reals and abs(c) == 1:
            return True
    return not dadd((a * a.conjugate()).p, dconst(1), -1)


def cos_(a):
    a = Sym.of(a)
    if not a.is_real():
        raise Unsupported('cos of complex')
    e = dexpi(a.p)
    return Sym(dscale(dadd(e, dconj(e)), F(1, 2)))


def sin_(a):
    a = Sym.of(a)
    if not a.is_real():
        raise Unsupported('sin of complex')
    e = dexpi(a.p)
    d = dscale(dadd(e, dconj(e), -1), F(1, 2))
    return Sym(dmul(d, dphase_pi(F(-1, 2))))


def power(a, b):
    if b.is_const() and b.is_real():
        if not b.p:
            return Sym(dconst(1))
        q = F(b.p[ONE_M]) if len(b.p) == 1 and ONE_M in b.p else None
        if q is not None:
            if q.denominator == 1:
                n = int(q)
                base = a if n >= 0 else reciprocal(a)
                out = Sym(dconst(1))
                for _ in range(abs(n)):
                    out = out * base
                return out
            return root_power(a, q)
    return _pow_float(a, b)


def _pow_float(a, b):
    if a.is_const() and b.is_const():
        return Sym.of(a.const_value() ** b.const_value())
    raise Unsupported('power with symbolic exponent')


def root_power(a, q):
    """principal power a**q, q rational non-integer"""
    if a.is_const():
        x = a.const_value()
        if a.is_real() and x.real >= 0:
            return Sym.of(x.real ** float(q))
        return Sym.of(complex(x) ** float(q))
    if a.is_real():
        # a real base: python floats give complex for negatives
        if decide(('le', -a)):
            if q == F(1, 2):
                return sqrt_(a)
            return real_root(a, q)
    unit = is_unit(a)

    def wpow(w, n):
        out = Sym(dconst(1))
        for _ in range(abs(n)):
            out = out * w
        return out if n >= 0 else out.conjugate()

    num, den = q.numerator, q.denominator
    if unit:
        # fresh unit phase w with w**den == a**num; principal branch:
        # |arg w| <= pi*|q|, i.e. Re w >= cos(pi q) when |q| <= 1
        def make(v):
            w = Sym(dphase_atom(((v.id, 1),), 1))
            ap = a if num >= 0 else a.conjugate()
            rel = wpow(w, den) - wpow(ap, abs(num))
            v.side.append(('eq', rel.real))
            v.side.append(('eq', rel.imag))
            if abs(q) <= 1:
                c = Sym.of(math.cos(math.pi * float(abs(q))))
                v.side.append(('le', c - w.real))
            v.evalfn = lambda env: cmath.phase(a.eval(env)) * float(q)
        v = defined('rootarg', (_key(a.p), q), make)
        ROOTS[v.id] = (a, q)
        return Sym(dphase_atom(((v.id, 1),), 1))

    # general complex base: r * exp(i*phi), r**den == |a|**num as variables
    def mk_re(v):
        v.evalfn = lambda env: (a.eval(env) ** float(q)).real

    def mk_im(v):
        v.evalfn = lambda env: (a.eval(env) ** float(q)).imag
    vr = defined('cpow_re', (_key(a.p), q), mk_re)
    vi = defined('cpow_im', (_key(a.p), q), mk_im)
    w = Sym(dvar(vr)) + imag_unit() * Sym(dvar(vi))
    if not vr.side:
        lhs = Sym(dconst(1))
        for _ in range(den):
            lhs = lhs * w
        rhs = Sym(dconst(1))
        base = a if num >= 0 else reciprocal(a)
        for _ in range(abs(num)):
            rhs = rhs * base
        rel = lhs - rhs
        vr.side.append(('eq', rel.real))
        vr.side.append(('eq', rel.imag))
        vi.side.append(('eq', rel.imag))
        if abs(q) <= F(1, 2):
            vr.side.append(('le', -Sym(dvar(vr))))
    return w


def real_root(a, q):
    def make(v):
        s = Sym(dvar(v))
        v.lo = F(0)
        v.side.append(('le', -s))
        n, d = q.numerator, q.denominator
        lhs = Sym(dconst(1))
        for _ in range(d):
            lhs = lhs * s
        rhs = Sym(dconst(1))
        base = a if n >= 0 else reciprocal(a)
        for _ in range(abs(n)):
            rhs = rhs * base
        v.side.append(('eq', lhs - rhs))
        v.evalfn = lambda env: max(a.eval(env).real, 0.0) ** float(q)
    return Sym(dvar(defined('rroot', (_key(a.p), q), make)))


def floor_(a):
    if a.is_const():
        return math.floor(round_const(a.const_value().real))
    if not a.is_real():
        raise Unsupported('floor of complex')

    def make(v):
        v.is_int = True
        v.soft = True
        s = Sym(dvar(v))
        v.side.append(('le', s - a))
        v.side.append(('lt', a - s - 1))
        v.evalfn = lambda env: math.floor(a.eval(env).real)
    return Sym(dvar(defined('floor', _key(a.p), make)))


def trunc_(a):
    if a.is_const():
        return math.trunc(round_const(a.const_value().real))
    if decide(('le', -a)):
        return floor_(a)
    return -floor_(-a)


def round_(a, n=None):
    if n is not None:
        n = int(n)
    if a.is_const() and a.is_real():
        return Sym.of(round(a.const_value().real, n)) if n is not None \
            else round(a.const_value().real)
    if not a.is_real():
        return round_(a.real, n) + imag_unit() * round_(a.imag, n)
    nd = 0 if n is None else n
    unit = F(1, 10**nd) if nd >= 0 else F(10**-nd)

    def make(v):
        v.is_int = True
        v.soft = True
        s = Sym(dvar(v)) * unit
        v.side.append(('le', s - a - unit / 2))
        v.side.append(('le', a - s - unit / 2))
        v.evalfn = lambda env: round(round(a.eval(env).real, nd) / float(unit))
    return Sym(dvar(defined('round%d' % nd, _key(a.p), make))) * unit


I = imag_unit()
