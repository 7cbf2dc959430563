"""Encoding of formulas over Sym into z3, in two layers.

Layer 1 (linear): every monomial R*exp(iA) becomes a pair of real variables
(its real and imaginary part), with interval facts.  An `unsat` here is a
proof: it holds whatever the values of the monomials are.
Layer 2 (nonlinear real arithmetic): real variables are themselves, each angle
atom gets a point (c, s) on the unit circle, monomials are real products.
"""
import itertools
import math
import sys
import time
from fractions import Fraction as F

import z3

from . import poly as P


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.l2 = 0

    def add(self, r, dt):
        self.queries += 1
        self.time += dt
        if r == z3.unsat:
            self.unsat += 1
        elif r == z3.sat:
            self.sat += 1
        else:
            self.unknown += 1


STATS = Stats()


def q2z(q):
    q = F(q)
    if q.denominator == 1:
        return z3.RealVal(q.numerator)
    return z3.Q(q.numerator, q.denominator)


def _cos_pi(r):
    """rational within 1e-17 of cos(pi r), exact for the rational values"""
    r = F(r) % 2
    exact = {F(0): F(1), F(1): F(-1), F(1, 2): F(0), F(3, 2): F(0),
             F(1, 3): F(1, 2), F(2, 3): F(-1, 2), F(4, 3): F(-1, 2),
             F(5, 3): F(1, 2)}
    if r in exact:
        return exact[r]
    return F(math.cos(math.pi * float(r)))


def _sin_pi(r):
    return _cos_pi(F(r) - F(1, 2))


class Encoder:
    """formulas -> z3 terms; collects facts (bounds, side constraints)."""

    def __init__(self, layer):
        self.layer = layer
        self.vars = {}
        self.monos = {}
        self.facts = []         # z3 constraints to assert, append only
        self.bases = {}         # layer 2: atom -> (q, c, s)
        self.pending = []
        self.den = {}           # layer 2: atom -> denominator lcm (fixed)
        self.done = set()
        self.keep = []

    def var(self, vid):
        t = self.vars.get(vid)
        if t is None:
            v = P.REG.vars[vid]
            if v.is_int:
                t = z3.ToReal(z3.Int(v.name))
            else:
                t = z3.Real(v.name)
            self.vars[vid] = t
            if v.lo is not None:
                self.facts.append(t >= q2z(v.lo))
            if v.hi is not None:
                self.facts.append(t <= q2z(v.hi))
            if v.nonzero and not (v.lo is not None and v.lo > 0):
                self.facts.append(t != 0)
            for f in v.side:
                self.pending.append((vid, f))
        return t

    def flush(self):
        while self.pending:
            vid, f = self.pending.pop()
            if id(f) in self.done:
                continue
            self.done.add(id(f))
            self.keep.append(f)
            if f[0] == 'sq':
                x = self.var(f[1])
                if self.layer == 2:
                    self.facts.append(x * x == self.real(f[2]))
                else:
                    top = upper_bound(f[2])
                    if top is not None:
                        self.facts.append(x <= q2z(F(math.sqrt(max(
                            top, 0.0)) + 1e-9)))
                continue
            self.facts.append(self.formula(f))

    # -- monomials without their constant pi phase
    def base(self, reals, phases):
        """(re, im) z3 terms of the monomial; im None when real"""
        conj = False
        if phases and phases[0][1] < 0:
            phases = tuple((a, -e) for a, e in phases)
            conj = True
        k = (reals, phases)
        t = self.monos.get(k)
        if t is None:
            t = self._make(reals, phases)
            self.monos[k] = t
        re, im = t
        if conj:
            im = -im
        return re, im

    def _make(self, reals, phases):
        if self.layer == 2:
            return self._make2(reals, phases)
        name = '*'.join('%s^%d' % (P.REG.vars[v].name, e) for v, e in reals)
        for v, _ in reals:
            self.var(v)
        if not phases:
            if len(reals) == 1 and reals[0][1] == 1:
                return self.var(reals[0][0]), None
            t = z3.Real('m[' + name + ']')
            self._bound(t, reals, even=True)
            return t, None
        # make sure side constraints of the angle variables are present
        pn = '+'.join('%s*%s' % (e, '.'.join(
            '%s^%d' % (P.REG.vars[v].name, k) for v, k in a))
            for a, e in phases)
        for a, _ in phases:
            for v, _k in a:
                self.var(v)
        c = z3.Real('c[' + name + '|' + pn + ']')
        s = z3.Real('s[' + name + '|' + pn + ']')
        b = self._bound(c, reals)
        self._bound(s, reals)
        if not reals:
            r = angle_range(phases)
            if r is not None:
                for t, (lo, hi) in ((c, _trig_range(math.cos, r, 0.0)),
                                    (s, _trig_range(math.sin, r,
                                                    math.pi / 2))):
                    if lo > -1:
                        self.facts.append(t >= q2z(F(lo) - F(1, 10**9)))
                    if hi < 1:
                        self.facts.append(t <= q2z(F(hi) + F(1, 10**9)))
        if b is not None and b == 1:
            # |c|+|s| <= sqrt(2)
            r2 = q2z(F(14142136, 10**7))
            for x in (c + s, c - s):
                self.facts.append(x <= r2)
                self.facts.append(-x <= r2)
        return c, s

    def _bound(self, t, reals, even=False):
        b = F(1)
        nonneg = even
        for vid, e in reals:
            v = P.REG.vars[vid]
            if e % 2 and not (v.lo is not None and v.lo >= 0):
                nonneg = False
            if e < 0 or v.lo is None or v.hi is None:
                b = None
                continue
            if b is not None:
                b *= max(abs(v.lo), abs(v.hi)) ** e
        if b is not None:
            self.facts.append(t <= q2z(b))
            self.facts.append(t >= (0 if nonneg else q2z(-b)))
        elif nonneg:
            self.facts.append(t >= 0)
        return b

    def prepare(self, formulas):
        """layer 2: fix denominators of the angle bases over all formulas and
        the side constraints they reach"""
        seen = set()
        todo = list(formulas)
        vseen = set()

        def visit_poly(s):
            for m in s.p:
                reals, phases, _ = P.mono(m)
                for v, _e in reals:
                    visit_var(v)
                for a, e in phases:
                    self.den[a] = math.lcm(self.den.get(a, 1), e.denominator)
                    for v, _k in a:
                        visit_var(v)

        def visit_var(vid):
            if vid in vseen:
                return
            vseen.add(vid)
            for f in P.REG.vars[vid].side:
                todo.append(f)

        while todo:
            f = todo.pop()
            if id(f) in seen:
                continue
            seen.add(id(f))
            if f[0] in ('le', 'lt', 'eq', 'eqc'):
                visit_poly(f[1])
            elif f[0] == 'sq':
                visit_poly(f[2])
                visit_var(f[1])
            elif f[0] == 'not':
                todo.append(f[1])
            elif f[0] in ('and', 'or'):
                todo.extend(f[1])
            elif f[0] == 'sumif':
                for c, m in f[1]:
                    todo.append(c)
                    visit_poly(m)
                visit_poly(f[2])

    def _atom(self, a):
        t = self.bases.get(a)
        if t is None:
            if not a:       # the constant angle 1 radian
                q = self.den.get(a, 1)
                t = (q, q2z(F(math.cos(1.0 / q))), q2z(F(math.sin(1.0 / q))))
            else:
                n = '.'.join('%s^%d' % (P.REG.vars[v].name, k) for v, k in a)
                c = z3.Real('C[' + n + ']')
                s = z3.Real('S[' + n + ']')
                self.facts.append(c * c + s * s == 1)
                t = (self.den.get(a, 1), c, s)
            self.bases[a] = t
        return t

    def _make2(self, reals, phases):
        r = None
        for vid, e in reals:
            x = self.var(vid)
            for _ in range(abs(e)):
                if e > 0:
                    r = x if r is None else r * x
                else:
                    inv = self._inv(vid)
                    r = inv if r is None else r * inv
        if r is None:
            r = z3.RealVal(1)
        if not phases:
            return r, None
        cr, ci = None, None
        for a, e in phases:
            q, c, s = self._atom(a)
            for v, _k in a:
                self.var(v)
            n = e * q
            assert n.denominator == 1, 'angle denominator'
            n = int(n)
            assert abs(n) <= 40, 'angle multiple too large'
            s1 = s if n > 0 else -s
            for _ in range(abs(n)):
                if cr is None:
                    cr, ci = c, s1
                else:
                    cr, ci = cr * c - ci * s1, cr * s1 + ci * c
        if reals:
            return r * cr, r * ci
        return cr, ci

    def _inv(self, vid):
        k = ('inv', vid)
        t = self.vars.get(k)
        if t is None:
            t = z3.Real('inv(' + P.REG.vars[vid].name + ')')
            self.vars[k] = t
            self.facts.append(t * self.var(vid) == 1)
        return t

    def real(self, s):
        """z3 term of the real part of Sym s"""
        terms = []
        const = F(0)
        for m, c in s.p.items():
            reals, phases, pi = P.mono(m)
            cc = F(c) * _cos_pi(pi)
            if not reals and not phases:
                const += cc
                continue
            re, im = self.base(reals, phases)
            if cc != 0:
                terms.append(q2z(cc) * re if cc != 1 else re)
            if im is not None:
                ss = -F(c) * _sin_pi(pi)
                if ss != 0:
                    terms.append(q2z(ss) * im)
        if const != 0 or not terms:
            terms.append(q2z(const))
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def formula(self, f):
        t = f[0]
        if t == 'true':
            return z3.BoolVal(True)
        if t == 'false':
            return z3.BoolVal(False)
        if t == 'le':
            return self.real(f[1]) <= 0
        if t == 'lt':
            return self.real(f[1]) < 0
        if t == 'eq':
            return self.real(f[1]) == 0
        if t == 'eqc':
            return z3.And(self.real(f[1].real) == 0, self.real(f[1].imag) == 0)
        if t == 'not':
            return z3.Not(self.formula(f[1]))
        if t == 'and':
            return z3.And([self.formula(x) for x in f[1]])
        if t == 'or':
            return z3.Or([self.formula(x) for x in f[1]])
        if t == 'sumif':
            # |sum_j [c_j] m_j - rhs| <= tol
            tot = z3.Sum([z3.If(self.formula(c), self.real(m), q2z(0))
                          for c, m in f[1]] + [q2z(0)])
            d = tot - self.real(f[2])
            return z3.And(d <= q2z(f[3]), -d <= q2z(f[3]))
        raise AssertionError(t)


def angle_range(phases):
    """interval of the angle (without its multiple of pi), if bounded"""
    vs = sorted({v for a, e in phases for v, k in a})
    if all(k == 1 for a, e in phases for v, k in a) and 1 < len(vs) <= 5:
        # linear in each variable: extreme at a corner
        box = []
        for v in vs:
            var = P.REG.vars[v]
            if var.lo is None or var.hi is None:
                return None
            box.append((float(var.lo), float(var.hi)))
        vals = []
        for corner in itertools.product(*box):
            at = dict(zip(vs, corner))
            vals.append(sum(float(e) * math.prod(at[v] for v, k in a)
                            for a, e in phases))
        return min(vals), max(vals)
    lo = hi = 0.0
    for a, e in phases:
        x = y = 1.0
        for v, k in a:
            var = P.REG.vars[v]
            if k < 1 or var.lo is None or var.hi is None:
                return None
            for _ in range(k):
                c = [x * float(var.lo), x * float(var.hi),
                     y * float(var.lo), y * float(var.hi)]
                x, y = min(c), max(c)
        c = [x * float(e), y * float(e)]
        lo, hi = lo + min(c), hi + max(c)
    return lo, hi


def _trig_range(f, r, peak):
    """range of a sinusoid with maxima at peak + 2 pi k over an interval"""
    lo, hi = r
    a, b = sorted((f(lo), f(hi)))
    k = math.ceil((lo - peak) / (2 * math.pi) - 1e-12)
    if peak + 2 * math.pi * k <= hi + 1e-12:
        b = 1.0
    k = math.ceil((lo - peak - math.pi) / (2 * math.pi) - 1e-12)
    if peak + math.pi + 2 * math.pi * k <= hi + 1e-12:
        a = -1.0
    return a, b


def upper_bound(s):
    """upper bound on a real polynomial from the ranges of its variables and
    angles, or None"""
    tot = 0.0
    for m, c in s.p.items():
        reals, phases, pi = P.mono(m)
        b = P.mono_bound(m)
        if b is None:
            return None
        top = float(b)
        if phases and not reals:
            r = angle_range(phases)
            if r is not None:
                off = math.pi * float(pi)
                lo, hi = _trig_range(math.cos, (r[0] + off, r[1] + off), 0.0)
                tot += max(float(c) * lo, float(c) * hi) + 1e-9
                continue
        elif not phases and not reals:
            tot += float(c) * math.cos(math.pi * float(pi))
            continue
        tot += abs(float(c)) * top
    return tot


def run_check(solver, timeout_ms, *assumptions):
    solver.set('timeout', int(timeout_ms))
    t0 = time.perf_counter()
    try:
        r = solver.check(*assumptions)
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.perf_counter() - t0
    STATS.add(r, dt)
    return r


MAX_IDENTITY = 3000


def identity_query(pairs):
    """is some pair of polynomials different?  Every monomial is a free real
    (one for its real and one for its imaginary part), so unsat means the
    pairs agree for every value of the inputs.  None when too large."""
    if sum(len(a.p) + len(b.p) for a, b in pairs) > MAX_IDENTITY:
        return None
    names = {}

    def term(s, im):
        ts = []
        for m, c in s.p.items():
            reals, phases, pi = P.mono(m)
            k = (reals, phases)
            i = names.setdefault(k, len(names))
            real = not phases
            cr, ci = F(c) * _cos_pi(pi), F(c) * _sin_pi(pi)
            # (cr + i ci) * (x + i y)
            x = z3.Real('m%d' % i)
            y = None if real else z3.Real('n%d' % i)
            a, b = (ci, cr) if im else (cr, -ci)
            if a:
                ts.append(q2z(a) * x)
            if b and y is not None:
                ts.append(q2z(b) * y)
        return z3.Sum(ts) if ts else q2z(0)
    ne = []
    for a, b in pairs:
        if not a.p and not b.p:
            continue
        ne.append(term(a, False) != term(b, False))
        if not (a.is_real() and b.is_real()):
            ne.append(term(a, True) != term(b, True))
    if not ne:
        return None
    s = z3.Solver()
    s.add(z3.Or(ne))
    return run_check(s, 5000)


class PathSolver:
    """incremental layer-1 solver following one execution path"""
    shared = None       # Encoder shared across the paths of one harness

    def __init__(self, shared):
        self.enc = shared
        self.solver = z3.SolverFor('QF_LIRA') if False else z3.Solver()
        self.nfacts = 0
        self.pc = []
        self.asserted = 0

    def add(self, f):
        self.pc.append(f)

    def _sync(self, extra=None):
        zs = [self.enc.formula(f) for f in self.pc[self.asserted:]]
        ze = self.enc.formula(extra) if extra is not None else None
        self.enc.flush()
        return zs, ze

    def check(self, extra=None, timeout_ms=3000):
        zs, ze = self._sync(extra)
        # facts are path independent (definitions): assert those reached so far
        for fct in self.enc.facts[self.nfacts:]:
            self.solver.add(fct)
        self.nfacts = len(self.enc.facts)
        for z in zs:
            self.solver.add(z)
        self.asserted = len(self.pc)
        if ze is None:
            return run_check(self.solver, timeout_ms)
        self.solver.push()
        self.solver.add(ze)
        r = run_check(self.solver, timeout_ms)
        if r == z3.sat and False:
            pass
        self.solver.pop()
        return r


def check_l2(formulas, timeout_ms, want_model=True):
    """one-shot nonlinear check; returns (result, model-dict or None)"""
    STATS.l2 += 1
    enc = Encoder(2)
    enc.prepare(formulas)
    s = z3.SolverFor('QF_NRA') if not any(
        v.is_int for v in P.REG.vars) else z3.Solver()
    try:
        zs = [enc.formula(f) for f in formulas]
        enc.flush()
    except AssertionError:
        return z3.unknown, None
    for x in enc.facts:
        s.add(x)
    for z in zs:
        s.add(z)
    r = run_check(s, timeout_ms)
    if r != z3.sat or not want_model:
        return r, None
    m = s.model()
    vals = {}

    def num(t):
        x = m.eval(t, model_completion=True)
        if z3.is_algebraic_value(x):
            x = x.approx(20)
        if z3.is_rational_value(x) or z3.is_int_value(x):
            return float(x.as_fraction()) if not z3.is_int_value(x) \
                else float(x.as_long())
        return 0.0
    for vid, t in list(enc.vars.items()):
        if isinstance(vid, tuple):
            continue
        vals[P.REG.vars[vid].name] = num(t)
    atoms = {}
    for a, (q, c, sn) in enc.bases.items():
        if a:
            atoms[a] = (q, math.atan2(num(sn), num(c)))
    return r, (vals, atoms)


def l1_model(formulas, timeout_ms=3000):
    enc = Encoder(1)
    s = z3.Solver()
    zs = [enc.formula(f) for f in formulas]
    enc.flush()
    for x in enc.facts:
        s.add(x)
    for z in zs:
        s.add(z)
    r = run_check(s, timeout_ms)
    if r != z3.sat:
        return r, None
    m = s.model()
    vals = {}
    for vid, t in enc.vars.items():
        x = m.eval(t, model_completion=True)
        if z3.is_algebraic_value(x):
            x = x.approx(20)
        try:
            vals[P.REG.vars[vid].name] = float(x.as_fraction())
        except Exception:
            vals[P.REG.vars[vid].name] = 0.0
    return r, vals
