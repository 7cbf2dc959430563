"""Path exploration, obligations, witness search, and concrete replay."""
import contextlib
import inspect
import itertools
import json
import math
import os
import random
import statistics
import subprocess
import sys
import time
import traceback
from fractions import Fraction as F

import numpy as np
import scipy.stats
import z3

from . import poly as P
from . import npfacade as NF
from . import rand as R
from . import solver as S
from . import symarr as A
from .poly import Sym, SymBool, Unsupported


class PathAbort(BaseException):
    """the current path is infeasible or cut"""


class Cut(BaseException):
    """harness-requested end of path"""


class DrawBudget(BaseException):
    """concrete run consumed too many random draws: it does not terminate"""


def snap_env(env):
    return {k: v for k, v in env.items() if isinstance(k, str)}


# --------------------------------------------------------------------------
# numeric evaluation of formulas

def feval(f, env, margin=0.0):
    """truth of f under env; margin>0 asks for robust truth (+) """
    t = f[0]
    if t == 'true':
        return True
    if t == 'false':
        return False
    if t == 'le':
        return f[1].eval(env).real <= 1e-12 - margin
    if t == 'lt':
        return f[1].eval(env).real < -margin
    if t == 'eq':
        return abs(f[1].eval(env).real) <= 1e-9
    if t == 'eqc':
        return abs(f[1].eval(env)) <= 1e-9
    if t == 'not':
        g = f[1]
        if g[0] in ('eq', 'eqc'):
            return abs(g[1].eval(env)) > 1e-9 + margin
        return not feval(g, env)
    if t == 'and':
        return all(feval(g, env, margin) for g in f[1])
    if t == 'or':
        return any(feval(g, env, margin) for g in f[1])
    if t == 'sumif':
        tot = 0.0
        for c, m in f[1]:
            if feval(c, env):
                tot += m.eval(env).real
        return abs(tot - f[2].eval(env).real) <= float(f[3])
    raise AssertionError(t)


def fkey(f):
    t = f[0]
    if t in ('le', 'lt', 'eq', 'eqc'):
        return (t, P.key_of(f[1].p))
    if t == 'not':
        return (t, fkey(f[1]))
    if t in ('and', 'or'):
        return (t, tuple(fkey(g) for g in f[1]))
    return (t,)


_bv_cache = {}


def base_vars_var(vid, seen=None):
    v = P.REG.vars[vid]
    if v.kind in ('input', 'draw', 'clock'):
        return frozenset([vid])
    if v.kind == 'const':
        return frozenset()
    # defined: through its argument; approximated by the key's monomials
    return frozenset(['*'])


_deps = {}


def base_deps(vid):
    """ids of the inputs, draws and clock readings a variable is made of"""
    v = P.REG.vars[vid]
    if v.kind in ('input', 'draw', 'clock'):
        return frozenset([vid])
    if v.kind == 'const':
        return frozenset()
    k = (id(P.REG), vid)
    if k in _deps:
        return _deps[k]
    _deps[k] = frozenset()
    out = set()

    def walk(x, depth=0):
        if isinstance(x, Sym):
            for m in x.p:
                reals, phases, _ = P.mono(m)
                for w, _e in reals:
                    out.update(base_deps(w))
                for a, _e in phases:
                    for w, _k in a:
                        out.update(base_deps(w))
        elif isinstance(x, (list, tuple)) and depth < 4:
            for y in x:
                walk(y, depth + 1)
        elif isinstance(x, np.ndarray) and x.dtype == object:
            for y in x.flat:
                walk(y, depth + 1)
        elif callable(x) and hasattr(x, '__closure__') and depth < 4:
            for c in x.__closure__ or ():
                walk(c.cell_contents, depth + 1)
            walk(x.__defaults__ or (), depth + 1)
    walk(v.evalfn)
    for f in v.side:
        for w in formula_vars(f):
            if w != vid:
                out.update(base_deps(w))
    _deps[k] = frozenset(out)
    return _deps[k]


def poly_vars(s):
    """(linear real vars -> True, other base ids or '*')"""
    out = {}
    for m in s.p:
        reals, phases, _ = P.mono(m)
        tot = sum(e for v, e in reals if v != P.PI_ID)
        for v, e in reals:
            for b in base_vars_var(v):
                lin = (tot == 1 and e == 1 and not phases and b == v)
                out[b] = out.get(b, True) and lin
        for a, e in phases:
            for v, _k in a:
                for b in base_vars_var(v):
                    out[b] = False
    return out


def strengthen(f):
    """closeness tests replaced by the exact equality they follow from"""
    t = f[0]
    if t == 'or' and len(f[1]) == 2 and f[1][1][0] == 'le':
        g = f[1][0]
        if g[0] == 'eq':
            return g
        if g[0] == 'and':
            eqs = tuple(x for x in g[1] if x[0] == 'eq')
            if eqs and all(x[0] in ('eq', 'le') for x in g[1]):
                return ('and', eqs)
    if t == 'and':
        gs = tuple(strengthen(g) for g in f[1])
        if any(a is not b for a, b in zip(gs, f[1])):
            return ('and', gs)
    return f


def exacted(f):
    """inequalities without their tolerance: stronger, easier to divide"""
    t = f[0]
    if t == 'le' and f[1].p:
        k = P._intern(((), (), F(0)))
        c = f[1].p.get(k)
        if c is not None and -F(1, 10**6) <= c < 0 and len(f[1].p) > 1:
            return ('le', Sym({m: x for m, x in f[1].p.items() if m != k}))
    if t in ('and', 'or'):
        return (t, tuple(exacted(g) for g in f[1]))
    return f


def conj_atoms(fs):
    for f in fs:
        if f[0] == 'and':
            yield from conj_atoms(f[1])
        else:
            yield f


class Sampler:
    """rejection sampler over base variables with linear interval propagation"""

    def __init__(self, pc, names, groups, rng):
        self.rng = rng
        self.names = names          # ordered list of (var, group-or-None)
        self.groups = groups
        self.atoms = []
        self.rest = []
        for f in conj_atoms(pc):
            if f[0] in ('le', 'lt'):
                self.atoms.append((f, poly_vars(f[1])))
            self.rest.append(f)
        # relevant base variables
        self.order = names

    def draw(self, hints=None, extra=()):
        rng = self.rng
        env = {}
        hints = hints or {}
        extra_atoms = [(f, poly_vars(f[1])) for f in conj_atoms(extra)
                       if f[0] in ('le', 'lt')]
        for g, fn in self.groups.items():
            env.update(fn(rng))
        for v in self.order:
            if v.name in env:
                continue
            lo = float(v.lo) if v.lo is not None else -8.0
            hi = float(v.hi) if v.hi is not None else 8.0
            for f, pv in self.atoms + extra_atoms:
                if pv.get(v.id) is not True:
                    continue
                others = [b for b in pv if b != v.id]
                if any(b == '*' for b in others):
                    # defined variables: evaluate if their inputs are known
                    pass
                try:
                    e2 = dict(env)
                    e2 = {k: x for k, x in e2.items() if isinstance(k, str)}
                    e2[v.name] = 0.0
                    c0 = f[1].eval(dict(e2)).real
                    e2[v.name] = 1.0
                    c1 = f[1].eval(dict(e2)).real
                except KeyError:
                    continue
                except Exception:
                    continue
                k = c1 - c0
                if abs(k) < 1e-14:
                    continue
                b = -c0 / k
                if k > 0:
                    hi = min(hi, b)
                else:
                    lo = max(lo, b)
            if lo > hi:
                return None
            r = rng.random()
            if v.name in hints and r < 0.5 and lo <= hints[v.name] <= hi:
                x = hints[v.name]
            elif v.is_int:
                x = float(rng.randint(math.ceil(lo), math.floor(hi))) \
                    if math.ceil(lo) <= math.floor(hi) else None
                if x is None:
                    return None
            elif v.kind != 'draw' and r > 0.85:
                cand = [lo, hi, 0.0, math.pi, -math.pi, math.pi / 2, 1.0,
                        2 * math.pi]
                cand = [c for c in cand if lo <= c <= hi]
                x = rng.choice(cand)
            else:
                x = lo + (hi - lo) * rng.random()
                if hi - lo > 1 and rng.random() < 0.3:
                    w = min(hi - lo, 2.0)
                    c = min(max(0.0, lo), hi)
                    x = min(max(c + w * (rng.random() - 0.5), lo), hi)
            if v.kind == 'draw':
                x = min(max(x, 0.0), 1 - 2**-53)
            env[v.name] = x
        return env


# --------------------------------------------------------------------------
class Pin:
    """fixed draws for calls whose randomness does not matter"""

    def __init__(self, seed=0, upto=None, free=(), other=None):
        # draw `other` takes another value than the one of the seed
        self.other = other
        # 'low' and 'high': the first 300 draws are as equal as possible
        self.same = seed if isinstance(seed, str) else None
        self.rng = R.PyRandom(seed)
        self.n, self.upto, self.free = 0, upto, frozenset(free)

    def takes(self):
        """is the next draw a fixed one?"""
        self.n += 1
        return self.n - 1 not in self.free and (
            self.upto is None or self.n <= self.upto)

    def uniform(self):
        if self.same and self.n <= 300:
            return F(1 if self.same == 'low' else 127, 128)
        k = self.rng.randrange(64)
        if self.other == self.n - 1:
            k = (k + 32) % 64
        return F(2 * k + 1, 128)

    def choose(self, n):
        if self.same and self.n <= 300:
            return 0 if self.same == 'low' else n - 1
        return (self.rng.randrange(n) + (self.other == self.n - 1)) % n

    def haar(self, d):
        return np.roll(np.eye(d), self.rng.randrange(d), axis=0)


class Engine:
    def __init__(self, budget_s=60.0, max_paths=2000, seed=1, l2_ms=4000,
                 replay=None, tier='quick'):
        self.t0 = time.monotonic()
        self.budget_s = budget_s
        self.max_paths = max_paths
        self.rng = R.PyRandom(seed)
        self.l2_ms = l2_ms
        self.tier = tier
        self.paths = 0
        self.complete_paths = 0
        self.infeasible = 0
        self.degraded = []
        self.obligations = 0
        self.trivial = 0
        self.discharged = 0
        self.inconclusive = []
        self.conformance = 0
        self.conf_fail = []
        self.candidates = []    # violations: (label, script)
        self.reached = {}
        self.truncated = False
        self.groups = {}
        self.base_order = []
        self.replayer = replay
        self.outcomes = []
        self.dist_specs = {}
        self.spec_choices = {}
        self.samples = []
        self.choose_nodes = 0
        self.decisions_total = 0
        self.proved_keys = set()
        self.always_cache = {}

    # ---- one path --------------------------------------------------------
    def start_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.alts = []
        self.solver = S.PathSolver(self.encoder)
        self.pc = self.solver.pc
        self.n_u = 0
        self.n_c = 0
        self.n_t = 0
        self.script = []        # ('u', name) | ('c', index)
        self.draw_limit = None
        self.pin = None
        self.one_order = False
        self.soft_strings = False
        self.fixed = None       # stream of the generator in use if seeded
        self.seeded = {}        # module: stream after seeding it
        self.draw_log = []      # (kind, n, value) of every fresh draw
        self.rpos = 0
        self.weights = []       # measure of the choices: Sym
        self.draw_weights, self.reweighted = {}, []
        self.udraws = []
        self.inputs_chosen = []
        self.known = {}
        self.last_clock = None
        self.path_checks = []

    def over(self):
        return time.monotonic() - self.t0 > self.budget_s

    def _add(self, f):
        self.solver.add(f)
        self.known[fkey(f)] = True

    def _feasible(self, f):
        r = self.solver.check(f)
        return r != z3.unsat

    def strip(self, f):
        """divide an inequality by factors known to be positive"""
        if f[0] == 'not':
            g = self.strip(f[1])
            return f if g is f[1] else P.simp(('not', g))
        if f[0] not in ('le', 'lt') or not f[1].p:
            return f
        common = None
        for m in f[1].p:
            reals = {v: e for v, e in P.mono(m)[0]}
            if common is None:
                common = dict(reals)
            else:
                common = {v: e for v, e in common.items()
                          if reals.get(v) == e}
            if not common:
                return f
        s = f[1]
        for vid, e in common.items():
            if P.REG.vars[vid].lo is not None and P.REG.vars[vid].lo > 0:
                s = s * P._power_of(vid, -e)
                continue
            den = P.REG.inverse_of.get(vid)
            if den is None:
                continue
            g = P.simp(('le', den))
            if g[0] == 'false' or (g[0] != 'true' and
                                   not self._feasible(g)):
                s = s * P._power_of(vid, -e)
        return f if s is f[1] else P.simp((f[0], s))

    def strip_all(self, f):
        if f[0] in ('and', 'or'):
            return (f[0], tuple(self.strip_all(g) for g in f[1]))
        return self.strip(f)

    def decide(self, f):
        f = self.strip(P.simp(f))
        if f[0] == 'true':
            return True
        if f[0] == 'false':
            return False
        nf = P.simp(('not', f))
        if self.known.get(fkey(f)):
            return True
        if self.known.get(fkey(nf)):
            return False
        self.decisions_total += 1
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(b)
            self._add(f if b == 0 else nf)
            return b == 0
        if self.over():
            self.truncated = True
            raise PathAbort('budget')
        if len(self.trail) > 4000:
            raise Unsupported('path too long')
        g = strengthen(f)
        if g is not f and not self._feasible(P.simp(('not', g))):
            # the stronger exact form already holds on this path
            self.trail.append(0)
            self.pos += 1
            self.known[fkey(f)] = True
            self._add(g)
            return True
        a = self._feasible(f)
        if not a:
            b = self._feasible(nf)
            if not b:
                raise PathAbort('infeasible')
            # forced: no trail entry is recorded
            self._add(nf)
            # still record so that replays of the prefix stay aligned
            self.trail.append(1)
            self.pos += 1
            return False
        b = self._feasible(nf)
        if b:
            self.alts.append(self.trail + [1])
        self.trail.append(0)
        self.pos += 1
        self._add(f)
        return True

    def choose(self, n, weights=None, kind='c', label=None):
        """n-ary choice; every index is explored"""
        if kind == 'c' and self.fixed is not None:
            return R.pick(F(self.fixed.random()), weights or [F(1, n)] * n,
                          lambda u, t: self.decide(P.cmp_lt(
                              Sym.of(u), Sym.of(t)).f))
        if kind == 'c' and n > 1 and self.pin is not None and \
                self.pin.takes():
            ok = [i for i in range(n) if weights is None or
                  self.strip(P.simp(('lt', -Sym.of(weights[i]))))[0] ==
                  'true']
            if ok:
                return ok[self.pin.choose(len(ok))]
        elif kind == 'c':
            at = self.rpos
            old = self.reuse('c', n)
            if old is not None:
                self.reweighted.append((self.draw_weights.get(at), Sym.of(
                    F(1, n)) if weights is None else Sym.of(weights[old])))
                return old
            self.draw_guard()
        self.choose_nodes += 1
        opts = []
        for i in range(n):
            if weights is None:
                opts.append((i, None))
            else:
                w = Sym.of(weights[i])
                f = self.strip(P.simp(('lt', -w)))
                if f[0] == 'false':
                    continue
                opts.append((i, f))
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
        else:
            if self.over():
                self.truncated = True
                raise PathAbort('budget')
            feas = []
            for j, (i, f) in enumerate(opts):
                if f is None or f[0] == 'true' or self._feasible(f):
                    feas.append(j)
            if not feas:
                raise PathAbort('infeasible')
            k = feas[0]
            for j in reversed(feas[1:]):
                self.alts.append(self.trail + [j])
        self.trail.append(k)
        self.pos += 1
        i, f = opts[k]
        if f is not None and f[0] != 'true':
            self._add(f)
        if kind == 'c':
            self.script.append(('c', i))
            self.weights.append(Sym.of(F(1, n)) if weights is None
                                else Sym.of(weights[i]))
            self.draw_weights[len(self.draw_log)] = self.weights[-1]
            self.log_draw('c', n, i)
        else:
            self.inputs_chosen.append((label, i))
        return i

    def draw_guard(self):
        if self.draw_limit is not None and len(self.script) >= \
                self.draw_limit:
            raise Cut()

    def log_draw(self, kind, n, value):
        self.draw_log.append((kind, n, value))
        self.rpos = len(self.draw_log)

    def reuse(self, kind, n):
        """next draw of a rerun with the same randomness"""
        if self.rpos < len(self.draw_log):
            k, m, x = self.draw_log[self.rpos]
            if (k, m) == (kind, n):
                self.rpos += 1
                return x
            self.rpos = len(self.draw_log)
        return None

    def uniform(self):
        if self.fixed is not None:
            return Sym.of(F(self.fixed.random()))
        if self.pin is not None and self.pin.takes():
            return Sym.of(self.pin.uniform())
        old = self.reuse('u', 0)
        if old is not None:
            return old
        self.draw_guard()
        name = 'u%d' % self.n_u
        self.n_u += 1
        v = P.REG.by_name.get(name)
        if v is None:
            v = P.REG.new(name, F(0), F(1), kind='draw')
            self.base_order.append(v)
        x = Sym(P.dvar(v))
        self._add(('lt', x - 1))
        self.script.append(('u', name))
        self.log_draw('u', 0, x)
        self.udraws.append(v)
        return x

    def clock(self):
        name = 't%d' % self.n_t
        self.n_t += 1
        v = P.REG.by_name.get(name)
        if v is None:
            v = P.REG.new(name, F(0), F(10**6), kind='clock')
            self.base_order.append(v)
        x = Sym(P.dvar(v))
        if self.last_clock is not None:
            self._add(('le', self.last_clock - x))
        self.last_clock = x
        return x

    def spend(self, x):
        """at least x passes before the next reading of the clock"""
        if self.last_clock is None:
            self.clock()
        self.last_clock = self.last_clock + x

    @staticmethod
    def constant_haar(d, seed):
        return _HAAR(d, random_state=seed)

    def haar(self, d):
        if d == 1:
            u = self.uniform()
            return A.to_sym(np.array([[P.exp_(
                2 * P.imag_unit() * Sym(P.dvar(P.REG.vars[0])) * u)]],
                dtype=object))
        if self.pin is not None and self.pin.takes():
            return A.to_sym(self.pin.haar(d))
        old = self.reuse('h', d)
        if old is not None:
            return old.copy()
        self.draw_guard()
        name = 'h%d_%d' % (self.n_c, d)
        self.n_c += 1
        self.script.append(('h', name, d))
        u = self.unitary(name, d)
        self.log_draw('h', d, u)
        return u.copy()

    def index(self, s):
        """symbolic integer used as an index"""
        if s.is_const():
            x = P.round_const(s.const_value().real)
            if int(x) == x:
                return int(x)
            raise TypeError('float as index')
        if NF.eng_is_int(s):
            (m, c), = s.p.items()
            v = P.REG.vars[P.mono(m)[0][0][0]]
            if v.lo is not None and v.hi is not None:
                for k in range(math.ceil(v.lo), math.floor(v.hi)):
                    if self.decide(('eq', s - k)):
                        return k
                return math.floor(v.hi)
            for k in itertools.chain(range(17), range(-1, -5, -1)):
                if self.decide(('eq', s - k)):
                    return k
        raise Unsupported('symbolic index')

    # ---- inputs ----------------------------------------------------------
    def real(self, name, lo=None, hi=None, is_int=False):
        v = P.REG.by_name.get(name)
        if v is None:
            v = P.REG.new(name, None if lo is None else F(lo),
                          None if hi is None else F(hi), is_int=is_int)
            v.declared = (lo, hi)
            self.base_order.append(v)
        elif getattr(v, 'declared', (lo, hi)) != (lo, hi):
            raise AssertionError('two ranges for ' + name)
        return Sym(P.dvar(v))

    def unitary(self, name, d):
        """arbitrary d x d unitary"""
        if d == 2:
            pi = F('3.1416')
            a = self.real(name + '.a', -pi, pi)
            b = self.real(name + '.b', -pi, pi)
            c = self.real(name + '.c', -pi, pi)
            g = self.real(name + '.g', -pi, pi)
            I = P.imag_unit()
            ph = P.exp_(I * g)
            co, si = P.cos_(a), P.sin_(a)
            e1, e2 = P.exp_(I * b), P.exp_(I * c)
            return A.to_sym(np.array(
                [[ph * co * e1, -(ph * si * e2.conjugate())],
                 [ph * si * e2, ph * co * e1.conjugate()]], dtype=object))
        if d == 1:
            return A.to_sym(np.array([[P.exp_(P.imag_unit() * self.real(
                name + '.g', F('-3.1416'), F('3.1416')))]], dtype=object))
        new = (name, ('in', d)) not in NF._UNI
        before = len(P.REG.vars)
        U = NF.opaque_unitary(name, ('in', d), d, kind='input')
        if new:
            names = [v.name for v in P.REG.vars[before:]]
            vs = P.REG.vars[before:]
            self.base_order.extend(vs)

            def fn(rng, names=names, d=d):
                u = scipy.stats.unitary_group.rvs(
                    d, random_state=rng.randrange(2**31))
                if rng.random() < 0.3:
                    u = np.linalg.qr(np.round(u * 2))[0] if rng.random() < .3 \
                        else np.diag(np.exp(2j * math.pi * np.array(
                            [rng.random() for _ in range(d)])))
                out = {}
                for k, (i, j) in enumerate(np.ndindex(d, d)):
                    out[names[2 * k]] = float(u[i, j].real)
                    out[names[2 * k + 1]] = float(u[i, j].imag)
                return out
            self.groups[name] = fn
        return U

    # ---- obligations -----------------------------------------------------
    def check(self, cond, label, info=None, lemmas=()):
        self.obligations += 1
        cond = SymBool.of(cond)
        f = P.simp(cond.f)
        self.path_checks.append(label)
        if f[0] == 'true':
            r = S.identity_query(cond.raw) if cond.raw else None
            if r == z3.sat:
                self.inconclusive.append(label)
                return
            self.trivial += r is None
            self.discharged += 1
            return
        nf = P.simp(('not', f))
        neg = list(self.pc) + [nf]
        if self.solver.check(nf, timeout_ms=4000) == z3.unsat:
            self.discharged += 1
            return
        g = self.strip_all(exacted(f))
        if fkey(g) != fkey(f) and self.solver.check(P.simp(('not', g)),
                                        timeout_ms=4000) == z3.unsat:
            self.discharged += 1
            return
        # fast numeric look for a violation
        n0 = 40 if f[0] != 'false' else 80
        if self.find_violation(nf, label, n0):
            return
        for lf in lemmas:
            lf = P.simp(SymBool.of(lf).f)
            r, _ = S.check_l2(list(self.pc) + [P.simp(('not', lf))],
                              self.l2_ms, False)
            if r == z3.unsat:
                self._add(lf)
        if lemmas and self.solver.check(nf) == z3.unsat:
            self.discharged += 1
            return
        if self.time_left() > 2:
            r, m = S.check_l2(neg, min(self.l2_ms,
                                       1000 * self.time_left() / 2))
            if r == z3.unsat:
                self.discharged += 1
                return
            if r == z3.sat and m is not None:
                env = self.model_env(m)
                if env is not None and self.try_env(env, nf, label):
                    return
        if self.find_violation(nf, label, 200):
            return
        self.inconclusive.append(label)

    def time_left(self):
        return self.budget_s - (time.monotonic() - self.t0)

    def model_env(self, m):
        """base-variable values from an L2 model"""
        vals, atoms = m
        env = {}
        for v in self.base_order:
            if v.name in vals:
                env[v.name] = vals[v.name]
            else:
                env[v.name] = None
        for a, (q, ang) in atoms.items():
            if len(a) == 1 and a[0][1] == 1:
                v = P.REG.vars[a[0][0]]
                x = ang * q
                if v.name in env:
                    lo = float(v.lo) if v.lo is not None else None
                    hi = float(v.hi) if v.hi is not None else None
                    per = 2 * math.pi * q
                    if lo is not None and x < lo - 1e-9:
                        x += per * math.ceil((lo - x) / per)
                    if hi is not None and x > hi + 1e-9:
                        x -= per * math.ceil((x - hi) / per)
                    env[v.name] = x
        for v in self.base_order:
            if env[v.name] is None:
                lo = float(v.lo) if v.lo is not None else -1.0
                hi = float(v.hi) if v.hi is not None else 1.0
                env[v.name] = lo + (hi - lo) * self.rng.random()
        return env

    def holds(self, env, fs):
        try:
            e = dict(env)
            return all(feval(f, e) for f in fs)
        except (KeyError, ZeroDivisionError, ValueError, OverflowError):
            return False

    def path_vars(self):
        return self.base_order

    def find_violation(self, nf, label, tries):
        s = Sampler(self.pc, self.path_vars(), self.groups, self.rng)
        extra = [nf] if nf[0] != 'true' else []
        t_end = time.monotonic() + 3.0
        for i in range(tries):
            if time.monotonic() > t_end:
                break
            env = s.draw(extra=extra)
            if env is None:
                continue
            if self.try_env(env, nf, label):
                return True
        return False

    def try_env(self, env, nf, label):
        if not self.holds(env, self.pc):
            return False
        e = dict(env)
        try:
            if not feval(nf, e):
                return False
        except (KeyError, ZeroDivisionError, ValueError, OverflowError):
            return False
        script = self.make_script(env)
        fails = self.replayer(script)
        if fails:
            self.candidates.append({'label': label, 'fails': fails,
                                    'script': script})
            return True
        self.conf_fail.append(label)
        return False

    def make_script(self, env):
        draws = []
        for d in self.script:
            if d[0] == 'u':
                draws.append(['u', env[d[1]]])
            elif d[0] == 'c':
                draws.append(['c', d[1]])
            else:
                dim = d[2]
                if dim == 2:
                    e = dict(env)
                    U = self.unitary(d[1], 2)
                    m = [[complex(U[i, j].eval(e)) for j in range(2)]
                         for i in range(2)]
                else:
                    U = NF._UNI[(d[1], ('in', dim))]
                    e = dict(env)
                    m = [[complex(U[i, j].eval(e)) for j in range(dim)]
                         for i in range(dim)]
                draws.append(['h', [[[x.real, x.imag] for x in r]
                                    for r in m]])
        return {'inputs': {k: v for k, v in env.items()
                           if isinstance(k, str)},
                'choices': [list(x) for x in self.inputs_chosen],
                'draws': draws}

    def conform(self):
        """run one model of the finished path against the real code"""
        s = Sampler(self.pc, self.path_vars(), self.groups, self.rng)
        env = None
        for _ in range(60):
            e = s.draw()
            if e is not None and self.holds(e, self.pc):
                env = e
                break
        if env is None and self.time_left() > 3:
            r, m = S.check_l2(list(self.pc), 1500)
            if r == z3.unsat:
                self.infeasible += 1
                return None
            if m is not None:
                e = self.model_env(m)
                if self.holds(e, self.pc):
                    env = e
        if env is None:
            return False
        script = self.make_script(env)
        self.conformance += 1
        fails = self.replayer(script)
        if fails:
            self.candidates.append({'label': fails[0][0], 'fails': fails,
                                    'script': script})
        elif len(self.samples) < 3:
            self.samples.append(script)
        return True

    # ---- exploration -----------------------------------------------------
    def explore(self, harness, mods, cfg, max_conf=40):
        self.encoder = S.Encoder(1)
        NF.ENGINE['e'] = self
        P.HOOK['decide'] = self.decide
        P.HOOK['index'] = self.index
        A.UNITARY_ORACLE['fn'] = self.prove
        stack = [[]]
        nconf = 0
        while stack:
            if self.paths >= self.max_paths or self.over():
                self.truncated = True
                break
            if len(self.candidates) >= 3:
                break
            prefix = stack.pop()
            self.start_path(prefix)
            self.paths += 1
            ctx = SymCtx(self, mods, cfg)
            mods.activate()
            status = 'ok'
            try:
                harness(ctx)
                ctx.finish()
                self.complete_paths += 1
            except PathAbort as e:
                status = str(e)
                if status == 'infeasible':
                    self.infeasible += 1
            except Cut:
                self.complete_paths += 1
            except Unsupported as e:
                status = 'unsupported: %s' % e
            except RecursionError as e:
                status = 'recursion'
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                loc = ['%s:%s' % (os.path.basename(x.filename), x.lineno)
                       for x in tb[-3:]]
                status = 'exception: %s: %s @ %s' % (
                    type(e).__name__, str(e)[:200], ' '.join(loc))
                if self.time_left() > 3 and S.check_l2(
                        list(self.pc), 2500, False)[0] == z3.unsat:
                    status = 'infeasible'
                    self.infeasible += 1
            stack.extend(self.alts)
            if status in ('ok',):
                if nconf < max_conf:
                    nconf += 1
                    self.conform()
            elif status.startswith(('unsupported', 'exception', 'recursion')):
                self.degraded.append(status)
                ok = self.fallback(harness)
        return self

    def fallback(self, harness):
        """the path left the encodable fragment: run models of its prefix
        concretely (counted as inconclusive, never as proved)"""
        s = Sampler(self.pc, self.path_vars(), self.groups, self.rng)
        n = 0
        for _ in range(60):
            e = s.draw()
            if e is None or not self.holds(e, self.pc):
                continue
            script = self.make_script(e)
            self.conformance += 1
            n += 1
            fails = self.replayer(script)
            if fails:
                self.candidates.append({'label': fails[0][0], 'fails': fails,
                                        'script': script})
                return
            if n >= 12:
                return

    def always(self, f):
        """does f hold for all inputs and draws, whatever the path?"""
        k = ('always', fkey(f))
        if k not in self.always_cache:
            enc = S.Encoder(1)
            s = z3.Solver()
            z = enc.formula(('not', f))
            enc.flush()
            for x in enc.facts:
                s.add(x)
            s.add(z)
            self.always_cache[k] = S.run_check(s, 1000) == z3.unsat
        return self.always_cache[k]

    def prove(self, f):
        """is f implied by the path condition (for contracts of stubs)?"""
        f = P.simp(f)
        if f[0] == 'true':
            return True
        nf = P.simp(('not', f))
        k = fkey(f)
        if k in self.proved_keys:
            return True
        if self.solver.check(nf) == z3.unsat:
            self.proved_keys.add(k)
            return True
        r, _ = S.check_l2(list(self.pc) + [nf], 2000, False)
        if r == z3.unsat:
            self.proved_keys.add(k)
            return True
        return False


# --------------------------------------------------------------------------
class CtxBase:
    def __init__(self, mods, cfg):
        self.m = mods
        self.cfg = cfg

    def __getattr__(self, n):
        if n.startswith('_') or n in ('m', 'cfg'):
            raise AttributeError(n)
        m = self.__dict__.get('m')
        if m is not None and hasattr(m, n):
            return getattr(m, n)
        raise AttributeError(n)

    @staticmethod
    def is_number(x):
        return isinstance(x, (Sym, int, float, complex, np.number)) and \
            not isinstance(x, bool)

    def fresh(self):
        """the package as if nothing had been called"""
        self.m.fresh()

    def compare_texts(self):
        """rounded numbers in texts are equal on some paths, so that texts
        used as keys may coincide"""
        if self.symbolic:
            self._e.soft_strings = True

    def raises(self, fn, *excs):
        """True when fn() is rejected by an exception"""
        try:
            fn()
        except (excs or (Exception,)):
            return True
        return False

    # linear algebra shared by both modes ------------------------------------
    def dag(self, a):
        return a.conj().T

    @contextlib.contextmanager
    def limit_steps(self, k):
        """bound the number of compilation steps of calls that go through the
        compiler's public entry points"""
        cls, saved = self.Compiler, {}
        for n in ('compile', 'compile_layered'):
            f = getattr(cls, n, None)
            if f is None:
                continue
            sig = inspect.signature(f)
            if 'max_step_count' not in sig.parameters:
                continue

            def g(*a, _f=f, _sig=sig, **kw):
                b = _sig.bind(*a, **kw)
                b.apply_defaults()
                m = b.arguments['max_step_count']
                b.arguments['max_step_count'] = min(m, k)
                return _f(*b.args, **b.kwargs)
            saved[n] = cls.__dict__.get(n)
            setattr(cls, n, g)
        try:
            yield
        finally:
            for n, f in saved.items():
                if f is None:
                    delattr(cls, n)
                else:
                    setattr(cls, n, f)

    def prod_right_to_left(self, mats, d):
        """first matrix acts first"""
        r = self.eye(d)
        for m in mats:
            r = self.mm(m, r)
        return r

    def place(self, u, qubits, n):
        """independent placement oracle: u on the ordered qubits (qubit 0 is
        the leftmost tensor factor, first listed qubit is u's leftmost)"""
        k = len(qubits)
        N = 2 ** n
        out = self.zeros(N)
        rest = [q for q in range(n) if q not in qubits]
        for r in range(N):
            for c in range(N):
                if any(((r >> (n - 1 - q)) & 1) != ((c >> (n - 1 - q)) & 1)
                       for q in rest):
                    continue
                i = j = 0
                for q in qubits:
                    i = 2 * i + ((r >> (n - 1 - q)) & 1)
                    j = 2 * j + ((c >> (n - 1 - q)) & 1)
                out[r, c] = u[i, j]
        return out

    def dist(self, a, b):
        d = a.shape[0]
        tr = 0
        for i in range(d):
            for k in range(d):
                tr = tr + self.conj(a[k, i]) * b[k, i]
        return 1 - self.absv(tr) / d


class SymCtx(CtxBase):
    symbolic = True

    def __init__(self, eng, mods, cfg):
        super().__init__(mods, cfg)
        self._e = eng
        self.np = NF.NP
        self._probs = {}
        self.tokens = {}
        self._by_value = {}
        self._tok = itertools.count()
        P.HOOK['token'] = self._token
        P.HOOK['format'] = self._format

    # inputs
    def real(self, name, lo=None, hi=None):
        return self._e.real(name, lo, hi)

    def int_real(self, name, lo, hi):
        return self._e.real(name, lo, hi, is_int=True)

    def choice(self, name, options):
        options = list(options)
        return options[self._e.choose(len(options), None, 'i', name)]

    def unitary(self, name, d):
        return self._e.unitary(name, d)

    def matrix(self, name, d, lo=-2, hi=2):
        """arbitrary complex matrix"""
        out = np.empty((d, d), dtype=object)
        for i in range(d):
            for j in range(d):
                out[i, j] = self.real('%s_%d%d.re' % (name, i, j), lo, hi) + \
                    P.imag_unit() * self.real('%s_%d%d.im' % (name, i, j),
                                              lo, hi)
        return out.view(A.SymArray)

    def arr(self, x):
        return A.to_sym(x if not isinstance(x, list) else NF.np_array(x))

    @property
    def pi(self):
        return Sym(P.dvar(P.REG.vars[0]))

    def num(self, x):
        return Sym.of(x)

    I = property(lambda s: P.imag_unit())
    cos = staticmethod(lambda x: P.cos_(Sym.of(x)))
    sin = staticmethod(lambda x: P.sin_(Sym.of(x)))
    cexp = staticmethod(lambda x: P.exp_(Sym.of(x)))
    sqrt = staticmethod(lambda x: P.sqrt_(Sym.of(x)))
    conj = staticmethod(lambda x: Sym.of(x).conjugate())
    mm = staticmethod(A.matmul)
    kron = staticmethod(A.kron)
    expm = staticmethod(NF.expm)

    @staticmethod
    def absv(x):
        return A.abs_full(Sym.of(x))

    @staticmethod
    def rexp(x):
        return P.exp_(Sym.of(x))

    def eye(self, d):
        return A.to_sym(np.identity(d))

    def zeros(self, d):
        return A.to_sym(np.zeros((d, d)))

    def copy(self, a):
        return a.copy() if isinstance(a, np.ndarray) else a

    # conditions
    def true(self):
        return SymBool(P.TRUE)

    def eq(self, a, b, tol=1e-8):
        a, b = Sym.of(a), Sym.of(b)
        d = a - b
        if not d.p:
            return SymBool(P.TRUE, ((a, b),) if a.p else ())
        x, y = _cleared(a, b)
        if not (x - y).p:
            return SymBool(P.TRUE, ((x, y),))
        t = Sym.of(F(tol))
        fs = []
        for x in (d.real, d.imag):
            if x.p:
                fs += [('le', x - t), ('le', -x - t)]
        return SymBool(P.simp(('and', tuple(fs))))

    def le(self, a, b, tol=1e-9):
        return SymBool(P.simp(('le', Sym.of(a) - Sym.of(b) - F(tol))))

    def lt_strict(self, a, b):
        return SymBool(P.simp(('lt', Sym.of(a) - Sym.of(b))))

    def all(self, conds):
        conds = [SymBool.of(c) for c in conds]
        return SymBool(P.simp(('and', tuple(c.f for c in conds))),
                       tuple(x for c in conds for x in c.raw))

    def any(self, conds):
        return SymBool(P.simp(('or', tuple(SymBool.of(c).f for c in conds))))

    def implies(self, a, b):
        return SymBool(P.simp(('or', (('not', SymBool.of(a).f),
                                      SymBool.of(b).f))))

    def neg(self, a):
        return SymBool(P.simp(('not', SymBool.of(a).f)))

    def iff(self, a, b):
        return self.all([self.implies(a, b), self.implies(b, a)])

    def mat_eq(self, a, b, tol=1e-8):
        a, b = self.arr(a), self.arr(b)
        if a.shape != b.shape:
            return SymBool(P.FALSE)
        return self.all([self.eq(x, y, tol) for x, y in zip(a.flat, b.flat)])

    def mat_same(self, a, b):
        """equal in every entry, without tolerance"""
        a, b = self.arr(a), self.arr(b)
        if a.shape != b.shape:
            return SymBool(P.FALSE)
        return self.all([self._same_entry(Sym.of(x), Sym.of(y))
                         for x, y in zip(a.flat, b.flat)])

    def _same_entry(self, x, y):
        if x.is_const() and y.is_const():
            return SymBool(P.TRUE if x.const_value() == y.const_value()
                           else P.FALSE)
        return self.eq(x, y, 0)

    def near(self, a, b, tol):
        """|a - b| <= tol, as a statement about the squared modulus"""
        d = Sym.of(a) - Sym.of(b)
        t = F(tol)
        if d.is_real():
            return SymBool(P.simp(('and', (('le', d - t), ('le', -d - t)))))
        return SymBool(P.simp(('le', d * d.conjugate() - t * t)))

    def mat_near(self, a, b, tol):
        a, b = self.arr(a), self.arr(b)
        if a.shape != b.shape:
            return SymBool(P.FALSE)
        return self.all([self.near(x, y, tol)
                         for x, y in zip(a.flat, b.flat)])

    def phase_eq(self, a, b, tol=1e-7):
        """a == lambda * b with |lambda| == 1 for unitary a, b"""
        a, b = self.arr(a), self.arr(b)
        if a.shape != b.shape:
            return SymBool(P.FALSE)
        n = a.shape[0]
        pa, pb = a.view(np.ndarray), b.view(np.ndarray)
        # proportionality with a fixed pivot: if every cross product vanishes
        # identically, a = (a_p/b_p) b on the dense open set b_p != 0 and, by
        # continuity, everywhere
        ok = all(bool(Sym.of(pa[i]).p) == bool(Sym.of(pb[i]).p)
                 for i in np.ndindex(n, n))
        piv = [i for i in np.ndindex(n, n)
               if Sym.of(pa[i]).p and Sym.of(pb[i]).p]
        if ok and piv:
            piv.sort(key=lambda i: len(pa[i].p) * len(pb[i].p))
            p = piv[0]
            cost = len(pa[p].p) + len(pb[p].p)
            if cost < 400:
                raw = [_cleared(pa[i] * pb[p], pa[p] * pb[i]) for i in piv]
                ok = all(not (x - y).p for x, y in raw)
                if ok:
                    i = p[0]
                    na = Sym.of(0)
                    nb = Sym.of(0)
                    for j in range(n):
                        na = na + pa[i, j] * Sym.of(pa[i, j]).conjugate()
                        nb = nb + pb[i, j] * Sym.of(pb[i, j]).conjugate()
                    na, nb = _cleared(na, nb)
                    if not (na - nb).p:
                        return SymBool(P.TRUE, tuple(raw) + ((na, nb),))
        w = A.matmul(a, b.conj().T)
        cs = []
        for i in range(n):
            for j in range(n):
                if i != j:
                    cs.append(self.eq(w[i, j], 0, tol))
                elif i:
                    cs.append(self.eq(w[i, i], w[0, 0], tol))
        cs.append(self.eq(w[0, 0] * w[0, 0].conjugate(), 1, tol))
        return self.all(cs)

    def identical(self, a, b):
        """equal up to a phase for all values of the inputs (used to
        classify, never to decide a check)"""
        return SymBool.of(self.phase_eq(a, b)).f[0] == 'true'

    def specnorm(self, a):
        """largest singular value"""
        return A.specnorm(self.arr(a))

    def is_unitary(self, a, tol=1e-7):
        a = self.arr(a)
        return self.mat_eq(A.matmul(a, a.conj().T), self.eye(a.shape[0]), tol)

    def det_one(self, a, tol=1e-7):
        return self.eq(A.det(a), 1, tol)

    def decide(self, c):
        return bool(SymBool.of(c))

    def assume(self, c):
        f = P.simp(SymBool.of(c).f)
        if f[0] == 'true':
            return
        if f[0] == 'false':
            raise PathAbort('assumption')
        if self._e.pos >= len(self._e.prefix):
            if not self._e._feasible(f):
                raise PathAbort('infeasible')
        self._e._add(f)

    def check(self, cond, label, lemmas=()):
        self._e.check(cond, label, lemmas=lemmas)

    def sq(self, e):
        """tell the solver that |e|^2 >= 0"""
        e = Sym.of(e)
        f = P.simp(('le', -(e * e.conjugate())))
        if f[0] != 'true':
            self._e._add(f)

    def reach(self, label):
        self._e.reached[label] = self._e.reached.get(label, 0) + 1

    def cut(self):
        raise Cut()

    def fail(self, label):
        self._e.check(SymBool(P.FALSE), label)

    def draws(self):
        return len(self._e.script)

    def haar_draws(self):
        """unitaries drawn so far from the library's uniform law"""
        return [x for k, n, x in self._e.draw_log if k == 'h']

    def sure(self, cond):
        f = P.simp(SymBool.of(cond).f)
        return f == P.TRUE or self._e.solver.check(
            P.simp(('not', f)), timeout_ms=1000) == z3.unsat

    def continuous(self, make):
        """does the number vary with a continuous draw?"""
        x = Sym.of(make())
        if P.depends_on_draw(x.p):
            return SymBool(P.TRUE)
        return SymBool(P.FALSE)

    def spread(self, make, d):
        """left to runs of the real code"""
        return SymBool(P.FALSE)

    def spend(self, x):
        self._e.spend(Sym.of(x))

    def clock(self):
        return self._e.clock()

    def mark(self):
        return len(self._e.draw_log)

    def limit_draws(self, n):
        """executions that draw more than n times are outside the bound"""
        self._e.draw_limit = n

    def reweighted(self):
        """probabilities of the choices that were drawn again: at first, now"""
        return [x for x in self._e.reweighted if x[0] is not None]

    def rewind(self, k):
        """the randomness drawn since mark k is drawn again"""
        self._e.rpos = k
        self._e.seeded = {}

    @contextlib.contextmanager
    def one_order(self):
        """shuffles and permutations have one outcome only"""
        self._e.one_order = True
        try:
            yield
        finally:
            self._e.one_order = False

    @contextlib.contextmanager
    def pinned(self, seed=0):
        """calls whose draws take one fixed sequence of values"""
        self._e.pin = Pin(seed)
        try:
            yield
        finally:
            self._e.pin = None

    @contextlib.contextmanager
    def held(self, seed=0, upto=None, free=(), other=None):
        """calls whose draws take fixed values: the first `upto` ones, and
        those not in `free`; the fixed values are kept in runs with real
        generators as well, unless some are free"""
        self._e.pin = Pin(seed, upto, free, other)
        try:
            yield self._e.pin
        finally:
            self._e.pin = None

    def once(self, key, f):
        """a result that repeated runs of the harness share"""
        return f()

    # path measures
    def outcome(self, spec, key):
        """record that this path yields `key` for the random experiment"""
        self._probs[spec] = key

    def expect(self, spec, probs, tol=1e-6):
        """declare the probabilities of the outcomes of an experiment"""
        if spec not in self._e.dist_specs:
            self._e.dist_specs[spec] = (dict(probs), tol)

    def finish(self):
        for spec, key in self._probs.items():
            self._e.outcomes.append((spec, key) + self.measure())
            self._e.spec_choices.setdefault(
                spec, [list(x) for x in self._e.inputs_chosen])

    def measure(self):
        """(condition on the inputs, probability of this path given them)"""
        e = self._e
        draws = {v.id for v in e.udraws}
        lows = {v.id: [Sym.of(0)] for v in e.udraws}
        highs = {v.id: [Sym.of(1)] for v in e.udraws}
        never = False
        for f in conj_atoms(list(e.pc)):
            vs = formula_vars(f)
            deps = set()
            for v in vs:
                deps |= base_deps(v)
            if not deps & draws:
                continue
            if e.always(f):
                continue
            hit = vs & draws
            g = f[1] if f[0] == 'not' else f
            if g[0] in ('eq', 'eqc') and hit and not any(
                    base_deps(v) & draws for v in vs - draws):
                # equality with a continuous draw has probability zero
                if f[0] == 'not':
                    continue
                never = True
                continue
            if len(hit) != 1 or f[0] not in ('le', 'lt') or \
                    deps & draws != hit:
                raise Unsupported('path measure: joint condition on draws %r' % (f,))
            vid, = hit
            m = P._intern((((vid, 1),), (), F(0)))
            c = f[1].p.get(m)
            if c is None or poly_vars(f[1]).get(vid) is not True:
                raise Unsupported('path measure: nonlinear draw condition')
            rest = Sym({k: x for k, x in f[1].p.items() if k != m})
            if any(vid in base_deps(v) for v in formula_vars(
                    ('le', rest))):
                raise Unsupported('path measure: nonlinear draw condition')
            b = -rest * (F(1) / F(c))
            (highs if c > 0 else lows)[vid].append(b)
        w = Sym.of(0 if never else 1)
        for x in e.weights:
            w = w * x
        for v in e.udraws:
            lo, hi = lows[v.id], highs[v.id]
            l = lo[0]
            for x in lo[1:]:
                l = x if bool(x >= l) else l
            h = hi[0]
            for x in hi[1:]:
                h = x if bool(x <= h) else h
            if not bool(l <= h):
                raise PathAbort('empty interval')
            w = w * (h - l)
        cond = []
        for f in conj_atoms(list(e.pc)):
            if any(base_deps(v) & draws for v in formula_vars(f)):
                continue
            cond.append(f)
        return (('and', tuple(cond)), w)

    # strings
    def _token(self, s):
        k = P._key(s.p)
        if k in self._by_value:
            return self._by_value[k]
        if self._e.soft_strings and s.is_soft():
            for t, o in self.tokens.items():
                if o.is_soft() and bool(s == o):
                    self._by_value[k] = t
                    return t
        t = '\u27e6%d\u27e7' % next(self._tok)
        self.tokens[t] = s
        self._by_value[k] = t
        return t

    def _format(self, s, spec):
        if spec == '':
            return self._token(s)
        import re
        m = re.fullmatch(r'[-+ ]?0?\d*\.(\d+)f', spec)
        if m:
            return self._token(P.round_(s, int(m.group(1))))
        raise Unsupported('format spec ' + spec)

    def number(self, text):
        """value of a number printed by the code"""
        text = text.strip()
        if text in self.tokens:
            return self.tokens[text]
        return Sym.of(float(text))

    NUM = r'(?:\u27e6\d+\u27e7|-?\d+(?:\.\d+)?(?:e[-+]?\d+)?)'


def _cleared(x, y):
    """both sides times a power of the (positive) roots in denominators"""
    x, y = Sym.of(x), Sym.of(y)
    d = x - y
    if not d.p:
        return x, y
    for c in P.clear_roots(d) or ():
        x, y = x * c, y * c
    return x, y


def formula_vars(f):
    out = set()
    t = f[0]
    if t in ('le', 'lt', 'eq', 'eqc'):
        for m in f[1].p:
            reals, phases, _ = P.mono(m)
            out.update(v for v, _e in reals)
            for a, e in phases:
                out.update(v for v, _k in a)
    elif t == 'not':
        out |= formula_vars(f[1])
    elif t in ('and', 'or'):
        for g in f[1]:
            out |= formula_vars(g)
    return out


# --------------------------------------------------------------------------
# concrete mode

class ConcDraws:
    """scripted randomness for the untouched code"""

    def __init__(self, draws, seed=0, budget=20000, free=False):
        self.q = list(draws)
        self.i = 0
        self.rng = R.PyRandom(seed)
        self.used = 0
        self.budget = budget
        self.free = free
        self.diverged = False
        self.log = []
        self.weights, self.reweighted = {}, []
        self.rpos = 0
        self.limit = None
        self.pin = None
        self.one_order = False
        self.fixed = None
        self.seeded = {}

    def _log(self, kind, n, value):
        self.log.append((kind, n, value))
        self.rpos = len(self.log)
        return value

    def _reuse(self, kind, n):
        if self.rpos < len(self.log):
            k, m, x = self.log[self.rpos]
            if (k, m) == (kind, n):
                self.rpos += 1
                return x
            self.rpos = len(self.log)
        return None

    def _next(self, kind):
        if self.limit is not None and self.used >= self.limit:
            raise Cut()
        self.used += 1
        if self.used > self.budget:
            raise DrawBudget()
        if self.free:
            return None
        if self.i < len(self.q) and self.q[self.i][0] == kind:
            self.i += 1
            return self.q[self.i - 1][1]
        if self.i < len(self.q):
            self.diverged = True
            # skip to the next entry of the right kind
            for j in range(self.i, len(self.q)):
                if self.q[j][0] == kind:
                    self.i = j + 1
                    return self.q[j][1]
        self.diverged = True
        return None

    def uniform(self):
        if self.fixed is not None:
            return self.fixed.random()
        if self.pin is not None and self.pin.takes():
            return float(self.pin.uniform())
        x = self._reuse('u', 0)
        if x is not None:
            return x
        x = self._next('u')
        return self._log('u', 0, self.rng.random() if x is None else float(x))

    def choose(self, n, w=None):
        if self.fixed is not None:
            return R.pick(self.fixed.random(), w or [1 / n] * n,
                          lambda u, t: u < t)
        if n > 1 and self.pin is not None and self.pin.takes():
            ok = [i for i in range(n) if w is None or w[i] > 0]
            if ok:
                return ok[self.pin.choose(len(ok))]
        at = self.rpos
        i = self._reuse('c', n)
        if i is not None:
            self.reweighted.append((
                self.weights.get(at), 1 / n if w is None else float(w[i])))
            return i
        i = self._next('c')
        if i is None or i >= n or (w is not None and not w[i] > 0):
            if w is None:
                i = self.rng.randrange(n)
            else:
                w = [max(float(x), 0.0) for x in w]
                i = self.rng.choices(range(n), weights=w)[0]
        self.weights[len(self.log)] = 1 / n if w is None else float(w[i])
        return self._log('c', n, i)

    def haar(self, d):
        if self.pin is not None and self.pin.takes():
            return self.pin.haar(d)
        old = self._reuse('h', d)
        if old is not None:
            return old.copy()
        x = self._next('h')
        if x is not None:
            m = np.array([[complex(a, b) for a, b in r] for r in x])
            if m.shape == (d, d):
                return self._log('h', d, m).copy()
        return self._log('h', d, _HAAR(d, random_state=self.rng.randrange(
            2**31))).copy()


_HAAR = scipy.stats.unitary_group.rvs
_CHOICE = np.random.RandomState(0).choice


class ConcRand:
    """replacement functions installed into numpy.random / random"""

    def __init__(self, d):
        self.d = d

    def random_sample(self, size=None):
        return self._u(size, 0.0, 1.0)

    def rand(self, *shape):
        return self._u(shape or None, 0.0, 1.0)

    def standard_normal(self, size=None, *a, **k):
        return self.normal(0.0, 1.0, size)

    def randn(self, *shape):
        return self.normal(0.0, 1.0, shape or None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        inv = np.vectorize(lambda u: statistics.NormalDist().inv_cdf(
            min(max(u, 1e-12), 1 - 1e-12)))
        x = loc + scale * inv(self._u(size, 0.0, 1.0))
        return float(x) if size is None else x

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._u(size, low, high)

    def _u(self, size, lo, hi):
        if size is None:
            return lo + (hi - lo) * self.d.uniform()
        a = np.empty(size)
        for i in np.ndindex(*a.shape):
            a[i] = lo + (hi - lo) * self.d.uniform()
        return a

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if high <= low:
            raise ValueError('low >= high')
        if size is None:
            return int(low) + self.d.choose(int(high) - int(low))
        a = np.empty(size, dtype=int)
        for i in np.ndindex(*a.shape):
            a[i] = int(low) + self.d.choose(int(high) - int(low))
        return a

    def integers(self, low, high=None, size=None, **k):
        return self.randint(low, high, size)

    def choice(self, a, size=None, replace=True, p=None, axis=0,
               shuffle=True):
        _CHOICE(a, size, replace, p)        # numpy's own validation
        if isinstance(a, (int, np.integer)):
            n, arr = int(a), None
        else:
            arr = np.array(a)
            n = len(arr)
        shape = None if size is None else (
            (int(size),) if isinstance(size, (int, np.integer))
            else tuple(size))
        k = 1 if shape is None else int(np.prod(shape))
        ps = None if p is None else [float(x) for x in p]
        idx = []
        for _ in range(k):
            av = [i for i in range(n) if replace or i not in idx]
            w = None
            if ps is not None:
                w = [ps[i] for i in av]
                if not replace and idx:
                    s = sum(w)
                    w = [x / s for x in w]
            idx.append(av[self.d.choose(len(av), w)])
        if shape is None:
            return arr[idx[0]] if arr is not None else idx[0]
        ii = np.array(idx, dtype=int).reshape(shape)
        return arr[ii] if arr is not None else ii

    def _perm(self, n):
        if self.d.one_order:
            return list(range(1, n)) + list(range(min(n, 1)))
        rest = list(range(n))
        out = []
        while rest:
            i = self.d.choose(len(rest)) if len(rest) > 1 else 0
            out.append(rest.pop(i))
        return out

    def permutation(self, x):
        x = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        return x[np.array(self._perm(len(x)), dtype=int)]

    def shuffle(self, x, axis=0):
        ys = [x[i] for i in self._perm(len(x))]
        for i, y in enumerate(ys):
            x[i] = y

    # python's random module
    def py_random(self):
        return self.d.uniform()

    def py_uniform(self, a, b):
        return a + (b - a) * self.d.uniform()

    def py_randint(self, a, b):
        return a + self.d.choose(b - a + 1)

    def py_randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return r[self.d.choose(len(r))]

    def py_choice(self, seq):
        return seq[self.d.choose(len(seq))]

    def py_choices(self, population, weights=None, *, cum_weights=None, k=1):
        pop = list(population)
        w = None
        if weights is not None:
            t = sum(weights)
            w = [x / t for x in weights]
        return [pop[self.d.choose(len(pop), w)] for _ in range(k)]

    def py_sample(self, population, k, **kw):
        pop = list(population)
        out = []
        for _ in range(k):
            out.append(pop.pop(self.d.choose(len(pop))))
        return out


class Patched:
    """context manager: scripted randomness in the real modules"""

    def __init__(self, draws):
        self.draws = draws
        self.r = ConcRand(draws)
        self.inst = R.Installed()

    def call(self, kind, n, real, a, k, stream=None):
        if n == 'seed':
            self.draws.seeded[kind] = R.stream(a[0] if a else k.get(
                'seed', k.get('a')))
            return None
        self.draws.fixed = stream or self.draws.seeded.get(kind)
        if n in ('random', 'ranf', 'sample') and kind == 'np':
            n = 'random_sample'
        if kind == 'py' and n != 'shuffle':
            n = 'py_' + n
        return getattr(self.r, n)(*a, **k)

    def __enter__(self):
        self.inst.__enter__()
        self.old = R.ACTIVE[0], scipy.stats.unitary_group.rvs
        R.ACTIVE[0] = self
        scipy.stats.unitary_group.rvs = self.haar
        return self

    def haar(self, dim, size=1, random_state=None):
        rs = R.free_state(random_state)
        fixed = self.draws.seeded.get('np')
        if rs is not None and rs is not np.random:
            return _HAAR(int(dim), size, rs)
        if fixed is not None:
            return _HAAR(int(dim), size, int(fixed.random() * 2**31))
        if size == 1:
            return self.draws.haar(int(dim))
        return np.array([self.draws.haar(int(dim)) for _ in range(size)])

    def __exit__(self, *a):
        R.ACTIVE[0], scipy.stats.unitary_group.rvs = self.old
        self.inst.__exit__()


_SPREAD = {}


def uniform(V):
    """are the moments of these matrices those of uniform ones?"""
    n, d, _ = V.shape
    out = []
    for a in [np.eye(d)] + [_HAAR(d, random_state=i) for i in range(3)]:
        t = np.abs(np.einsum('ij,nji->n', a, V))**2
        out += [(t, 1.0), (t**2, 2.0)]
    for i, j in np.ndindex(d, d):
        p = np.abs(V[:, i, j])**2
        out += [(p, 1 / d), (p**2, 2 / (d * (d + 1)))]
    out.append((np.abs(np.einsum('nij,nji->n', V, V))**2, 2.0))
    z = V[:, 0, 0] * V[:, 1, 1] * np.conj(V[:, 0, 1] * V[:, 1, 0])
    out.append((z.real, -1 / (d * (d * d - 1))))
    return all(abs(x.mean() - e) <= 7 * x.std() / math.sqrt(n) + 1e-3 / d
               for x, e in out)


class ConcCtx(CtxBase):
    symbolic = False

    def __init__(self, mods, cfg, script):
        super().__init__(mods, cfg)
        self.np = np
        self.inputs = script['inputs']
        self.choices = list(script['choices'])
        self.ci = 0
        self.fails = []
        self.passed = 0
        self.reached = {}
        self.cdraws = None
        self.outcomes = {}

    def real(self, name, lo=None, hi=None):
        x = float(self.inputs[name]) if name in self.inputs else (
            (lo + hi) / 2 if lo is not None and hi is not None else 0.0)
        if lo is not None:
            x = max(x, float(lo))
        if hi is not None:
            x = min(x, float(hi))
        return x

    def int_real(self, name, lo, hi):
        return int(round(self.real(name, lo, hi)))

    def choice(self, name, options):
        options = list(options)
        i = 0
        if self.ci < len(self.choices):
            lab, i = self.choices[self.ci]
            self.ci += 1
        return options[min(i, len(options) - 1)]

    def unitary(self, name, d):
        if d == 1:
            return np.array([[np.exp(1j * self.real(name + '.g'))]])
        if d == 2:
            a, b, c, g = [self.real(name + s) for s in
                          ('.a', '.b', '.c', '.g')]
            return np.exp(1j * g) * np.array(
                [[np.cos(a) * np.exp(1j * b), -np.sin(a) * np.exp(-1j * c)],
                 [np.sin(a) * np.exp(1j * c), np.cos(a) * np.exp(-1j * b)]])
        m = np.empty((d, d), dtype=complex)
        for i, j in np.ndindex(d, d):
            k = '%s_%d%d' % (name, i, j)
            if k + 're' not in self.inputs:
                return np.identity(d, dtype=complex)
            m[i, j] = complex(self.inputs[k + 're'], self.inputs[k + 'im'])
        u, s, vh = np.linalg.svd(m)     # nearest unitary: removes model noise
        return u @ vh

    def matrix(self, name, d, lo=-2, hi=2):
        m = np.empty((d, d), dtype=complex)
        for i, j in np.ndindex(d, d):
            k = '%s_%d%d' % (name, i, j)
            m[i, j] = complex(self.real(k + '.re', lo, hi),
                              self.real(k + '.im', lo, hi))
        return m

    def arr(self, x):
        x = np.array(x)
        return x.astype(complex) if x.dtype == object else x

    pi = math.pi

    def num(self, x):
        return float(x) if isinstance(x, F) else x

    I = 1j
    cos = staticmethod(np.cos)
    sin = staticmethod(np.sin)
    cexp = staticmethod(np.exp)
    rexp = staticmethod(np.exp)
    sqrt = staticmethod(np.sqrt)
    conj = staticmethod(np.conj)
    kron = staticmethod(np.kron)
    absv = staticmethod(abs)

    @staticmethod
    def expm(m):
        import scipy.linalg
        return scipy.linalg.expm(m)

    @staticmethod
    def mm(a, b):
        return a @ b

    def eye(self, d):
        return np.identity(d, dtype=complex)

    def zeros(self, d):
        return np.zeros((d, d), dtype=complex)

    def copy(self, a):
        return a.copy() if isinstance(a, np.ndarray) else a

    def true(self):
        return True

    def eq(self, a, b, tol=1e-8):
        try:
            return bool(abs(complex(a) - complex(b)) <= 3 * tol + 1e-12)
        except TypeError:
            return False

    def le(self, a, b, tol=1e-9):
        return bool(a <= b + tol + 1e-12)

    def lt_strict(self, a, b):
        return bool(a < b)

    def all(self, conds):
        return all(bool(c) for c in conds)

    def any(self, conds):
        return any(bool(c) for c in conds)

    def implies(self, a, b):
        return (not a) or bool(b)

    def neg(self, a):
        return not a

    def iff(self, a, b):
        return bool(a) == bool(b)

    def mat_eq(self, a, b, tol=1e-8):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(
            np.all(np.abs(a - b) <= 3 * tol + 1e-12))

    def mat_same(self, a, b):
        return bool(np.array_equal(np.asarray(a), np.asarray(b)))

    def phase_eq(self, a, b, tol=1e-7):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        w = a @ b.conj().T
        return self.mat_eq(w, w[0, 0] * np.identity(a.shape[0]), tol) and \
            abs(abs(w[0, 0]) - 1) <= 3 * tol

    def identical(self, a, b):
        return self.phase_eq(a, b)

    def specnorm(self, a):
        return float(np.linalg.norm(np.asarray(a), 2))

    def near(self, a, b, tol):
        return abs(a - b) <= 3 * tol

    def mat_near(self, a, b, tol):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 3 * tol))

    def is_unitary(self, a, tol=1e-7):
        return self.mat_eq(a @ a.conj().T, np.identity(a.shape[0]), tol)

    def det_one(self, a, tol=1e-7):
        return self.eq(np.linalg.det(a), 1, tol)

    def decide(self, c):
        return bool(c)

    def assume(self, c):
        if not c:
            raise Cut()

    def check(self, cond, label, lemmas=()):
        if bool(cond):
            self.passed += 1
        else:
            self.fails.append([label, ''])

    def sq(self, e):
        pass

    def fail(self, label):
        self.fails.append([label, ''])

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def cut(self):
        raise Cut()

    def draws(self):
        return self.cdraws.used

    def haar_draws(self):
        return [x for k, n, x in self.cdraws.log if k == 'h']

    def sure(self, cond):
        return bool(cond)

    def continuous(self, make, n=3000):
        make()
        with self.real_draws():
            xs = [float(make()) for _ in range(n)]
        return len(set(xs)) == n

    @contextlib.contextmanager
    def real_draws(self, seed=2024):
        """the real generators, seeded, in place of the scripted ones"""
        old = R.ACTIVE[0], scipy.stats.unitary_group.rvs
        a, b = np.random.get_state(), random.getstate()
        R.ACTIVE[0], R.GENUINE[0] = None, True
        scipy.stats.unitary_group.rvs = lambda dim, size=1, random_state=None:\
            _HAAR(dim, size, R.free_state(random_state))
        REAL_SEED['np'](seed)
        REAL_SEED['py'](seed)
        try:
            yield
        finally:
            R.ACTIVE[0], scipy.stats.unitary_group.rvs = old
            R.GENUINE[0] = False
            np.random.set_state(a)
            random.setstate(b)

    def spread(self, make, d, n=3000):
        """moments of n independent results of the real code, with its real
        generators, against those of the uniform law"""
        key = (id(self.m), d)
        if key in _SPREAD:
            return _SPREAD[key]
        with self.real_draws():
            V = np.array([make() for _ in range(n)])
        if len({V[i].round(9).tobytes() for i in range(n)}) < n:
            _SPREAD[key] = False
            return False
        W = np.einsum('nji,njk->nik', V[::2].conj(), V[1::2])
        W2 = np.einsum('nji,njk->nik', V[:n // 2].conj(), V[n // 2:])
        _SPREAD[key] = all(uniform(x) for x in (V, W, W2))
        return _SPREAD[key]

    def mark(self):
        return len(self.cdraws.log)

    def limit_draws(self, n):
        self.cdraws.limit = n

    def reweighted(self):
        return [x for x in self.cdraws.reweighted if x[0] is not None]

    def rewind(self, k):
        self.cdraws.rpos = k
        self.cdraws.seeded = {}

    @contextlib.contextmanager
    def one_order(self):
        self.cdraws.one_order = True
        try:
            yield
        finally:
            self.cdraws.one_order = False

    def spend(self, x):
        time.sleep(float(x))

    def clock(self):
        return time.perf_counter()

    @contextlib.contextmanager
    def pinned(self, seed=0):
        self.cdraws.pin = Pin(seed)
        try:
            yield
        finally:
            self.cdraws.pin = None

    @contextlib.contextmanager
    def held(self, seed=0, upto=None, free=(), other=None):
        self.cdraws.pin = Pin(seed, upto, free, other)
        try:
            yield self.cdraws.pin
        finally:
            self.cdraws.pin = None

    def once(self, key, f):
        return f()

    def outcome(self, spec, key):
        self.outcomes[spec] = key

    def expect(self, spec, probs, tol=1e-6):
        self.expected = getattr(self, 'expected', {})
        self.expected[spec] = dict(probs)

    def number(self, text):
        return float(text)

    NUM = r'-?\d+(?:\.\d+)?(?:e[-+]?\d+)?'


def run_concrete(harness, mods, cfg, script, free=False, seed=0,
                 budget=20000):
    """one run of the untouched code; list of failed checks"""
    ctx = ConcCtx(mods, cfg, script)
    d = ConcDraws(script.get('draws', []), seed=seed, free=free,
                  budget=budget)
    ctx.cdraws = d
    mods.activate()
    saved = (P.HOOK['decide'],)
    try:
        with np.errstate(all='ignore'):
            with Patched(d):
                harness(ctx)
    except Cut:
        pass
    except DrawBudget:
        ctx.fails.append(['terminates', 'consumed more than %d random draws'
                          % budget])
    except PathAbort:
        pass
    except Unsupported:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = ['%s:%s' % (os.path.basename(x.filename), x.lineno)
               for x in tb[-3:]]
        ctx.fails.append(['unexpected-exception', '%s: %s @ %s' % (
            type(e).__name__, str(e)[:200], ' '.join(loc))])
    return ctx


REAL_SEED = {'np': np.random.seed, 'py': random.seed}


class StatCtx(ConcCtx):
    """the untouched code with its real generators, the draws being counted"""

    def __init__(self, mods, cfg, script, memo=None):
        super().__init__(mods, cfg, script)
        self.limit, self.used, self.saved = None, 0, []
        self.ordered = False
        self.scripted = None
        self.memo = {} if memo is None else memo

    def once(self, key, f):
        if key not in self.memo:
            self.memo[key] = f()
        return self.memo[key]

    def draws(self):
        return self.used

    def mark(self):
        self._states = (np.random.get_state(), random.getstate(), self.used)
        return 0

    def rewind(self, k):
        np.random.set_state(self._states[0])
        random.setstate(self._states[1])
        self.used = self._states[2]

    def limit_draws(self, n):
        self.limit = n

    @contextlib.contextmanager
    def one_order(self):
        self.ordered = True
        try:
            yield
        finally:
            self.ordered = False

    @contextlib.contextmanager
    def pinned(self, seed=0):
        a, b = np.random.get_state(), random.getstate()
        REAL_SEED['np'](seed)
        REAL_SEED['py'](seed)
        try:
            yield
        finally:
            np.random.set_state(a)
            random.setstate(b)

    @contextlib.contextmanager
    def held(self, seed=0, upto=None, free=(), other=None):
        if free:
            yield Pin(seed)
            return
        d = ConcDraws([], seed=random.getrandbits(60), free=True)
        d.pin = Pin(seed, upto, (), other)
        self.scripted = Patched(d)
        try:
            yield d.pin
        finally:
            self.scripted = None

    def _count(self, n):
        if self.limit is not None and self.used + n > self.limit:
            raise Cut()
        self.used += n

    SIZE = {'random_sample': 0, 'uniform': 2, 'randint': 2, 'choice': 1,
            'random': 0, 'ranf': 0, 'sample': 0}

    def call(self, kind, n, real, a, kw, stream=None):
        if n == 'seed':
            return real(*a, **kw)
        if self.ordered and n == 'shuffle':
            return None
        if self.ordered and n == 'permutation':
            return np.arange(a[0]) if np.ndim(a[0]) == 0 else np.array(a[0])
        if self.scripted is not None:
            return self.scripted.call(kind, n, real, a, kw, stream)
        k, s = 1, kw.get('size')
        at = self.SIZE.get(n) if kind == 'np' else None
        if s is None and at is not None and len(a) > at:
            s = a[at]
        if n == 'rand':
            s = a
        if s is not None:
            k = int(np.prod(s))
        elif n in ('permutation', 'shuffle', 'choices'):
            k = kw.get('k', len(a[0]) if hasattr(a[0], '__len__') else 1)
        self._count(k)
        return real(*a, **kw)

    def __enter__(self):
        self.inst = R.Installed()
        self.inst.__enter__()
        rvs = scipy.stats.unitary_group.rvs
        self.old = R.ACTIVE[0], rvs
        R.ACTIVE[0] = self

        def g(dim, size=1, random_state=None):
            self._count(1)
            return rvs(dim, size, R.free_state(random_state))
        scipy.stats.unitary_group.rvs = g
        return self

    def __exit__(self, *a):
        R.ACTIVE[0], scipy.stats.unitary_group.rvs = self.old
        self.inst.__exit__()
