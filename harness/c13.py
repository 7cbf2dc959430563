"""C13: randomly proposed gates are admissible and have the specified
distribution."""
import itertools
from fractions import Fraction as F

import numpy as np

from . import late
from .complib import Z1, C2, rational

BOUNDS = ('exact probability of every (gate, qubits) proposal for 1..6 gates '
          '(fixed and parameterized) on 1..5 qubits with every '
          'combination of unrestricted, restricted and empty qubit lists, '
          'with and without arbitrary gate probabilities; the distribution '
          'function of every drawn parameter at every quantile; the joint '
          'law of pairs among up to 40 successive proposals, the others '
          'taking fixed draws')
OUTSIDE = 'more gates or qubits; gates on more than three qubits'
ASSUMPTIONS = ['exact real arithmetic', 'the random generators return '
               'independent draws with their documented distributions']

C3 = np.eye(8)[[0, 2, 1, 3, 4, 5, 7, 6]]


def rotation(ctx, a):
    co, si = ctx.cos(a), ctx.sin(a)
    return ctx.arr([[co, -si], [si, co]])


def swivel(ctx, a, b):
    return ctx.mm(rotation(ctx, a), ctx.arr(
        [[ctx.cexp(ctx.I * b), 0], [0, ctx.cexp(-ctx.I * b)]]))


def make(ctx, kind):
    """unitary, matrix function of the parameters, parameter ranges"""
    P = ctx.ParameterizedUnitaryParameter
    if kind == 'R':
        return ctx.Unitary(2, rational(ctx), 'R'), lambda: rational(ctx), []
    if kind == 'Z':
        return ctx.Unitary(2, ctx.arr(Z1), 'Z'), lambda: ctx.arr(Z1), []
    if kind in ('V', 'W', 'Y'):
        k = {'V': -1, 'W': 2, 'Y': 3}[kind]
        return (ctx.Unitary(2, rational(ctx, k), kind),
                lambda: rational(ctx, k), [])
    if kind == 'C':
        return ctx.Unitary(4, ctx.arr(C2), 'C'), lambda: ctx.arr(C2), []
    if kind == 'T':
        return ctx.Unitary(8, ctx.arr(C3), 'T'), lambda: ctx.arr(C3), []
    if kind == 'Ra':
        return (ctx.ParameterizedUnitary(
            2, lambda a: rotation(ctx, a), [P('a', -1, 3, True)], 'Ra'),
            lambda a: rotation(ctx, a), [('a', -1, 3)])
    if kind == 'Sab':
        return (ctx.ParameterizedUnitary(
            2, lambda a, b: swivel(ctx, a, b),
            [P('a', 0.5, 2, True), P('b', -4, -1, False)], 'Sab'),
            lambda a, b: swivel(ctx, a, b), [('a', 0.5, 2), ('b', -4, -1)])
    raise KeyError(kind)


def spec_where(kind, where, n):
    k = {'C': 2, 'T': 3}.get(kind, 1)
    if where is None:
        return [list(p) for p in itertools.permutations(range(n), k)]
    return [list(w) for w in where]


def propose(ctx):
    n = ctx.cfg['n']
    spec = ctx.cfg['prims']             # (kind, where)
    made = [make(ctx, k) for k, _ in spec]
    prims = [ctx.UnitaryPrimitive(u) if w is None else ctx.UnitaryPrimitive(
        u, [list(x) for x in w]) for (u, _, _), (k, w) in zip(made, spec)]
    live = [i for i, (k, w) in enumerate(spec) if w is None or len(w)]
    probs = ctx.cfg.get('probs')
    args = []
    if probs == 'any':
        ps = [ctx.real('p%d' % i, 0.03, min(
            0.3, round(0.9 / len(spec), 2))) for i in range(len(spec) - 1)]
        ps.append(1 - sum(ps, 0))
        args = [list(ps)]
    elif probs:
        ps = [ctx.num(x) for x in probs]
        args = [np.array(probs, dtype=float) if ctx.cfg.get('array')
                else [float(x) for x in probs]]
    else:
        ps = [ctx.num(F(1, len(spec)))] * len(spec)
    tot = sum((ps[i] for i in live), 0)
    if ctx.cfg.get('array'):
        a = np.empty(len(prims), dtype=object)
        for i, x in enumerate(prims):
            a[i] = x
        prims = a
    e = ctx.Compiler.create_random_sequence_entry(2 ** n, prims, *args)
    ctx.check(isinstance(e, ctx.UnitarySequenceEntry), 'type')
    q = [int(x) for x in e.get_apply_to()]
    u = e.unitary
    by = {k: i for i, (k, w) in enumerate(spec)
          if q in spec_where(k, w, n)}
    name = u.get_operation_name()
    ok = name in by and q in spec_where(*spec[by[name]], n)
    ctx.check(ok, 'gate and qubits are allowed')
    if not ok:
        ctx.cut()
    i = by[name]
    _, fn, ranges = made[i]
    vals, low = [], []
    for j, (pn, lo, hi) in enumerate(ranges):
        v = u.get_parameter_value(pn)
        ctx.check(v is not None, 'parameter recorded')
        if v is None:
            ctx.cut()
        ctx.check(ctx.all([ctx.le(lo, v[0]), ctx.le(v[0], hi)]),
                  'parameter in range')
        vals.append(v[0])
    ctx.check(ctx.phase_eq(u.get_matrix(), fn(*vals)), 'gate matrix')
    ctx.check(ctx.phase_eq(e.get_full_unitary(2 ** n).get_matrix(),
                           ctx.place(fn(*vals), q, n)), 'placed gate')
    x = ctx.real('x', 0.02, 0.98) if any(r for _, _, r in made) else None
    for v, (pn, lo, hi) in zip(vals, ranges):
        low.append(ctx.decide(ctx.le(v, lo + x * (hi - lo), 0)))
    ctx.outcome('proposal', (name, tuple(q), tuple(low)))
    want = {}
    for j in live:
        k, w = spec[j]
        ww = spec_where(k, w, n)
        for place in ww:
            for bits in itertools.product(
                    [True, False], repeat=len(made[j][2])):
                p = ps[j] / tot * ctx.num(F(1, len(ww)))
                for b in bits:
                    p = p * (x if b else 1 - x)
                key = (k, tuple(place), bits)
                want[key] = want.get(key, 0) + p
    ctx.expect('proposal', want)
    ctx.reach('proposed')


def independent(ctx):
    """proposals share nothing with the gate set or with each other"""
    u, fn, _ = make(ctx, 'Ra')
    r, fr, _ = make(ctx, 'R')
    prims = [ctx.UnitaryPrimitive(u), ctx.UnitaryPrimitive(r, [[1]])]
    probs = [0.5, 0.5]
    make_ = ctx.Compiler.create_random_sequence_entry
    a = make_(4, prims, probs)
    before = a.get_full_unitary(4).get_matrix()
    before = ctx.copy(before)
    qa = list(a.get_apply_to())
    b = make_(4, prims, probs)
    ctx.check(ctx.phase_eq(a.get_full_unitary(4).get_matrix(), before),
              'first proposal unchanged by the second')
    ctx.check(list(a.get_apply_to()) == qa, 'qubits unchanged')
    ctx.check(probs == [0.5, 0.5] and len(prims) == 2, 'arguments unchanged')
    na, nb = a.unitary.get_operation_name(), b.unitary.get_operation_name()
    ctx.outcome('pair', (na, tuple(map(int, qa)), nb,
                         tuple(map(int, b.get_apply_to()))))
    one = {('Ra', (0,)): F(1, 4), ('Ra', (1,)): F(1, 4), ('R', (1,)): F(1, 2)}
    ctx.expect('pair', {k + l: ctx.num(p * q) for k, p in one.items()
                        for l, q in one.items()})
    ctx.reach('independent')


def distant(ctx):
    """proposals made long after each other are independent"""
    n, spec, N = ctx.cfg['n'], ctx.cfg['prims'], ctx.cfg['N']
    made = {k: make(ctx, k) for k, _ in spec}
    prims = [ctx.UnitaryPrimitive(made[k][0]) if w is None else
             ctx.UnitaryPrimitive(made[k][0], [list(x) for x in w])
             for k, w in spec]
    probs = ctx.cfg.get('probs')
    args = [[float(x) for x in probs]] if probs else []

    def run(N):
        return [ctx.Compiler.create_random_sequence_entry(
            2 ** n, prims, *args) for _ in range(N)]
    x = ctx.num(F(1, 3))

    def key(e, n_=None):
        k = e.unitary.get_operation_name()
        low = []
        for nm, lo, hi in made[k][2]:
            v = e.unitary.get_parameter_value(nm)
            low.append(ctx.decide(ctx.le(v[0], lo + x * (hi - lo), 0)))
        return k, tuple(int(q) for q in e.get_apply_to()), tuple(low)
    one = {}
    for i, (k, w) in enumerate(spec):
        ww = spec_where(k, w, n)
        p = ctx.num(probs[i] if probs else F(1, len(spec)))
        for place in ww:
            for bits in itertools.product([True, False],
                                          repeat=len(made[k][2])):
                q = p * ctx.num(F(1, len(ww)))
                for b in bits:
                    q = q * (x if b else 1 - x)
                if q != 0:
                    one[(k, tuple(place), bits)] = q
    if ctx.cfg.get('seed'):
        late.last(ctx, run, key, ctx.cfg['lengths'], one, ctx.cfg['seed'])
    else:
        late.pair(ctx, lambda: run(N), key, N, one,
                  every=ctx.cfg.get('every'))


def refused(ctx):
    """no gate comes out if none can be placed (an exception is as good as
    any other way to say so)"""
    make_ = ctx.Compiler.create_random_sequence_entry
    r, z = make(ctx, 'R')[0], make(ctx, 'Z')[0]
    P = ctx.UnitaryPrimitive
    k = ctx.choice('kind', ['none', 'all empty', 'too large', 'outside'])
    f = {'none': lambda: make_(2, []),
         'all empty': lambda: make_(2, [P(r, []), P(z, [])]),
         'too large': lambda: make_(2, [P(make(ctx, 'C')[0])]),
         'outside': lambda: make_(4, [P(r, [[0, 1]])])}[k]
    made = []
    ctx.raises(lambda: made.append(f()))
    ctx.check(not made or not isinstance(made[0], ctx.UnitarySequenceEntry),
              'no gate')
    ctx.reach(k)


def jobs(tier):
    out = []
    T = tier == 'thorough'

    def add(n, prims, probs=None, **kw):
        name = 'n%d_%s%s%s' % (n, '_'.join(
            k + ('' if w is None else str(len(w))) for k, w in prims),
            '' if probs is None else '_any' if probs == 'any' else '_w' +
            '-'.join(str(x) for x in probs).replace('/', ':'),
            '_array' if kw else '')
        out.append(dict(name=name.replace('.', ''), fn=propose, cfg=dict(
            n=n, prims=prims, probs=probs, **kw), must=['proposed'],
            cost=4 ** n, conf=15, paths=20000))
    half, q = F(1, 2), F(1, 4)
    add(1, [('R', None)])
    add(1, [('R', None), ('Z', None)])
    add(2, [('C', None)])
    add(3, [('C', None), ('R', None)])
    add(2, [('C', [[1, 0]]), ('R', [[1]])])
    add(3, [('C', [[2, 0], [0, 1], [1, 0]]), ('R', None), ('Z', [[1]])])
    add(2, [('Z', []), ('R', None), ('C', [[1, 0], [0, 1]])])
    add(2, [('R', None), ('Z', []), ('C', None)], 'any')
    add(2, [('Z', []), ('R', None)], 'any')
    add(2, [('R', None), ('C', [[0, 1]])], 'any')
    add(2, [('R', None), ('Z', None), ('C', None)], [half, q, q])
    add(2, [('R', None), ('Z', None), ('C', None)], [half, q, q], array=True)
    add(2, [('R', None), ('Z', []), ('C', None)], [half, q, q], array=True)
    add(2, [('R', None), ('Z', None), ('C', None)], [half, 0, half])
    add(1, [('Ra', None)])
    add(2, [('Ra', None), ('R', [[1]])])
    add(1, [('Sab', None)])
    add(2, [('Sab', [[1]]), ('Ra', None), ('Z', [])], 'any')
    pairs = [[0, 1], [1, 2], [2, 0], [1, 0], [2, 1], [0, 2]]
    add(3, [('C', pairs[:4]), ('R', [[2], [0]])])
    add(3, [('C', pairs), ('R', [[2], [0], [1]])], 'any')
    add(4, [('C', [[3, 0], [0, 1], [1, 2], [2, 3], [3, 1]]), ('R', None)])
    add(2, [(k, None) for k in ('R', 'Z', 'V', 'W', 'Y')])
    add(2, [('R', None), ('Z', [[1]]), ('C', None), ('V', []),
            ('W', [[0]]), ('Y', None)], 'any')
    add(2, [('C', [[1, 0]]), ('Z', None), ('R', [[0]]), ('R', [[1]])])
    add(4, [('C', None), ('R', [[3], [1]])])
    add(5, [('R', None), ('C', [[4, 0], [0, 4], [3, 2]])])
    add(3, [('T', None)])
    add(3, [('T', [[2, 0, 1], [0, 1, 2]]), ('C', None)])
    if T:
        add(4, [('C', None), ('R', None), ('Z', [[2], [3]])], 'any')
        add(4, [('T', None), ('C', None), ('R', None), ('Z', [])], 'any')
        add(3, [('Sab', None), ('Ra', None), ('C', None)], 'any')
    out.append(dict(name='independent', fn=independent, cost=30,
                    must=['independent']))
    out.append(dict(name='refused', fn=refused, cost=5, must=[
        'none', 'all empty', 'too large', 'outside']))
    for i, (n, prims, probs, N, every) in enumerate([
            (1, [('R', None), ('Z', None)], None, 14, None),
            (2, [('R', None), ('Z', None)], [q, 1 - q], 11, [0, 5, 9]),
            (1, [('Ra', None)], None, 12, None),
            (1, [('R', None), ('Z', None)], None, 40, [0, 19, 38]),
            (2, [('Ra', None)], None, 9, [0, 4, 7])]):
        out.append(dict(name='distant_%d' % i, fn=distant, cfg={
            'n': n, 'prims': prims, 'probs': probs, 'N': N, 'every': every},
            must=['pair'], cost=40, conf=4))
    for i, (n, prims, probs) in enumerate([
            (2, [('R', None), ('Ra', [[1]]), ('C', None)], None),
            (1, [('R', None), ('Z', None), ('V', None)], [half, q, q])]):
        for seed in 'low', 'high':
            out.append(dict(name='last_%d_%s' % (i, seed), fn=distant, cfg={
                'n': n, 'prims': prims, 'probs': probs, 'N': 2, 'seed': seed,
                'lengths': range(2, 26)}, must=['last'], cost=40, conf=4))
    return out
