"""C06: parameterized gates: values, validity, random values."""
import itertools

import numpy as np

from .c05 import X, pauli_exp

BOUNDS = ('every parameter value in [-9, 9] for each library gate; every '
          'real parameter range with bounds in [-5, 5]; evolution under '
          'arbitrary 2x2 Hermitian matrices and a family of 4x4 ones; '
          'gates of one to four parameters with other ranges and kinds; '
          'argument lists of 0..5 values')
OUTSIDE = 'parameterized gates with more than four parameters'
ASSUMPTIONS = ['exact real arithmetic', 'numpy.random.random_sample is '
               'uniform on [0, 1)']


def inside(ctx, lo, x, hi):
    return ctx.all([ctx.le(lo, x, 0), ctx.le(x, hi, 0)])


def make(ctx, kind):
    D = ctx.ParameterizedUnitaryDefinitions
    two = 2 * ctx.pi
    if kind == 'rotation_xy':
        def want(t, f):
            c, s = ctx.cos(t / 2), ctx.sin(t / 2)
            return ctx.arr([[c, -ctx.I * s * ctx.cexp(-ctx.I * f)],
                            [-ctx.I * s * ctx.cexp(ctx.I * f), c]])
        return D.rotation_xy(), [('theta', 0, two, True),
                                 ('phi', 0, two, True)], want, 'Rxy', 2
    if kind == 'rotation_xyz':
        def want(a, b, g):
            Z = np.array([[1, 0], [0, -1]])
            Y = np.array([[0, -1j], [1j, 0]])
            return ctx.mm(pauli_exp(ctx, a / 2, Z),
                          ctx.mm(pauli_exp(ctx, b / 2, Y),
                                 pauli_exp(ctx, g / 2, Z)))
        return D.rotation_xyz(), [('alpha', 0, two, True),
                                  ('beta', 0, two, True),
                                  ('gamma', 0, two, True)], want, 'Rxyz', 2
    if kind == 'xx':
        return D.xx(), [('theta', 0, two, True)], (
            lambda t: pauli_exp(ctx, t, np.kron(X, X))), 'XX', 4
    if kind.startswith('own'):
        # parameters of a user's own gate: other ranges, orders and kinds
        k = int(kind[3])
        par = ctx.ParameterizedUnitaryParameter
        spec = [('b', 2, 3, False), ('a', -1, 5, True), ('z', 0, 0, False),
                ('c', -4, -2, True)]
        spec = spec[:k] if kind[-1] == 'f' else spec[:k][::-1]
        w = [1, 2, 3, -1]

        def want(*xs):
            a = sum(x * y for x, y in zip(w, xs))
            c, s = ctx.cos(a / 2), ctx.sin(a / 2)
            return ctx.arr([[c, -s], [s, c]])
        ps = [par(*x) for x in spec]
        if kind[-1] == 'a':
            ps = np.array(ps, dtype=object)
        return (ctx.ParameterizedUnitary(2, want, ps, 'Own'), spec, want,
                'Own', 2)
    if kind.startswith('gms'):
        n = int(kind[3:])

        def want(t):
            m = ctx.eye(2 ** n)
            for i, j in itertools.combinations(range(n), 2):
                p = np.array([[1]])
                for q in range(n):
                    p = np.kron(p, X if q in (i, j) else np.eye(2))
                m = ctx.mm(pauli_exp(ctx, t, p), m)
            return m
        return D.gms(n), [('theta', 0, two, True)], want, 'GMS%d' % n, 2 ** n
    # evolution under a Hermitian matrix, t in [-3, 2]
    if kind == 'evolution2':
        a, b, c, d = [ctx.real('h%d' % i, -2, 2) for i in range(4)]
        H = ctx.arr([[a, b + ctx.I * c], [b - ctx.I * c, d]])
    else:
        a, b = ctx.real('h0', -2, 2), ctx.real('h1', -2, 2)
        H = ctx.kron(ctx.arr(X), ctx.arr([[a, 0], [0, b]]))

    def want(t):
        return ctx.expm(ctx.I * t * H)
    return (D.time_evolution(H, -3, 2, 'ab'), [('t', -3, 2, False)], want,
            'Hab', H.shape[0])


def values(ctx):
    p, spec, want, name, dim = make(ctx, ctx.cfg['kind'])
    ctx.check(p.get_dimension() == dim, 'dimension')
    ctx.check(p.get_operation_name() == name, 'name')
    ps = p.get_parameters()
    ctx.check(len(ps) == len(spec), 'number of parameters')
    ctx.check([q.get_parameter_name() for q in ps] == [s[0] for s in spec],
              'parameter names')
    ctx.check([q.get_is_angle() for q in ps] == [s[3] for s in spec],
              'angle flags')
    xs = [ctx.real('x%d' % i, -9, 9) for i in range(len(spec))]
    good = ctx.all([inside(ctx, s[1], x, s[2]) for s, x in zip(spec, xs)])
    made = []
    rej = ctx.raises(lambda: made.append(p.as_unitary(list(xs))))
    if rej:
        ctx.reach('rejected')
        ctx.check(ctx.neg(good), 'rejected only outside the range')
        return
    ctx.reach('accepted')
    ctx.check(good, 'accepted only inside the range')
    u = made[0]
    m = want(*xs)
    ctx.check(ctx.phase_eq(u.get_matrix(), m), 'matrix')
    ctx.check(u.get_operation_name() == name, 'unitary name')
    ctx.check(u.get_dimension() == dim, 'unitary dimension')
    for s, x in zip(spec, xs):
        v = u.get_parameter_value(s[0])
        ctx.check(v is not None and v[1] is s[3], 'parameter kept')
        ctx.check(ctx.eq(v[0], x), 'parameter value kept')
    # values assigned earlier survive later assignments
    ys = [s[1] + 0 * x for s, x in zip(spec, xs)]
    w = p.as_unitary(ys)
    ctx.check(ctx.phase_eq(w.get_matrix(), want(*ys)), 'second assignment')
    ctx.check(ctx.phase_eq(u.get_matrix(), m), 'first result kept')
    ctx.check(ctx.eq(u.get_parameter_value(spec[0][0])[0], xs[0]),
              'first value kept')


def count(ctx):
    """one value per parameter is accepted whatever their number; too few
    or too many values are outside the property"""
    kind = ctx.choice('kind', ['rotation_xy', 'rotation_xyz', 'xx', 'gms3',
                               'own2f', 'own4f'])
    p, spec, _w, _n, _d = make(ctx, kind)
    n = len(spec)
    xs = [ctx.num(0) if i < len(spec) and spec[i][0] == 'z' else
          ctx.real('%s%d' % (kind, i), *(spec[i][1:3] if i < len(spec) and
                                   kind.startswith('own') else (0, 6)))
          for i in range(n)]
    rej = ctx.raises(lambda: p.as_unitary(
        np.array(xs, dtype=object if ctx.symbolic else float)
        if ctx.choice('array', [False, True]) else xs))
    ctx.check(not rej, 'accepted')
    ctx.reach('count')


def validity(ctx):
    lo, hi = ctx.real('lo', -5, 5), ctx.real('hi', -5, 5)
    x = ctx.real('x', -9, 9)
    made = []
    rej = ctx.raises(lambda: made.append(ctx.ParameterizedUnitaryParameter(
        'a', lo, hi, ctx.choice('angle', [True, False]))))
    if rej:
        ctx.reach('empty range')
        ctx.check(ctx.lt_strict(hi, lo), 'rejected only if empty')
        return
    ctx.check(ctx.le(lo, hi, 0), 'accepted only if not empty')
    ok = bool(made[0].is_valid(x))
    ctx.reach('valid' if ok else 'invalid')
    if ok:
        ctx.check(inside(ctx, lo, x, hi), 'valid only inside')
    else:
        ctx.check(ctx.neg(inside(ctx, lo, x, hi)), 'invalid only outside')
    r = made[0].random_value()
    ctx.check(ctx.all([ctx.le(lo, r), ctx.le(r, hi)]), 'random value inside')
    ctx.check(bool(made[0].is_valid(r)) or not ctx.symbolic,
              'random value valid')


def uniform(ctx):
    """random values are uniformly distributed over the range"""
    lo, hi = ctx.cfg['range']
    p = ctx.ParameterizedUnitaryParameter('a', lo, hi, False)
    x = ctx.real('x', lo, hi)
    r = p.random_value()
    below = ctx.decide(ctx.le(r, x, 0))
    ctx.outcome('below', 'yes' if below else 'no')
    f = (x - lo) / (hi - lo)
    ctx.expect('below', {'yes': f, 'no': 1 - f})
    ctx.reach('uniform')


def continuous(ctx):
    """every value of the range can occur"""
    lo, hi = ctx.cfg['range']
    p = ctx.ParameterizedUnitaryParameter('a', lo, hi, False)
    ctx.check(ctx.continuous(p.random_value), 'random value')
    ctx.reach('continuous')


def jobs(tier):
    kinds = ['rotation_xy', 'rotation_xyz', 'xx', 'gms2', 'gms3',
             'evolution2', 'evolution4', 'own1f', 'own2f', 'own2a', 'own3a',
             'own4f']
    if tier == 'thorough':
        kinds += ['gms4']
    out = [dict(name='values_' + k, fn=values, cfg={'kind': k}, cost=10,
                must=['rejected', 'accepted']) for k in kinds]
    out.append(dict(name='count', fn=count, must=['count'], cost=3))
    out.append(dict(name='validity', fn=validity, cost=3,
                    must=['empty range', 'valid', 'invalid']))
    for lo, hi in [(0, 1), (-2, 3), (-4, -1), (1, 9)]:
        out.append(dict(name='uniform_%d_%d' % (lo, hi), fn=uniform,
                        cfg={'range': (lo, hi)}, must=['uniform'], cost=1))
    out.append(dict(name='continuous', fn=continuous, cfg={
        'range': (-1, 2)}, must=['continuous'], cost=1))
    return out
