"""C16: a Hamiltonian term is its positive strength times a matrix of largest
singular value one."""
from fractions import Fraction as F

import numpy as np

BOUNDS = ('every Hermitian 1x1 and 2x2 matrix and every diagonal, '
          'product or otherwise symmetric family of 4x4, 8x8 and 16x16 ones '
          'with entries in [-3, 3] and norm at least 0.01; arbitrary '
          'Hermitian 3x3 and 4x4 matrices with the largest singular value '
          'left abstract; real, complex and integer arrays')
OUTSIDE = 'the numerical quality of numpy.linalg.svd; larger matrices'
ASSUMPTIONS = ['exact real arithmetic']

X = np.array([[0, 1], [1, 0]])
Y = np.array([[0, -1j], [1j, 0]])
Z = np.array([[1, 0], [0, -1]])
I2 = np.eye(2)


def hermitian(ctx, d, name='h'):
    m = ctx.zeros(d)
    for i in range(d):
        m[i, i] = ctx.real('%s%d' % (name, i), -3, 3)
        for j in range(i):
            a = ctx.real('%s%d%dr' % (name, i, j), -3, 3)
            b = ctx.real('%s%d%di' % (name, i, j), -3, 3)
            m[i, j] = a + ctx.I * b
            m[j, i] = a - ctx.I * b
    return m


def family(ctx, kind):
    r = lambda n: ctx.real(n, -3, 3)    # noqa

    def big():
        return ctx.choice('sign', [1, -1]) * ctx.real('a', 2, 3)
    if kind == 'one':
        return ctx.arr([[r('a')]])
    if kind == 'two':
        return hermitian(ctx, 2)
    if kind == 'real two':
        a, b, c = r('a'), r('b'), r('c')
        return ctx.arr([[a, b], [b, c]])
    if kind == 'diag4':
        m = ctx.zeros(4)
        for i, x in enumerate([r('d0'), ctx.num(0.5), r('d2'),
                               ctx.num(-1)]):
            m[i, i] = x
        return m
    if kind == 'xx':
        return r('a') * ctx.arr(np.kron(X, X))
    if kind == 'anti':      # anticommuting parts
        return r('a') * ctx.arr(np.kron(X, I2)) + \
            r('b') * ctx.arr(np.kron(Y, X)) + r('c') * ctx.arr(np.kron(Z, I2))
    if kind == 'eight':
        return r('a') * ctx.arr(np.kron(np.kron(X, Y), Z)) + \
            r('b') * ctx.arr(np.kron(np.kron(Z, Y), Z))
    if kind == 'diag16':
        m = ctx.zeros(16)
        for i in range(16):
            m[i, i] = big() if i == 5 else ctx.num(F(i * i % 11 - 5, 4))
        return m
    if kind == 'block16':       # two by two blocks along the diagonal
        m = ctx.zeros(16)
        for i in range(0, 16, 2):
            m[i, i + 1] = m[i + 1, i] = big() if i == 6 else ctx.num(
                F(i % 6 - 3, 2))
        return m
    if kind == 'string16':
        return ctx.real('a', 0.01, 3) * ctx.arr(
            np.kron(np.kron(X, Y), np.kron(Z, Y)))
    if kind == 'three':
        return hermitian(ctx, 3)
    return hermitian(ctx, 4)


def size(ctx, H):
    """sum of squared moduli"""
    t = 0
    for x in H.flat:
        t = t + x * ctx.conj(x)
    return t.real


def normal(ctx):
    H = family(ctx, ctx.cfg['kind'])
    d = H.shape[0]
    big = ctx.any([ctx.le(0.01, abs(x) if d == 1 else x, 0)
                   for e in H.flat for x in (e.real, e.imag, -e.real,
                                             -e.imag)])
    if not ctx.cfg['kind'].endswith('16'):
        ctx.assume(big)
    t = ctx.HamiltonianTerm(ctx.copy(H))
    c, N = t.get_coefficient(), t.get_normalized_matrix()
    ctx.check(t.get_dimension() == d, 'dimension')
    ctx.check(ctx.mat_eq(t.get_matrix(), H), 'matrix')
    ctx.check(ctx.mat_eq(c * N, H), 'strength times normalized matrix')
    ctx.check(ctx.le(0, c), 'strength not negative')
    ctx.check(ctx.neg(ctx.le(c, 0, 0)), 'strength positive')
    ctx.check(ctx.eq(c, ctx.specnorm(H)), 'strength is the largest singular '
              'value')
    if ctx.cfg['kind'] in ('one', 'two', 'real two', 'xx'):
        # characteristic equation of H^dagger H
        G = ctx.mm(ctx.dag(H), H)
        if d == 1:
            ctx.check(ctx.eq(c * c, G[0, 0]), 'square')
        elif d == 2:
            det = (G[0, 0] - c * c) * (G[1, 1] - c * c) - G[0, 1] * G[1, 0]
            ctx.check(ctx.eq(det, 0), 'singular value')
            ctx.check(ctx.le((G[0, 0] + G[1, 1]).real, 2 * c * c),
                      'largest one')
        else:
            ctx.check(ctx.eq(c * c, G[0, 0]), 'square')
    for x in N.flat:
        if ctx.cfg['kind'] in ('diag4', 'xx', 'one'):
            ctx.check(ctx.le(abs(x), 1), 'entries at most one')
    ctx.reach('term')


def independent(ctx):
    """later changes of the given array do not change the term"""
    H = hermitian(ctx, 2)
    ctx.assume(ctx.le(0.01, H[0, 0].real, 0))
    W = ctx.copy(H)
    keep = ctx.copy(H)
    t = ctx.HamiltonianTerm(W)
    ctx.check(ctx.mat_eq(W, keep), 'argument unchanged')
    W[0, 0] = ctx.num(5)
    W[1, 0] = ctx.num(0)
    ctx.check(ctx.mat_eq(t.get_matrix(), keep), 'matrix kept')
    ctx.check(ctx.eq(t.get_coefficient(), ctx.specnorm(keep)),
              'strength kept')
    ctx.reach('independent')


def sign(ctx):
    """scaling: the strength scales with the modulus, the sign goes into the
    normalized matrix"""
    H = hermitian(ctx, 2)
    ctx.assume(ctx.le(0.01, H[0, 0].real, 0))
    k = ctx.choice('k', [2, -1, -3])
    a, b = ctx.HamiltonianTerm(ctx.copy(H)), ctx.HamiltonianTerm(k * H)
    ctx.check(ctx.eq(b.get_coefficient(), abs(k) * a.get_coefficient()),
              'strength scales')
    ctx.check(ctx.mat_eq(b.get_normalized_matrix(),
                         (1 if k > 0 else -1) * a.get_normalized_matrix()),
              'normalized matrix')
    ctx.reach('sign')


def integers(ctx):
    m = ctx.choice('m', [X, 3 * Z, -2 * X, np.array([[1, 0], [0, -4]]),
                         np.kron(Y, Y), np.diag([0, 0, 0, -2])])
    t = ctx.HamiltonianTerm(np.array(m))
    ctx.check(ctx.mat_eq(t.get_matrix(), m), 'matrix')
    ctx.check(ctx.eq(t.get_coefficient(), float(np.linalg.norm(m, 2))),
              'strength')
    ctx.reach('integers')


def refused(ctx):
    k = ctx.choice('kind', ['lower', 'imaginary', 'shape', 'list', 'row',
                            'asym'])
    x = ctx.real('x', 0.01, 3)
    m = {'lower': lambda: ctx.arr([[x, x], [0, 1]]),
         'imaginary': lambda: ctx.arr([[1, ctx.I * x], [ctx.I * x, 1]]),
         'shape': lambda: ctx.arr([[1, x, 0], [x, 1, 0]]),
         'list': lambda: [[1, 0], [0, 1]],
         'row': lambda: ctx.arr([1, 0]),
         'asym': lambda: ctx.arr([[1 + ctx.I * x, 0], [0, 1]])}[k]()
    ctx.check(ctx.raises(lambda: ctx.HamiltonianTerm(m)), 'refused')
    ctx.reach(k)


def jobs(tier):
    out = []
    for k in ['one', 'two', 'real two', 'diag4', 'xx', 'anti', 'eight', 'diag16', 'block16', 'string16',
              'three', 'four']:
        out.append(dict(name='normal_' + k.replace(' ', '_'), fn=normal,
                        cfg={'kind': k}, must=['term'], cost=50))
    out.append(dict(name='independent', fn=independent, cost=10,
                    must=['independent']))
    out.append(dict(name='sign', fn=sign, cost=10, must=['sign']))
    out.append(dict(name='integers', fn=integers, cost=10,
                    must=['integers']))
    out.append(dict(name='refused', fn=refused, cost=10, must=[
        'lower', 'imaginary', 'shape', 'list', 'row', 'asym']))
    return out
