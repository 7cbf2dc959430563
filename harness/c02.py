"""C02: what a unitary object accepts and the normal form it stores."""
from fractions import Fraction as F

import numpy as np

from .seqlib import FAMILIES, family

BOUNDS = ('arbitrary complex 2x2 matrices with components in [-2, 2]; '
          'arbitrary unitary matrices of dimension 1, 2, 3, 4 (8 thorough); '
          'diagonal, permutation and block matrices with free phases and '
          'angles; every mismatch between dimension 1..4 and shapes up to '
          '4x4')
OUTSIDE = ('non-unitary matrices of dimension 3 and more are covered through '
           'scaled rows and columns only; dimensions above 8')
ASSUMPTIONS = ['exact real arithmetic']


def within(ctx, W):
    I = ctx.eye(2)
    d = ctx.arr([[W[i, i], 0] if i == 0 else [0, W[i, i]] for i in (0, 1)])
    return ctx.all([ctx.mat_near(d, I, 2e-5),
                    ctx.mat_near(W - d, ctx.zeros(2), 2e-8)])


def arbitrary(ctx):
    """any 2x2 matrix: accepted exactly when it is unitary to within numpy's
    tolerance"""
    M = ctx.matrix('M', 2)
    keep = ctx.copy(M)
    made = []
    rej = ctx.raises(lambda: made.append(ctx.Unitary(2, M)))
    W = ctx.mm(keep, ctx.dag(keep))
    if rej:
        ctx.reach('rejected')
        ctx.check(ctx.neg(ctx.mat_near(W, ctx.eye(2), 1e-9)),
                  'rejected only if not unitary')
    else:
        ctx.reach('accepted')
        # numpy's default tolerance: 1e-5 relative, 1e-8 absolute
        V = ctx.mm(ctx.dag(keep), keep)
        ctx.check(ctx.any([within(ctx, W), within(ctx, V)]),
                  'accepted only if unitary')
    ctx.check(ctx.mat_same(M, keep), 'argument untouched')


def unitary(ctx):
    d = ctx.cfg['d']
    M = ctx.unitary('M', d)
    keep = ctx.copy(M)
    u = ctx.Unitary(d, M)
    m = u.get_matrix()
    ctx.reach('built')
    ctx.check(u.get_dimension() == d, 'dimension')
    ctx.check(ctx.phase_eq(m, keep), 'matrix up to phase')
    ctx.check(ctx.is_unitary(m), 'stored matrix is unitary')
    ctx.check(ctx.det_one(m), 'determinant one')
    ctx.check(ctx.mat_same(M, keep), 'argument untouched')
    # a global phase on the argument does not matter
    g = ctx.real('g', -3, 3)
    v = ctx.Unitary(d, ctx.cexp(ctx.I * g) * keep)
    ctx.check(ctx.phase_eq(v.get_matrix(), keep), 'phased matrix')
    ctx.check(ctx.det_one(v.get_matrix()), 'phased determinant one')
    # building from the stored matrix changes at most the phase
    w = ctx.Unitary(d, ctx.copy(m))
    ctx.check(ctx.phase_eq(w.get_matrix(), keep), 'rebuilt matrix')
    ctx.check(ctx.det_one(w.get_matrix()), 'rebuilt determinant one')


def shaped(ctx):
    """structured unitaries of larger dimension with free angles"""
    kind = ctx.choice('kind', ['diag', 'perm', 'block', 'phase'] +
                      [f for f in FAMILIES if f not in ('block', 'phase')])
    d = ctx.cfg['d']
    M = ctx.zeros(d)
    if kind == 'diag':
        for i in range(d):
            M[i, i] = ctx.cexp(ctx.I * ctx.real('a%d' % i, -3, 3))
    elif kind == 'perm':
        for i in range(d):
            M[i, (i + 1) % d] = ctx.cexp(ctx.I * ctx.real('a%d' % i, -3, 3))
    elif kind == 'phase':
        M = ctx.cexp(ctx.I * ctx.real('a', -6, 6)) * ctx.eye(d)
    elif kind != 'block':
        M = family(ctx, kind, d)
    else:
        M = ctx.eye(d)
        U = ctx.unitary('U', 2)
        i = ctx.choice('i', range(d))
        j = ctx.choice('j', [x for x in range(d) if x != i])
        M[i, i], M[i, j] = U[0, 0], U[0, 1]
        M[j, i], M[j, j] = U[1, 0], U[1, 1]
    keep = ctx.copy(M)
    u = ctx.Unitary(d, M)
    ctx.reach(kind)
    ctx.check(ctx.phase_eq(u.get_matrix(), keep), 'matrix up to phase')
    ctx.check(ctx.det_one(u.get_matrix()), 'determinant one')
    ctx.check(ctx.is_unitary(u.get_matrix()), 'stored matrix is unitary')


def detached(ctx):
    """the array is only read, also where components are rounding noise, and
    changing it later does not change the object"""
    t = ctx.real('t', -3, 3)
    eps = ctx.num(F(1, 10 ** 13))
    kind = ctx.choice('kind', ['float', 'complex', 'int', 'product'])
    if kind == 'int':
        M = np.array([[0, 1], [-1, 0]])
    elif kind == 'product':
        M = ctx.zeros(4)
        for i, q in enumerate([2, 0, 3, 1]):
            M[i, q] = ctx.cexp(ctx.I * t) if i == 1 else ctx.num(1)
        M[0, 1] = ctx.I * eps
        M[3, 3] = eps
    else:
        c, s = ctx.cos(t), ctx.sin(t)
        M = ctx.arr([[c, -s, eps], [s, c, 0], [0, -eps, 1]])
        if kind == 'complex':
            M = ctx.I * M
    keep = ctx.copy(M)
    u = ctx.Unitary(M.shape[0], M)
    ctx.reach(kind)
    ctx.check(ctx.mat_same(M, keep), 'argument untouched')
    first = ctx.copy(u.get_matrix())
    ctx.check(ctx.det_one(first), 'determinant one')
    M[0, 0] = 7
    M[1, 0] = 2
    ctx.check(ctx.mat_same(u.get_matrix(), first), 'later changes of the '
              'argument do not matter')


def scaled(ctx):
    """a unitary with one row or column scaled is no longer unitary"""
    d = ctx.cfg['d']
    M = ctx.unitary('M', 2) if d == 2 else ctx.kron(
        ctx.unitary('M', 2), ctx.eye(d // 2))
    s = ctx.real('s', -3, 3)
    ctx.assume(ctx.any([ctx.le(s * s, 0.9999), ctx.le(1.0001, s * s)]))
    k = ctx.choice('k', range(d))
    if ctx.choice('row', [True, False]):
        for i in range(d):
            M[k, i] = M[k, i] * s
    else:
        for i in range(d):
            M[i, k] = M[i, k] * s
    ctx.reach('scaled')
    ctx.check(ctx.raises(lambda: ctx.Unitary(d, M)), 'scaled matrix rejected')


def skewed(ctx):
    """a unitary to which a small multiple of one row or column is added
    elsewhere: refused beyond numpy's tolerance, accepted well below it"""
    d = ctx.cfg['d']
    M = ctx.zeros(d)
    for i in range(d):
        M[i, (i + 1) % d] = ctx.cexp(ctx.I * ctx.real('a%d' % i, -3, 3))
    s = ctx.real('s', -1, 1)
    size = ctx.choice('size', ['large', 'tiny', 'none'])
    if size == 'large':
        ctx.assume(ctx.any([ctx.le(s, -1e-7), ctx.le(1e-7, s)]))
    elif size == 'tiny':
        ctx.assume(ctx.all([ctx.le(-1e-9, s), ctx.le(s, 1e-9)]))
    else:
        s = 0
    a, b = ctx.choice('rows', [(0, 1), (1, 0), (d - 1, 0)])
    f = ctx.choice('factor', [1, ctx.I])
    if ctx.choice('row', [True, False]):
        M[a, :] = M[a, :] + f * s * M[b, :]
    else:
        M[:, a] = M[:, a] + f * s * M[:, b]
    ctx.reach(size)
    if size == 'large':
        ctx.check(ctx.raises(lambda: ctx.Unitary(d, M)),
                  'skewed matrix rejected')
    else:
        keep = ctx.copy(M)
        u = ctx.Unitary(d, M)
        ctx.check(u.get_dimension() == d, 'unitary matrix accepted')
        if size == 'none':
            ctx.check(ctx.phase_eq(u.get_matrix(), keep), 'its matrix')


def shapes(ctx):
    d = ctx.choice('d', [1, 2, 3, 4])
    r = ctx.choice('r', [1, 2, 3, 4])
    c = ctx.choice('c', [1, 2, 3, 4])
    m = np.eye(r, c)
    rej = ctx.raises(lambda: ctx.Unitary(d, ctx.arr(m)))
    ctx.check(rej == (not (d == r == c)), 'shape accepted iff d x d')
    ctx.check(ctx.raises(lambda: ctx.Unitary(d, m.tolist())),
              'not an array: rejected')
    ctx.check(ctx.raises(lambda: ctx.Unitary(0, ctx.arr(m))),
              'dimension zero rejected')
    ctx.check(ctx.raises(lambda: ctx.Unitary(d, ctx.arr(m[:, 0]))) == (
        not (d == r == 1) or True), 'vector rejected')
    e = ctx.Unitary(d)
    ctx.check(ctx.mat_eq(e.get_matrix(), ctx.eye(d)),
              'identity when no matrix is given')
    f = ctx.Unitary.identity(d)
    ctx.check(ctx.phase_eq(f.get_matrix(), ctx.eye(d)), 'identity')
    ctx.check(f.get_dimension() == d, 'identity dimension')
    ctx.reach('shapes')


def jobs(tier):
    out = [dict(name='arbitrary', fn=arbitrary, must=['rejected', 'accepted'],
                cost=30),
           dict(name='shapes', fn=shapes, must=['shapes'], cost=3)]
    for d in [1, 2, 3, 4] + ([8] if tier == 'thorough' else []):
        out.append(dict(name='unitary_d%d' % d, fn=unitary, cfg={'d': d},
                        must=['built'], cost=d))
    for d in [2, 3, 4, 8] + ([16] if tier == 'thorough' else []):
        out.append(dict(name='shaped_d%d' % d, fn=shaped, cfg={'d': d},
                        must=['diag', 'perm', 'block', 'phase',
                              'hermitian', 'symmetric', 'real'], cost=d))
    for d in [2, 4]:
        out.append(dict(name='scaled_d%d' % d, fn=scaled, cfg={'d': d},
                        must=['scaled'], cost=5))
    for d in [2, 3]:
        out.append(dict(name='skewed_d%d' % d, fn=skewed, cfg={'d': d},
                        must=['large', 'tiny', 'none'], cost=8))
    out.append(dict(name='detached', fn=detached, cost=5,
                    must=['float', 'complex', 'int', 'product']))
    return out
