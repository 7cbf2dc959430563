"""C04: distance between unitaries and the closeness test."""
from .seqlib import FAMILIES, family

BOUNDS = ('arbitrary pairs of unitaries of dimension 2 (all angles), 3 and 4 '
          '(free entries constrained to be unitary), pairs of identity, '
          'diagonal, permutation, real, Hermitian, symmetric and block '
          'matrices with free angles, every threshold in [-0.5, 1.5] and none')
OUTSIDE = 'dimension above 4 (8 thorough) for the algebraic laws'
ASSUMPTIONS = ['exact real arithmetic; the closeness test may deviate from '
               'the exact comparison by 2e-8 at its boundary']


def formula(ctx):
    """distance = 1 - |tr(A^dagger B)| / d, whatever the phases"""
    d = ctx.cfg['d']
    if ctx.cfg.get('special'):
        fs = [f for f in FAMILIES[:-1] if d > 2 or f != 'hermitian']
        A, B = [family(ctx, ctx.choice(k, fs), d, k) for k in 'AB']
    else:
        A, B = ctx.unitary('A', d), ctx.unitary('B', d)
    u, v = ctx.Unitary(d, ctx.copy(A)), ctx.Unitary(d, ctx.copy(B))
    want = ctx.dist(A, B)
    ctx.check(ctx.eq(u.distance_from(v), want), 'distance')
    ctx.check(ctx.eq(v.distance_from(u), want), 'symmetric')
    ctx.check(ctx.eq(u.distance_from(ctx.copy(B)), want), 'raw matrix')
    ctx.check(ctx.eq(u.distance_from(u), 0), 'distance to itself')
    g = ctx.real('g', -3, 3)
    w = ctx.Unitary(d, ctx.cexp(ctx.I * g) * ctx.copy(A))
    ctx.check(ctx.eq(w.distance_from(v), want), 'phase of the first')
    ctx.check(ctx.eq(v.distance_from(w), want), 'phase of the second')
    ctx.check(ctx.eq(w.distance_from(u), 0), 'distance to a phased copy')
    ctx.check(ctx.phase_eq(u.get_matrix(), A), 'first untouched')
    ctx.check(ctx.phase_eq(v.get_matrix(), B), 'second untouched')
    ctx.reach('formula')


def bounds(ctx):
    d = 2
    A, B = ctx.unitary('A', d), ctx.unitary('B', d)
    u, v = ctx.Unitary(d, ctx.copy(A)), ctx.Unitary(d, ctx.copy(B))
    x = u.distance_from(v)
    # 4 - |tr U|^2 = |U00 - U11|^2 + 2 |U01|^2 + 2 |U10|^2 for unitary U
    U = ctx.mm(ctx.dag(A), B)
    for e in (U[0, 0] - U[1, 1], U[0, 1], U[1, 0],
              ctx.absv(U[0, 0] + U[1, 1]) - 2):
        ctx.sq(e)
    ctx.check(ctx.le(0, x), 'not negative')
    ctx.check(ctx.le(x, 1), 'at most one')
    ctx.reach('bounds')


def invariance(ctx):
    d = ctx.cfg['d']
    A, B, C = [ctx.unitary(n, d) for n in 'ABC']
    a, b, c = [ctx.Unitary(d, ctx.copy(M)) for M in (A, B, C)]
    want = ctx.dist(A, B)
    ctx.check(ctx.eq(a.left_multiply(c).distance_from(b.left_multiply(c)),
                     want), 'left invariance')
    ctx.check(ctx.eq(a.right_multiply(c).distance_from(b.right_multiply(c)),
                     want), 'right invariance')
    ctx.reach('invariance')


def closeness(ctx):
    """close to within the threshold exactly when overlap >= threshold"""
    A, B = ctx.unitary('A', 2), ctx.unitary('B', 2)
    u, v = ctx.Unitary(2, ctx.copy(A)), ctx.Unitary(2, ctx.copy(B))
    t = ctx.real('t', -0.5, 1.5)
    got = bool(u.close_to(v, t))
    overlap = 1 - ctx.dist(A, B)
    if got:
        ctx.reach('close')
        ctx.check(ctx.le(t, overlap, 2e-8), 'close only if overlap suffices')
    else:
        ctx.reach('far')
        ctx.check(ctx.le(overlap, t), 'far only if overlap is too small')


def exact(ctx):
    """no threshold and a threshold of one both ask for equality up to
    phase"""
    A, B = ctx.unitary('A', 2), ctx.unitary('B', 2)
    u, v = ctx.Unitary(2, ctx.copy(A)), ctx.Unitary(2, ctx.copy(B))
    kind = ctx.choice('kind', ['none', 'default', 'one'])
    if kind == 'none':
        got = bool(u.close_to(v, None))
    elif kind == 'default':
        got = bool(u.close_to(v))
    else:
        got = bool(u.close_to(v, 1.0))
    gap = ctx.dist(A, B)
    ctx.reach(kind + (' close' if got else ' far'))
    if got:
        ctx.check(ctx.le(gap, 0, 2e-8), 'close only if equal')
    else:
        ctx.check(ctx.le(1e-10, gap), 'far only if different')


def same(ctx):
    """a unitary is close to any phased copy of itself at any threshold up to
    one"""
    d = ctx.cfg['d']
    A = ctx.unitary('A', d)
    g = ctx.real('g', -3, 3)
    u = ctx.Unitary(d, ctx.copy(A))
    v = ctx.Unitary(d, ctx.cexp(ctx.I * g) * ctx.copy(A))
    t = ctx.choice('t', [None, 1.0, 'any'])
    if t == 'any':
        t = ctx.real('t', -1, 1)
    ctx.check(bool(u.close_to(v, t)), 'close to a phased copy')
    ctx.check(bool(v.close_to(u, t)), 'phased copy is close')
    ctx.check(bool(u.close_to(u, t)), 'close to itself')
    w = u.left_multiply(v).left_multiply(u.inverse())
    ctx.check(bool(w.close_to(v, t)), 'close after multiplying back')
    ctx.reach('same')


def jobs(tier):
    out = []
    for d in [1, 2, 3, 4] + ([8] if tier == 'thorough' else []):
        out.append(dict(name='formula_d%d' % d, fn=formula, cfg={'d': d},
                        must=['formula'], cost=d * d))
    for d in (2, 3, 4):
        out.append(dict(name='formula_special_d%d' % d, fn=formula,
                        cfg={'d': d, 'special': True}, must=['formula'],
                        cost=30))
    out.append(dict(name='bounds', fn=bounds, must=['bounds'], cost=20))
    out.append(dict(name='invariance_d2', fn=invariance, cfg={'d': 2},
                    must=['invariance'], cost=20))
    if tier == 'thorough':
        out.append(dict(name='invariance_d3', fn=invariance, cfg={'d': 3},
                        must=['invariance'], cost=20))
    out.append(dict(name='closeness', fn=closeness, must=['close', 'far'],
                    cost=20))
    out.append(dict(name='exact', fn=exact, cost=20,
                    must=['%s %s' % (a, b) for a in
                          ('none', 'default', 'one') for b in
                          ('close', 'far')]))
    for d in [2, 3, 4]:
        out.append(dict(name='same_d%d' % d, fn=same, cfg={'d': d},
                        must=['same'], cost=d * d))
    return out
