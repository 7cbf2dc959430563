"""C03: algebra of unitary objects."""
from .seqlib import FAMILIES, family

BOUNDS = ('operands: arbitrary unitaries of dimension 1..4 (8 thorough), and '
          'pairs of identity, diagonal, permutation, real, Hermitian, '
          'symmetric and block matrices with free angles; tensor products of '
          'dimensions (2,2), (2,4), (4,2), (1,4), (3,2), (2,8), (8,2)')
OUTSIDE = 'larger dimensions'
ASSUMPTIONS = ['exact real arithmetic',
               'scipy.stats.unitary_group.rvs returns some unitary matrix']

# name of either operand and whether it is marked as an inverse (alike: with
# the other mark and the same parameters)
LABELS = [('A', 'B', False, False), ('A', 'B', True, True),
          ('A', 'A', False, True), ('I', 'U', False, False),
          ('U', 'I', True, False), ('A', 'A', False, 'alike'),
          ('A', 'A', True, 'alike')]


def ops(ctx):
    d = ctx.cfg['d']
    if ctx.cfg.get('special'):
        A, B = [family(ctx, ctx.choice(k, FAMILIES[:-1]), d, k) for k in 'AB']
    else:
        A, B = ctx.unitary('A', d), ctx.unitary('B', d)
    # labels, marks and parameters say nothing about the matrix
    na, nb, iu, iv = ctx.choice('labels', LABELS) if ctx.cfg.get(
        'labels') else LABELS[0]
    other, iv = {'t': (0.25, iv != 'alike')} if iv else None, bool(iv) != iu \
        if iv == 'alike' else iv
    u = ctx.Unitary(d, ctx.copy(A), na, {'t': (0.25, False)}, is_inverse=iu,
                    apply_to=[1])
    v = ctx.Unitary(d, ctx.copy(B), nb, other, is_inverse=iv)
    i = u.inverse()
    ctx.check(ctx.phase_eq(i.get_matrix(), ctx.dag(A)), 'inverse matrix')
    ctx.check(i.get_operation_name() == na, 'inverse keeps the name')
    ctx.check(i.get_parameter_value('t') == (0.25, False),
              'inverse keeps the parameters')
    ctx.check(i.get_display_name().endswith('†') != iu, 'inverse is marked')
    ctx.check(u.get_display_name().endswith('†') == iu, 'original not marked')
    ii = i.inverse()
    ctx.check(ctx.phase_eq(ii.get_matrix(), A), 'double inverse matrix')
    ctx.check(ii.get_display_name() == u.get_display_name(),
              'double inverse display')
    for name, w in (('left', i.left_multiply(u)),
                    ('right', i.right_multiply(u))):
        ctx.check(ctx.phase_eq(w.get_matrix(), ctx.eye(d)),
                  name + ' product with the inverse is the identity')
    l = u.left_multiply(v)
    r = u.right_multiply(v)
    ctx.check(ctx.phase_eq(l.get_matrix(), ctx.mm(B, A)), 'left product')
    ctx.check(ctx.phase_eq(r.get_matrix(), ctx.mm(A, B)), 'right product')
    li = l.inverse()
    ctx.check(ctx.phase_eq(li.get_matrix(), ctx.mm(ctx.dag(A), ctx.dag(B))),
              'inverse of a product')
    ctx.check(ctx.phase_eq(u.get_matrix(), A), 'first operand untouched')
    ctx.check(ctx.phase_eq(v.get_matrix(), B), 'second operand untouched')
    ctx.check(l.get_dimension() == d and r.get_dimension() == d and
              i.get_dimension() == d, 'dimensions')
    ctx.reach('ops')


def assoc(ctx):
    d = ctx.cfg['d']
    M = [ctx.unitary(n, d) for n in 'ABC']
    a, b, c = [ctx.Unitary(d, ctx.copy(m)) for m in M]
    x = a.left_multiply(b).left_multiply(c)
    y = a.left_multiply(b.left_multiply(c))
    want = ctx.mm(M[2], ctx.mm(M[1], M[0]))
    ctx.check(ctx.phase_eq(x.get_matrix(), want), 'three factors')
    ctx.check(ctx.phase_eq(y.get_matrix(), want), 'three factors regrouped')
    z = c.right_multiply(b).right_multiply(a)
    ctx.check(ctx.phase_eq(z.get_matrix(), want), 'three factors from the '
              'right')
    ctx.reach('assoc')


def tensor(ctx):
    d, e = ctx.cfg['d'], ctx.cfg['e']
    if ctx.cfg.get('special'):
        A = family(ctx, ctx.choice('A', FAMILIES), d, 'A')
        B = family(ctx, ctx.choice('B', FAMILIES), e, 'B')
    else:
        A, B = ctx.unitary('A', d), ctx.unitary('B', e)
    na, nb, iu, iv = (LABELS[2] if ctx.cfg.get('special') else
                      ctx.choice('labels', LABELS[:5]))
    u = ctx.Unitary(d, ctx.copy(A), na, is_inverse=iu)
    v = ctx.Unitary(e, ctx.copy(B), nb, {'t': (0.25, True)},
                    is_inverse=iv, apply_to=[0] if iv else [])
    t = u.tensor(v)
    ctx.check(t.get_dimension() == d * e, 'dimension')
    ctx.check(ctx.phase_eq(t.get_matrix(), ctx.kron(A, B)), 'tensor product')
    ctx.check(ctx.phase_eq(u.get_matrix(), A), 'first operand untouched')
    ctx.check(ctx.phase_eq(v.get_matrix(), B), 'second operand untouched')
    ctx.check(ctx.raises(lambda: u.tensor(B)), 'tensor with a matrix rejected')
    i = u.inverse().tensor(v.inverse())
    ctx.check(ctx.phase_eq(i.get_matrix(), ctx.kron(ctx.dag(A), ctx.dag(B))),
              'tensor product of inverses')
    if d != e:
        ctx.check(ctx.raises(lambda: u.left_multiply(v)),
                  'left product of different dimensions rejected')
        ctx.check(ctx.raises(lambda: u.right_multiply(v)),
                  'right product of different dimensions rejected')
        for a, b in ((u, v), (v, u), (u, ctx.copy(B)), (v, ctx.copy(A))):
            ctx.check(ctx.raises(lambda: a.distance_from(b)),
                      'distance between different dimensions rejected')
            ctx.check(ctx.raises(lambda: a.close_to(b)),
                      'closeness between different dimensions rejected')
    ctx.reach('tensor')


def haar(ctx):
    d = ctx.cfg['d']
    u = ctx.Unitary.random(d)
    ctx.check(u.get_dimension() == d, 'dimension')
    ctx.check(ctx.is_unitary(u.get_matrix()), 'unitary')
    ctx.check(ctx.det_one(u.get_matrix()), 'determinant one')
    ctx.check(ctx.draws() > 0, 'uses randomness')
    ctx.reach('random')


def jobs(tier):
    out = []
    for d in [1, 2, 3, 4] + ([8] if tier == 'thorough' else []):
        out.append(dict(name='ops_d%d' % d, fn=ops, cfg={'d': d},
                        must=['ops'], cost=d * d))
    for d in [2, 3]:
        out.append(dict(name='labels_d%d' % d, fn=ops, cfg={
            'd': d, 'labels': True}, must=['ops'], cost=d * d * 5))
    for d in [2, 3] + ([4] if tier == 'thorough' else []):
        out.append(dict(name='assoc_d%d' % d, fn=assoc, cfg={'d': d},
                        must=['assoc'], cost=d * d))
    for d, e in [(2, 2), (2, 4), (4, 2), (1, 4), (3, 2)]:
        out.append(dict(name='tensor_%d_%d' % (d, e), fn=tensor,
                        cfg={'d': d, 'e': e}, must=['tensor'], cost=d * e))
    out.append(dict(name='tensor_8_2', fn=tensor, cfg={
        'd': 8, 'e': 2, 'special': True}, must=['tensor'], cost=60))
    out.append(dict(name='tensor_2_8', fn=tensor, cfg={
        'd': 2, 'e': 8, 'special': True}, must=['tensor'], cost=60))
    for d in (2, 3):
        out.append(dict(name='ops_special_d%d' % d, fn=ops, cfg={
            'd': d, 'special': True}, must=['ops'], cost=60))
    for d in [2, 3, 4]:
        out.append(dict(name='random_d%d' % d, fn=haar, cfg={'d': d},
                        must=['random'], cost=d))
    return out
