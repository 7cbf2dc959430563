"""C05: the fixed and rotation gates of the library."""
import itertools

import numpy as np

BOUNDS = ('every rotation angle in [-20, 20]; global Molmer-Sorensen gates on '
          '1..5 qubits (6 thorough); all fixed gates; evolution under every '
          '2x2 Hermitian matrix with entries in [-2, 2] and under Pauli '
          'strings on 1..3 qubits of every strength in [-2, 2], times in '
          '[-5, 5]')
OUTSIDE = 'angles beyond 20 rad; larger global gates'
ASSUMPTIONS = ['exact real arithmetic']

X = np.array([[0, 1], [1, 0]])
Y = np.array([[0, -1j], [1j, 0]])
Z = np.array([[1, 0], [0, -1]])


def pauli_exp(ctx, half, p):
    """cos(half) I - i sin(half) P for an involution P"""
    d = p.shape[0]
    out = ctx.zeros(d)
    c, s = ctx.cos(half), ctx.sin(half)
    for i in range(d):
        for j in range(d):
            x = 0
            if i == j:
                x = x + c
            if p[i, j] != 0:
                x = x - ctx.I * s * complex(p[i, j])
            out[i, j] = x
    return out


def rotations(ctx):
    D = ctx.UnitaryDefinitions
    t = ctx.real('theta', -20, 20)
    f = ctx.real('phi', -20, 20)
    g = ctx.cfg['gate']
    if g in ('rx', 'ry', 'rz'):
        u = getattr(D, g)(t)
        want = pauli_exp(ctx, t / 2, {'rx': X, 'ry': Y, 'rz': Z}[g])
        name = 'R' + g[1]
    elif g == 'xx':
        u = D.xx(t)
        want = pauli_exp(ctx, t, np.kron(X, X))
        name = 'XX'
    else:
        u = D.rphi(t, f)
        # rotation by theta about cos(phi) x + sin(phi) y
        c, s = ctx.cos(t / 2), ctx.sin(t / 2)
        want = ctx.zeros(2)
        want[0, 0] = c
        want[1, 1] = c
        want[0, 1] = -ctx.I * s * ctx.cexp(-ctx.I * f)
        want[1, 0] = -ctx.I * s * ctx.cexp(ctx.I * f)
        name = 'R'
    ctx.reach(g)
    ctx.check(ctx.phase_eq(u.get_matrix(), want), 'matrix')
    ctx.check(u.get_dimension() == (4 if g == 'xx' else 2), 'dimension')
    ctx.check(u.get_operation_name() == name, 'name')
    v = u.get_parameter_value('θ')
    ctx.check(v is not None and v[1] is True, 'angle recorded')
    ctx.check(ctx.eq(v[0], t), 'angle value recorded')
    if g == 'rphi':
        v = u.get_parameter_value('Φ')
        ctx.check(v is not None and v[1] is True, 'axis recorded')
        ctx.check(ctx.eq(v[0], f), 'axis value recorded')
    # the inverse undoes the rotation
    w = u.left_multiply(u.inverse())
    ctx.check(ctx.phase_eq(w.get_matrix(), ctx.eye(u.get_dimension())),
              'inverse undoes')
    # composition law
    s = ctx.real('eta', -20, 20)
    if g == 'rphi':
        u2, u12 = D.rphi(s, f), D.rphi(s + t, f)
    else:
        u2, u12 = getattr(D, g)(s), getattr(D, g)(s + t)
    ctx.check(ctx.phase_eq(u.left_multiply(u2).get_matrix(),
                           u12.get_matrix()), 'angles add')


def gms(ctx):
    n = ctx.cfg['n']
    D = ctx.UnitaryDefinitions
    kind = ctx.choice('kind', ctx.cfg['kinds'])
    if kind == 'angle':
        t = ctx.real('theta', -20, 20)
        u = D.gms(n, t)
    else:
        t = ctx.pi / 4
        u = D.gms(n)
    want = ctx.eye(2 ** n)
    for i, j in itertools.combinations(range(n), 2):
        p = np.array([[1]])
        for q in range(n):
            p = np.kron(p, X if q in (i, j) else np.eye(2))
        want = ctx.mm(pauli_exp(ctx, t, p), want)
    ctx.reach('gms ' + kind)
    ctx.check(ctx.phase_eq(u.get_matrix(), want), 'matrix')
    ctx.check(u.get_dimension() == 2 ** n, 'dimension')
    ctx.check(u.get_operation_name() == 'GMS%d' % n, 'name')
    v = u.get_parameter_value('θ')
    ctx.check(v is not None and v[1] is True, 'angle recorded')
    ctx.check(ctx.eq(v[0], t), 'angle value recorded')


QECC = np.array([
    [1, 1, 1, 1, 1, 1, 1, 1], [1, -1, -1, 1, -1, 1, 1, -1],
    [1, 1, -1, -1, 1, 1, -1, -1], [1, -1, 1, -1, -1, 1, -1, 1],
    [1, 1, 1, 1, -1, -1, -1, -1], [1, -1, -1, 1, 1, -1, -1, 1],
    [1, -1, 1, -1, 1, -1, 1, -1], [1, 1, -1, -1, -1, -1, 1, 1]])


def fixed(ctx):
    D = ctx.UnitaryDefinitions
    r = 1 / ctx.sqrt(ctx.num(2))
    w8 = ctx.cexp(ctx.I * ctx.pi / 4)
    k = ctx.choice('gate', ['h', 't', 'sigmax', 'sigmay', 'sigmaz', 'cnot',
                            'ccnot', 'qecc_phase_flip', 'xx'])
    u = getattr(D, k)()
    m = u.get_matrix()
    if k == 'h':
        want, name = ctx.arr([[r, r], [r, -r]]), 'H'
    elif k == 't':
        want, name = ctx.arr([[1, 0], [0, w8]]), 'T'
    elif k == 'sigmax':
        want, name = ctx.arr(X), 'X'
    elif k == 'sigmay':
        want, name = ctx.arr(Y), 'Y'
    elif k == 'sigmaz':
        want, name = ctx.arr(Z), 'Z'
    elif k == 'cnot':
        want, name = ctx.arr(np.eye(4)[[0, 1, 3, 2]]), 'CNOT'
    elif k == 'ccnot':
        want, name = ctx.arr(np.eye(8)[[0, 1, 2, 3, 4, 5, 7, 6]]), 'CCNOT'
    elif k == 'xx':
        want, name = pauli_exp(ctx, ctx.pi / 4, np.kron(X, X)), 'XX'
    else:
        want, name = ctx.arr(QECC) * (1 / ctx.sqrt(ctx.num(8))), 'QECC'
        # the stabilizers of the phase-flip code become the parities that the
        # first two qubits read out
        I = np.eye(2)
        for p, q in (((I, X, X), (I, Z, I)), ((X, I, X), (Z, I, I))):
            P = ctx.arr(np.kron(np.kron(*p[:2]), p[2]))
            Q = ctx.arr(np.kron(np.kron(*q[:2]), q[2]))
            ctx.check(ctx.mat_eq(ctx.mm(ctx.mm(m, P), ctx.dag(m)), Q),
                      'syndrome')
    ctx.reach(k)
    ctx.check(ctx.phase_eq(m, want), 'matrix of ' + k)
    ctx.check(u.get_operation_name() == name, 'name of ' + k)
    ctx.check(u.get_dimension() == want.shape[0], 'dimension of ' + k)
    v = getattr(D, k)()
    ctx.check(ctx.phase_eq(v.get_matrix(), want), 'second call of ' + k)


def evolution(ctx):
    """exp(iHt) with its name and time"""
    D = ctx.UnitaryDefinitions
    t, s = ctx.real('t', -5, 5), ctx.real('s', -5, 5)
    if ctx.cfg['h'] == 'free':
        a, b, c, d = [ctx.real('h%d' % i, -2, 2) for i in range(4)]
        H = ctx.arr([[a, b + ctx.I * c], [b - ctx.I * c, d]])

        def want(x):
            return ctx.expm(ctx.I * x * H)
    else:
        p = np.array([[1]])
        for q in ctx.cfg['h']:
            p = np.kron(p, {'I': np.eye(2), 'X': X, 'Y': Y, 'Z': Z}[q])
        g = ctx.real('g', -2, 2)
        H = g * ctx.arr(p)

        def want(x):
            return pauli_exp(ctx, -x * g, p)
    keep = ctx.copy(H)
    suffix = ctx.choice('suffix', [None, '', 'ab', 7])
    args = [] if suffix is None else [suffix]
    u = D.time_evolution(H, t, *args)
    d = keep.shape[0]
    ctx.reach('evolution')
    ctx.check(ctx.phase_eq(u.get_matrix(), want(t)), 'matrix')
    ctx.check(u.get_dimension() == d, 'dimension')
    ctx.check(u.get_operation_name() == 'H' + (
        '' if suffix is None else str(suffix)), 'name')
    v = u.get_parameter_value('t')
    ctx.check(v is not None and v[1] is False, 'time recorded')
    ctx.check(ctx.eq(v[0], t), 'time value recorded')
    ctx.check(ctx.mat_same(H, keep), 'argument untouched')
    ctx.check(ctx.phase_eq(D.time_evolution(H, -t).get_matrix(),
                           ctx.dag(want(t))), 'backwards')
    ctx.check(ctx.phase_eq(D.time_evolution(H, 0 * t).get_matrix(),
                           ctx.eye(d)), 'no time')
    if ctx.cfg['h'] != 'free':
        w = u.left_multiply(D.time_evolution(H, s))
        ctx.check(ctx.phase_eq(w.get_matrix(), want(s + t)), 'times add')


def not_hermitian(ctx):
    D = ctx.UnitaryDefinitions
    a = ctx.real('a', -2, 2)
    b = ctx.real('b', -2, 2)
    k = ctx.choice('kind', ['real', 'complex', 'diagonal'])
    ctx.assume(ctx.le(0.01, ctx.absv(a - b)))
    f = {'real': lambda: D.time_evolution(ctx.arr([[1, a], [b, 2]]), 1.0),
         'complex': lambda: D.time_evolution(
             ctx.arr([[1, ctx.I * a], [-ctx.I * b, 2]]), 1.0),
         'diagonal': lambda: D.time_evolution(
             ctx.arr([[ctx.I * (a - b), 0], [0, 1]]), 1.0),
         }[k]
    ctx.check(ctx.raises(f), 'refused')
    ctx.reach(k)


def jobs(tier):
    out = []
    for g in ['rx', 'ry', 'rz', 'xx', 'rphi']:
        out.append(dict(name=g, fn=rotations, cfg={'gate': g}, must=[g],
                        cost=5))
    for n in [1, 2, 3, 4, 5] + ([6] if tier == 'thorough' else []):
        kinds = ['angle', 'default'] if n < 5 else ['angle']
        out.append(dict(name='gms_%d' % n, fn=gms,
                        cfg={'n': n, 'kinds': kinds}, cost=4 ** n,
                        must=['gms ' + k for k in kinds]))
    for h in ('free', 'X', 'Y', 'Z', 'XY', 'YZ', 'IY', 'YI', 'ZZ', 'YYY',
              'XIY'):
        out.append(dict(name='evolution_' + h, fn=evolution, cfg={'h': h},
                        must=['evolution'], cost=20))
    out.append(dict(name='not_hermitian', fn=not_hermitian, cost=5, must=[
        'real', 'complex', 'diagonal']))
    out.append(dict(name='fixed', fn=fixed, cost=10,
                    must=['h', 't', 'sigmax', 'sigmay', 'sigmaz', 'cnot',
                          'ccnot', 'qecc_phase_flip', 'xx']))
    return out
