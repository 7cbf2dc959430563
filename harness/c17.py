"""C17: time evolution under a Hamiltonian, its ideal and its Trotter
sequences."""
import itertools
from fractions import Fraction as F

from . import late
from .hamlib import evolution, family, qubits, terms, total

BOUNDS = ('Hamiltonians of 1..4 terms on 1..3 qubits: Pauli strings with every '
          'strength in [0.1, 3] or [-3, -0.1], arbitrary Hermitian 2x2 and '
          '4x4 terms with entries in [-3, 3]; every time in [-3, 3]; 1..11 '
          'steps (30 thorough; the product of the steps up to 3); every order '
          'of every step; the joint law of the orders of pairs among up to '
          '30 steps, the others taking fixed draws')
OUTSIDE = ('the numerical quality of scipy.linalg.expm (an uninterpreted '
           'function of its argument where no closed form is known); more '
           'terms, qubits or steps')
ASSUMPTIONS = ['exact real arithmetic', 'the random generators return '
               'independent draws with their documented distributions']


def make(ctx):
    mats = family(ctx, ctx.cfg['words'])
    d = mats[0].shape[0]
    return mats, d, ctx.Hamiltonian(terms(ctx, mats))


def matrix(e, d):
    return e.get_full_unitary(d).get_matrix()


def operator(ctx):
    mats, d, H = make(ctx)
    t = ctx.real('t', -3, 3)
    U = H.get_time_evolution_operator(t)
    ctx.check(H.get_dimension() == d and U.get_dimension() == d, 'dimension')
    ctx.check(H.get_qubit_count() == len(qubits(d)), 'qubits')
    ctx.check(ctx.phase_eq(U.get_matrix(), evolution(ctx, total(mats), t)),
              'evolution by the sum of the terms')
    Z = H.get_time_evolution_operator(0)
    ctx.check(ctx.phase_eq(Z.get_matrix(), ctx.eye(d)), 'time zero')
    V = H.get_time_evolution_operator(-t)
    ctx.check(ctx.phase_eq(V.get_matrix(), ctx.dag(U.get_matrix())),
              'backwards')
    ctx.reach('operator')


def group(ctx):
    mats, d, H = make(ctx)
    s, t = ctx.real('s', -3, 3), ctx.real('t', -3, 3)
    ev = H.get_time_evolution_operator
    a, b, c = ev(s).get_matrix(), ev(t).get_matrix(), ev(s + t).get_matrix()
    ctx.check(ctx.phase_eq(ctx.mm(a, b), c), 'times add up')
    ctx.check(ctx.phase_eq(ctx.mm(b, a), c), 'in either order')
    ctx.reach('group')


def ideal(ctx):
    mats, d, H = make(ctx)
    t = ctx.real('t', -3, 3)
    n = ctx.cfg['n']
    S = H.get_ideal_sequence(t, n)
    es = S.get_sequence_entries()
    ctx.check(S.get_dimension() == d, 'dimension')
    ctx.check(len(es) == n, 'length')
    want = evolution(ctx, total(mats), t * ctx.num(F(1, n)))
    for e in es:
        ctx.check(ctx.phase_eq(matrix(e, d), want), 'one step')
    if ctx.cfg.get('product'):
        ctx.check(ctx.phase_eq(S.product().get_matrix(), evolution(
            ctx, total(mats), t)), 'whole evolution')
    ctx.reach('ideal')


def trotter(ctx):
    mats, d, H = make(ctx)
    t = ctx.real('t', -3, 3)
    n = ctx.cfg['n']
    S = H.get_trotter_sequence(t, n)
    es = S.get_sequence_entries()
    ctx.check(S.get_dimension() == d, 'dimension')
    ctx.check(len(es) == n * len(mats), 'length')
    steps = [evolution(ctx, m, t * ctx.num(F(1, n))) for m in mats]
    for i, e in enumerate(es):
        ctx.check(ctx.phase_eq(matrix(e, d), steps[i % len(mats)]),
                  'terms in order')
    if ctx.cfg.get('product'):      # commuting terms: no splitting error
        ctx.check(ctx.phase_eq(S.product().get_matrix(), evolution(
            ctx, total(mats), t)), 'whole evolution')
    ctx.reach('trotter')


def shuffled(ctx):
    """every step has every term once, in an independent uniform order"""
    mats, d, H = make(ctx)
    t = ctx.real('t', 0.3, 0.9)
    n, k = ctx.cfg['n'], len(mats)
    S = H.get_trotter_sequence(t, n, randomize=True)
    es = S.get_sequence_entries()
    ctx.check(len(es) == n * k, 'length')
    steps = [evolution(ctx, m, t * ctx.num(F(1, n))) for m in mats]
    out = []
    for e in es:
        m = matrix(e, d)
        hit = [i for i, s in enumerate(steps) if ctx.identical(m, s)]
        ctx.check(len(hit) == 1, 'every entry evolves one term')
        if len(hit) != 1:
            ctx.cut()
        out.append(hit[0])
    blocks = [tuple(out[i:i + k]) for i in range(0, n * k, k)]
    ctx.check(all(sorted(b) == list(range(k)) for b in blocks),
              'every term once per step')
    ctx.outcome('order', tuple(blocks))
    perms = list(itertools.permutations(range(k)))
    ctx.expect('order', {b: ctx.num(F(1, len(perms) ** n))
                         for b in itertools.product(perms, repeat=n)})
    ctx.reach('shuffled')


def distant(ctx):
    """orders of steps far from each other are independent"""
    mats, d, H = make(ctx)
    n, k, t = ctx.cfg['n'], len(mats), ctx.num(F(3, 5))
    memo = {}

    def run(n):
        es = H.get_trotter_sequence(t, n, randomize=True
                                    ).get_sequence_entries()
        return [es[i:i + k] for i in range(0, len(es), k)]

    def key(part, n=n):
        if n not in memo:
            memo[n] = [evolution(ctx, m, t * ctx.num(F(1, n))) for m in mats]
        out = []
        for e in part:
            m = matrix(e, d)
            hit = [i for i, s in enumerate(memo[n]) if ctx.identical(m, s)]
            ctx.check(len(hit) == 1, 'every entry evolves one term')
            if len(hit) != 1:
                ctx.cut()
            out.append(hit[0])
        return tuple(out)
    perms = list(itertools.permutations(range(k)))
    law = {q: ctx.num(F(1, len(perms))) for q in perms}
    if ctx.cfg.get('seed'):
        late.last(ctx, run, key, ctx.cfg['lengths'], law, ctx.cfg['seed'])
    else:
        late.pair(ctx, lambda: run(n), key, n, law,
                  every=ctx.cfg.get('every'))


def detached(ctx):
    """neither the caller's list of terms nor repeated calls change it"""
    mats, d, H0 = make(ctx)
    ts = terms(ctx, mats)
    H = ctx.Hamiltonian(ts)
    t = ctx.real('t', -3, 3)
    want = evolution(ctx, total(mats), t)
    kind = ctx.choice('kind', ['append', 'replace', 'clear', 'shuffled',
                               'drift', 'sequence'])
    if kind == 'append':
        ts.append(ts[0])
    elif kind == 'replace':
        ts[0] = ts[-1]
    elif kind == 'clear':
        ts.clear()
    elif kind == 'shuffled':
        H.get_trotter_sequence(t, 1, randomize=True)
    elif kind == 'drift':
        H.get_qdrift_sequence(t, 1)
    else:
        H.get_ideal_sequence(t, 2)
    ctx.check(ctx.phase_eq(H.get_time_evolution_operator(t).get_matrix(),
                           want), 'same evolution')
    es = H.get_trotter_sequence(t, 1).get_sequence_entries()
    ctx.check(len(es) == len(mats), 'same number of terms')
    for m, e in zip(mats, es):
        ctx.check(ctx.phase_eq(matrix(e, d), evolution(ctx, m, t)),
                  'same terms')
    ctx.reach(kind)


def refused(ctx):
    T = ctx.HamiltonianTerm
    a = T(ctx.arr(PX))
    b = T(ctx.arr(PXX))
    k = ctx.choice('kind', ['none', 'empty', 'matrix', 'mixed'])
    v = {'none': None, 'empty': [],
         'matrix': [ctx.arr(PX)], 'mixed': [a, b]}[k]
    ctx.check(ctx.raises(lambda: ctx.Hamiltonian(v)), 'refused')
    ctx.reach(k)


from .hamlib import pauli       # noqa
PX, PXX = pauli('X'), pauli('XX')

SETS = {'x': ['X'], 'xyz': ['X', 'Y', '-Z'], 'zz': ['Z', '2Z', '-Z'],
        'diag': ['diag2', 'Z'], 'any': ['any2'], 'anyx': ['any2', 'X'],
        'any4': ['any4', 'XZ'], 'comm': ['XX', 'ZZ', '-YY'],
        'two': ['XI', '-IX', 'ZZ', 'IY'], 'three': ['XXI', 'IZZ', '-YIX'],
        'anti': ['XI', 'YX', 'ZI']}
CLOSED = ['x', 'xyz', 'zz', 'diag', 'any', 'anti', 'anyx']
COMMUTE = ['x', 'zz', 'diag']


def jobs(tier):
    out = []
    T = tier == 'thorough'
    for k, w in SETS.items():
        out.append(dict(name='operator_' + k, fn=operator, cfg={'words': w},
                        must=['operator'], cost=10))
        if k in CLOSED:
            out.append(dict(name='group_' + k, fn=group, cfg={'words': w},
                            must=['group'], cost=20))
        for n in [1, 3, 11] + ([30] if T else []):
            out.append(dict(name='ideal_%s_n%d' % (k, n), fn=ideal, cfg={
                'words': w, 'n': n, 'product': k in CLOSED and n < 4},
                must=['ideal'], cost=10 * n))
        for n in [1, 2, 7] + ([20] if T else []):
            out.append(dict(name='trotter_%s_n%d' % (k, n), fn=trotter, cfg={
                'words': w, 'n': n, 'product': k in COMMUTE and n < 3},
                must=['trotter'], cost=10 * n))
    for k, n in [('x', 2), ('xyz', 1), ('comm', 1), ('anyx', 2), ('two', 1)] \
            + ([('xyz', 2), ('anyx', 3)]):
        out.append(dict(name='shuffled_%s_n%d' % (k, n), fn=shuffled, cfg={
            'words': SETS[k], 'n': n}, must=['shuffled'], cost=20 * n,
            conf=12, paths=20000))
    for k in ['xyz', 'comm']:
        out.append(dict(name='detached_' + k, fn=detached, cfg={
            'words': SETS[k]}, must=['append', 'replace', 'clear',
                                     'shuffled', 'drift', 'sequence'],
            cost=20))
    out.append(dict(name='refused', fn=refused, cost=5, must=[
        'none', 'empty', 'matrix', 'mixed']))
    for w, n, every in [(['1X', '2Y'], 12, None), (['1X', '2Y', '3Z'], 9,
                                                   [0, 4, 7]),
                        (['1X', '2Y'], 30, [0, 9, 28])]:
        out.append(dict(name='distant_%d_n%d' % (len(w), n), fn=distant, cfg={
            'words': w, 'n': n, 'every': every}, must=['pair'], cost=40,
            conf=4))
    for seed in 'low', 'high':
        out.append(dict(name='last_' + seed, fn=distant, cfg={
            'words': ['1X', '2Z', '3Y'], 'n': 2, 'seed': seed,
            'lengths': range(2, 11)}, must=['last'], cost=40, conf=4))
    return out
