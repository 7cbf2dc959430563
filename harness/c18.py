"""C18: QDRIFT sequences."""
import itertools
from fractions import Fraction as F

from . import late
from .hamlib import evolution, family, qubits, terms, total

BOUNDS = ('Hamiltonians of 1..4 terms on 1..3 qubits: Pauli strings with every '
          'strength in [0.1, 3] or [-3, -0.1], arbitrary Hermitian 2x2 and '
          '4x4 and diagonal terms with entries in [-3, 3]; every time in [-3, 3] for the '
          'gates, exact probability of every sequence of 1..3 repetitions '
          '(4 thorough) as a function of the strengths; lengths up to 9; the joint law of '
          'pairs among up to 33 entries, the others taking fixed draws')
OUTSIDE = ('the numerical quality of scipy.linalg.expm and numpy.linalg.svd; '
           'more terms, qubits or repetitions; repeated identical terms')
ASSUMPTIONS = ['exact real arithmetic', 'the random generators return '
               'independent draws with their documented distributions']


def strengths(ctx, mats):
    return [ctx.specnorm(m) for m in mats]


def law(ctx):
    mats = family(ctx, ctx.cfg['words'])
    d = mats[0].shape[0]
    n = ctx.cfg['n']
    t = ctx.real('t', 0.3, 0.9)
    H = ctx.Hamiltonian(terms(ctx, mats))
    S = H.get_qdrift_sequence(t, n)
    es = S.get_sequence_entries()
    ctx.check(S.get_dimension() == d, 'dimension')
    ctx.check(len(es) == n, 'length')
    cs = strengths(ctx, mats)
    lam = sum(cs[1:], cs[0])
    gates = [evolution(ctx, m * (1 / c), lam * t * ctx.num(F(1, n)))
             for m, c in zip(mats, cs)]
    out = []
    for e in es:
        m = e.get_full_unitary(d).get_matrix()
        hit = [i for i, g in enumerate(gates) if ctx.identical(m, g)]
        ctx.check(len(hit) == 1, 'every entry evolves one term for its share '
                  'of the time')
        if len(hit) != 1:
            ctx.cut()
        out.append(hit[0])
    ctx.outcome('terms', tuple(out))
    want = {}
    for k in itertools.product(range(len(mats)), repeat=n):
        p = ctx.num(1)
        for i in k:
            p = p * cs[i] / lam
        want[k] = p
    ctx.expect('terms', want)
    ctx.reach('law')


def distant(ctx):
    """entries of a long sequence, however far apart, are independent"""
    mats = family(ctx, ctx.cfg['words'])
    d, n = mats[0].shape[0], ctx.cfg['n']
    t = ctx.num(F(3, 5))
    H = ctx.Hamiltonian(terms(ctx, mats))
    cs = strengths(ctx, mats)
    lam = sum(cs[1:], cs[0])
    memo = {}

    def key(e, n=n):
        if n not in memo:
            memo[n] = [evolution(ctx, m * (1 / c), lam * t * ctx.num(F(1, n)))
                       for m, c in zip(mats, cs)]
        gates = memo[n]
        m = e.get_full_unitary(d).get_matrix()
        hit = [i for i, g in enumerate(gates) if ctx.identical(m, g)]
        ctx.check(len(hit) == 1, 'every entry evolves one term for its share '
                  'of the time')
        if len(hit) != 1:
            ctx.cut()
        return hit[0]
    law = {i: c / lam for i, c in enumerate(cs)}

    def run(n):
        return H.get_qdrift_sequence(t, n).get_sequence_entries()
    if ctx.cfg.get('seed'):
        late.last(ctx, run, key, range(2, n + 1), law, ctx.cfg['seed'])
    else:
        late.pair(ctx, lambda: run(n), key, n, law,
                  every=ctx.cfg.get('every'))


def gates(ctx):
    """for every time, also negative ones, and every length"""
    mats = family(ctx, ctx.cfg['words'])
    d = mats[0].shape[0]
    n = ctx.cfg['n']
    t = ctx.real('t', -3, 3)
    ctx.limit_draws(2 if len(mats) > 1 and n > 2 else 100)
    H = ctx.Hamiltonian(terms(ctx, mats))
    S = H.get_qdrift_sequence(t, n)
    es = S.get_sequence_entries()
    ctx.check(len(es) == n, 'length')
    cs = strengths(ctx, mats)
    lam = sum(cs[1:], cs[0])
    gs = [evolution(ctx, m * (1 / c), lam * t * ctx.num(F(1, n)))
          for m, c in zip(mats, cs)]
    for e in es:
        m = e.get_full_unitary(d).get_matrix()
        ctx.check(ctx.any([ctx.phase_eq(m, g) for g in gs]),
                  'every entry evolves one term for its share of the time')
        ctx.check(list(map(int, e.get_apply_to())) == qubits(d), 'qubits')
    if len(mats) == 1 and ctx.cfg.get('product'):
        ctx.check(ctx.phase_eq(S.product().get_matrix(), evolution(
            ctx, total(mats), t)), 'a single term is exact')
    ctx.reach('gates')


SETS = {'x': ['X'], 'mx': ['-X'], 'xy': ['X', '-Y'], 'xyz': ['X', '2Y', '-Z'],
        'diag': ['diag2f', '-X'], 'dup': ['X', 'X', 'Z'],
        'diag2': ['diag2', '-X'], 'any': ['any2'], 'anyx': ['any2', 'X'],
        'any4': ['any4', 'XZ'], 'two': ['XI', '-IX', 'ZZ', 'IY'],
        'many': ['XI', '-IX', 'ZZ', 'IY', 'YI', '-XY', 'ZX'],
        'three': ['XXI', '-IZZ', 'YIX']}


def jobs(tier):
    out = []
    T = tier == 'thorough'
    for k, n in [('x', 2), ('mx', 1), ('xy', 1), ('xy', 2), ('xyz', 2),
                 ('diag', 2), ('any', 1), ('anyx', 2), ('any4', 1),
                 ('two', 1), ('three', 1), ('xy', 3), ('two', 2),
                 ('xyz', 3), ('xy', 5), ('many', 1)] + (
            [('xyz', 4), ('two', 3), ('xy', 7), ('many', 2), ('three', 2), ('any4', 3)]
            if T else []):
        out.append(dict(name='law_%s_n%d' % (k, n), fn=law, cfg={
            'words': SETS[k], 'n': n}, must=['law'],
            cost=len(SETS[k]) ** n, conf=12, paths=20000))
    for k, n in [('x', 3), ('mx', 9), ('any', 2), ('xy', 1), ('xyz', 2),
                 ('diag2', 1), ('dup', 2), ('two', 1), ('any4', 2), ('anyx', 2)]:
        out.append(dict(name='gates_%s_n%d' % (k, n), fn=gates, cfg={
            'words': SETS[k], 'n': n, 'product': n < 4}, must=['gates'],
            cost=10, conf=12))
    for k, n in [('xy', 12), ('xyz', 20), ('xy', 33)]:
        every = list(range(n - 1)) if n < 15 else [0, 3, 7, n // 2, n - 2]
        out.append(dict(name='distant_%s_n%d' % (k, n), fn=distant, cfg={
            'words': SETS[k], 'n': n, 'every': every}, must=['pair'], cost=40, conf=4))
    for seed in 'low', 'high':
        out.append(dict(name='last_' + seed, fn=distant, cfg={
            'words': ['1X', '2Z'], 'n': 24, 'seed': seed}, must=['last'],
            cost=40, conf=4))
    return out
