"""C19: compiled and verification sequences built from the terms of a
Hamiltonian."""
import itertools
from fractions import Fraction as F

from . import late
from .hamlib import evolution, family, qubits, terms, total

BOUNDS = ('Hamiltonians of 1..3 Pauli terms on 1..3 qubits with strengths in '
          '[0.1, 3] or [-3, -0.1], with and without simultaneous terms; every '
          'total time in [-3, 3], every largest step time in [0.05, 1], every '
          'threshold in [0, 1]; up to 2 compilation steps (3 thorough) and '
          'up to 3 entries of the random part (4 thorough); exact probability '
          'of the first proposal and of the first random entry, and of '
          'entries 3, 4 and 7 after fixed draws')
OUTSIDE = ('longer compilations; the joint probability of later entries; the '
           'numerical quality of scipy.linalg.expm')
ASSUMPTIONS = ['exact real arithmetic; closeness may deviate from the exact '
               'comparison by 2e-8 at its boundary',
               'the random generators return independent draws with their '
               'documented distributions']


def subsets(k, simultaneous):
    return [c for r in range(1, (k if simultaneous else 1) + 1)
            for c in itertools.combinations(range(k), r)]


def step_time(e):
    p = e.unitary.get_parameter_value('t')
    return None if p is None else p[0]


def read(ctx, entries, mats, m, simultaneous, label):
    """[(terms, time)]: every entry evolves an allowed set of terms for a time
    within the limit"""
    d = mats[0].shape[0]
    out = []
    for e in entries:
        t = step_time(e)
        ctx.check(t is not None, label + ': time recorded')
        if t is None:
            ctx.cut()
        ctx.check(ctx.all([ctx.le(-m, t), ctx.le(t, m)]),
                  label + ': time within the limit')
        u = e.get_full_unitary(d).get_matrix()
        hit = [s for s in subsets(len(mats), simultaneous) if ctx.identical(
            u, evolution(ctx, total([mats[i] for i in s]), t))]
        ctx.check(len(hit) > 0, label + ': evolution under allowed terms')
        if not hit:
            ctx.cut()
        ctx.check(list(map(int, e.get_apply_to())) == qubits(d),
                  label + ': qubits')
        out.append((hit[0], t))
    return out


def product(ctx, items, mats, d):
    return ctx.prod_right_to_left(
        [evolution(ctx, total([mats[i] for i in s]), t) for s, t in items], d)


def make(ctx):
    mats = family(ctx, ctx.cfg['words'])
    return mats, mats[0].shape[0], ctx.Hamiltonian(terms(ctx, mats))


def stoq(ctx):
    mats, d, H = make(ctx)
    sim, K = ctx.cfg['sim'], ctx.cfg['K']
    t = ctx.real('t', -3, 3)
    m = ctx.real('m', 0.05, 1)
    thr = ctx.real('thr', 0.01, 1)
    with ctx.limit_steps(K):
        r = H.compile_stoq_sequence(t, m, thr, *([sim] if ctx.cfg.get(
            'positional', True) else []))
    S = r.compiled_sequence
    costs = list(r.cost_by_step)
    items = read(ctx, S.get_sequence_entries(), mats, m, sim, 'entry')
    ctx.check(S.get_dimension() == d, 'dimension')
    ctx.check(len(items) <= len(costs) <= K, 'one change per step')
    P = product(ctx, items, mats, d)
    ctx.check(ctx.phase_eq(S.product().get_matrix(), P), 'product')
    gap = ctx.dist(evolution(ctx, total(mats), t), P)
    if costs:
        ctx.check(ctx.eq(costs[-1], gap), 'last cost is the distance from '
                  'the evolution')
        ctx.reach('steps')
    if len(costs) < K:
        ctx.check(ctx.le(thr, 1 - gap, 2e-8),
                  'ends early only at the threshold')
        ctx.reach('threshold')


def proposals(ctx):
    """the first change: every allowed set of terms with the same probability
    and every time within the limit with the same density"""
    k, sim = ctx.cfg['k'], ctx.cfg['sim']
    words = [''.join('X' if i == j else 'I' for j in range(k))
             for i in range(k)]
    mats = family(ctx, ['1' + w for w in words])
    H = ctx.Hamiltonian(terms(ctx, mats))
    m = ctx.real('m', 0.05, 0.5)
    x = ctx.real('x', 0.02, 0.98)
    # at this time no set of fewer terms overlaps with the evolution, and all
    # of them too little for the threshold
    with ctx.limit_steps(1):
        r = H.compile_stoq_sequence(ctx.pi / 2, m, 0.99, sim)
    items = read(ctx, r.compiled_sequence.get_sequence_entries(), mats, m,
                 sim, 'entry')
    ctx.check(len(items) <= 1, 'one change')
    ctx.outcome('first', tuple(
        (s, ctx.decide(ctx.le(t, (2 * x - 1) * m, 0))) for s, t in items))
    ss = subsets(k, sim)
    p = ctx.num(F(1, 2 * len(ss)))
    want = {(): ctx.num(F(1, 2))}
    for s in ss:
        want[((s, True),)] = p * x
        want[((s, False),)] = p * (1 - x)
    ctx.expect('first', want)
    ctx.reach('proposals')


def initial(ctx, H, time, m, thr, sim, K):
    with ctx.limit_steps(K):
        return H.compile_rav_sequence(time, m, thr, sim)


def random_part(ctx):
    """the number of random entries is just enough to reach the time"""
    mats, d, H = make(ctx)
    sim, L = ctx.cfg['sim'], ctx.cfg['L']
    m = ctx.real('m', 0.05, 1)
    time = ctx.real('time', -1, 2)
    ctx.limit_draws(3 * L)
    r = initial(ctx, H, time, m, 0.0, sim, 0)
    S = r.compiled_sequence
    items = read(ctx, S.get_sequence_entries(), mats, m, sim, 'random')
    ctx.check(len(r.cost_by_step) == 0, 'no compilation')
    ctx.check(S.get_dimension() == d, 'dimension')
    ctx.check(ctx.phase_eq(S.product().get_matrix(), product(
        ctx, items, mats, d)), 'product')
    used = ctx.num(0)
    for s, t in items:
        ctx.check(ctx.le(used, time), 'stops once the time is used')
        used = used + abs(t)
    ctx.check(ctx.le(time, used), 'uses the whole time')
    ctx.reach('none' if not items else 'some')


def first_law(ctx):
    mats, d, H = make(ctx)
    sim = ctx.cfg['sim']
    m = ctx.real('m', 0.05, 1)
    f = ctx.real('f', 0.05, 0.4)        # shortest step, as a share of m
    x = ctx.real('x', 0.5, 0.95)
    want = {}
    ss = subsets(len(mats), sim)
    for s in ss:
        for up, q in ((True, F(4, 5)), (False, F(1, 5))):
            p = ctx.num(q / len(ss))
            want[(s, up, True)] = p * (x - f)
            want[(s, up, False)] = p * (1 - x)
    ctx.expect('first', want)
    ctx.limit_draws(4)
    r = initial(ctx, H, f * m, m, 0.0, sim, 0)
    items = read(ctx, r.compiled_sequence.get_sequence_entries(), mats, m,
                 sim, 'random')
    ctx.check(len(items) == 1, 'one entry')
    (s, t), = items
    up = ctx.decide(ctx.le(0, t, 0))
    ctx.outcome('first', (s, up, ctx.decide(ctx.le(t if up else -t, x * m,
                                                   0))))
    ctx.reach('law')


def later(ctx):
    """a later entry of the random part has the law of the first, whatever
    the others"""
    mats, d, H = make(ctx)
    sim, N, seed = ctx.cfg['sim'], ctx.cfg['N'], ctx.cfg['seed']
    m, x = ctx.num(F(1, 8)), ctx.num(F(2, 3))
    time = float(N - 1) / 8

    def run():
        with ctx.limit_steps(0):
            r = H.compile_rav_sequence(time, 0.125, 0.0, sim)
        return r.compiled_sequence.get_sequence_entries()
    with ctx.held(seed) as p:
        es = run()
    ctx.check(len(es) >= N, 'every step within the limit')
    if len(es) < N or p.n % len(es) or not p.n:
        ctx.reach('later')
        return
    per = p.n // len(es)
    with ctx.held(seed, free=range((N - 1) * per, N * per)):
        es = run()
    ctx.check(len(es) >= N, 'every step within the limit')
    if len(es) < N:
        ctx.cut()
    (s, t), = read(ctx, es[N - 1:N], mats, m, sim, 'random')
    up = ctx.decide(ctx.le(0, t, 0))
    ctx.outcome('entry', (s, up, ctx.decide(ctx.le(t if up else -t, x * m,
                                                   0))))
    one = {}
    ss = subsets(len(mats), sim)
    for s in ss:
        for up, q in ((True, F(4, 5)), (False, F(1, 5))):
            p = ctx.num(q / len(ss))
            one[(s, up, True)] = p * x
            one[(s, up, False)] = p * (1 - x)
    ctx.expect('entry', one)
    ctx.reach('later')


def rav(ctx):
    """a random part followed by a compiled inverse"""
    mats, d, H = make(ctx)
    sim, L, K = ctx.cfg['sim'], ctx.cfg['L'], ctx.cfg['K']
    m = ctx.real('m', 0.05, 1)
    thr = ctx.real('thr', 0.01, 1)
    if L:
        time = m * ctx.real('f', 0.05, 0.95)
    else:
        time = ctx.real('time', -1, 0)
    ctx.limit_draws(3 * L + 5 * K)
    mark = ctx.mark()
    r = initial(ctx, H, time, m, thr, sim, K)
    S = r.compiled_sequence
    costs = list(r.cost_by_step)
    items = read(ctx, S.get_sequence_entries(), mats, m, sim, 'result')
    ctx.check(len(costs) <= K, 'step limit')
    P = product(ctx, items, mats, d)
    ctx.check(ctx.phase_eq(S.product().get_matrix(), P), 'product')
    gap = ctx.dist(ctx.eye(d), P)
    if costs:
        ctx.check(ctx.eq(costs[-1], gap), 'last cost is the distance from '
                  'the identity')
        ctx.reach('compiled')
    if len(costs) < K:
        ctx.check(ctx.le(thr, 1 - gap, 2e-8), 'ends early only if close to '
                  'the identity')
        ctx.reach('inverted')
    ctx.rewind(mark)
    q = initial(ctx, H, time, m, 0.0, sim, 0)
    first = read(ctx, q.compiled_sequence.get_sequence_entries(), mats, m,
                 sim, 'random')
    ctx.check(len(items) >= len(first), 'contains the random part')
    for (a, s), (b, t) in zip(items, first):
        ctx.check(a == b and ctx.eq(s, t), 'starts with the random part')
    ctx.check(len(items) - len(first) <= len(costs), 'one change per step')


SETS = {'x': ['X'], 'xz': ['X', '-Z'], 'zz': ['Z', '-2Z'], 'xyz': [
    '2X', 'Y', '-Z'], 'two': ['XI', '-IZ', 'YY'], 'ising': ['ZZI', 'IZZ']}


def jobs(tier):
    out = []
    T = tier == 'thorough'

    def add(nm, fn, must, cost, **cfg):
        out.append(dict(name=nm, fn=fn, cfg=cfg, must=must, cost=cost,
                        conf=12, paths=20000))
    for k, sim, K in [('x', False, 2), ('x', True, 1), ('xz', False, 1),
                      ('xz', True, 1), ('zz', True, 1), ('two', False, 1),
                      ('xyz', True, 1)] + (
            [('x', False, 3), ('xz', False, 2), ('zz', True, 2)] if T else
            []):
        add('stoq_%s_%s_K%d' % (k, 'sim' if sim else 'one', K), stoq,
            ['steps'], 100 * K, words=SETS[k], sim=sim, K=K)
    add('stoq_xz_default', stoq, ['steps'], 100, words=SETS['xz'], sim=False,
        K=1, positional=False)
    for k, sim in [(2, False), (2, True), (3, False)] + (
            [(3, True)] if T else []):
        add('proposals_%d_%s' % (k, 'sim' if sim else 'one'), proposals,
            ['proposals'], 50 * k, k=k, sim=sim)
    for k, sim, L in [('x', False, 3), ('xz', False, 2), ('xz', True, 2),
                      ('two', False, 1), ('ising', True, 1)] + (
            [('x', False, 4), ('xyz', True, 2)] if T else []):
        add('random_%s_%s_L%d' % (k, 'sim' if sim else 'one', L),
            random_part, ['none', 'some'], 30 * L, words=SETS[k], sim=sim,
            L=L)
    for k, sim in [('x', False), ('xz', False), ('xz', True),
                   ('two', False), ('xyz', True)]:
        add('first_%s_%s' % (k, 'sim' if sim else 'one'), first_law, ['law'],
            30, words=SETS[k], sim=sim)
    for k, sim, L, K in [('x', False, 0, 1), ('x', False, 1, 1),
                         ('xz', False, 1, 1), ('xz', True, 0, 1),
                         ('zz', True, 1, 1)] + (
            [('x', False, 1, 2), ('xz', True, 1, 1)] if T else []):
        add('rav_%s_%s_L%d_K%d' % (k, 'sim' if sim else 'one', L, K), rav,
            ['compiled'] if L else ['inverted'], 100 * K, words=SETS[k],
            sim=sim, L=L, K=K)
    for w, sim, N in [(['1X'], False, 4), (['1X'], False, 7),
                      (['1X', '2Z'], False, 3), (['1X', '2X'], True, 4)]:
        add('later_%d_%s_%d' % (len(w), 'sim' if sim else 'one', N),
            later, ['later'], 60, words=w, sim=sim, N=N, seed=3)
    return out
