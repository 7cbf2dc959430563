"""C15: verification sequences: a random sequence followed by its compiled
inverse; cross-entropy sequences."""
import contextlib
import itertools
from fractions import Fraction as F

from . import late
from .complib import gateset, read, product, primitives, again, as_array
from .c14 import make_up, layer_law, split

BOUNDS = ('initial sequences of 0..2 gates or layers (3 thorough), up to 2 '
          'compilation steps (3 thorough), every threshold in [0, 1] and '
          'none, every outcome of every draw; exact probability of every '
          'initial sequence; cross-entropy sequences of 0..3 layers; gate '
          'sets whose gates undo each other; pinned longer sequences; the '
          'joint law of pairs among up to 24 gates or 17 layers, the others '
          'taking fixed draws')
OUTSIDE = 'longer sequences, more steps, other gate sets'
ASSUMPTIONS = ['exact real arithmetic; closeness may deviate from the exact '
               'comparison by 2e-8 at its boundary',
               'the random generators return independent draws with their '
               'documented distributions']


def generate(ctx, gates, n, length, t, **kw):
    """either kind of sequence; the make-up decides"""
    counts = ctx.cfg.get('counts')
    V = ctx.Verification
    if counts:
        d = make_up(ctx, gates, n, counts)
        return V.generate_layered_rav_sequence(2 ** n, d, length, t, **kw)
    ps = primitives(ctx, gates, n)
    if ctx.cfg.get('array'):
        ps = as_array(ps)
    return V.generate_rav_sequence(2 ** n, ps, length, t, **kw)


def rav(ctx):
    gates, n = gateset(ctx, ctx.cfg['gates'])
    counts = ctx.cfg.get('counts')
    per = sum(counts.values()) if counts else 1
    L, K = ctx.cfg['L'] * per, ctx.cfg['K']
    t = ctx.cfg['t']
    if t == 'any':
        t = ctx.real('t', 0.01, 1)
    thr = 1 if t is None else t
    mark = ctx.mark()
    with again(ctx, mark) if 'seed' in ctx.cfg else \
            contextlib.nullcontext():
        r = generate(ctx, gates, n, ctx.cfg['L'], t, max_step_count=K)
    items = read(ctx, r.compiled_sequence, gates, n, 'result')
    costs = list(r.cost_by_step)
    ctx.check(len(items) >= L, 'contains the initial sequence')
    if len(items) < L:
        ctx.cut()
    if counts:
        split(ctx, items, counts, 'result')
    want = product(ctx, items, gates, n)
    P = r.compiled_sequence.product().get_matrix()
    ctx.check(ctx.phase_eq(P, want), 'product')
    ctx.check(len(costs) <= K, 'step limit')
    ctx.check(len(items) - L <= len(costs) * per, 'one change per step')
    ctx.check(ctx.le(0, r.total_elapsed_time), 'elapsed time')
    # distance from doing nothing
    gap = ctx.dist(ctx.eye(2 ** n), want)
    if costs:
        ctx.check(ctx.eq(costs[-1], gap), 'last cost is the distance from '
                  'the identity')
        ctx.reach('compiled')
    if len(costs) < K:
        ctx.check(ctx.le(thr, 1 - gap, 2e-8), 'ends early only if close to '
                  'the identity')
        ctx.reach('inverted')
    # the initial sequence alone: same draws, no compilation
    with again(ctx, mark):
        s = generate(ctx, gates, n, ctx.cfg['L'], t, max_step_count=0)
    first = read(ctx, s.compiled_sequence, gates, n, 'initial')
    ctx.check(len(first) == L, 'initial length')
    ctx.check(items[:L] == first, 'starts with the initial sequence')
    ctx.check(len(s.cost_by_step) == 0, 'no step')
    if not costs and len(items) == L:
        ctx.check(ctx.le(thr, 1 - gap, 2e-8), 'no step only at threshold')
    # the trace describes the inversion: it starts below the threshold
    before = [ctx.dist(ctx.eye(2 ** n), product(ctx, first, gates, n))]
    if costs:
        ctx.check(ctx.all([ctx.le(1 - c, thr) for c in before + costs[:-1]]),
                  'goes on only below the threshold')


def initial(ctx):
    """the initial sequence has independent random gates or layers; no
    compilation for a threshold or a step limit of zero"""
    gates, n = gateset(ctx, ctx.cfg['gates'])
    L, counts = ctx.cfg['L'], ctx.cfg.get('counts')
    kind, kw = ctx.cfg['kind'], {}
    if kind == 'weighted':
        q = ctx.real('q', 0.05, 0.95)
        kw['unitary_primitive_probabilities'] = [q, 1 - q]
    if kind == 'xeb':
        d = make_up(ctx, gates, n, counts)
        before = dict(d)
        r = ctx.Verification.generate_xeb_sequence(2 ** n, d, L)
        ctx.check(d == before, 'argument unchanged')
    elif kind == 'limit':
        r = generate(ctx, gates, n, L, 0.9, max_step_count=0, **kw)
    else:
        r = generate(ctx, gates, n, L, ctx.num(0) if kind == 'num' else 0.0,
                     **kw)
    items = read(ctx, r.compiled_sequence, gates, n, 'result')
    ctx.check(len(r.cost_by_step) == 0, 'no compilation')
    ctx.check(r.compiled_sequence.get_dimension() == 2 ** n, 'dimension')
    ctx.check(ctx.phase_eq(r.compiled_sequence.product().get_matrix(),
                           product(ctx, items, gates, n)), 'product')
    if counts:
        one = {k: ctx.num(p) for k, p in layer_law(ctx, gates,
                                                   counts).items()}
        items = split(ctx, items, counts, 'result')
    else:
        ps = [q, 1 - q] if kind == 'weighted' else [
            ctx.num(F(1, len(gates)))] * len(gates)
        one = {(g.name, tuple(w)): p * ctx.num(F(1, len(g.where)))
               for g, p in zip(gates, ps) for w in g.where}
    ctx.check(len(items) == L, 'length')
    law = {(): ctx.num(1)}
    for _ in range(L):
        law = {k + (x,): p * w for k, p in law.items()
               for x, w in one.items()}
    ctx.outcome('sequence', tuple(items))
    ctx.expect('sequence', law)
    ctx.reach('initial')


def distant(ctx):
    """gates and layers far from each other are independent"""
    gates, n = gateset(ctx, ctx.cfg['gates'])
    counts, L = ctx.cfg.get('counts'), ctx.cfg['L']
    per = sum(counts.values()) if counts else 1

    def run(L):
        if ctx.cfg.get('xeb'):
            r = ctx.Verification.generate_xeb_sequence(
                2 ** n, make_up(ctx, gates, n, counts), L)
        else:
            r = generate(ctx, gates, n, L, 0.0)
        es = r.compiled_sequence.get_sequence_entries()
        return [es[i:i + per] for i in range(0, len(es), per)]

    def key(part, n_=None):
        return tuple(read(ctx, ctx.UnitarySequence(2 ** n, list(part)),
                          gates, n, 'part'))
    if counts:
        one = {k: ctx.num(p) for k, p in layer_law(ctx, gates,
                                                   counts).items()}
    else:
        one = {((g.name, tuple(w)),): ctx.num(F(1, len(gates) * len(g.where)))
               for g in gates for w in g.where}
    if ctx.cfg.get('seed'):
        late.last(ctx, run, key, ctx.cfg['lengths'], one, ctx.cfg['seed'])
    else:
        late.pair(ctx, lambda: run(L), key, L, one,
                  every=ctx.cfg.get('every'))


def inversion_law(ctx):
    """the inverse is searched with the given append and gate
    probabilities"""
    gates, n = gateset(ctx, 'one')
    counts = ctx.cfg.get('counts')
    a = ctx.real('a', 0.05, 0.95)
    kw, ps = {}, [ctx.num(F(1, 2))] * 2
    if ctx.cfg.get('weighted'):
        q = ctx.real('q', 0.05, 0.95)
        kw['unitary_primitive_probabilities'] = [q, 1 - q]
        ps = [q, 1 - q]
    r = generate(ctx, gates, n, 1, None, stoq_append_probability=a,
                 max_step_count=1, **kw)
    items = tuple(read(ctx, r.compiled_sequence, gates, n, 'result'))
    ctx.outcome('result', items)
    law = {}

    def put(k, p):
        law[k] = law.get(k, 0) + p
    if counts:
        one = {k: ctx.num(p) for k, p in layer_law(
            ctx, gates, counts).items()}
    else:
        one = {((g.name, (0,)),): p for g, p in zip(gates, ps)}
    beta = ctx.num(0.1)
    for first, p in one.items():
        d0 = ctx.dist(ctx.eye(2), product(ctx, list(first), gates, n))
        put(first, p * (1 - a))
        for x, w in one.items():
            d1 = ctx.dist(ctx.eye(2), product(ctx, list(first + x), gates,
                                              n))
            if ctx.decide(ctx.le(d1, d0, 0)):
                put(first + x, p * a * w)
            else:
                acc = ctx.rexp(-beta * (d1 - d0))
                put(first + x, p * a * w * acc)
                put(first, p * a * w * (1 - acc))
    ctx.expect('result', law)
    ctx.reach('law')


def refused(ctx):
    gates, n = gateset(ctx, 'one')
    V = ctx.Verification
    ps = primitives(ctx, gates, n)
    d = make_up(ctx, gates, n, {'R': 1, 'Z': 1})
    two = primitives(ctx, gateset(ctx, 'two')[0], 2)
    U = ctx.Unitary(2, ctx.eye(2))
    k = ctx.choice('kind', ['length', 'low', 'high', 'type', 'gate', 'large',
                            'layers', 'low layered', 'high layered',
                            'list layered', 'gate layered', 'float layered',
                            'large layered'])
    kw = {'max_step_count': 1}
    R, Y = V.generate_rav_sequence, V.generate_layered_rav_sequence
    f = {'length': lambda: R(2, ps, -1, 0.9, **kw),
         'low': lambda: R(2, ps, 1, -0.1, **kw),
         'high': lambda: R(2, ps, 1, 1.1, **kw),
         'type': lambda: R(2, d, 1, 0.9, **kw),
         'gate': lambda: R(2, [U], 1, 0.9, **kw),
         'large': lambda: R(2, two, 1, 0.9, **kw),
         'layers': lambda: Y(2, d, -1, 0.9, **kw),
         'low layered': lambda: Y(2, d, 1, -0.1, **kw),
         'high layered': lambda: Y(2, d, 1, 1.1, **kw),
         'list layered': lambda: Y(2, ps, 1, 0.9, **kw),
         'gate layered': lambda: Y(2, {U: 1}, 1, 0.9, **kw),
         'float layered': lambda: Y(2, {ps[0]: 1.5}, 1, 0.9, **kw),
         'large layered': lambda: Y(2, {two[1]: 1}, 1, 0.9, **kw)}[k]
    ctx.check(ctx.raises(f), 'refused')
    ctx.reach(k)


def jobs(tier):
    out = []
    T = tier == 'thorough'

    def name(g, counts, *rest):
        return '_'.join([g] + (['lay' + ''.join(
            '%s%d' % x for x in counts.items())] if counts else []) +
            [str(x) for x in rest])
    rz, rz2 = {'R': 1, 'Z': 1}, {'R': 1, 'V': 1}
    for g, counts, L, K, t in [
            ('one', None, 0, 2, 'any'), ('one', None, 1, 2, 'any'),
            ('single', None, 2, 2, 'any'), ('one', None, 2, 1, 'any'),
            ('one', None, 1, 2, None), ('restricted', None, 2, 1, None),
            ('two', None, 1, 1, 'any'), ('single', {'R': 1}, 1, 2, 'any'),
            ('single', {'R': 2}, 1, 2, 'any'), ('one', rz, 1, 1, 'any'),
            ('one', rz, 1, 1, None), ('one', rz, 2, 1, 0.6),
            ('one', {'R': 2, 'Z': 1}, 1, 1, None),
            ('pair', None, 2, 1, 'any'), ('pair', {'R': 1, 'V': 1}, 2, 1, 0.9),
            ('restricted', {'R': 1, 'C': 1}, 1, 1, 'any')] + ([
                ('one', None, 2, 2, 'any'), ('single', None, 3, 3, 'any'),
                ('two', None, 2, 1, 'any'), ('one', rz, 1, 2, 'any'),
                ('single', {'R': 2}, 2, 3, 'any')] if T else []):
        out.append(dict(name=name(g, counts, 'L%d' % L, 'K%d' % K, t),
                        fn=rav, cfg={'gates': g, 'counts': counts, 'L': L,
                                     'K': K, 't': t},
                        must=['compiled'] if L and t != 0.9 else
                        ['inverted'], cost=100 * K * L, conf=12, paths=20000))
    for g, L in [('one', 1), ('restricted', 2), ('two', 1)]:
        out.append(dict(name='array_%s_L%d' % (g, L), fn=rav, cfg={
            'gates': g, 'L': L, 'K': 1, 't': 'any', 'array': True},
            must=['compiled'], cost=60, conf=12))
    for g, counts, L, K in [
            ('one', None, 4, 10), ('two', None, 3, 8),
            ('restricted', None, 5, 10), ('single', {'R': 2}, 2, 8),
            ('one', rz, 3, 8), ('two', {'R': 1, 'C': 1}, 2, 6)]:
        for seed in range(8 if T else 3):
            out.append(dict(
                name=name('long', counts, g, 'L%d' % L, seed), fn=rav,
                cfg={'gates': g, 'counts': counts, 'L': 2 * L if T else L,
                     'K': 2 * K if T else K, 't': 'any', 'seed': seed},
                cost=300))
    for g, counts, L, kind in [
            ('one', None, 0, 'zero'), ('one', None, 3, 'zero'),
            ('one', None, 2, 'weighted'), ('one', None, 2, 'limit'),
            ('two', None, 2, 'zero'), ('restricted', None, 2, 'weighted'),
            ('pair', None, 3, 'zero'), ('pair', {'R': 1, 'V': 1}, 2, 'zero'),
            ('pair', {'R': 1, 'V': 1}, 2, 'xeb'),
            ('one', rz, 0, 'zero'), ('one', rz, 2, 'limit'),
            ('single', {'R': 2}, 2, 'zero'),
            ('two', {'R': 1, 'C': 1}, 1, 'zero'), ('one', rz, 0, 'xeb'),
            ('one', rz, 3, 'xeb'), ('one', {'R': 2, 'Z': 1}, 1, 'xeb'),
            ('two', {'R': 1, 'C': 1}, 1, 'xeb'),
            ('restricted', {'R': 1, 'C': 1}, 2, 'xeb')] + (
            [('two', None, 3, 'zero'), ('two', {'R': 1, 'C': 1}, 2, 'xeb')]
            if T else []):
        out.append(dict(name='initial_' + name(g, counts, 'L%d' % L, kind),
                        fn=initial, cfg={'gates': g, 'counts': counts,
                                         'L': L, 'kind': kind},
                        must=['initial'], cost=30 * L, conf=12,
                        paths=20000))
    for nm, cfg in [('plain', {}), ('weighted', {'weighted': True}),
                    ('layered', {'counts': rz})]:
        out.append(dict(name='law_' + nm, fn=inversion_law, cfg=cfg,
                        must=['law'], cost=60, conf=12))
    out.append(dict(name='refused', fn=refused, cost=5, must=[
        'length', 'low', 'high', 'type', 'gate', 'large', 'layers',
        'low layered', 'high layered', 'list layered', 'gate layered',
        'float layered', 'large layered']))
    for g, counts, L, every, xeb in [
            ('pair', None, 12, None, False), ('pair', rz2, 9, None, False),
            ('pair', rz2, 8, None, True), ('one', None, 24, [0, 11, 22], False),
            ('one', rz, 17, [0, 7, 15], True),
            ('one', {'R': 2, 'Z': 1}, 6, [0, 3, 4], False)]:
        out.append(dict(name='distant_%s' % name(g, counts, L, int(xeb)),
                        fn=distant, cfg={'gates': g, 'counts': counts, 'L': L,
                                         'every': every, 'xeb': xeb},
                        must=['pair'], cost=30, conf=4))
    for g, counts in [('one', None), ('two', None), ('one', rz),
                      ('restricted', {'R': 1, 'C': 1})]:
        for seed in 'low', 'high':
            out.append(dict(
                name='last_%s_%s' % (name(g, counts), seed), fn=distant,
                cfg={'gates': g, 'counts': counts, 'L': 2, 'seed': seed,
                     'lengths': range(2, 14)}, must=['last'], cost=30,
                conf=4))
    return out
