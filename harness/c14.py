"""C14: layered compilation works in whole layers of the requested make-up."""
import itertools
import math
from fractions import Fraction as F

from . import late
from .complib import gateset, read, product, targets, primitives, again
from .c12 import mn
from .c13 import make, spec_where

BOUNDS = ('exact probability of every random layer for make-ups of 0..4 gates '
          'on 1..2 qubits (3 thorough); every outcome and its exact '
          'probability for the first 2 (3 thorough) steps of a layered '
          'compilation with layers of 1..3 gates (5 in one order), every append probability, '
          'annealing rate below the cap and above it, and every threshold in '
          '[0, 1.1] and none; exact law of single steps after up to 59 steps '
          'with fixed draws, and of pairs of layers among up to 30')
OUTSIDE = ('larger layers, more steps, later steps after other fixed draws, '
           'other gate sets')
ASSUMPTIONS = ['exact real arithmetic; closeness may deviate from the exact '
               'comparison by 2e-8 at its boundary',
               'the random generators return independent draws with their '
               'documented distributions']


def make_up(ctx, gates, n, counts):
    ps = primitives(ctx, gates, n)
    return {p: counts[g.name] for p, g in zip(ps, gates)
            if g.name in counts}


def layer_law(ctx, gates, counts):
    """probability of every ordered layer"""
    by = {g.name: g for g in gates}
    names = [k for k, c in counts.items() for _ in range(c)]
    orders = sorted(set(itertools.permutations(names)))
    law = {}
    for o in orders:
        ways = 1
        for nm in o:
            ways *= len(by[nm].where)
        for pl in itertools.product(*[by[nm].where for nm in o]):
            law[tuple((nm, tuple(w)) for nm, w in zip(o, pl))] = F(
                1, len(orders) * ways)
    return law


def layer(ctx):
    gates, n = gateset(ctx, ctx.cfg['gates'])
    counts = ctx.cfg['counts']
    d = make_up(ctx, gates, n, counts)
    before = dict(d)
    es = ctx.Compiler.create_random_layer(2 ** n, d)
    ctx.check(all(isinstance(e, ctx.UnitarySequenceEntry) for e in es),
              'type')
    items = read(ctx, ctx.UnitarySequence(2 ** n, list(es)), gates, n,
                 'layer')
    ctx.check(sorted(nm for nm, _ in items) == sorted(
        k for k, c in counts.items() for _ in range(c)), 'make-up')
    ctx.check(d == before and list(d) == list(before), 'argument unchanged')
    ctx.outcome('layer', tuple(items))
    ctx.expect('layer', {k: ctx.num(p) for k, p in layer_law(
        ctx, gates, counts).items()})
    ctx.reach('layer')


def drawn(ctx):
    """gates with parameters: each copy has its own"""
    if ctx.cfg.get('fixed_order'):
        with ctx.one_order():
            return drawn_(ctx)
    return drawn_(ctx)


def drawn_(ctx):
    spec, n = ctx.cfg['prims'], ctx.cfg['n']        # kind, where, count
    made = {k: make(ctx, k) for k, _, _ in spec}
    d = {ctx.UnitaryPrimitive(made[k][0], *([] if w is None else [w])): c
         for k, w, c in spec}
    es = ctx.Compiler.create_random_layer(2 ** n, d)
    x = ctx.real('x', 0.02, 0.98)
    out = []
    for e in es:
        k = e.unitary.get_operation_name()
        ctx.check(k in made, 'gate')
        if k not in made:
            ctx.cut()
        _, fn, ranges = made[k]
        vals, low = [], []
        for nm, lo, hi in ranges:
            v = e.unitary.get_parameter_value(nm)
            ctx.check(v is not None, 'parameter recorded')
            if v is None:
                ctx.cut()
            vals.append(v[0])
            low.append(ctx.decide(ctx.le(v[0], lo + x * (hi - lo), 0)))
        q = [int(y) for y in e.get_apply_to()]
        ctx.check(ctx.phase_eq(e.get_full_unitary(2 ** n).get_matrix(),
                               ctx.place(fn(*vals), q, n)), 'placed gate')
        out.append((k, tuple(q), tuple(low)))
    names = [k for k, _, c in spec for _ in range(c)]
    orders = [tuple(names)] if ctx.cfg.get('fixed_order') else sorted(
        set(itertools.permutations(names)))
    one = {}
    for k, w, _ in spec:
        ww = spec_where(k, w, n)
        one[k] = [((k, tuple(p), bits), ctx.num(F(1, len(ww))) * math.prod(
            [x if b else 1 - x for b in bits], start=ctx.num(1)))
            for p in ww for bits in itertools.product(
                [True, False], repeat=len(made[k][2]))]
    law = {}
    for o in orders:
        for pick in itertools.product(*[one[k] for k in o]):
            key = tuple(g for g, _ in pick)
            if ctx.cfg.get('fixed_order'):
                key = tuple(sorted(key))
            law[key] = law.get(key, 0) + ctx.num(
                F(1, len(orders))) * math.prod([p for _, p in pick],
                                               start=ctx.num(1))
    if ctx.cfg.get('fixed_order'):
        out = sorted(out)
    ctx.outcome('layer', tuple(out))
    ctx.expect('layer', law)
    ctx.reach('layer')


def split(ctx, items, counts, label):
    """items grouped into layers of the right make-up"""
    L = sum(counts.values())
    ok = len(items) % L == 0
    want = sorted(k for k, c in counts.items() for _ in range(c))
    out = [tuple(items[i:i + L]) for i in range(0, len(items), L)]
    ok = ok and all(sorted(nm for nm, _ in x) == want for x in out)
    ctx.check(ok, label + ': whole layers')
    if not ok:
        ctx.cut()
    return tuple(out)


def bounded(ctx):
    if ctx.cfg['counts'].get('R', 0) > 3:
        with ctx.one_order():
            return bounded_(ctx)
    return bounded_(ctx)


def bounded_(ctx):
    """step limit, honest end, honest trace; reruns with the same draws"""
    gates, n = gateset(ctx, ctx.cfg['gates'])
    T = targets(ctx, n)[ctx.cfg['target']]
    counts, K = ctx.cfg['counts'], ctx.cfg['K']
    t = ctx.real('t', 0, 1.1) if ctx.cfg.get('t') == 'any' else \
        ctx.cfg.get('t')
    thr = 1 if t is None else t
    d = make_up(ctx, gates, n, counts)
    before = dict(d)
    c = ctx.Compiler(2 ** n, list(d))
    target = ctx.Unitary(2 ** n, ctx.copy(T), 'T')
    mark = ctx.mark()
    full, prev = None, None
    for k in range(K, -1, -1):
        with again(ctx, mark):
            r = c.compile_layered(target, d, t, max_step_count=k)
        costs = list(r.cost_by_step)
        items = read(ctx, r.compiled_sequence, gates, n, 'result')
        layers = split(ctx, items, counts, 'result')
        if full is None:
            full = costs
        want = product(ctx, items, gates, n)
        ctx.check(ctx.phase_eq(r.compiled_sequence.product().get_matrix(),
                               want), 'product')
        ctx.check(len(costs) == min(k, len(full)), 'one cost per step')
        ctx.check(len(costs) <= k, 'step limit')
        if len(costs) == min(k, len(full)):
            ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip(costs, full)]),
                      'costs of earlier steps')
        gap = ctx.dist(T, want)
        if costs:
            ctx.check(ctx.eq(costs[-1], gap), 'last cost')
        if len(costs) < k:
            ctx.check(ctx.le(thr, 1 - gap, 2e-8),
                      'stops early only at the threshold')
            ctx.reach('stopped early')
        if k < len(full):
            ctx.check(ctx.le(1 - gap, thr), 'goes on only below threshold')
        if prev is not None and k < len(full):
            near = layers == prev or layers[1:] == prev or \
                layers[:-1] == prev or layers == prev[1:] or \
                layers == prev[:-1]
            ctx.check(near, 'one layer at one end per step')
            ctx.reach('kept' if layers == prev else 'grown' if len(
                prev) > len(layers) else 'shrunk')
        prev = layers
    ctx.check(prev == (), 'no step, no gate')
    ctx.check(d == before, 'argument unchanged')
    ctx.check(ctx.phase_eq(target.get_matrix(), T), 'target untouched')


def law(ctx):
    gates, n = gateset(ctx, ctx.cfg['gates'])
    T = targets(ctx, n)[ctx.cfg['target']]
    counts, K, t = ctx.cfg['counts'], ctx.cfg['K'], ctx.cfg.get('t')
    cap = (2 ** (2 ** n)) ** 2
    a = ctx.real('a', 0.05, 0.95)
    lo, hi = {'free': (0, F(cap, K)), 'capped': (cap + 1, cap + 24)}[
        ctx.cfg['regime']]
    rate = ctx.real('rate', float(lo), float(hi))
    d = make_up(ctx, gates, n, counts)
    c = ctx.Compiler(2 ** n, list(d), append_probability=a,
                     annealing_rate=rate)
    r = c.compile_layered(ctx.Unitary(2 ** n, ctx.copy(T)), d, t,
                          max_step_count=K)
    items = read(ctx, r.compiled_sequence, gates, n, 'result')
    ctx.outcome('state', split(ctx, items, counts, 'result'))
    ctx.expect('state', model(ctx, gates, n, T, t, counts, K, a, rate))
    ctx.reach('law')


def model(ctx, gates, n, T, t, counts, K, a, rate, start=(), first=1):
    """probability of every state after step K, given the one before `first`"""
    cap = (2 ** (2 ** n)) ** 2
    lay = layer_law(ctx, gates, counts)
    thr = 1 if t is None else t

    def dist(s):
        return ctx.dist(T, product(ctx, [x for l in s for x in l], gates, n))
    prob = {tuple(start): ctx.num(1)}
    for k in range(first, K + 1):
        beta = mn(ctx, rate * k, cap)
        new = {}

        def put(s, p):
            new[s] = new.get(s, 0) + p
        for s, p in prob.items():
            d0 = dist(s)
            if ctx.decide(ctx.le(thr, 1 - d0, 1e-8)):
                put(s, p)
                continue
            moves = [(s[1:], (1 - a) / 2), (s[:-1], (1 - a) / 2)]
            for l, q in lay.items():
                moves.append(((l,) + s, a / 2 * ctx.num(q)))
                moves.append((s + (l,), a / 2 * ctx.num(q)))
            for s2, pr in moves:
                up = dist(s2) - d0
                if ctx.decide(ctx.le(up, 0, 0)):
                    put(s2, p * pr)
                else:
                    acc = ctx.rexp(-beta * up)
                    put(s2, p * pr * acc)
                    put(s, p * pr * (1 - acc))
        prob = new
    return prob


def late_step(ctx):
    """the law of a step after many others, whose draws are fixed"""
    gates, n = gateset(ctx, ctx.cfg['gates'])
    T = targets(ctx, n)[ctx.cfg['target']]
    counts, N, seed = ctx.cfg['counts'], ctx.cfg['N'], ctx.cfg['seed']
    a, rate = ctx.num(F(7, 10)), ctx.num(F(*ctx.cfg['rate']))

    def run(K):
        d = make_up(ctx, gates, n, counts)
        c = ctx.Compiler(2 ** n, list(d), append_probability=a,
                         annealing_rate=rate)
        return c.compile_layered(ctx.Unitary(2 ** n, ctx.copy(T)), d, 1.0,
                                 max_step_count=K)

    def state(r):
        return split(ctx, read(ctx, r.compiled_sequence, gates, n, 'state'),
                     counts, 'state')

    def before():
        with ctx.held(seed) as p:
            r = run(N - 1)
        with ctx.held(seed) as p2:
            r2 = run(N)
        same = [ctx.decide(ctx.eq(x, y))
                for x, y in zip(r.cost_by_step, r2.cost_by_step)]
        ok = p2.n >= p.n and len(r2.cost_by_step) >= len(same) and all(same)
        return state(r), p.n, ok
    start, draws, ok = ctx.once('before', before)
    if not ok:
        ctx.reach('law')    # draws are not made step by step
        return
    with ctx.held(seed, draws):
        r = run(N)
    after = state(r)
    want = ctx.once('model', lambda: model(
        ctx, gates, n, T, 1.0, counts, N, a, rate, start, N))
    ctx.outcome('kept', after == start)
    ctx.expect('kept', {True: want.get(start, 0), False: sum(
        (p for k, p in want.items() if k != start), 0)})
    ctx.outcome('late', after)
    ctx.expect('late', want)
    ctx.reach('law')


def distant(ctx):
    """layers made long after each other, and the copies of a gate in one
    large layer, are independent"""
    gates, n = gateset(ctx, ctx.cfg['gates'])
    counts, N = ctx.cfg['counts'], ctx.cfg['N']

    def key(part, n_=None):
        return tuple(read(ctx, ctx.UnitarySequence(2 ** n, list(part)),
                          gates, n, 'part'))
    if ctx.cfg.get('within'):
        g = gates[0]
        d = make_up(ctx, gates, n, {g.name: N})
        with ctx.one_order():
            late.pair(ctx, lambda: [[e] for e in
                                    ctx.Compiler.create_random_layer(
                                        2 ** n, d)], key, N, {
                ((g.name, tuple(w)),): ctx.num(F(1, len(g.where)))
                for w in g.where}, every=ctx.cfg.get('every'),
                # the one order of a shuffle is a rotation
                at=lambda i: (i - 1) % N)
        return
    d = make_up(ctx, gates, n, counts)

    def run(N):
        return [ctx.Compiler.create_random_layer(2 ** n, d)
                for _ in range(N)]
    law = {k: ctx.num(p) for k, p in layer_law(ctx, gates, counts).items()}
    if ctx.cfg.get('seed'):
        late.last(ctx, run, key, ctx.cfg['lengths'], law, ctx.cfg['seed'])
    else:
        late.pair(ctx, lambda: run(N), key, N, law, every=ctx.cfg['every'])


def refused(ctx):
    gates, n = gateset(ctx, 'one')
    d = make_up(ctx, gates, n, {'R': 1, 'Z': 1})
    c = ctx.Compiler(2, list(d))
    U = ctx.Unitary(2, targets(ctx, 1)['R2'])
    W = ctx.Unitary(4, ctx.eye(4))
    k = ctx.choice('kind', ['matrix target', 'list', 'wrong target'])
    f = {'matrix target': lambda: c.compile_layered(
            targets(ctx, 1)['R2'], d, 0.9, max_step_count=1),
         'list': lambda: c.compile_layered(U, list(d), 0.9,
                                           max_step_count=1),
         'wrong target': lambda: c.compile_layered(
             W, d, 0.9, max_step_count=1)}[k]
    ctx.check(ctx.raises(f), 'refused')
    ctx.reach(k)


def jobs(tier):
    out = []
    T = tier == 'thorough'
    for g, counts in [('one', {'R': 1, 'Z': 1}), ('one', {'R': 2, 'Z': 1}),
                      ('one', {'R': 2, 'Z': 2}), ('one', {'R': 0, 'Z': 1}),
                      ('single', {'R': 3}), ('two', {'R': 1, 'C': 1}),
                      ('two', {'R': 2, 'C': 1}), ('restricted',
                                                  {'C': 2, 'R': 1})] + (
            [('two', {'R': 2, 'C': 2}), ('one', {'R': 3, 'Z': 2})]
            if T else []):
        out.append(dict(name='layer_%s_%s' % (g, ''.join(
            '%s%d' % x for x in counts.items())), fn=layer,
            cfg={'gates': g, 'counts': counts}, must=['layer'], cost=60,
            conf=15, paths=20000))
    for n, prims, fixed in [
            (1, [('Ra', None, 3)], True), (1, [('Ra', None, 5)], True),
            (1, [('Ra', None, 2), ('R', None, 1)], False),
            (1, [('Sab', None, 2)], True), (2, [('R', None, 4)], True),
            (2, [('C', None, 1), ('Ra', None, 2)], False),
            (2, [('C', [[1, 0]], 2), ('R', None, 4)], True),
            (2, [('R', [[1]], 2), ('V', None, 1), ('C', None, 1)], False)]:
        out.append(dict(name='drawn_n%d_%s%s' % (n, ''.join(
            '%s%d' % (k, c) for k, _, c in prims), '_order' if fixed else ''),
            fn=drawn, cfg={'n': n, 'prims': prims, 'fixed_order': fixed},
            must=['layer'], cost=60, conf=12, paths=20000))
    for g, target, counts, K, t in [
            ('single', 'R2', {'R': 1}, 3, 'any'),
            ('single', 'R2', {'R': 2}, 2, None),
            ('single', 'Rinv', {'R': 3}, 3 if T else 2, 0.9),
            ('single', 'R2', {'R': 5}, 3 if T else 2, 0.95),
            ('one', 'ZR', {'R': 1, 'Z': 1}, 2 if T else 1, 'any'),
            ('restricted', 'CR', {'R': 1, 'C': 1}, 2, 0.95)] + (
            [('two', 'CR', {'R': 1, 'C': 1}, 2, 0.95)] if T else []):
        out.append(dict(
            name='steps_%s_%s_%s_K%d' % (g, target, ''.join(
                '%s%d' % x for x in counts.items()), K), fn=bounded,
            cfg={'gates': g, 'target': target, 'counts': counts, 'K': K,
                 't': t}, must=['grown'], cost=100 * K, conf=15,
            paths=20000))
    for g, target, counts, K in [
            ('single', 'far', {'R': 3}, 8), ('one', 'ZR', {'R': 2, 'Z': 2}, 6),
            ('two', 'CR', {'R': 2, 'C': 1}, 5),
            ('restricted', 'CR', {'R': 1, 'C': 3}, 6)]:
        for seed in range(8 if T else 3):
            out.append(dict(
                name='long_%s_%s_%s_%d' % (g, target, ''.join(
                    '%s%d' % x for x in counts.items()), seed), fn=bounded,
                cfg={'gates': g, 'target': target, 'counts': counts,
                     'K': 2 * K if T else K, 't': 'any', 'seed': seed},
                cost=300))
    for g, target, counts, K, regime in [
            ('single', 'Rinv', {'R': 2}, 2, 'free'),
            ('single', 'Rinv', {'R': 2}, 1, 'capped'),
            ('one', 'Rinv', {'R': 1, 'Z': 1}, 1, 'free'),
            ('one', 'ZR', {'R': 1, 'Z': 1}, 1, 'free'),
            ('restricted', 'RR', {'R': 1, 'C': 1}, 1, 'free')] + (
            [('single', 'Rinv', {'R': 2}, 3, 'free'),
             ('one', 'Rinv', {'R': 1, 'Z': 1}, 2, 'free'),
             ('two', 'RR', {'R': 1, 'C': 1}, 1, 'free')] if T else []):
        out.append(dict(
            name='law_%s_%s_%s_K%d_%s' % (g, target, ''.join(
                '%s%d' % x for x in counts.items()), K, regime), fn=law,
            cfg={'gates': g, 'target': target, 'counts': counts, 'K': K,
                 'regime': regime, 't': 0.999}, must=['law'],
            cost=60 * K, conf=12, paths=20000))
    out.append(dict(name='refused', fn=refused, cost=5, must=[
        'matrix target', 'list', 'wrong target']))
    for g, target, counts, N, rate, seed in [
            ('single', 'far', {'R': 2}, 6, (1, 10), 1),
            ('single', 'far', {'R': 3}, 25, (1, 20), 2),
            ('one', 'far', {'R': 1, 'Z': 1}, 12, (1, 10), 3),
            ('one', 'far', {'R': 1, 'Z': 1}, 30, (1, 20), 4),
            ('one', 'far', {'R': 1, 'Z': 1}, 9, (1, 20), 'low'),
            ('one', 'far', {'R': 1, 'Z': 1}, 22, (1, 400), 8),
            ('restricted', 'CR', {'R': 1, 'C': 1}, 20, (1, 10), 5),
            ('single', 'far', {'R': 2}, 60, (1, 40), 6)]:
        out.append(dict(name='late_%s_%s_%d' % (g, ''.join(
            '%s%d' % x for x in counts.items()), N), fn=late_step, cost=60,
            cfg={'gates': g, 'target': target, 'counts': counts, 'N': N,
                 'rate': rate, 'seed': seed}, must=['law'], conf=4))
    for i, (g, counts, N, every) in enumerate([
            ('pair', {'R': 1, 'V': 1}, 10, None),
            ('one', {'R': 2, 'Z': 1}, 7, [0, 3, 5]),
            ('one', {'R': 1, 'Z': 1}, 30, [0, 14, 28])]):
        out.append(dict(name='distant_%d' % i, fn=distant, cfg={
            'gates': g, 'counts': counts, 'N': N, 'every': every},
            must=['pair'], cost=30, conf=4))
    for N in 8, 13, 30:
        out.append(dict(name='copies_%d' % N, fn=distant, cfg={
            'gates': 'two', 'counts': None, 'N': N, 'within': True,
            'every': None if N < 20 else [0, 9, 28]}, must=['pair'],
            cost=30, conf=4))
    for g, counts in [('one', {'R': 1, 'Z': 1}), ('two', {'R': 1, 'C': 1})]:
        for seed in 'low', 'high':
            out.append(dict(name='last_%s_%s' % (g, seed), fn=distant, cfg={
                'gates': g, 'counts': counts, 'N': 2, 'seed': seed,
                'lengths': range(2, 8)}, must=['last'], cost=30, conf=4))
    return out
