"""C11: the cost trace describes what the compilation did, step by step."""
from .complib import gateset, read, product, targets, compiler, rational, again

BOUNDS = ('the same compilations repeated with step limits 1..K on the same '
          'random draws, K up to 3 (4 thorough); gate sets of one and two '
          'qubits with rational entries; every outcome of every draw; '
          'arbitrary targets for one step')
OUTSIDE = 'more steps than the bound; other gate sets'
ASSUMPTIONS = ['exact real arithmetic']


def trace(ctx):
    gates, n = gateset(ctx, ctx.cfg['gates'])
    T = targets(ctx, n)[ctx.cfg['target']]
    t, K = ctx.cfg['t'], ctx.cfg['K']
    if t == 'any':
        t = ctx.real('t', 0.3, 1)
    target = ctx.Unitary(2 ** n, ctx.copy(T), 'T')
    c = compiler(ctx, gates, n)
    mark = ctx.mark()
    runs = {}
    for k in range(K, 0, -1):
        if ctx.cfg.get('fresh'):
            c = compiler(ctx, gates, n)
        with again(ctx, mark):
            r = c.compile(target, t, max_step_count=k)
        runs[k] = (list(r.cost_by_step), read(
            ctx, r.compiled_sequence, gates, n, 'run'),
            r.compiled_sequence.product().get_matrix())
    full = runs[K][0]
    prev = []
    for k in range(1, K + 1):
        costs, items, P = runs[k]
        ctx.check(len(costs) == min(k, len(full)), 'one cost per step')
        if len(costs) != min(k, len(full)):
            ctx.cut()
        ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(costs, full)]),
                  'costs of earlier steps')
        want = product(ctx, items, gates, n)
        ctx.check(ctx.phase_eq(P, want), 'product')
        d = ctx.dist(T, want)
        if costs:
            ctx.check(ctx.eq(costs[-1], d), 'last cost is the distance of '
                      'the returned sequence')
        ctx.check(ctx.all([ctx.le(0, d), ctx.le(d, 1)]), 'range')
        if k <= len(full):
            near = items == prev or items[1:] == prev or \
                items[:-1] == prev or items == prev[1:] or items == prev[:-1]
            ctx.check(near, 'one change at one end per step')
            ctx.reach('kept' if items == prev else
                      'grown' if len(items) > len(prev) else 'shrunk')
        else:
            ctx.check(items == prev, 'nothing changes after the end')
            ctx.reach('ended')
        prev = items


def arbitrary(ctx):
    gates, n = gateset(ctx, ctx.cfg['gates'])
    T = ctx.unitary('T', 2 ** n)
    c = compiler(ctx, gates, n, append_probability=ctx.real('p', 0, 1),
                 annealing_rate=ctx.real('rate', 0, 30))
    r = c.compile(ctx.Unitary(2 ** n, ctx.copy(T)), None, max_step_count=1)
    costs = list(r.cost_by_step)
    items = read(ctx, r.compiled_sequence, gates, n, 'result')
    ctx.check(len(costs) <= 1 and len(items) <= len(costs), 'one step')
    if costs:
        want = product(ctx, items, gates, n)
        ctx.check(ctx.phase_eq(r.compiled_sequence.product().get_matrix(),
                               want), 'product')
        ctx.check(ctx.eq(costs[0], ctx.dist(T, want)), 'cost')
        ctx.reach('changed' if items else 'kept')


def jobs(tier):
    out = []
    T = tier == 'thorough'
    for g, target, t, K in [('single', 'R2', 0.99, 4 if T else 3),
                            ('single', 'far', 0.9, 4 if T else 3),
                            ('one', 'ZR', 0.99, 2), ('one', 'Rinv', 0.7, 2),
                            ('restricted', 'CR', 0.9, 2),
                            ('two', 'RR', 0.9, 2 if T else 1)] + (
            [('one', 'ZR', 0.99, 3), ('restricted', 'CR', 0.9, 3),
             ('two', 'CR', 0.9, 2)] if T else []):
        must = ['kept', 'grown'] + (['shrunk'] if K > 1 else [])
        if K > 2 and target != 'far':
            must.append('ended')
        out.append(dict(name='trace_%s_%s_K%d' % (g, target, K), fn=trace,
                        cfg={'gates': g, 'target': target, 't': t, 'K': K},
                        must=must, cost=6 ** K, conf=15, paths=20000))
    out.append(dict(name='fresh', fn=trace, cfg={
        'gates': 'single', 'target': 'R2', 't': 0.99, 'K': 3,
        'fresh': True}, cost=200, conf=15))
    for g, target, K in [('one', 'ZR', 12), ('single', 'far', 12),
                         ('two', 'CR', 8), ('restricted', 'CR', 12)]:
        for seed in range(10 if T else 4):
            out.append(dict(
                name='long_%s_%s_%d' % (g, target, seed), fn=trace,
                cfg={'gates': g, 'target': target, 't': 'any', 'fresh': True,
                     'K': 2 * K if T else K, 'seed': seed}, cost=300))
    for g in ['one'] + (['restricted'] if T else []):
        out.append(dict(name='arbitrary_' + g, fn=arbitrary,
                        cfg={'gates': g}, must=['changed', 'kept'],
                        cost=100))
    return out
