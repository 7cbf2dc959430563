"""C10: a compilation ends, and what it returns is honest."""
from .complib import (gateset, read, product, targets, compiler, primitives,
                      rational)

BOUNDS = ('gate sets of one and two qubits with rational entries and one '
          'parameterized rotation; seven one-qubit and six two-qubit targets; '
          'every threshold in [-0.1, 1.1] and none; every outcome of up to 3 '
          '(4 thorough) steps, that is all actions, gates, qubits, '
          'acceptances; every step limit 0..3; arbitrary targets for the '
          'first step; pinned runs of 60 to 800 steps, with and without '
          'progress; the elapsed time under a symbolic clock')
OUTSIDE = ('more steps than the bound except for the pinned runs; other gate '
           'sets')
ASSUMPTIONS = ['exact real arithmetic; closeness may deviate from the exact '
               'comparison by 2e-8 at its boundary']


def check_result(ctx, r, gates, n, T, t, K):
    costs = list(r.cost_by_step)
    ctx.check(len(costs) <= K, 'step limit')
    ctx.check(ctx.le(0, r.total_elapsed_time), 'elapsed time')
    items = read(ctx, r.compiled_sequence, gates, n, 'result')
    ctx.check(len(items) <= len(costs), 'one gate per step at most')
    P = r.compiled_sequence.product().get_matrix()
    ctx.check(ctx.phase_eq(P, product(ctx, items, gates, n)),
              'product of the returned gates')
    overlap = 1 - ctx.dist(T, P)
    thr = 1 if t is None else t
    if len(costs) < K:
        ctx.reach('stopped early')
        ctx.check(ctx.le(thr, overlap, 2e-8),
                  'stops early only at the threshold')
    else:
        ctx.reach('step limit')
    if costs:
        ctx.check(ctx.eq(costs[-1], 1 - overlap), 'last cost')
    # it does not go on once the threshold is reached
    before = [ctx.dist(T, ctx.eye(2 ** n))] + costs[:-1]
    if costs:
        ctx.check(ctx.all([ctx.le(1 - c, thr) for c in before]),
                  'goes on only below the threshold')
    return items


def bounded(ctx):
    gates, n = gateset(ctx, ctx.cfg['gates'])
    T = targets(ctx, n)[ctx.cfg['target']]
    K = ctx.cfg['K']
    t = None if ctx.cfg.get('t') == 'none' else ctx.real('t', -0.1, 1.1)
    c = compiler(ctx, gates, n)
    u = ctx.Unitary(2 ** n, ctx.copy(T), 'T')
    r = c.compile(u, t, max_step_count=K)
    check_result(ctx, r, gates, n, T, t, K)
    ctx.check(ctx.phase_eq(u.get_matrix(), T), 'target untouched')


def already_there(ctx):
    """targets already reached by the empty sequence need no step, whatever
    the step limit; a limit of zero always gives the empty sequence"""
    gates, n = gateset(ctx, ctx.cfg['gates'])
    c = compiler(ctx, gates, n)
    k = ctx.choice('kind', ['identity', 'phase', 'low', 'zero'])
    T = ctx.eye(2 ** n)
    t = ctx.choice('t', [None, 1.0, 0.5, 0.0])
    kw = {'max_step_count': ctx.choice('K', [0, 3])}
    if ctx.choice('default K', [True, False]):
        kw = {}
    if k == 'phase':
        T = ctx.cexp(ctx.I * ctx.real('g', -3, 3)) * T
    elif k in ('low', 'zero'):
        T = ctx.unitary('T', 2 ** n)
        if k == 'low':
            t = ctx.real('t', -1, 1)
            ctx.assume(ctx.le(t, 1 - ctx.dist(T, ctx.eye(2 ** n)), 0))
        else:
            kw = {'max_step_count': 0}
    r = c.compile(ctx.Unitary(2 ** n, ctx.copy(T)), t, **kw)
    ctx.check(r.compiled_sequence.get_length() == 0, 'no gate')
    ctx.check(len(r.cost_by_step) == 0, 'no step')
    ctx.check(r.compiled_sequence.get_dimension() == 2 ** n,
              'dimension')
    ctx.check(ctx.phase_eq(r.compiled_sequence.product().get_matrix(),
                           ctx.eye(2 ** n)), 'identity')
    ctx.reach(k)


def parameterized(ctx):
    """a rotation with a drawn angle, arbitrary target"""
    def rotation(a):
        co, si = ctx.cos(a / 2), ctx.sin(a / 2)
        return ctx.arr([[co, -si], [si, co]])
    prim = ctx.UnitaryPrimitive(ctx.ParameterizedUnitary(
        2, rotation, [ctx.ParameterizedUnitaryParameter('a', 0, 2, True)],
        'G'))
    c = ctx.Compiler(2, [prim])
    T = ctx.unitary('T', 2)
    t = ctx.real('t', 0, 1)
    r = c.compile(ctx.Unitary(2, ctx.copy(T)), t, max_step_count=1)
    costs = list(r.cost_by_step)
    L = r.compiled_sequence.get_length()
    ctx.check(len(costs) <= 1 and L <= len(costs), 'step limit')
    es = r.compiled_sequence.get_sequence_entries()
    P = ctx.eye(2)
    for e in es:
        v = e.get_full_unitary(2).get_parameter_value('a')
        ctx.check(v is not None, 'angle recorded')
        a = v[0]
        ctx.check(ctx.all([ctx.le(0, a), ctx.le(a, 2)]), 'angle in range')
        P = rotation(a)
    ctx.check(ctx.phase_eq(r.compiled_sequence.product().get_matrix(), P),
              'product of the returned gates')
    d0 = ctx.dist(T, ctx.eye(2))
    if not costs:
        ctx.check(ctx.le(t, 1 - d0, 2e-8), 'stops early only at threshold')
        ctx.reach('no step')
    else:
        ctx.check(ctx.le(1 - d0, t), 'goes on only below the threshold')
        ctx.check(ctx.eq(costs[0], ctx.dist(T, P)), 'cost')
        ctx.reach('gate' if L else 'no gate')


def stalled(ctx):
    """a target no sequence reaches, and a gate set which never changes the
    cost: every step of the limit is made"""
    T = targets(ctx, 1)['far']
    K = ctx.cfg['K']
    p = ctx.UnitaryPrimitive(ctx.Unitary(2, ctx.eye(2), 'G'))
    c = ctx.Compiler(2, [p], append_probability=0.3)
    with ctx.pinned(ctx.cfg['seed']):
        if ctx.cfg['layers']:
            r = c.compile_layered(ctx.Unitary(2, T), {p: 2}, 0.9,
                                  max_step_count=K)
        else:
            r = c.compile(ctx.Unitary(2, T), None, max_step_count=K)
    ctx.check(len(r.cost_by_step) == K, 'stops early only at the threshold')
    ctx.check(ctx.all([ctx.eq(x, 1) for x in r.cost_by_step]), 'costs')
    ctx.reach('stalled')


def timed(ctx):
    """the elapsed time is that of the whole compilation: not less than the
    time the user's gates take, not more than passes around the call"""
    spent, on = [ctx.num(0)], [True]

    def rotation(a):
        if on[0]:
            x = ctx.real('d%d' % len(spent), 0.002, 0.02)
            ctx.spend(x)
            spent.append(x)
        co, si = ctx.cos(a / 2), ctx.sin(a / 2)
        return ctx.arr([[co, -si], [si, co]])
    prim = ctx.UnitaryPrimitive(ctx.ParameterizedUnitary(
        2, rotation, [ctx.ParameterizedUnitaryParameter('a', 0, 2, True)],
        'G'))
    c = ctx.Compiler(2, [prim])
    T = ctx.Unitary(2, targets(ctx, 1)['far'])
    for again in range(2):
        del spent[1:]
        a = ctx.clock()
        if ctx.cfg['layers']:
            r = c.compile_layered(T, {prim: ctx.cfg['layers']}, None,
                                  max_step_count=1)
        else:
            r = c.compile(T, None, max_step_count=2 - again)
        b = ctx.clock()
        ctx.check(ctx.all([
            ctx.le(sum(spent, ctx.num(0)), r.total_elapsed_time, 1e-4),
            ctx.le(r.total_elapsed_time, b - a, 1e-4)]), 'elapsed time')
        ctx.reach('slow' if len(spent) > 1 else 'fast')


def rejected(ctx):
    gates, n = gateset(ctx, 'one')
    c = compiler(ctx, gates, n)
    ps = primitives(ctx, gates, n)
    P2 = primitives(ctx, gateset(ctx, 'two')[0], 2)
    U = ctx.Unitary(2, rational(ctx))
    W = ctx.Unitary(4, ctx.eye(4))
    k = ctx.choice('kind', ['matrix target', 'no gates', 'large gate',
                            'not a gate', 'dimension', 'wrong target'])
    f = {'matrix target': lambda: c.compile(rational(ctx), 0.5,
                                            max_step_count=2),
         'no gates': lambda: ctx.Compiler(2, []).compile(U, 0.5,
                                                         max_step_count=2),
         'large gate': lambda: ctx.Compiler(2, P2),
         'not a gate': lambda: ctx.Compiler(2, [U]),
         'dimension': lambda: ctx.Compiler(0, ps),
         'wrong target': lambda: c.compile(W, 0.5, max_step_count=2)}[k]
    ctx.check(ctx.raises(f), 'refused')
    ctx.reach(k)


def jobs(tier):
    out = []
    T = tier == 'thorough'
    for target in ['R', 'R2', 'Rinv', 'Z', 'ZR', 'far']:
        out.append(dict(name='one_%s' % target, fn=bounded, cfg={
            'gates': 'one', 'target': target, 'K': 2}, cost=50,
            must=['step limit', 'stopped early'], conf=15))
    out.append(dict(name='pair_R2', fn=bounded, cfg={
        'gates': 'pair', 'target': 'R2', 'K': 2}, cost=50,
        must=['step limit', 'stopped early'], conf=15))
    for target, g in [('ZR', 'one'), ('R2', 'single'), ('CR', 'restricted')]:
        out.append(dict(name='array_%s_%s' % (g, target), fn=bounded, cfg={
            'gates': g, 'target': target, 'K': 1, 'array': True}, cost=20,
            must=['step limit'], conf=15))
    for target, g in [('R', 'single'), ('R2', 'single')]:
        K = 4 if T else 3
        out.append(dict(name='%s_%s_K%d' % (g, target, K), fn=bounded, cfg={
            'gates': g, 'target': target, 'K': K}, cost=500,
            must=['step limit', 'stopped early'], conf=15, paths=20000))
    out.append(dict(name='exact', fn=bounded, cfg={
        'gates': 'one', 'target': 'ZR', 'K': 2, 't': 'none'}, cost=50,
        must=['step limit'], conf=15))
    out.append(dict(name='exact_hit' + ('_one' if T else ''), fn=bounded, cfg={
        'gates': 'one' if T else 'single', 'target': 'R2', 'K': 3,
        't': 'none'}, cost=500,
        must=['step limit', 'stopped early'], conf=15, paths=20000))
    for target in ['R', 'C', 'CR', 'RR']:
        out.append(dict(name='two_%s_K%d' % (target, 2 if T else 1), fn=bounded, cfg={
            'gates': 'two', 'target': target, 'K': 2 if T else 1}, cost=300,
            must=['step limit', 'stopped early'], conf=15, paths=20000))
    out.append(dict(name='restricted', fn=bounded, cfg={
        'gates': 'restricted', 'target': 'CR', 'K': 2}, cost=300,
        must=['step limit', 'stopped early'], conf=15))
    for g in ['one', 'two']:
        out.append(dict(name='start_' + g, fn=already_there,
                        cfg={'gates': g}, cost=50, must=[
                            'identity', 'phase', 'low', 'zero']))
    out.append(dict(name='parameterized', fn=parameterized, cost=100,
                    must=['no step', 'gate', 'no gate']))
    for k in (0, 1, 2):
        out.append(dict(name='timed_%d' % k, fn=timed, cfg={'layers': k},
                        must=['slow', 'fast'], cost=30, conf=12))
    for k in (0, 1):
        out.append(dict(name='stalled_%d' % k, fn=stalled, cfg={
            'layers': k, 'seed': 3 + k, 'K': 500 if k else 800}, must=['stalled'],
            cost=800))
    out.append(dict(name='rejected', fn=rejected, cost=10, must=[
        'matrix target', 'no gates', 'large gate', 'not a gate',
        'dimension', 'wrong target']))
    return out
