"""C12: random changes are proposed with the configured probabilities and
accepted by the Metropolis rule with the annealing parameter growing from
zero by the configured rate per step up to its cap."""
from fractions import Fraction as F

from .complib import gateset, read, product, targets, compiler, primitives

BOUNDS = ('exact probability of every outcome of the first K steps, K up to '
          '2 (3 at a fixed rate, or thorough), for every append probability in [0, 1], every '
          'annealing rate in [0, 40] split at the cap, every gate '
          'probability; gate sets of one and two qubits with rational '
          'entries; the cap of the temperature on 1..3 qubits; repeated use '
          'of one compiler object; exact law of single steps after up to 59 '
          'steps whose draws take fixed values')
OUTSIDE = ('more steps than the bound, or later steps after other fixed '
           'draws; other gate sets')
ASSUMPTIONS = ['exact real arithmetic', 'the random generators return '
               'independent draws with their documented distributions']


def mn(ctx, x, y):
    """smaller of two constants or inputs, the order being known"""
    return x if ctx.decide(ctx.le(x, y, 0)) else y


def model(ctx, gates, n, T, t, K, a, rate, probs=None, start=(), first=1):
    """probability of every state after step K, given the one before `first`"""
    cap = (2 ** (2 ** n)) ** 2
    thr = 1 if t is None else t

    def dist(items):
        return ctx.dist(T, product(ctx, list(items), gates, n))

    def done(items):
        return ctx.decide(ctx.le(thr, 1 - dist(items), 1e-8))
    if probs is None:
        probs = [ctx.num(F(1, len(gates)))] * len(gates)
    law = {tuple(start): ctx.num(1)}
    for k in range(first, K + 1):
        beta = mn(ctx, rate * k, cap)
        new = {}

        def put(s, p):
            new[s] = new.get(s, 0) + p
        for s, p in law.items():
            if done(s):
                put(s, p)
                continue
            moves = []
            for g, q in zip(gates, probs):
                for w in g.where:
                    x = (g.name, tuple(w))
                    pr = a / 2 * q * ctx.num(F(1, len(g.where)))
                    moves.append(((x,) + s, pr))
                    moves.append((s + (x,), pr))
            moves.append((s[1:], (1 - a) / 2))
            moves.append((s[:-1], (1 - a) / 2))
            d0 = dist(s)
            for s2, pr in moves:
                up = dist(s2) - d0
                if ctx.decide(ctx.le(up, 0, 0)):
                    put(s2, p * pr)
                else:
                    acc = ctx.rexp(-beta * up)
                    put(s2, p * pr * acc)
                    put(s, p * pr * (1 - acc))
        law = new
    return law


def law(ctx):
    gates, n = gateset(ctx, ctx.cfg['gates'])
    T = targets(ctx, n)[ctx.cfg['target']]
    K, t = ctx.cfg['K'], ctx.cfg.get('t')
    cap = (2 ** (2 ** n)) ** 2
    kw, probs = {}, None
    a, rate = ctx.num(F(1, 2)), ctx.num(0.1)
    if ctx.cfg['regime'] == 'fixed':
        a, rate = ctx.num(F(19, 20)), ctx.num(3)
        kw = {'append_probability': a, 'annealing_rate': rate}
    elif not ctx.cfg.get('defaults'):
        a = ctx.real('a', 0.05, 0.95)
        lo, hi = {'free': (0, F(cap, K)), 'capped': (cap + 1, cap + 24),
                  'between': (cap / 2 + 1, cap - 1),
                  'hot': (0, 0)}[ctx.cfg['regime']]
        rate = ctx.num(0) if hi == 0 else ctx.real(
            'rate', float(lo), float(hi))
        kw = {'append_probability': a, 'annealing_rate': rate}
    if ctx.cfg.get('weighted'):
        q = ctx.real('q', 0.05, 0.95)
        probs = [q, 1 - q]
        kw['unitary_primitive_probabilities'] = list(probs)
    c = ctx.Compiler(2 ** n, primitives(ctx, gates, n), **kw)
    r = c.compile(ctx.Unitary(2 ** n, ctx.copy(T)), t, max_step_count=K)
    items = read(ctx, r.compiled_sequence, gates, n, 'result')
    ctx.outcome('state', tuple(items))
    ctx.expect('state', model(ctx, gates, n, T, t, K, a, rate, probs))
    ctx.reach('law')


def late(ctx):
    """the law of a step after many others, whose draws are fixed"""
    gates, n = gateset(ctx, ctx.cfg['gates'])
    T = targets(ctx, n)[ctx.cfg['target']]
    N = ctx.cfg['N']
    a, rate = ctx.num(F(7, 10)), ctx.num(F(*ctx.cfg['rate']))
    q = [ctx.num(F(1, 4)), ctx.num(F(3, 4))]

    def run(K):
        c = ctx.Compiler(2 ** n, primitives(ctx, gates, n), list(q),
                         append_probability=a, annealing_rate=rate)
        return c.compile(ctx.Unitary(2 ** n, ctx.copy(T)), 1.0,
                         max_step_count=K)
    seed = ctx.cfg['seed']

    def before():
        with ctx.held(seed) as p:
            r = run(N - 1)
        items = read(ctx, r.compiled_sequence, gates, n, 'before')
        with ctx.held(seed) as p2:
            r2 = run(N)
        same = [ctx.decide(ctx.eq(x, y))
                for x, y in zip(r.cost_by_step, r2.cost_by_step)]
        ok = p2.n >= p.n and len(r2.cost_by_step) >= len(same) and all(same)
        return items, p.n, len(same), ok
    items, draws, steps, ok = ctx.once('before', before)
    ctx.check(steps <= N - 1, 'steps before')
    if not ok:
        ctx.reach('law')    # draws are not made step by step
        return
    with ctx.held(seed, draws):
        r = run(N)
    after = tuple(read(ctx, r.compiled_sequence, gates, n, 'after'))
    want = ctx.once('model', lambda: model(
        ctx, gates, n, T, None, N, a, rate, q, items, N))
    ctx.outcome('kept', after == tuple(items))
    ctx.expect('kept', {True: want.get(tuple(items), 0), False: sum(
        (p for k, p in want.items() if k != tuple(items)), 0)})
    ctx.outcome('late', after)
    ctx.expect('late', want)
    ctx.reach('law')


def extreme(ctx):
    """append probability one never removes, zero never appends"""
    gates, n = gateset(ctx, 'one')
    T = targets(ctx, n)[ctx.choice('target', ['R2', 'far'])]
    k = ctx.choice('kind', ['append', 'remove'])
    kw = {'append': {'append_probability': 1.0, 'annealing_rate': 0.0},
          'remove': {'append_probability': 0.0}}[k]
    c = ctx.Compiler(2, primitives(ctx, gates, n), **kw)
    K = 2
    r = c.compile(ctx.Unitary(2, ctx.copy(T)), None, max_step_count=K)
    L = r.compiled_sequence.get_length()
    steps = len(r.cost_by_step)
    ctx.reach(k)
    if k == 'append':
        ctx.check(L == steps, 'every step adds a gate')
    else:
        ctx.check(L == 0, 'no gate is ever added')


def reuse(ctx):
    """a compilation does not depend on what the compiler did before"""
    gates, n = gateset(ctx, ctx.cfg['gates'])
    ts = targets(ctx, n)
    T = ts[ctx.cfg['target']]
    K = ctx.cfg['K']
    kw = {'annealing_rate': ctx.real('rate', 0.01, 6)}
    ps = primitives(ctx, gates, n)
    used = ctx.Compiler(2 ** n, ps, **kw)
    kind = ctx.choice('before', ['compile', 'layered'])
    other = ctx.Unitary(2 ** n, ctx.copy(ts[ctx.cfg['other']]))
    if kind == 'compile':
        used.compile(other, None, max_step_count=1)
    else:
        used.compile_layered(other, {ps[0]: 1}, None, max_step_count=1)
    mark = ctx.mark()
    out = []
    for c in (used, ctx.Compiler(2 ** n, ps, **kw)):
        ctx.rewind(mark)
        if ctx.cfg['call'] == 'compile':
            r = c.compile(ctx.Unitary(2 ** n, ctx.copy(T)), None,
                          max_step_count=K)
        else:
            r = c.compile_layered(ctx.Unitary(2 ** n, ctx.copy(T)),
                                  {ps[0]: 1}, None, max_step_count=K)
        out.append((list(r.cost_by_step), read(
            ctx, r.compiled_sequence, gates, n, 'run')))
    ctx.check(len(out[0][0]) == len(out[1][0]), 'same number of steps')
    if len(out[0][0]) == len(out[1][0]):
        ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip(
            out[0][0], out[1][0])]), 'same costs')
    ctx.check(out[0][1] == out[1][1], 'same gates')
    ctx.reach('reuse ' + kind)


def jobs(tier):
    out = []
    T = tier == 'thorough'

    def add(g, target, K, regime='free', **kw):
        cfg = dict(gates=g, target=target, K=K, regime=regime, **kw)
        out.append(dict(
            name='law_%s_%s_K%d_%s%s' % (g, target, K, regime, ''.join(
                '_%s%s' % (x, str(y)[:4]) for x, y in kw.items())),
            fn=law, cfg=cfg, must=['law'], cost=8 ** K, conf=12,
            paths=20000))
    for regime in ('free', 'capped'):
        add('one', 'Rinv', 1, regime)
    add('one', 'Rinv', 2, 'free')
    add('single', 'Rinv', 2, 'capped')
    add('single', 'Rinv', 2, 'between')
    add('one', 'ZR', 1, 'free', weighted=True)
    add('one', 'R2', 2, 'free', weighted=True)
    add('one', 'R', 2, 'free', t=0.99)
    add('pair', 'R2', 2, 'free')
    add('one', 'Rinv', 1, defaults=True)
    add('single', 'Rinv', 2, defaults=True)
    add('single', 'Rinv', 2, 'hot')
    add('fine', 'I', 1, 'capped', t=1.5)
    add('fine3', 'I', 1, 'capped', t=1.5)
    add('slow', 'I', 3, 'fixed', t=1.5)
    add('two', 'C', 1, 'free')
    add('restricted', 'RR', 1, 'free', weighted=True)
    if T:
        add('single', 'I', 3, 'free', t=1.5)
        add('single', 'Rinv', 3, 'free')
        add('single', 'R2', 3, 'free', t=0.99)
        add('one', 'ZR', 2, 'free', weighted=True)
        add('restricted', 'CR', 2, 'free')
        add('two', 'RR', 1, 'capped')
    for g, target, N, rate, seed in [
            ('one', 'ZR', 5, (1, 10), 1), ('one', 'far', 12, (1, 10), 2),
            ('one', 'far', 30, (1, 10), 3), ('one', 'far', 60, (1, 20), 4),
            ('two', 'RR', 9, (1, 5), 5), ('two', 'CR', 25, (1, 10), 6),
            ('one', 'far', 40, (1, 2), 7), ('one', 'far', 11, (1, 20), 'low'),
            ('two', 'CR', 18, (1, 400), 9),
            ('two', 'RR', 24, (1, 20), 'low')]:
        out.append(dict(name='late_%s_%d' % (g, N), fn=late, cost=30, cfg={
            'gates': g, 'target': target, 'N': N, 'rate': rate,
            'seed': seed}, must=['law'], conf=4))
    out.append(dict(name='extreme', fn=extreme, must=['append', 'remove'],
                    cost=60))
    for call in ('compile', 'layered'):
        out.append(dict(name='reuse_' + call, fn=reuse, cost=100, cfg={
            'gates': 'single', 'target': 'Rinv', 'other': 'far', 'K': 2,
            'call': call}, must=['reuse compile', 'reuse layered'],
            conf=15))
    return out
