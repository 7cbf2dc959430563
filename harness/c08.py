"""C08: undo restores the most recently saved state exactly, once."""
import random

from .seqlib import gate, entry, check_sequence

BOUNDS = ('every history of up to 3 (4 thorough) operations among append '
          'first/last and remove first/last with or without saving, undo and '
          'reading the product, from sequences of 0..2 entries on 1..2 '
          'qubits, product read or not beforehand; whole layers of 1..3 gates '
          'added or removed and undone; pinned histories of 20 operations')
OUTSIDE = 'longer histories other than the pinned ones; more than 2 qubits'
ASSUMPTIONS = ['exact real arithmetic']

OPS = ['af', 'al', 'rf', 'rl', 'af-', 'al-', 'rf-', 'rl-', 'undo', 'p']


class Model:
    def __init__(self, items):
        self.items = list(items)
        self.saved = None

    def save(self, on):
        if on:
            self.saved = list(self.items)


def apply_op(ctx, s, m, op, g):
    save = not op.endswith('-')
    op = op.rstrip('-')
    kw = {} if save else {'save_undo': False}
    if op == 'af':
        m.save(save)
        s.append_first(entry(ctx, g), **kw)
        m.items.insert(0, g)
    elif op == 'al':
        m.save(save)
        s.append_last(entry(ctx, g), **kw)
        m.items.append(g)
    elif op in ('rf', 'rl'):
        if m.items:
            m.save(save)
            m.items.pop(0 if op == 'rf' else -1)
        (s.remove_first if op == 'rf' else s.remove_last)(**kw)
    elif op == 'undo':
        if m.saved is None:
            ctx.check(ctx.raises(s.undo), 'undo without a saved state is '
                      'refused')
        else:
            s.undo()
            m.items, m.saved = m.saved, None
    elif op == 'p':
        s.product()


def history(ctx):
    n, base, L = ctx.cfg['n'], ctx.cfg['base'], ctx.cfg['L']
    m = Model(gate(ctx, i + 3, n) for i in range(base))
    s = ctx.UnitarySequence(2 ** n, [entry(ctx, g) for g in m.items])
    if ctx.choice('read first', [True, False]):
        s.product()
    for i in range(L):
        ops = OPS if i else ctx.cfg.get('first', OPS)
        apply_op(ctx, s, m, ctx.choice('op%d' % i, ops), gate(ctx, i, n))
    check_sequence(ctx, s, m.items, n, 'final', entries=False)
    # one undo brings back the saved state, gates and product; a second undo
    # is refused and changes nothing
    had = m.saved is not None
    apply_op(ctx, s, m, 'undo', None)
    check_sequence(ctx, s, m.items, n, 'undone')
    apply_op(ctx, s, m, 'undo', None)
    check_sequence(ctx, s, m.items, n, 'undone twice', entries=False)
    # the restored sequence keeps working
    apply_op(ctx, s, m, 'al', gate(ctx, 9, n))
    check_sequence(ctx, s, m.items, n, 'continued', entries=False)
    ctx.reach('undone' if had else 'nothing saved')


def layer(ctx):
    """a layer of several gates is undone as a whole"""
    n, k = ctx.cfg['n'], ctx.cfg['k']
    base = ctx.choice('base', [0, 1, k, k + 1])
    m = Model(gate(ctx, i + 3, n) for i in range(base))
    s = ctx.UnitarySequence(2 ** n, [entry(ctx, g) for g in m.items])
    if ctx.choice('read first', [True, False]):
        s.product()
    apply_op(ctx, s, m, ctx.choice('before', ['p', 'al', 'rf-']),
             gate(ctx, 2, n))
    before = list(m.items)
    op = ctx.choice('op', ['af', 'al', 'rf', 'rl'])
    for i in range(k):
        apply_op(ctx, s, m, op + ('' if i == 0 else '-'), gate(ctx, i + 7, n))
    if ctx.choice('read between', [True, False]):
        check_sequence(ctx, s, m.items, n, 'with layer', entries=False)
    if op[0] == 'r' and not before:
        ctx.reach('nothing to remove')
    else:
        apply_op(ctx, s, m, 'undo', None)
        check_sequence(ctx, s, before, n, 'layer undone')
        ctx.check(ctx.raises(s.undo), 'second undo refused')
        check_sequence(ctx, s, before, n, 'after refusal', entries=False)
        ctx.reach('layer undone')


def fresh(ctx):
    """nothing to undo in new, inverted or combined sequences"""
    n = 2
    model = [gate(ctx, i, n) for i in range(2)]
    s = ctx.UnitarySequence(4, [entry(ctx, model[0])])
    s.append_last(entry(ctx, model[1]))
    k = ctx.choice('kind', ['new', 'inverse', 'combine'])
    if k == 'new':
        r = ctx.UnitarySequence(4, [entry(ctx, g) for g in model])
        want = model
    elif k == 'inverse':
        r = s.inverse()
        want = [(ctx.dag(m), q) for m, q in model[::-1]]
    else:
        r = ctx.UnitarySequence.combine(s, s)
        want = model + model
    ctx.check(ctx.raises(r.undo), 'nothing to undo')
    check_sequence(ctx, r, want, n, 'unchanged')
    s.undo()
    check_sequence(ctx, s, model[:1], n, 'original still undoable')
    check_sequence(ctx, r, want, n, 'result independent')
    ctx.reach(k)


def refused(ctx):
    """a refused change is not a change: the earlier saved state stays"""
    n = 1
    model = [gate(ctx, i, n) for i in range(2)]
    s = ctx.UnitarySequence(2, [entry(ctx, model[0])])
    if ctx.choice('read first', [True, False]):
        s.product()
    s.append_last(entry(ctx, model[1]))
    bad = entry(ctx, (model[0][0], [1]))
    f = ctx.choice('end', ['append_first', 'append_last'])
    ctx.check(ctx.raises(lambda: getattr(s, f)(bad)), 'refused')
    check_sequence(ctx, s, model, n, 'after refusal')
    s.undo()
    check_sequence(ctx, s, model[:1], n, 'undone')
    ctx.reach('refused')


def long_run(ctx):
    n = ctx.cfg['n']
    rng = random.Random(ctx.cfg['seed'])
    s = ctx.UnitarySequence(2 ** n)
    m = Model([])
    free = 0
    for i in range(ctx.cfg['L']):
        op = rng.choice(OPS if len(m.items) < 6 else OPS[2:4] + OPS[6:])
        k = i if free < 4 else 1 + 2 * (i % 3)
        if op[0] == 'a' and k % 6 in (0, 2):
            free += 1
        apply_op(ctx, s, m, op, gate(ctx, k, n))
        if i % 2:
            check_sequence(ctx, s, m.items, n, 'step', entries=False)
    check_sequence(ctx, s, m.items, n, 'end')
    ctx.reach('long')


def jobs(tier):
    out = []
    for n, base, L in [(1, 0, 3), (2, 1, 2), (2, 2, 2)]:
        if tier == 'thorough':
            L += 1
        for f in OPS if L > 2 else [OPS]:
            f = [f] if isinstance(f, str) else f
            out.append(dict(
                name='history_n%d_b%d_L%d_%s' % (n, base, L, '-'.join(
                    f) if len(f) == 1 else 'all'),
                fn=history, cfg={'n': n, 'base': base, 'L': L, 'first': f},
                must=['undone', 'nothing saved'] if len(f) > 1 else [],
                cost=4 ** n * 5 ** L, conf=12))
    for n, k in [(1, 1), (1, 2), (2, 3)] if tier == 'quick' else [
            (1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (2, 4)]:
        out.append(dict(name='layer_n%d_k%d' % (n, k), fn=layer,
                        cfg={'n': n, 'k': k}, must=['layer undone'],
                        cost=300))
    out.append(dict(name='fresh', fn=fresh, must=['new', 'inverse',
                                                  'combine'], cost=10))
    out.append(dict(name='refused', fn=refused, must=['refused'], cost=10))
    for i in range(3 if tier == 'quick' else 12):
        out.append(dict(name='long_%d' % i, fn=long_run,
                        cfg={'n': 2 - i % 2, 'seed': i, 'L': 20},
                        must=['long'], cost=500))
    return out
