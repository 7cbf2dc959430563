"""C07: the product of a sequence is the ordered product of its entries
after every history of changes."""
from .seqlib import gate, entry, check_sequence

BOUNDS = ('every history of up to 4 (5 thorough) operations among append '
          'first/last, remove first/last and reading the product, from '
          'sequences of 0..3 entries on 1..3 qubits, with the product read or '
          'not read beforehand; gates: rotations by arbitrary angles and '
          'non-symmetric two-qubit gates; arbitrary unitary gates for '
          'histories of 2; pinned histories of 24 operations')
OUTSIDE = 'longer histories other than the pinned ones; more than 3 qubits'
ASSUMPTIONS = ['exact real arithmetic']


def apply_op(ctx, s, model, op, g, **kw):
    if op == 'af':
        s.append_first(entry(ctx, g), **kw)
        model.insert(0, g)
    elif op == 'al':
        s.append_last(entry(ctx, g), **kw)
        model.append(g)
    elif op == 'rf':
        s.remove_first(**kw)
        if model:
            model.pop(0)
    elif op == 'rl':
        s.remove_last(**kw)
        if model:
            model.pop()
    elif op == 'p':
        s.product()


OPS = ['af', 'al', 'rf', 'rl', 'p']


def history(ctx):
    n, base, L = ctx.cfg['n'], ctx.cfg['base'], ctx.cfg['L']
    model = [gate(ctx, i + 3, n) for i in range(base)]
    s = ctx.UnitarySequence(2 ** n, [entry(ctx, g) for g in model])
    if ctx.choice('read first', [True, False]):
        check_sequence(ctx, s, model, n, 'initial')
    for i in range(L):
        ops = OPS if i else ctx.cfg.get('first', OPS)
        apply_op(ctx, s, model, ctx.choice('op%d' % i, ops),
                 gate(ctx, i, n), **ctx.cfg.get('kw', {}))
    check_sequence(ctx, s, model, n, 'final')
    # reading again gives the same answer
    check_sequence(ctx, s, model, n, 'final again', entries=False)
    ctx.reach('history')


def arbitrary(ctx):
    """arbitrary unitary gates instead of rotations"""
    n = 2
    pool = [(ctx.unitary('A', 4), [1, 0]), (ctx.unitary('B', 2), [0]),
            (ctx.unitary('C', 4), [0, 1])]
    model = [pool[2]]
    s = ctx.UnitarySequence(4, [entry(ctx, pool[2])])
    if ctx.choice('read first', [True, False]):
        s.product()
    for i in range(2):
        apply_op(ctx, s, model, ctx.choice('op%d' % i, OPS), pool[i])
    check_sequence(ctx, s, model, n, 'final')
    ctx.reach('arbitrary')


def labels(ctx):
    """what an entry is called, its values and its inverse mark say nothing
    about its matrix; entries are also used in systems of other sizes"""
    n = ctx.choice('n', [2, 3])
    model = [gate(ctx, i, 2) for i in (0, 1, 4)]
    kind = ctx.choice('names', ['I', 'U', 'mixed'])
    es = []
    for i, (m, q) in enumerate(model):
        name, inv = {'I': ('I', False), 'U': ('U', True),
                     'mixed': (('I', 'X', 'I')[i], i == 2)}[kind]
        es.append(ctx.UnitarySequenceEntry(ctx.Unitary(
            m.shape[0], ctx.copy(m), name, {'t': (0.5, True)},
            is_inverse=inv), list(q)))
    if kind != 'U':
        for e, (m, q) in zip(es, model):
            ctx.check(ctx.phase_eq(e.get_full_unitary(
                2 ** (5 - n)).get_matrix(), ctx.place(m, q, 5 - n)),
                'placed elsewhere')
    s = ctx.UnitarySequence(2 ** n, es[:1])
    mod = model[:1]
    if ctx.choice('read', [True, False]):
        s.product()
    for i in (1, 2):
        if ctx.choice('end%d' % i, ['first', 'last']) == 'first':
            s.append_first(es[i])
            mod.insert(0, model[i])
        else:
            s.append_last(es[i])
            mod.append(model[i])
    check_sequence(ctx, s, mod, n, 'labelled')
    s.remove_last()
    check_sequence(ctx, s, mod[:2], n, 'last removed')
    other = ctx.UnitarySequence(2 ** (5 - n), s.get_sequence_entries())
    check_sequence(ctx, other, mod[:2], 5 - n, 'in a system of another size')
    ctx.reach('labels')


def long_run(ctx):
    """a pinned pseudo-random history, checked at every step"""
    import random
    n = ctx.cfg['n']
    rng = random.Random(ctx.cfg['seed'])
    s = ctx.UnitarySequence(2 ** n)
    model = []
    free = 0
    for i in range(ctx.cfg['L']):
        op = rng.choice(OPS[:2] if len(model) < 2 else OPS)
        if len(model) > 5:
            op = rng.choice(OPS[2:])
        k = i if free < 4 else 1 + 2 * (i % 3)    # few free angles
        if op in ('af', 'al') and k % 6 in (0, 2):
            free += 1
        apply_op(ctx, s, model, op, gate(ctx, k, n))
        if i % 3 == 2:
            check_sequence(ctx, s, model, n, 'step', entries=False)
    check_sequence(ctx, s, model, n, 'end')
    ctx.reach('long')


def rejected(ctx):
    """entries that do not fit are refused and change nothing"""
    n = ctx.choice('n', [1, 2])
    model = [gate(ctx, 0, n)]
    s = ctx.UnitarySequence(2 ** n, [entry(ctx, model[0])])
    if ctx.choice('read first', [True, False]):
        s.product()
    u = ctx.unitary('U', 2)
    e = ctx.UnitarySequenceEntry(ctx.Unitary(2, u), [n + ctx.choice(
        'off', [0, 1])])
    bad = ctx.choice('bad', ['qubit', 'type', 'matrix'])
    x = {'qubit': e, 'type': None, 'matrix': u}[bad]
    if ctx.choice('end', ['first', 'last']) == 'first':
        rej = ctx.raises(lambda: s.append_first(x))
    else:
        rej = ctx.raises(lambda: s.append_last(x))
    ctx.check(rej, 'refused')
    ctx.check(ctx.raises(lambda: ctx.UnitarySequence(2 ** n, [x])),
              'refused by the constructor')
    check_sequence(ctx, s, model, n, 'after refusal')
    ctx.reach('refused')


def jobs(tier):
    out = []
    for n, base, L in [(1, 0, 4), (2, 0, 4), (2, 1, 3), (2, 2, 2), (3, 3, 2)]:
        if tier == 'thorough':
            L += 1
        for f in OPS if L > 3 else [OPS]:
            f = [f] if isinstance(f, str) else f
            out.append(dict(
                name='history_n%d_b%d_L%d_%s' % (n, base, L, '-'.join(f)),
                fn=history, cfg={'n': n, 'base': base, 'L': L, 'first': f},
                must=['history'], cost=4 ** n * 5 ** (L - len(f) % 2),
                conf=12))
    for n, base, L in [(1, 1, 3), (2, 2, 2)]:
        for save in (False, True):
            out.append(dict(
                name='history_n%d_b%d_L%d_save_%s' % (n, base, L, save),
                fn=history, must=['history'], cost=1500, conf=12,
                cfg={'n': n, 'base': base, 'kw': {'save_undo': save},
                     'L': L + (tier == 'thorough')}))
    out.append(dict(name='arbitrary', fn=arbitrary, must=['arbitrary'],
                    cost=2000, conf=10))
    out.append(dict(name='labels', fn=labels, must=['labels'], cost=1500,
                    conf=12))
    for i in range(3 if tier == 'quick' else 12):
        out.append(dict(name='long_%d' % i, fn=long_run,
                        cfg={'n': 2, 'seed': i, 'L': 24}, must=['long'],
                        cost=500))
    out.append(dict(name='rejected', fn=rejected, must=['refused'], cost=10))
    return out
