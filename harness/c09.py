"""C09: inverting and concatenating sequences."""
import numpy as np

from .seqlib import (FAMILIES, family, gate, entry, check_sequence,
                     model_product)

BOUNDS = ('sequences of 0..5 entries on 1..3 qubits (rotations by arbitrary '
          'angles, non-symmetric two-qubit gates, arbitrary unitary gates, special '
          'families, inverted gates), '
          'product read or not, entries listed once or repeatedly, given as a '
          'list or an array; concatenation of 1..3 (4 thorough) sequences; every later '
          'change of one of the sequences')
OUTSIDE = 'longer sequences; more than 3 qubits'
ASSUMPTIONS = ['exact real arithmetic']


def inv(ctx, model):
    return [(ctx.dag(m), q) for m, q in model[::-1]]


def change(ctx, s, model, g):
    op = ctx.choice('change', ['af', 'al', 'rf', 'rl'])
    if op == 'af':
        s.append_first(entry(ctx, g))
        model.insert(0, g)
    elif op == 'al':
        s.append_last(entry(ctx, g))
        model.append(g)
    elif op == 'rf':
        s.remove_first()
        if model:
            model.pop(0)
    else:
        s.remove_last()
        if model:
            model.pop()


def build(ctx, model, n):
    how = ctx.choice('built', ['list', 'appended', 'array'])
    es = [entry(ctx, g) for g in model]
    if how == 'appended':
        s = ctx.UnitarySequence(2 ** n)
        for e in es:
            s.append_last(e)
    elif how == 'array':
        a = np.empty(len(es), dtype=object)
        for i, e in enumerate(es):
            a[i] = e
        s = ctx.UnitarySequence(2 ** n, a)
    else:
        s = ctx.UnitarySequence(2 ** n, es)
    if ctx.choice('read', [True, False]):
        s.product()
    return s


def inverse(ctx):
    n, L = ctx.cfg['n'], ctx.cfg['L']
    model = [gate(ctx, i, n) for i in range(L)]
    s = build(ctx, model, n)
    r = s.inverse()
    ctx.check(r.get_dimension() == 2 ** n, 'dimension')
    check_sequence(ctx, r, inv(ctx, model), n, 'inverse')
    ctx.check(ctx.phase_eq(
        ctx.mm(r.product().get_matrix(), s.product().get_matrix()),
        ctx.eye(2 ** n)), 'inverse cancels')
    # the same from the entries alone
    fresh = ctx.UnitarySequence(2 ** n, r.get_sequence_entries())
    check_sequence(ctx, fresh, inv(ctx, model), n, 'recomputed',
                   entries=False)
    check_sequence(ctx, s, model, n, 'original')
    for e, f in zip(s.get_sequence_entries(),
                    r.get_sequence_entries()[::-1]):
        a, b = [x.get_full_unitary(2 ** n).get_display_name()
                for x in (e, f)]
        ctx.check(not a.endswith('†') and b == a + '†', 'marked as inverse')
    # and back again
    check_sequence(ctx, r.inverse(), model, n, 'double inverse')
    ctx.reach('inverse')


def inverse_then_change(ctx):
    """later changes of either sequence leave the other one alone"""
    n, L = ctx.cfg['n'], ctx.cfg['L']
    model = [gate(ctx, i, n) for i in range(L)]
    s = ctx.UnitarySequence(2 ** n, [entry(ctx, g) for g in model])
    if ctx.choice('read', [True, False]):
        s.product()
    r = s.inverse()
    rm = inv(ctx, model)
    g = gate(ctx, 3, n)
    if ctx.choice('which', ['original', 'result']) == 'original':
        change(ctx, s, model, g)
    else:
        change(ctx, r, rm, g)
    check_sequence(ctx, s, model, n, 'original')
    check_sequence(ctx, r, rm, n, 'result')
    ctx.reach('changed')


def repeated(ctx):
    """the same entry object listed or appended several times"""
    n = ctx.cfg['n']
    g = gate(ctx, ctx.cfg['k'], n)
    h = gate(ctx, 4, n)
    e, f = entry(ctx, g), entry(ctx, h)
    model = [g, h, g, g]
    es = [e, f, e, e]
    if ctx.choice('built', ['list', 'appended']) == 'list':
        s = ctx.UnitarySequence(2 ** n, es)
    else:
        s = ctx.UnitarySequence(2 ** n)
        for x in es:
            s.append_last(x)
    if ctx.choice('read', [True, False]):
        s.product()
    check_sequence(ctx, s.inverse(), inv(ctx, model), n, 'inverse')
    check_sequence(ctx, s, model, n, 'original')
    t = ctx.UnitarySequence.combine(s, s)
    check_sequence(ctx, t.inverse(), inv(ctx, model + model), n,
                   'inverse of twice')
    check_sequence(ctx, t, model + model, n, 'twice')
    ctx.check(ctx.phase_eq(e.get_full_unitary(2 ** n).get_matrix(),
                           ctx.place(g[0], g[1], n)), 'entry untouched')
    ctx.reach('repeated')


def special(ctx):
    """gates of special form, already inverted or not"""
    n = 1
    k = ctx.choice('family', FAMILIES)
    M = family(ctx, k, 2)
    N = ctx.arr(np.array([[0, 1], [1j, 0]]))
    u = ctx.Unitary(2, ctx.copy(M), 'A', {'t': (0.5, True)})
    done = ctx.choice('inverted', [0, 1, 2])
    for _ in range(done):
        u = u.inverse()
    model = [(ctx.dag(M) if done == 1 else M, [0]), (N, [0])]
    s = ctx.UnitarySequence(2, [ctx.UnitarySequenceEntry(u, [0]),
                                entry(ctx, model[1])])
    r = s.inverse()
    check_sequence(ctx, r, inv(ctx, model), n, 'inverse')
    e = r.get_sequence_entries()[1].get_full_unitary(2)
    ctx.check(e.get_display_name().endswith('†') == (done != 1), 'marked')
    ctx.check(e.get_operation_name() == 'A' and
              e.get_parameter_value('t') == (0.5, True), 'name and values')
    back = r.inverse()
    check_sequence(ctx, back, model, n, 'double inverse')
    e = back.get_sequence_entries()[0].get_full_unitary(2)
    ctx.check(e.get_display_name().endswith('†') == (done == 1),
              'marked again')
    c = ctx.UnitarySequence.combine(s, r, back)
    check_sequence(ctx, c, model + inv(ctx, model) + model, n, 'combined')
    names = [[x.get_full_unitary(2).get_display_name()
              for x in q.get_sequence_entries()] for q in (s, r, back, c)]
    ctx.check(names[3] == names[0] + names[1] + names[2], 'names kept')
    check_sequence(ctx, s, model, n, 'original')
    ctx.reach(k)


def other_sizes(ctx):
    """entries taken from a sequence of one size into one of another size,
    before and after inverting"""
    model = [gate(ctx, i, 2) for i in ctx.cfg['gates']]
    es = [entry(ctx, g) for g in model]
    for n in ctx.choice('used before', [[], [3], [2, 3]]):
        for e, (m, q) in zip(es, model):
            ctx.check(ctx.phase_eq(e.get_full_unitary(
                2 ** n).get_matrix(), ctx.place(m, q, n)), 'placed')
    n = ctx.choice('n', [2, 3])
    s = ctx.UnitarySequence(2 ** n, es)
    if ctx.choice('read', [True, False]):
        s.product()
    op = ctx.choice('op', ['inverse', 'combine', 'twice'])
    if op == 'inverse':
        r, want = s.inverse(), inv(ctx, model)
    elif op == 'combine':
        r, want = (ctx.UnitarySequence.combine(s.inverse(), s),
                   inv(ctx, model) + model)
    else:
        r, want = s.inverse().inverse(), model
    for m in (5 - n,):
        t = ctx.UnitarySequence(2 ** m, r.get_sequence_entries())
        check_sequence(ctx, t, want, m, 'in a system of another size')
        check_sequence(ctx, t.inverse(), inv(ctx, want), m,
                       'inverted in a system of another size',
                       entries=False)
    check_sequence(ctx, r, want, n, 'result')
    check_sequence(ctx, s, model, n, 'original')
    ctx.reach(op)


def arbitrary(ctx):
    n = 2
    model = [(ctx.unitary('A', 4), [1, 0]), (ctx.unitary('B', 2), [0]),
             (ctx.unitary('C', 2), [1])]
    s = ctx.UnitarySequence(4, [entry(ctx, g) for g in model[:2]])
    t = ctx.UnitarySequence(4, [entry(ctx, g) for g in model[2:]])
    if ctx.choice('read', [True, False]):
        s.product()
    r = s.inverse()
    check_sequence(ctx, r, inv(ctx, model[:2]), n, 'inverse')
    check_sequence(ctx, ctx.UnitarySequence.combine(s, t), model, n,
                   'combined')
    ctx.check(ctx.phase_eq(ctx.UnitarySequence.combine(
        s, r).product().get_matrix(), ctx.eye(4)), 'with its inverse')
    ctx.reach('arbitrary')


def combine(ctx):
    n, sizes = ctx.cfg['n'], ctx.cfg['sizes']
    models, seqs, k = [], [], 0
    for i, L in enumerate(sizes):
        m = [gate(ctx, k + j, n) for j in range(L)]
        k += L
        s = ctx.UnitarySequence(2 ** n, [entry(ctx, g) for g in m])
        if ctx.choice('read%d' % i, [True, False]):
            s.product()
        models.append(m)
        seqs.append(s)
    c = ctx.UnitarySequence.combine(*seqs)
    want = [g for m in models for g in m]
    ctx.check(c.get_dimension() == 2 ** n, 'dimension')
    check_sequence(ctx, c, want, n, 'combined')
    fresh = ctx.UnitarySequence(2 ** n, c.get_sequence_entries())
    check_sequence(ctx, fresh, want, n, 'recomputed', entries=False)
    # later changes stay local
    which = ctx.choice('changed', list(range(len(seqs))) + ['result'])
    g = gate(ctx, 3, n)
    if which == 'result':
        change(ctx, c, want, g)
    else:
        change(ctx, seqs[which], models[which], g)
    for i, (s, m) in enumerate(zip(seqs, models)):
        check_sequence(ctx, s, m, n, 'part', entries=False)
    check_sequence(ctx, c, want, n, 'combined after change', entries=False)
    ctx.reach('combined')


def rejected(ctx):
    a = ctx.UnitarySequence(2, [entry(ctx, gate(ctx, 0, 1))])
    b = ctx.UnitarySequence(4, [entry(ctx, gate(ctx, 1, 2))])
    k = ctx.choice('kind', ['none', 'dims', 'dims2', 'type'])
    C = ctx.UnitarySequence.combine
    f = {'none': lambda: C(), 'dims': lambda: C(a, b),
         'dims2': lambda: C(b, b, a), 'type': lambda: C(a, a.product())}[k]
    ctx.check(ctx.raises(f), 'refused')
    check_sequence(ctx, a, [gate(ctx, 0, 1)], 1, 'first untouched')
    check_sequence(ctx, b, [gate(ctx, 1, 2)], 2, 'second untouched')
    ctx.reach(k)


def jobs(tier):
    out = []
    for n, L in [(1, 0), (1, 2), (2, 3), (3, 2), (1, 5)] + (
            [(1, 4), (2, 4), (3, 3), (2, 5)] if tier == 'thorough' else []):
        out.append(dict(name='inverse_n%d_L%d' % (n, L), fn=inverse,
                        cfg={'n': n, 'L': L}, must=['inverse'],
                        cost=4 ** n * L))
        if L and n < 3:
            out.append(dict(name='changed_n%d_L%d' % (n, L),
                            fn=inverse_then_change, cfg={'n': n, 'L': L},
                            must=['changed'], cost=4 ** n * L))
    for n, k in [(1, 0), (2, 1), (2, 3)]:
        out.append(dict(name='repeated_n%d_%d' % (n, k), fn=repeated,
                        cfg={'n': n, 'k': k}, must=['repeated'], cost=50))
    out.append(dict(name='special', fn=special, must=list(FAMILIES),
                    cost=100))
    out.append(dict(name='sizes', fn=other_sizes, cfg={'gates': [0, 1]}, must=[
        'inverse', 'combine', 'twice'], cost=900, conf=15))
    out.append(dict(name='arbitrary', fn=arbitrary, must=['arbitrary'],
                    cost=200))
    for n, sizes in [(1, [1]), (1, [0, 1]), (2, [2, 1]), (2, [1, 0, 2]),
                     (2, [2, 2]), (1, [3, 2]), (1, [1, 1, 1])] + (
            [(1, [1, 1, 1, 1]), (2, [2, 2, 2]), (3, [1, 2])] if tier == 'thorough' else []):
        out.append(dict(
            name='combine_n%d_%s' % (n, '_'.join(map(str, sizes))),
            fn=combine, cfg={'n': n, 'sizes': sizes}, must=['combined'],
            cost=4 ** n * 2 ** len(sizes)))
    out.append(dict(name='rejected', fn=rejected, must=[
        'none', 'dims', 'dims2', 'type'], cost=10))
    return out
