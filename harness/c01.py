"""C01: applying a gate to an ordered tuple of qubits."""
import itertools

BOUNDS = ('systems of 1..5 qubits (quick) / 6 (thorough), gates on 1..3 '
          'qubits, every ordered tuple of distinct qubits, gate = arbitrary '
          'unitary (every entry symbolic); gates on 4 qubits in systems of 4 '
          '(every tuple) and 5 qubits (every tuple thorough), and on 3 of 5 '
          'qubits (selected tuples), gate = permutation with free phases and '
          'a free rotation of two rows')
OUTSIDE = 'systems of more than 6 qubits; gates on more than 4 qubits'
ASSUMPTIONS = ['exact real arithmetic, float rounding covered by the replayed '
               'conformance runs only']


def gate(ctx, k):
    if not ctx.cfg.get('sparse'):
        return ctx.unitary('U', 2 ** k)
    # every row to a column of its own, with a phase of its own, and one
    # dense 2x2 block: no two rows or columns look alike
    U = ctx.zeros(2 ** k)
    for r in range(2 ** k):
        U[r, (5 * r + 3) % 2 ** k] = ctx.cexp(
            ctx.I * ctx.real('a%d' % r, -3, 3))
    t = ctx.real('t', -3, 3)
    c, s = ctx.cos(t), ctx.sin(t)
    x, y = ctx.copy(U[0]), ctx.copy(U[1])
    for j in range(2 ** k):
        U[0, j] = c * x[j] - s * y[j]
        U[1, j] = s * x[j] + c * y[j]
    return U


def place(ctx):
    n, k = ctx.cfg['n'], ctx.cfg['k']
    q = list(ctx.choice('qubits', ctx.cfg.get('tuples') or
                        itertools.permutations(range(n), k)))
    U = gate(ctx, k)
    u = ctx.Unitary(2 ** k, ctx.copy(U), 'G', {'a': (0.5, True)})
    e = ctx.UnitarySequenceEntry(u, list(q))
    full = e.get_full_unitary(2 ** n)
    ctx.reach('placed')
    want = ctx.place(U, q, n)
    ctx.check(ctx.phase_eq(full.get_matrix(), want), 'placement')
    ctx.check(full.get_dimension() == 2 ** n, 'dimension')
    on = getattr(full, 'apply_to', None)
    ctx.check(on is None or list(on) == list(q), 'recorded qubits')
    ctx.check(full.get_operation_name() == 'G', 'recorded name')
    v = full.get_parameter_value('a')
    ctx.check(v is not None and v[0] == 0.5 and v[1] is True,
              'recorded parameters')
    ctx.check(list(e.get_apply_to()) == list(q), 'entry qubits')
    ctx.check(ctx.phase_eq(u.get_matrix(), U), 'gate untouched')
    again = e.get_full_unitary(2 ** n)
    ctx.check(ctx.phase_eq(again.get_matrix(), want), 'second call')


def cache(ctx):
    """the same entry in systems of different sizes, in any order"""
    k = ctx.cfg['k']
    nmax = ctx.cfg['n']
    q = list(ctx.choice('qubits', itertools.permutations(range(k + 1), k)))
    lo = max(q) + 1
    sizes = list(range(lo, nmax + 1))
    U = ctx.unitary('U', 2 ** k)
    e = ctx.UnitarySequenceEntry(ctx.Unitary(2 ** k, ctx.copy(U)), list(q))
    for i in range(3):
        n = ctx.choice('n%d' % i, sizes)
        got = e.get_full_unitary(2 ** n)
        ctx.check(ctx.phase_eq(got.get_matrix(), ctx.place(U, q, n)),
                  'placement after other sizes')
    ctx.reach('cache')


def invalid(ctx):
    """repeated, negative, or too many qubits; system too small"""
    n = ctx.cfg['n']
    k = ctx.choice('k', ctx.cfg.get('ks', [1, 2]))
    qs = [ctx.choice('q%d' % i, ctx.cfg.get('qs', range(-2, n + 2)))
          for i in range(ctx.choice('len', ctx.cfg.get('lens', [1, 2, 3])))]
    U = ctx.unitary('U', 2 ** k)
    u = ctx.Unitary(2 ** k, ctx.copy(U))
    valid_entry = len(qs) == k and len(set(qs)) == k and min(qs) >= 0
    made = []
    rej = ctx.raises(lambda: made.append(ctx.UnitarySequenceEntry(u, qs)))
    ctx.check(rej == (not valid_entry), 'entry accepted iff valid')
    if rej:
        ctx.reach('rejected entry')
        return
    e = made[0]
    fits = max(qs) < n
    got = []
    rej = ctx.raises(lambda: got.append(e.get_full_unitary(2 ** n)))
    ctx.check(rej == (not fits), 'placement accepted iff it fits')
    made = []
    rej = ctx.raises(lambda: made.append(ctx.UnitarySequence(2 ** n, [e])))
    ctx.check(rej == (not fits), 'sequence accepts entry iff it fits')
    s = ctx.UnitarySequence(2 ** n)
    rej = ctx.raises(lambda: s.append_last(e))
    ctx.check(rej == (not fits), 'append_last accepts entry iff it fits')
    s2 = ctx.UnitarySequence(2 ** n)
    rej2 = ctx.raises(lambda: s2.append_first(e))
    ctx.check(rej2 == (not fits), 'append_first accepts entry iff it fits')
    if fits:
        ctx.reach('fits')
        ctx.check(ctx.phase_eq(s.product().get_matrix(),
                               ctx.place(U, qs, n)), 'appended product')
    else:
        ctx.reach('does not fit')
        ctx.check(s.get_length() == 0 and s2.get_length() == 0,
                  'rejected append leaves the sequence unchanged')


WIDE3 = [(4, 0, 2), (1, 4, 0), (3, 2, 4), (0, 1, 2), (2, 1, 3)]
WIDE4 = [(0, 1, 2, 4), (4, 3, 1, 0), (2, 4, 0, 3), (1, 3, 4, 2),
         (3, 0, 4, 1), (0, 4, 2, 1)]


def jobs(tier):
    out = []
    nk = [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2)]
    if tier == 'thorough':
        nk += [(4, 3), (5, 1), (5, 2), (6, 1), (6, 2)]
    else:
        nk += [(5, 1), (5, 2)]
    for n, k in nk:
        out.append(dict(name='place_n%d_k%d' % (n, k), fn=place,
                        cfg={'n': n, 'k': k}, must=['placed'], cost=4 ** n,
                        conf=30))
    for n, k, tuples in [(4, 4, None), (5, 3, WIDE3)] + (
            [(5, 4, None), (6, 4, WIDE4)] if tier == 'thorough' else
            [(5, 4, WIDE4)]):
        out.append(dict(name='place_sparse_n%d_k%d' % (n, k), fn=place,
                        cfg={'n': n, 'k': k, 'sparse': True,
                             'tuples': tuples},
                        must=['placed'], cost=4 ** n, conf=30))
    out.append(dict(name='cache_k1', fn=cache, cfg={'n': 4, 'k': 1},
                    must=['cache'], cost=50))
    out.append(dict(name='cache_k2', fn=cache, cfg={'n': 4, 'k': 2},
                    must=['cache'], cost=200))
    out.append(dict(name='invalid_n2', fn=invalid, cfg={'n': 2},
                    must=['rejected entry', 'fits', 'does not fit'],
                    cost=20))
    out.append(dict(name='invalid_n3_k3', fn=invalid,
                    cfg={'n': 3, 'ks': [3], 'lens': [2, 3],
                         'qs': range(-1, 4)},
                    must=['rejected entry', 'fits', 'does not fit'],
                    cost=200))
    if tier == 'thorough':
        out.append(dict(name='invalid_n4_k3', fn=invalid,
                        cfg={'n': 4, 'ks': [3, 2], 'lens': [3, 4],
                             'qs': range(-1, 5)},
                        must=['rejected entry', 'fits', 'does not fit'],
                        cost=200))
        out.append(dict(name='invalid_n3', fn=invalid, cfg={'n': 3},
                        must=['rejected entry', 'fits', 'does not fit'],
                        cost=20))
    return out
