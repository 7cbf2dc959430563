"""C21: operations leave what they are given, and all other objects, as they
were."""
import numpy as np

from .seqlib import CNOT, PHASED_PERM, rot, check_sequence
from .complib import rational, C2, Z1
from .hamlib import family, qubits, total

BOUNDS = ('one call, or two after each other, of every public operation on '
          'unitaries, entries, sequences, parameterized gates, compilers (up '
          'to 2 steps, every choice), verification generators and '
          'Hamiltonians, with arrays of free or nearly vanishing entries, '
          'lists, dictionaries and objects as arguments, which the caller may '
          'change later; every angle in [-3, 3]')
OUTSIDE = 'longer chains of operations; changes made outside the public interface'
ASSUMPTIONS = ['exact real arithmetic']


class World:
    """arguments and objects with independent copies of their values"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.items = []

    def value(self, name, x):
        """a plain argument: array, list, dictionary, number"""
        self.items.append((name, lambda: x, self.freeze(x)))
        return x

    def obj(self, name, x, look):
        self.items.append((name, lambda: look(x), self.freeze(look(x))))
        return x

    def freeze(self, x):
        c = self.ctx
        if isinstance(x, np.ndarray):
            return c.copy(x)
        if isinstance(x, (list, tuple)):
            return type(x)([self.freeze(y) for y in x])
        if isinstance(x, dict):
            return [(k, self.freeze(v)) for k, v in x.items()]
        return x

    def same(self, x, y):
        """x now, y then"""
        c = self.ctx
        if isinstance(y, np.ndarray):
            if not isinstance(x, np.ndarray) or x.shape != y.shape:
                return False
            if x.dtype == object and y.dtype == object and not hasattr(
                    y, '_sym') and len(x) and not c.is_number(x.flat[0]):
                return all(a is b for a, b in zip(x.flat, y.flat))
            return c.mat_same(x, y)
        if isinstance(x, dict):
            return self.same(list(x.items()), list(y))
        if isinstance(y, (list, tuple)):
            if type(x) is not type(y) or len(x) != len(y):
                return False
            return c.all([self.same(a, b) for a, b in zip(x, y)])
        if y is None or isinstance(y, (str, bool)):
            return x is y or x == y
        if c.is_number(y):
            return c.is_number(x) and c.eq(x, y, 0)
        return x is y

    def check(self, label):
        for name, now, then in self.items:
            self.ctx.check(self.same(now(), then), '%s: %s' % (label, name))


def looks(ctx, keys=()):
    def unitary(u):
        return [u.get_dimension(), u.get_matrix(), u.get_operation_name(),
                '†' in u.get_display_name(),
                [u.get_parameter_value(k) for k in keys]]

    def entry(e):
        return [unitary(e.unitary), list(map(int, e.get_apply_to()))]

    def sequence(s):
        return [s.get_dimension(), [entry(e) for e in
                                    s.get_sequence_entries()]]

    def primitive(p):
        a = p.get_allowed_apply_to()
        u = p.get_unitary()
        return [u, u.get_dimension(), u.get_operation_name(), None if a is
                None else [list(map(int, x)) for x in a]]

    def term(h):
        return [h.get_matrix(), h.get_normalized_matrix(),
                h.get_coefficient()]
    return unitary, entry, sequence, primitive, term


def attempt(f):
    """the operation, which may refuse its arguments"""
    try:
        return f()
    except (AssertionError, ValueError, TypeError, IndexError):
        return None


def some(ctx, ops, i):
    """the operations tried as number i"""
    ks = list(ops)
    only = ctx.cfg.get('then') if i else None
    return [k for k in ks if k in only] if only else ks


TINY = np.array([[1 + 1e-16j, 1e-13j], [1e-15 + 0j, 1]])


def unitaries(ctx):
    w = World(ctx)
    look = looks(ctx, ('p', 'w'))[0]
    a, b = rot(ctx, 'x', 'a'), rot(ctx, 'z', 'b')
    m = w.value('matrix', {
        'free': lambda: ctx.copy(a), 'tiny': lambda: ctx.arr(TINY),
        'phased': lambda: b * ctx.cexp(ctx.I * ctx.real('f', -3, 3)),
    }[ctx.cfg['matrix']]())
    pars = w.value('parameters', {'p': (ctx.real('p', -9, 9), True),
                                  'w': (ctx.real('w', -9, 9), False)})
    where = w.value('qubits', [1])
    inv = ctx.choice('inverse', [False, True])
    u = ctx.Unitary(2, m, 'A', pars, inv, where)
    w.check('building a unitary')
    w.obj('unitary', u, look)
    m2 = w.value('second matrix', ctx.copy(b))
    v = w.obj('second unitary', ctx.Unitary(2, m2, 'B', {}), look)
    bad = w.value('other matrix', ctx.arr(np.array([[1, 1], [1e-13 + 0j, 1]])))
    big = w.value('large matrix', ctx.arr(CNOT))
    ops = {
        'inverse': u.inverse, 'tensor': lambda: u.tensor(v),
        'tensor second': lambda: v.tensor(u),
        'left': lambda: u.left_multiply(v),
        'right': lambda: u.right_multiply(v),
        'self': lambda: u.left_multiply(u),
        'distance': lambda: u.distance_from(v),
        'distance matrix': lambda: u.distance_from(m2),
        'distance other': lambda: u.distance_from(bad),
        'close': lambda: u.close_to(v, 0.5),
        'close none': lambda: u.close_to(m2),
        'texts': lambda: (u.get_display_name(), u.get_qasm(),
                          u.get_jaqal()),
        'getters': lambda: (u.get_matrix(), u.get_parameter_value('p'),
                            u.get_parameter_value('x'), u.get_dimension()),
        'no unitary': lambda: ctx.Unitary(2, bad, 'C', pars, inv, where),
        'mismatch': lambda: ctx.Unitary(2, big, 'C', pars, inv, where),
        'product mismatch': lambda: u.left_multiply(ctx.Unitary(4, big)),
        'same again': lambda: ctx.Unitary(2, m, 'C', pars, not inv, where),
        'entry': lambda: ctx.UnitarySequenceEntry(
            u, where).get_full_unitary(4),
        'primitive': lambda: ctx.UnitaryPrimitive(u, [where]),
    }
    for i in range(ctx.cfg['ops']):
        k = ctx.choice('op%d' % i, some(ctx, ops, i))
        attempt(ops[k])
        w.check(k)
        ctx.reach(k)


def sequences(ctx):
    w = World(ctx)
    unitary, entry, sequence, _p, _t = looks(ctx, ('p',))
    n = 2
    ma, mb = rot(ctx, 'x', 'a'), ctx.arr(PHASED_PERM)
    ua = w.obj('unitary', ctx.Unitary(
        2, w.value('matrix', ctx.copy(ma)), 'A',
        w.value('parameters', {'p': (ctx.real('p', -9, 9), True)})), unitary)
    ub = w.obj('second unitary', ctx.Unitary(
        4, w.value('second matrix', ctx.copy(mb)), 'B', {}, True), unitary)
    q = w.value('qubits', [1, 0])
    ea = w.obj('entry', ctx.UnitarySequenceEntry(
        ua, w.value('one qubit', [1])), entry)
    eb = w.obj('second entry', ctx.UnitarySequenceEntry(ub, q), entry)
    es = w.value('entries', [ea, eb])
    if ctx.cfg['how'] == 'list':
        s = ctx.UnitarySequence(4, es)
    else:
        s = ctx.UnitarySequence(4)
        s.append_last(eb)
        s.append_first(ea)
    model = [(ma, [1]), (mb, [1, 0])]
    if ctx.choice('read', [False, True]):
        s.product()
    t = ctx.UnitarySequence(4, [eb])
    if ctx.cfg['how'] == 'appended':
        t.append_last(ea)
    tmodel = [model[1], model[0]] if ctx.cfg['how'] == 'appended' else [
        model[1]]
    empty = ctx.UnitarySequence(4)
    Q = ctx.UnitarySequence
    ops = {
        'inverse': s.inverse, 'product': s.product,
        'entries': s.get_sequence_entries,
        'combine': lambda: Q.combine(s, t),
        'combine same': lambda: Q.combine(s, s),
        'combine empty': lambda: Q.combine(empty, s),
        'combine mismatch': lambda: Q.combine(s, Q(8)),
        'texts': lambda: (s.get_display_output(), s.get_qasm(),
                          s.get_jaqal()),
        'full': lambda: (ea.get_full_unitary(4), ea.get_full_unitary(8),
                         eb.get_full_unitary(8)),
        'permute': lambda: eb.get_permute_matrix(8),
        'build': lambda: Q(4, es),
        'build repeated': lambda: Q(4, [ea, ea, eb]),
        'build too small': lambda: Q(2, es),
        'append to second': lambda: t.append_first(ea),
        'remove from second': lambda: t.remove_last(),
        'misfit': lambda: s.append_last(ctx.UnitarySequenceEntry(ua, [5])),
        'no entry': lambda: s.append_first(ua),
        'empty remove': lambda: empty.remove_first(),
        'change inverse': lambda: s.inverse().append_last(ea),
        'change concatenation': lambda: Q.combine(s, t).remove_first(),
        'bad entry': lambda: ctx.UnitarySequenceEntry(ub, [1, 1]),
        'missized entry': lambda: ctx.UnitarySequenceEntry(ua, q),
    }
    for i in range(ctx.cfg['ops']):
        k = ctx.choice('op%d' % i, some(ctx, ops, i))
        attempt(ops[k])
        if k == 'append to second':
            tmodel = [model[0]] + tmodel
        if k == 'remove from second':
            tmodel = tmodel[:-1]
        w.check(k)
        ctx.reach(k)
    check_sequence(ctx, s, model, n, 'sequence')
    check_sequence(ctx, t, tmodel, n, 'second sequence')
    check_sequence(ctx, empty, [], n, 'empty sequence')


def parameterized(ctx):
    w = World(ctx)
    D = ctx.ParameterizedUnitaryDefinitions
    par = ctx.ParameterizedUnitaryParameter
    calls = []

    def matrix(a, b):
        calls.append((a, b))
        return rotm(a + b)

    def rotm(t):
        return ctx.arr([[ctx.cos(t), -ctx.sin(t)], [ctx.sin(t), ctx.cos(t)]])
    pl = w.value('parameter list', [par('a', -1, 2, True),
                                    par('b', 0, 1, False)])
    p = ctx.ParameterizedUnitary(2, matrix, pl, 'P')
    H = w.value('hermitian', ctx.arr(np.array([[1, 2], [2, -1]])) * ctx.real(
        'h', 0.1, 2))
    h = D.time_evolution(H, -1, 1, 'x')
    good = w.value('values', [ctx.real('x', -1, 2), ctx.real('y', 0, 1)])
    bad = w.value('bad values', [ctx.real('z', 3, 4), ctx.num(0)])
    few = w.value('few values', [ctx.num(0)])
    t = w.value('time', [ctx.real('t', -1, 1)])
    arr = w.value('value array', ctx.np.array([0.5, 0.25]))
    w.obj('gate', p, lambda p: [
        p.get_dimension(), p.get_operation_name(), list(p.get_parameters()),
        [(x.get_parameter_name(), x.get_is_angle())
         for x in p.get_parameters()]])
    xy = D.rotation_xy()
    two = w.value('angles', [ctx.real('u', 0, 6), ctx.real('v', 0, 6)])
    ops = {
        'value': lambda: p.as_unitary(good), 'bad': lambda: p.as_unitary(bad),
        'few': lambda: p.as_unitary(few), 'array': lambda: p.as_unitary(arr),
        'evolve': lambda: h.as_unitary(t), 'far': lambda: h.as_unitary(bad),
        'library': lambda: xy.as_unitary(two),
        'random': lambda: [x.random_value() for x in p.get_parameters()],
        'valid': lambda: [x.is_valid(9) for x in p.get_parameters()],
        'evolution': lambda: ctx.UnitaryDefinitions.time_evolution(H, 0.5),
        'primitive': lambda: ctx.UnitaryPrimitive(p, [[0], [1]]),
    }
    for i in range(ctx.cfg['ops']):
        k = ctx.choice('op%d' % i, some(ctx, ops, i))
        attempt(ops[k])
        w.check(k)
        ctx.reach(k)
    x, y = ctx.real('x', -1, 2), ctx.real('y', 0, 1)
    ctx.check(ctx.phase_eq(p.as_unitary([x, y]).get_matrix(), rotm(x + y)),
              'gate yields its matrix afterwards')
    s = ctx.real('t', -1, 1)
    ctx.check(ctx.phase_eq(
        h.as_unitary([s]).get_matrix(),
        ctx.expm(ctx.I * s * H)), 'evolution afterwards')


def compiling(ctx):
    w = World(ctx)
    unitary, _e, sequence, primitive, _t = looks(ctx)
    n = 2
    ra, cb = rational(ctx), ctx.arr(C2)
    Ua = w.obj('gate', ctx.Unitary(2, w.value('matrix', ctx.copy(ra)), 'R'),
               unitary)
    Ub = w.obj('second gate', ctx.Unitary(4, w.value(
        'second matrix', ctx.copy(cb)), 'C'), unitary)
    many = 'rav' not in ctx.cfg['op'] and not ctx.cfg.get('form')
    allowed = w.value('allowed', [[1], [0]] if many else [[1]])
    both = w.value('pairs', [[1, 0], [0, 1]] if many else [[1, 0]])
    pa = w.obj('primitive', ctx.UnitaryPrimitive(Ua, allowed), primitive)
    pb = w.obj('second primitive', ctx.UnitaryPrimitive(Ub, both), primitive)
    w.check('building primitives')
    form = ctx.cfg.get('form')
    ps = [pa, pb] if ctx.cfg['two'] else [pa]
    pr = [0.25, 0.75] if ctx.cfg['two'] else [1.0]
    if form:        # wide gate first, weights that need not be exact, arrays
        pc = w.obj('third primitive', ctx.UnitaryPrimitive(Ua, []), primitive)
        ps, pr = [pb, pc, pa], [0.5, 0.25, 0.25 + 1e-9]
    if form == 'arrays':
        a = np.empty(3, dtype=object)
        a[:] = ps
        ps, pr = a, ctx.np.array(pr)
    ps = w.value('primitives', ps)
    pr = w.value('probabilities', pr)
    T = w.obj('target', ctx.Unitary(4, w.value(
        'target matrix', ctx.kron(ctx.arr(Z1), ra)), 'T'), unitary)
    counts = {pb: 1, pc: 0, pa: 1 + (ctx.cfg['op'] == 'layer')} if form else \
        {pa: 1, pb: 1} if ctx.cfg['two'] else {pa: 1}
    order, numbers = list(counts), list(counts.values())
    lists = [x for x in (ps, pr) if isinstance(x, list)]
    holds = [list(x) for x in lists]
    d = 4
    give = pr if ctx.choice('weights', [True, False]) else None
    K = 1
    V = ctx.Verification
    op = ctx.cfg['op']
    kw = {'unitary_primitive_probabilities': give}
    if op == 'compile':
        c = ctx.Compiler(d, ps, **kw)
        w.check('building a compiler')
        r = c.compile(T, None, max_step_count=K)
    elif op == 'layered':
        c = ctx.Compiler(d, ps, **kw)
        r = c.compile_layered(T, counts, None, max_step_count=K)
    elif op == 'rav':
        r = V.generate_rav_sequence(d, ps, 1, 0.99, max_step_count=K, **kw)
    elif op == 'layered rav':
        r = V.generate_layered_rav_sequence(d, counts, 1, 0.99, max_step_count=K)
    elif op == 'xeb':
        r = V.generate_xeb_sequence(d, counts, 1)
    elif op == 'entry':
        r = ctx.Compiler.create_random_sequence_entry(d, ps, give)
    elif op == 'layer':
        r = ctx.Compiler.create_random_layer(d, counts)
    elif op == 'refused':
        attempt(lambda: ctx.Compiler(d, ps, [0.5] * 3))
        attempt(lambda: ctx.Compiler(d, ps, **kw).compile(
            ctx.Unitary(2), 0.5))
        attempt(lambda: ctx.Compiler(2, ps, **kw).compile(T, 0.5))
        attempt(lambda: ctx.Compiler(d, ps, append_probability=2.0, **kw))
        r = None
    w.check(op)
    ctx.check(list(counts) == order and list(counts.values()) == numbers,
              op + ': layer contents')
    ctx.check(all(len(x) == len(y) and all(a is b for a, b in zip(x, y))
                  for x, y in zip(lists, holds)), op + ': lists')
    # later changes of the result do not reach what was given
    if hasattr(r, 'compiled_sequence'):
        s = r.compiled_sequence
        s.remove_first()
        s.append_last(ctx.UnitarySequenceEntry(Ua, [0]))
        s.undo()
        s.inverse()
        w.check('changing the result')
    ctx.reach(op)


def hamiltonians(ctx):
    w = World(ctx)
    unitary, _e, sequence, _p, term = looks(ctx)
    mats = family(ctx, ctx.cfg['words'])
    d = mats[0].shape[0]
    given = [w.value('matrix %d' % i, ctx.copy(m))
             for i, m in enumerate(mats)]
    ts = w.value('terms', [ctx.HamiltonianTerm(g) for g in given])
    w.check('building terms')
    for i, t in enumerate(ts):
        w.obj('term %d' % i, t, term)
    H = ctx.Hamiltonian(ts)
    w.check('building a Hamiltonian')
    t = ctx.real('t', -2, 2)
    bad = w.value('other matrix', ctx.arr(np.array([[1, 1], [1e-13 + 0j, 1]])))
    tiny = w.value('tiny', ctx.arr(np.array([[1, 1e-13 + 0j], [1e-13, 1]])))
    tinier = w.value('tinier', ctx.arr(np.array([[1, 1e-16j], [-1e-16j, 0]])))
    ops = {
        'evolution': lambda: H.get_time_evolution_operator(t),
        'ideal': lambda: H.get_ideal_sequence(t, 2),
        'trotter': lambda: H.get_trotter_sequence(t, 2),
        'shuffled': lambda: H.get_trotter_sequence(t, 2, True),
        'qdrift': lambda: H.get_qdrift_sequence(t, 2),
        'stoq': lambda: stoq(ctx, H, t, False),
        'stoq sums': lambda: stoq(ctx, H, t, True),
        'rav': lambda: rav(ctx, H),
        'change': lambda: H.get_ideal_sequence(t, 2).remove_first(),
        'not hermitian': lambda: ctx.HamiltonianTerm(bad),
        'tiny': lambda: ctx.HamiltonianTerm(tiny),
        'tinier': lambda: ctx.HamiltonianTerm(tinier),
        'no term': lambda: ctx.Hamiltonian(given),
        'second': lambda: ctx.Hamiltonian(ts),
    }
    for i in range(ctx.cfg['ops']):
        k = ctx.choice('op%d' % i, some(ctx, ops, i))
        attempt(ops[k])
        w.check(k)
        ctx.reach(k)
    ctx.check(ctx.phase_eq(
        H.get_time_evolution_operator(t).get_matrix(),
        ctx.expm(ctx.I * total(mats) * t)), 'same evolution afterwards')


def later(ctx):
    """changing what was handed over later on does not change the object"""
    k = ctx.choice('kind', ['entry', 'entry array', 'sequence', 'primitive',
                            'gate', 'compiler', 'term', 'hamiltonian'])
    ra, cb = rational(ctx), ctx.arr(C2)
    u, v = ctx.Unitary(2, ctx.copy(ra), 'R'), ctx.Unitary(
        4, ctx.copy(cb), 'C')
    if k in ('entry', 'entry array'):
        q = [0, 1] if k == 'entry' else np.array([0, 1])
        e = ctx.UnitarySequenceEntry(v, q)
        if ctx.choice('used', [True, False]):
            e.get_full_unitary(4)
        q[0], q[1] = 1, 0
        ctx.check(list(map(int, e.get_apply_to())) == [0, 1], 'entry qubits')
        for n in (2, 3):
            ctx.check(ctx.phase_eq(e.get_full_unitary(2 ** n).get_matrix(),
                                   ctx.place(cb, [0, 1], n)), 'entry')
    elif k == 'sequence':
        es = [ctx.UnitarySequenceEntry(v, [1, 0]),
              ctx.UnitarySequenceEntry(u, [1])]
        s = ctx.UnitarySequence(4, es)
        if ctx.choice('used', [True, False]):
            s.product()
        how = ctx.choice('change', ['append', 'swap', 'clear'])
        if how == 'append':
            es.append(es[0])
        elif how == 'swap':
            es.reverse()
        else:
            es.clear()
        check_sequence(ctx, s, [(cb, [1, 0]), (ra, [1])], 2, 'sequence')
    elif k == 'primitive':
        a = [[1, 0]]
        p = ctx.UnitaryPrimitive(v, a)
        a.append([0, 1])
        ctx.check([list(map(int, x)) for x in p.get_allowed_apply_to()] ==
                  [[1, 0]], 'allowed qubits')
        e = ctx.Compiler.create_random_sequence_entry(4, [p])
        ctx.check(list(map(int, e.get_apply_to())) == [1, 0], 'proposal')
    elif k == 'gate':
        M = ctx.copy(ra)
        w = ctx.Unitary(2, M)
        M[0, 0], M[0, 1] = ctx.num(0), ctx.num(1)
        ctx.check(ctx.phase_eq(w.get_matrix(), ra), 'matrix')
    elif k == 'compiler':
        ps = [ctx.UnitaryPrimitive(u, [[0]])]
        pr = [1.0]
        c = ctx.Compiler(2, ps, pr, append_probability=1.0,
                         annealing_rate=0.0)
        ps[0] = ctx.UnitaryPrimitive(ctx.Unitary(2, ctx.arr(Z1), 'Z'))
        ps.append(ps[0])
        pr[0] = 0.25
        pr.append(0.75)
        r = c.compile(ctx.Unitary(2, ctx.arr(Z1)), None, max_step_count=1)
        check_sequence(ctx, r.compiled_sequence, [(ra, [0])], 1, 'compiled')
    else:
        M = ctx.real('a', 0.1, 2) * ctx.arr(np.array([[0, 1], [1, 0]]))
        keep = ctx.copy(M)
        h = ctx.HamiltonianTerm(M)
        ts = [h]
        H = ctx.Hamiltonian(ts)
        if k == 'term':
            M[0, 0], M[1, 1] = ctx.num(1), ctx.num(-1)
        else:
            ts.append(ctx.HamiltonianTerm(ctx.arr(np.diag([1, -1]))))
        ctx.check(ctx.mat_eq(h.get_matrix(), keep), 'term')
        t = ctx.real('t', -2, 2)
        for n in (1, 2):
            ctx.check(ctx.phase_eq(
                H.get_trotter_sequence(t, n).product().get_matrix(),
                ctx.expm(ctx.I * keep * t)), 'evolution')
    ctx.reach(k)


def stoq(ctx, H, t, sim):
    with ctx.limit_steps(1):
        return H.compile_stoq_sequence(t, 0.5, 0.99, sim)


def rav(ctx, H):
    with ctx.limit_steps(0):
        return H.compile_rav_sequence(0.0, 0.5, 0.99)


def jobs(tier):
    T = tier == 'thorough'
    out = []

    def add(nm, fn, must, cost, **cfg):
        out.append(dict(name=nm, fn=fn, cfg=cfg, must=must, cost=cost,
                        conf=25))
    for m in ('free', 'tiny', 'phased'):
        add('unitaries_' + m, unitaries, ['inverse', 'same again'], 40,
            matrix=m, ops=2 if T and m != 'free' else 1)
    def then(*ks):
        return {} if T else {'then': ks}
    add('unitaries_pairs', unitaries, ['inverse', 'same again'], 200,
        matrix='free', ops=2, **then('inverse', 'left', 'same again',
                                     'entry'))
    add('later', later, ['entry', 'entry array', 'sequence', 'primitive',
                         'gate', 'compiler', 'term', 'hamiltonian'], 30)
    for h in ('list', 'appended'):
        add('sequences_' + h, sequences, ['misfit'], 90, how=h, ops=1)
    add('sequences_pairs', sequences, ['misfit'], 300, how='appended', ops=2,
        **then('inverse', 'append to second'))
    if T:
        add('sequences_list_pairs', sequences, ['misfit'], 300, how='list',
            ops=2)
    add('parameterized', parameterized, ['bad', 'random'], 60, ops=2)
    for op in ('compile', 'layered', 'rav', 'layered rav', 'xeb', 'entry',
               'layer', 'refused'):
        for two in (True, False):
            add('compiling_%s_%s' % (op.replace(' ', '_'), 'two' if two
                                     else 'one'), compiling, [op], 50,
                op=op, two=two)
        for form in ('lists', 'arrays'):
            if form == 'lists' or op not in ('layered rav', 'xeb', 'layer'):
                add('compiling_%s_%s' % (op.replace(' ', '_'), form),
                    compiling, [op], 90, op=op, two=True, form=form)
    for k, ws in [('xz', ['X', '-Z']), ('diag', ['diag2f']),
                  ('pair', ['XI', '-IZ'])] + (
            [('any', ['any2']), ('three', ['XI', '-IZ', 'YY'])] if T else []):
        add('hamiltonians_' + k, hamiltonians, ['ideal', 'trotter'], 80,
            words=ws, ops=1)
    if T:
        add('hamiltonians_pairs', hamiltonians, ['ideal', 'trotter'], 200,
            words=['X', '-Z'], ops=2)
    return out
