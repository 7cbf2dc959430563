"""C22: results depend on the arguments and the draws, not on earlier calls."""
import numpy as np

from .seqlib import CNOT, PHASED_PERM, SWAPT, rot
from .complib import rational, C2, Z1
from .hamlib import X, Y, Z, pauli
from .c21 import World

BOUNDS = ('every public operation run twice on the same arguments and draws: '
          'once on its own and once after one or two earlier calls, refused '
          'ones included, with other values, matrices, qubits, system sizes, '
          'names, gate sets or Hamiltonians; every angle and time in [-3, 3]; '
          'compilations of up to 2 steps, random parts of up to 2 gates')
OUTSIDE = 'longer histories; changes made outside the public interface'
ASSUMPTIONS = ['exact real arithmetic; numbers are equal as dictionary keys '
               'only if they are equal for all inputs']


def unitary(u, keys=()):
    return ['unitary', u.get_dimension(), u.get_matrix(),
            u.get_operation_name(), [u.get_parameter_value(k) for k in keys]]


def entry(e, n, keys=()):
    return ['entry', [int(q) for q in e.get_apply_to()],
            unitary(e.get_full_unitary(2 ** n), keys)]


def sequence(s, n, keys=()):
    return ['sequence', s.get_length(),
            [entry(e, n, keys) for e in s.get_sequence_entries()],
            s.product().get_matrix()]


def result(r, n, keys=()):
    return [sequence(r.compiled_sequence, n, keys), list(r.cost_by_step)]


def text(u):
    return [u.get_display_name(), u.get_qasm(), u.get_jaqal()]


def attempt(f):
    try:
        return f()
    except Exception:
        return None


def compare(ctx, first, again, label):
    ctx.check((first is None) == (again is None), label + ': refused')
    if first is not None and again is not None:
        ctx.check(World(ctx).same(again, first), label)


def run(ctx, make, target, before):
    """target(objects) alone, and after the calls `before`"""
    mark = ctx.mark()
    if ctx.cfg.get('texts'):
        ctx.compare_texts()
    ctx.fresh()
    objs = make()
    one = attempt(lambda: target(objs))
    ctx.fresh()
    objs = make()
    keep = ctx.cfg.get('before')
    before = {k: f for k, f in before.items() if not keep or k in keep}
    for k in range(ctx.cfg.get('earlier', 1)):
        f = ctx.choice('before%d' % k, list(before))
        with ctx.pinned(ctx.choice('stream', range(ctx.cfg.get('pins', 1)))):
            attempt(lambda: before[f](objs))
    ctx.rewind(mark)
    two = attempt(lambda: target(objs))
    ctx.check(one is not None, 'possible on its own')
    ctx.check(ctx.all([ctx.eq(a, b) for a, b in ctx.reweighted()]),
              'same probabilities after other calls')
    compare(ctx, one, two, 'same result after other calls')
    ctx.reach('compared')


def gates(ctx):
    """library operations"""
    D = ctx.UnitaryDefinitions
    t, u = ctx.real('t', -3, 3), ctx.real('u', -3, 3)
    f, g = ctx.real('f', -3, 3), ctx.real('g', -3, 3)
    H = ctx.arr(np.array([[1, 2j], [-2j, -1]]))
    H2 = ctx.arr(np.array([[1, 1], [1, 1]]))
    H4 = ctx.arr(pauli('XY'))
    one = {
        'rx': lambda a, b: D.rx(a), 'ry': lambda a, b: D.ry(a),
        'rz': lambda a, b: D.rz(a), 'rphi': D.rphi,
        'xx': lambda a, b: D.xx(a), 'gms2': lambda a, b: D.gms(2, a),
        'gms3': lambda a, b: D.gms(3, a),
        'evolve': lambda a, b: D.time_evolution(H, a),
        'evolve named': lambda a, b: D.time_evolution(H, a, '0'),
    }
    fixed = {
        'h': D.h, 't': D.t, 'x': D.sigmax, 'y': D.sigmay, 'z': D.sigmaz,
        'cnot': D.cnot, 'ccnot': D.ccnot, 'qecc': D.qecc_phase_flip,
        'xx default': D.xx, 'gms default': lambda: D.gms(2),
        'identity': lambda: ctx.Unitary.identity(2),
        'empty': lambda: ctx.Unitary(2),
    }
    op = ctx.cfg['op']
    keys = ('θ', 'Φ', 't')
    if op in one:
        def target(_):
            x = one[op](t, f)
            return [unitary(x, keys), text(x)]
    else:
        def target(_):
            x = fixed[op]()
            return [unitary(x, keys), text(x)]

    def spoil(_):
        """a result is used like any other operation"""
        v = (one[op](u, g) if op in one else fixed[op]())
        v.inverse()
        ctx.UnitarySequenceEntry(v, list(range({2: 1, 4: 2, 8: 3}[
            v.get_dimension()]))[::-1]).get_full_unitary(8)
        text(v)
    before = {'used': spoil, 'evolve other': lambda _: D.time_evolution(
        H2, t, '0'), 'evolve large': lambda _: D.time_evolution(H4, t),
        'no matrix': lambda _: D.time_evolution([[1]], t)}
    if op in one:
        before.update({
            'other value': lambda _: one[op](u, f),
            'other second': lambda _: one[op](t, g),
            'near': lambda _: one[op](t + 1e-4, f + 1e-4),
            'opposite': lambda _: one[op](-t, -f),
            'full turn': lambda _: one[op](t + 2 * ctx.pi, f)})
    for k in one:
        if k != op:
            before[k] = lambda _, k=k: one[k](t, f)
    for k in ('xx default', 'h', 'cnot'):
        if k != op:
            before[k] = lambda _, k=k: fixed[k]()
    run(ctx, lambda: None, target, before)


def placed(ctx):
    """gates that differ in their angle only, placed in a system"""
    D = ctx.UnitaryDefinitions
    t, u, f = (ctx.real(k, -3, 3) for k in 'tuf')
    H = ctx.arr(Y * 2)
    one = {'rx': lambda a: D.rx(a), 'rphi': lambda a: D.rphi(a, f),
           'rphi second': lambda a: D.rphi(f, a), 'xx': D.xx,
           'gms': lambda a: D.gms(2, a),
           'evolve': lambda a: D.time_evolution(H, a, '1'),
           'rx inverse': lambda a: D.rx(a).inverse(),
           'phases': lambda a: ctx.Unitary(2, ctx.arr(
               [[ctx.cos(a) + ctx.I * ctx.sin(a), 0], [0, 1]]), 'D', {'a': (a, True)})}
    mk = one[ctx.cfg['op']]
    two = ctx.cfg['op'] in ('xx', 'gms')
    qs, back = ([1, 0], [0, 1]) if two else ([1], [0])
    E, Q = ctx.UnitarySequenceEntry, ctx.UnitarySequence

    def place(a, q=qs, n=2):
        return entry(E(mk(a), q), n, ('θ', 'Φ', 't', 'a'))

    def target(_):
        s = Q(4, [E(mk(t), qs)])
        return [place(t), sequence(s.inverse(), 2), sequence(Q.combine(s, s),
                                                             2),
                s.get_qasm(), s.get_jaqal(), s.get_display_output()]
    before = {
        'other': lambda _: place(u),
        'near': lambda _: place(t + 1e-4),
        'opposite': lambda _: place(-t),
        'full turn': lambda _: place(t + 2 * ctx.pi),
        'other qubits': lambda _: place(u, back),
        'larger': lambda _: place(u, qs, 3),
        'inverse': lambda _: Q(4, [E(mk(u), qs)]).inverse().product(),
        'inverted': lambda _: E(mk(u).inverse(), qs).get_full_unitary(4),
        'texts': lambda _: (Q(4, [E(mk(u), qs)]).get_display_output(),
                            mk(u).get_qasm(), mk(u).get_display_name()),
        'product': lambda _: sequence(Q(4, [E(mk(u), qs)] * 2), 2),
    }
    run(ctx, lambda: None, target, before)


def parameterized(ctx):
    D = ctx.ParameterizedUnitaryDefinitions
    par = ctx.ParameterizedUnitaryParameter
    t, u, v = (ctx.real(k, 0, 3) for k in 'tuv')
    H = ctx.arr(np.array([[1, 2j], [-2j, -1]]))
    H2 = ctx.arr(np.array([[1, 1], [1, 1]]))

    def rotm(a):
        return ctx.arr([[ctx.cos(a), -ctx.sin(a)], [ctx.sin(a), ctx.cos(a)]])

    def own(sign, lo, hi):
        return ctx.ParameterizedUnitary(
            2, lambda a, b: rotm(sign * a + 2 * b),
            [par('a', lo, hi, True), par('b', lo, hi, False)], 'P')

    def make():
        op = ctx.cfg['op']
        if op == 'own':
            return own(1, 0, 3), (t, u), ('a', 'b')
        if op == 'evolution':
            return D.time_evolution(H, -3, 3, '0'), (t,), ('t',)
        p = getattr(D, op)(*ctx.cfg.get('args', []))
        ks = tuple(x.get_parameter_name() for x in p.get_parameters())
        return p, (t, u, v)[:len(ks)], ks

    def target(o):
        p, xs, ks = o
        x = p.as_unitary(list(xs))
        return [unitary(x, ks), text(x),
                [bool(x.is_valid(xs[0])) for x in p.get_parameters()],
                [x.random_value() for x in p.get_parameters()],
                p.get_dimension(), p.get_operation_name(),
                [(x.get_parameter_name(), x.get_is_angle())
                 for x in p.get_parameters()]]

    def other(o, vals):
        return o[0].as_unitary(list(vals)[:len(o[1])])
    before = {
        'other values': lambda o: other(o, (u, t, t)),
        'near': lambda o: other(o, [x + 1e-4 for x in (t, u, v)]),
        'first value': lambda o: other(o, (v,) + tuple(o[1])[1:]),
        'last value': lambda o: other(o, tuple(o[1])[:-1] + (v + 0.5,)),
        'out of range': lambda o: other(o, (9, 9, 9)),
        'too few': lambda o: o[0].as_unitary([]),
        'range': lambda o: [x.is_valid(9) for x in o[0].get_parameters()],
        'random': lambda o: [x.random_value() for x in o[0].get_parameters()],
        'own other': lambda o: own(-1, -3, 9).as_unitary([t, u]),
        'evolution other': lambda o: D.time_evolution(
            H2, -5, 5, '0').as_unitary([t]),
        'evolution longer': lambda o: D.time_evolution(
            H, -5, 5, '0').as_unitary([t]),
        'xx': lambda o: D.xx().as_unitary([t]),
        'xyz': lambda o: D.rotation_xyz().as_unitary([t, u, v]),
    }
    run(ctx, make, target, before)


def placement(ctx):
    m = ctx.unitary('m', 4)
    k = ctx.unitary('k', 4)
    one = rot(ctx, 'x', 'a')
    qs, n = ctx.cfg['qs'], ctx.cfg['n']

    def make():
        u = ctx.Unitary(4, ctx.copy(m), 'A')
        return u, ctx.UnitarySequenceEntry(u, list(qs))

    def target(o):
        return [unitary(o[1].get_full_unitary(2 ** n)), unitary(o[0]),
                [int(q) for q in o[1].get_apply_to()]]

    def full(u, q, n):
        return ctx.UnitarySequenceEntry(u, q).get_full_unitary(2 ** n)
    before = {
        'other size': lambda o: o[1].get_full_unitary(16 if n == 3 else 8),
        'too small': lambda o: o[1].get_full_unitary(2),
        'other qubits': lambda o: full(o[0], list(qs)[::-1], n),
        'other gate': lambda o: full(ctx.Unitary(4, k, 'A'), list(qs), n),
        'one qubit': lambda o: full(ctx.Unitary(2, one), [qs[1]], n),
        'inverse': lambda o: full(o[0].inverse(), list(qs), n),
        'repeated': lambda o: full(o[0], [qs[0], qs[0]], n),
        'three qubits': lambda o: full(ctx.Unitary(8), [2, 0, 1], n),
        'sequence': lambda o: ctx.UnitarySequence(2 ** n, [o[1]]).inverse(),
        'default list': lambda o: ctx.Unitary(4).apply_to,
    }
    run(ctx, make, target, before)


def sequences(ctx):
    n = 2
    ma, mb = rot(ctx, 'x', 'a'), ctx.arr(PHASED_PERM)
    mc = rot(ctx, 'y', 'c')
    Q = ctx.UnitarySequence

    def make():
        ea = ctx.UnitarySequenceEntry(ctx.Unitary(2, ctx.copy(ma), 'A'), [1])
        eb = ctx.UnitarySequenceEntry(ctx.Unitary(4, ctx.copy(mb), 'B'),
                                      [1, 0])
        ec = ctx.UnitarySequenceEntry(ctx.Unitary(2, ctx.copy(mc), 'A'), [0])
        return ea, eb, ec

    def target(o):
        ea, eb, ec = o
        s = Q(4)
        out = [sequence(s, n)]
        s.append_last(ea)
        s.append_first(eb)
        out.append(sequence(s, n))
        t = Q(4, [ec, eb])
        out += [sequence(t.inverse(), n), sequence(Q.combine(s, t), n)]
        s.remove_first()
        s.undo()
        out += [sequence(s, n), s.get_qasm(), t.get_jaqal(),
                s.get_display_output()]
        return out

    def removal(o):
        s = Q(4, [o[0]])
        s.product()
        s.remove_last()
        return s
    before = {
        'empty': lambda o: Q(4).append_last(o[1]),
        'refused': lambda o: Q(2).append_last(o[1]),
        'other product': lambda o: Q(4, [o[2], o[1]]).product(),
        'larger': lambda o: Q(8, [o[2], o[0]]).product(),
        'inverse': lambda o: Q(4, [o[1], o[0]]).inverse().product(),
        'combine': lambda o: Q.combine(Q(4, [o[0]]), Q(4, [o[0]])).product(),
        'combine refused': lambda o: Q.combine(Q(4), Q(8)),
        'undo': lambda o: Q(4, [o[0]]).undo(),
        'removal': removal, 'texts': lambda o: Q(4, list(o)).get_qasm(),
        'mutated default': lambda o: Q(4).append_first(o[0]),
    }
    run(ctx, make, target, before)


def compiling(ctx):
    n, d, op = 2, 4, ctx.cfg['op']
    T1 = ctx.kron(ctx.arr(Z1), rational(ctx))
    T2 = ctx.kron(rational(ctx, 2), rational(ctx))
    V = ctx.Verification

    def make():
        U = ctx.Unitary
        P = ctx.UnitaryPrimitive
        r, c = U(2, rational(ctx), 'R'), U(4, ctx.arr(C2), 'C')
        z = U(2, ctx.arr(Z1), 'R')
        pr, pc = P(r, [[1]]), P(c, [[1, 0]])
        pz, pd = P(z, [[0]]), P(c, [[0, 1]])
        if ctx.cfg.get('free'):
            pr, pc = P(r), P(c)
        px, pn, pf, pg = P(r, []), P(c, []), P(r), P(c)
        p0, p1 = P(r, [[0]]), P(r, [[1]])
        return dict(
            c=ctx.Compiler(d, [pr, pc], [0.25, 0.75], append_probability=0.75,
                           annealing_rate=2.0),
            ps=[pr, pc], qs=[pz, pd], counts={pr: 1, pc: 1},
            other={pz: 2}, T=U(d, ctx.copy(T1), 'T'),
            S=U(d, ctx.copy(T2), 'T'), T8=U(8, None, 'T'),
            forms={'no one': [px, pg], 'no two': [pf, pn], 'free': [pf, pg],
                   'restricted': [p0, pd], 'half': [p1, pg]})

    def act(o, c, T, ps, counts, weights, L, K, d=d, n=n):
        if op == 'compile':
            return result(c.compile(T, 0.99, max_step_count=K), n)
        if op == 'layered':
            return result(c.compile_layered(
                T, counts, 0.99, max_step_count=K), n)
        if op == 'entry':
            return [entry(ctx.Compiler.create_random_sequence_entry(
                d, ps, weights), n) for _ in range(L)]
        if op == 'layer':
            return [entry(e, n) for e in ctx.Compiler.create_random_layer(
                d, counts)]
        if op == 'rav':
            return result(V.generate_rav_sequence(
                d, ps, L, 0.99, 0.75, weights, max_step_count=K), n)
        if op == 'layered rav':
            return result(V.generate_layered_rav_sequence(
                d, counts, L, 0.99, 0.75, max_step_count=K), n)
        if op == 'xeb':
            return result(V.generate_xeb_sequence(d, counts, L), n)

    K = ctx.cfg.get('K', 1)

    def target(o):
        return act(o, o['c'], o['T'], o['ps'], o['counts'], [0.25, 0.75], 1,
                   K)
    before = {
        'other target': lambda o: act(o, o['c'], o['S'], o['ps'],
                                      o['counts'], [0.75, 0.25], 1, 2),
        'other gates': lambda o: act(
            o, ctx.Compiler(d, o['qs'], annealing_rate=9.0), o['T'], o['qs'],
            o['other'], None, 1, 2),
        'refused': lambda o: act(o, o['c'], None, [], {None: 1}, [2], 1, 1),
        'nothing to do': lambda o: act(o, o['c'], ctx.Unitary(d), o['ps'],
                                       {}, None, 0, 0),
    }

    def alike(o, name, d=d, n=n, w=(0.25, 0.75), append=0.25, rate=0.5):
        """gates of the same names with other restrictions"""
        ps = o['forms'][name]
        c = ctx.Compiler(d, ps, list(w), append_probability=append,
                         annealing_rate=rate)
        return act(o, c, o['T'] if n == 2 else o['T8'], ps,
                   {p: 1 for p in ps if p.get_allowed_apply_to() != []},
                   list(w), 1, 2, d, n)
    for name in ('no one', 'no two', 'free', 'restricted', 'half'):
        before[name] = lambda o, name=name: alike(o, name)
    before['larger'] = lambda o: alike(o, 'free', 8, 3)
    before['other weights'] = lambda o: alike(
        o, 'free' if ctx.cfg.get('free') else 'half', w=(0.75, 0.25))
    before['same but eager'] = lambda o: act(
        o, ctx.Compiler(d, o['ps'], [0.75, 0.25], append_probability=1.0,
                        annealing_rate=9.0), o['T'], o['ps'],
        {p: 2 for p in o['ps']}, [0.75, 0.25], 2, 2)
    run(ctx, make, target, before)


def hamiltonians(ctx):
    op = ctx.cfg['op']
    s, r = ctx.real('s', 0.1, 3), ctx.real('r', 0.1, 3)
    t, u = ctx.real('t', -3, 3), ctx.real('u', -3, 3)
    n = 1
    keys = ('t',)
    T = ctx.HamiltonianTerm

    def make():
        return (ctx.Hamiltonian([T(s * ctx.arr(X)), T(ctx.arr(Z) * 2)]),
                ctx.Hamiltonian([T(r * ctx.arr(Y)), T(ctx.arr(Z) * 3)]),
                ctx.Hamiltonian([T(ctx.arr(pauli('XX')) * r),
                                 T(ctx.arr(pauli('ZI')))]))

    def act(h, t, k, n, flag=False):
        if op == 'terms':
            x = T(s * ctx.arr(X))
            return [x.get_matrix(), x.get_normalized_matrix(),
                    x.get_coefficient(), h.get_dimension(),
                    h.get_qubit_count()]
        if op == 'evolution':
            return unitary(h.get_time_evolution_operator(t), keys)
        if op == 'ideal':
            return sequence(h.get_ideal_sequence(t, k), n, keys)
        if op == 'trotter':
            return sequence(h.get_trotter_sequence(t, k, flag), n, keys)
        if op == 'randomized':
            return sequence(h.get_trotter_sequence(t, k, True), n, keys)
        if op == 'qdrift':
            return sequence(h.get_qdrift_sequence(t, k), n, keys)
        with ctx.limit_steps(1):
            if op == 'stoq':
                return result(h.compile_stoq_sequence(
                    t, k / 2, 0.97, flag), n, keys)
            return result(h.compile_rav_sequence(
                0.125, k / 2, 0.0, flag), n, keys)
    if op == 'rav':
        ctx.limit_draws(10)
    k = ctx.cfg.get('k', 1)

    def target(o):
        return act(o[0], t, k, n)
    before = {
        'other time': lambda o: act(o[0], u, k, n),
        'near time': lambda o: act(o[0], t + 1e-4, k, n),
        'other steps': lambda o: act(o[0], t, k + 1, n),
        'other flag': lambda o: act(o[0], t, k, n, True),
        'other Hamiltonian': lambda o: act(o[1], t, k, n),
        'larger Hamiltonian': lambda o: act(o[2], t, k, 2),
        'other term': lambda o: T(ctx.arr(Y) * r).get_matrix(),
        'refused term': lambda o: T(ctx.arr(np.array([[0, 1], [0, 0]]))),
        'refused': lambda o: ctx.Hamiltonian([]),
    }
    run(ctx, make, target, before)


def jobs(tier):
    thorough = tier == 'thorough'
    out = []
    for op in ('rx', 'ry', 'rz', 'rphi', 'xx', 'gms2', 'gms3', 'evolve',
               'evolve named', 'h', 't', 'x', 'y', 'z', 'cnot', 'ccnot',
               'qecc', 'xx default', 'gms default', 'identity', 'empty'):
        if not thorough and op in ('t', 'x', 'y', 'z', 'qecc', 'gms2'):
            continue
        out.append(dict(name='gate_' + op.replace(' ', '_'), fn=gates,
                        cfg=dict(op=op, earlier=2 if thorough else 1),
                        must=['compared'], cost=3))
    for op, args in (('rotation_xy', []), ('rotation_xyz', []), ('xx', []),
                     ('gms', [2]), ('evolution', []), ('own', [])):
        out.append(dict(name='parameterized_' + op, fn=parameterized,
                        cfg=dict(op=op, args=args,
                                 earlier=2 if thorough else 1),
                        must=['compared'], cost=5))
    for op in ('rx', 'rphi', 'rphi second', 'xx', 'gms', 'evolve',
               'rx inverse', 'phases'):
        out.append(dict(name='placed_' + op.replace(' ', '_'), fn=placed,
                        cfg=dict(op=op, earlier=2 if thorough else 1),
                        must=['compared'], cost=8))
        if not thorough and op != 'evolve':
            continue
        out.append(dict(name='texts_' + op.replace(' ', '_'), fn=placed,
                        cfg=dict(op=op, texts=True, before=[
                            'other', 'texts', 'inverse'][:3 if thorough
                                                         else 2]),
                        must=['compared'], cost=8))
    for qs, n in (([1, 0], 2), ([0, 1], 2), ([2, 0], 3), ([0, 2], 3)):
        out.append(dict(name='place_n%d_%d%d' % (n, *qs), fn=placement,
                        cfg=dict(qs=qs, n=n, earlier=2 if thorough else 1),
                        must=['compared'], cost=6))
    for b in SEQ if thorough else (None,):
        out.append(dict(name='sequence' + ('_' + b if b else ''),
                        fn=sequences, cfg=dict(
                            before=[b] if b else None, earlier=1),
                        must=['compared'], cost=30))
    for op in ('compile', 'layered', 'entry', 'layer', 'rav', 'layered rav',
               'xeb'):
        for b in COMP:
            out.append(dict(
                name='%s_%s' % (op.replace(' ', '_'), b.replace(' ', '_')),
                fn=compiling, cfg=dict(op=op, before=[b], pins=2,
                                       K=2 if 'rav' not in op else 1),
                must=['compared'], cost=25))
        for free in (False, True):
            out.append(dict(
                name='%s_alike_%s' % (op.replace(' ', '_'), 'free' if free
                                      else 'restricted'),
                fn=compiling, cfg=dict(op=op, before=ALIKE if thorough or
                                       'rav' not in op else ALIKE[2 * free:][
                                           ::4], free=free,
                                       K=2 if thorough and 'rav' not in op
                                       else 1),
                must=['compared'], cost=25))
    for op in ('terms', 'evolution', 'ideal', 'trotter', 'randomized',
               'qdrift'):
        out.append(dict(name='hamiltonian_' + op, fn=hamiltonians,
                        cfg=dict(op=op, pins=2, k=2 if op in ('trotter', 'ideal')
                                 or thorough else 1),
                        must=['compared'], cost=20))
    for op in ('stoq', 'rav'):
        for b in HAM if thorough else HAM[:4]:
            out.append(dict(
                name='hamiltonian_%s_%s' % (op, b.replace(' ', '_')),
                fn=hamiltonians, cfg=dict(op=op, before=[b]),
                must=['compared'], cost=40))
    return out


SEQ = ['empty', 'refused', 'other product', 'larger', 'inverse', 'combine',
       'combine refused', 'undo', 'removal', 'texts', 'mutated default']
COMP = ['other target', 'other gates', 'refused', 'nothing to do']
ALIKE = ['no one', 'no two', 'free', 'restricted', 'half', 'larger',
         'other weights', 'same but eager']
HAM = ['other time', 'other Hamiltonian', 'larger Hamiltonian', 'other flag',
       'other steps', 'other term', 'refused term', 'refused']
