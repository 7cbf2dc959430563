"""C20: textual forms of operations and sequences."""
import re

import numpy as np

from .seqlib import CNOT, PHASED_PERM

BOUNDS = ('sequences of 0..3 gates on 1..3 qubits with 0..3 parameters, every '
          'parameter value in [-20, 20], angles and others mixed, gates '
          'inverted before or with the whole sequence, every ordered tuple of '
          'qubits; randomly proposed gates; operations on their own')
OUTSIDE = 'longer sequences; names with blanks or brackets'
ASSUMPTIONS = ['exact real arithmetic; round(x, n) is some number within half '
               'a unit of the n-th decimal']

X = np.array([[0, 1], [1, 0]])
TOFF = np.eye(8)[[0, 1, 2, 3, 4, 5, 7, 6]]
MATS = {1: X, 2: PHASED_PERM, 3: TOFF}


def numbers(ctx, text):
    return [ctx.number(t) for t in re.findall(ctx.NUM, text)]


def read_qasm(ctx, line):
    m = re.fullmatch(r'\s*([^\s(]+)\s*(?:\(([^)]*)\))?\s*'
                     r'(q\[[^\]]*\](?:\s*,\s*q\[[^\]]*\])*)\s*;\s*', line)
    if not m:
        return None
    pars = []
    for p in m.group(2).split(',') if m.group(2) else []:
        p = p.strip()
        angle = p.startswith('pi*')
        pars.append((angle, ctx.number(p[3:] if angle else p)))
    return m.group(1), qubits(m.group(3)), pars


def qubits(text):
    q = re.findall(r'q\[([^\]]*)\]', text)
    return [int(x) for x in q] if all(x.isdigit() for x in q) else None


def read_jaqal(ctx, line):
    parts = line.split()
    q = [p for p in parts[1:] if p.startswith('q[')]
    rest = parts[1 + len(q):]
    if not parts or any(p.startswith('q[') for p in rest):
        return None
    return parts[0], qubits(' '.join(q)), [ctx.number(p) for p in rest]


def read_display(ctx, line):
    m = re.fullmatch(r'([^\s(\[†]+)(?:\[([^\]]*)\])?(?:\(([^)]*)\))?(†?)',
                     line.strip())
    if not m:
        return None
    q = None
    if m.group(2) is not None:
        q = [x.strip() for x in m.group(2).split(',')]
        q = [int(x) for x in q] if all(x.isdigit() for x in q) else 'bad'
    pars = []
    for p in m.group(3).split(',') if m.group(3) else []:
        k, v = p.strip().split('=')
        angle = v.endswith('π')
        pars.append((k, angle, ctx.number(v[:-1] if angle else v)))
    return m.group(1), q, pars, m.group(4) == '†'


def rounded(ctx, shown, value, digits):
    half = 0.5000001 * 10.0 ** -digits
    return ctx.all([ctx.le(shown - value, half, 0),
                    ctx.le(value - shown, half, 0)])


def check_line(ctx, g, qasm, jaqal, display, whole, label):
    """g: name, list of (key, value, angle), qubits, inverse"""
    name, pars, qs, inv = g
    pi = ctx.pi
    q = read_qasm(ctx, qasm)
    ctx.check(q is not None, label + ': qasm form')
    if q:
        ctx.check(q[0] == name, label + ': qasm name')
        ctx.check(q[1] == qs, label + ': qasm qubits')
        ctx.check([a for a, _ in q[2]] == [a for _, _, a in pars],
                  label + ': qasm angles')
        ctx.check(ctx.all([rounded(ctx, s, v * (1 / pi) if a else v, 7)
                           for (_, s), (_, v, a) in zip(q[2], pars)]),
                  label + ': qasm values')
    j = read_jaqal(ctx, jaqal)
    ctx.check(j is not None, label + ': jaqal form')
    if j:
        ctx.check(j[0] == name, label + ': jaqal name')
        ctx.check(j[1] == qs, label + ': jaqal qubits')
        ctx.check(len(j[2]) == len(pars), label + ': jaqal parameters')
        ctx.check(ctx.all([rounded(ctx, s, v, 7)
                           for s, (_, v, _a) in zip(j[2], pars)]),
                  label + ': jaqal values')
    d = read_display(ctx, display.replace(name, 'G', 1)
                     if '†' in name and display.startswith(name) else display)
    if d and '†' in name and display.startswith(name):
        d = (name,) + d[1:]
    ctx.check(d is not None, label + ': display form')
    if d:
        ctx.check(d[0] == name, label + ': display name')
        ctx.check(d[1] == qs or whole and d[1] is None,
                  label + ': display qubits')
        ctx.check([(k, a) for k, a, _ in d[2]] == [
            (k, a) for k, _, a in pars], label + ': display parameters')
        ctx.check(ctx.all([rounded(ctx, s, v * (1 / pi) if a else v,
                                   3 if a else 4)
                           for (_, _, s), (_, v, a) in zip(d[2], pars)]),
                  label + ': display values')
        ctx.check(d[3] == inv, label + ': display inverse mark')


def check_text(ctx, s, model, label):
    texts = [f().split('\n') for f in (s.get_qasm, s.get_jaqal,
                                       s.get_display_output)]
    for t, k in zip(texts, ('qasm', 'jaqal', 'display')):
        while t and not t[-1].strip():
            t.pop()
        ctx.check(len(t) == len(model) + 1, '%s: %s lines' % (label, k))
        ctx.check(t[0].startswith('//' if k == 'jaqal' else '#'),
                  '%s: %s comment' % (label, k))
        if len(t) != len(model) + 1:
            return
    for g, a, b, c in zip(model, *[t[1:] for t in texts]):
        check_line(ctx, g, a, b, c, False, label)


NAMES = ['Ga', 'G2', 'CX']
KEYS = ['θ', 't', 'phi']


def make(ctx, i, n, spec):
    """the i-th gate: spec = (number of qubits, angle flags)"""
    k, flags = spec
    import itertools
    qs = list(list(itertools.permutations(range(n), k))[
        ctx.cfg['at'][i] % len(list(itertools.permutations(range(n), k)))])
    pars = [(KEYS[j], ctx.real('p%d%d' % (i, j), -20, 20), f)
            for j, f in enumerate(flags)]
    u = ctx.Unitary(2 ** k, ctx.arr(MATS[k]), NAMES[i],
                    {key: (v, f) for key, v, f in pars})
    return u, (NAMES[i], pars, qs, False)


def flip(g):
    return g[0], g[1], g[2], not g[3]


def sequence(ctx):
    n, specs = ctx.cfg['n'], ctx.cfg['specs']
    made = [make(ctx, i, n, s) for i, s in enumerate(specs)]
    es, model = [], []
    for i, (u, g) in enumerate(made):
        k = ctx.choice('inverse%d' % i, [0, 1, 2] if i == 0 else [0, 1])
        for _ in range(k):
            u, g = u.inverse(), flip(g)
        es.append(ctx.UnitarySequenceEntry(u, list(g[2])))
        model.append(g)
    s = ctx.UnitarySequence(2 ** n, es)
    how = ctx.choice('how', ['plain', 'read', 'inverse', 'combined',
                             'appended'])
    if how == 'read':
        s.product()
    elif how == 'inverse':
        check_text(ctx, s, model, 'before')
        s = s.inverse()
        model = [flip(g) for g in model[::-1]]
    elif how == 'combined':
        s = ctx.UnitarySequence.combine(s.inverse(), s)
        model = [flip(g) for g in model[::-1]] + model
    elif how == 'appended':
        if es:
            s.append_first(es[-1])
            model = [model[-1]] + model
            s.remove_last()
            model.pop()
    check_text(ctx, s, model, how)
    check_text(ctx, s, model, how + ' again')
    ctx.reach(how)


def alone(ctx):
    """an operation that is not yet placed is shown on all its qubits"""
    k, flags = ctx.cfg['spec']
    pars = [(KEYS[j], ctx.real('p%d' % j, -20, 20), f)
            for j, f in enumerate(flags)]
    nm = ctx.choice('name', ['G', 'A†B', 'S†', 'e-3', 'q', 'pi*2'])
    u = ctx.Unitary(2 ** k, ctx.arr(MATS[k]), nm,
                    {key: (v, f) for key, v, f in pars})
    g = nm, pars, list(range(k)), False
    check_line(ctx, g, u.get_qasm(), u.get_jaqal(), u.get_display_name(),
               True, 'alone')
    v = u.inverse()
    check_line(ctx, flip(g), v.get_qasm(), v.get_jaqal(),
               v.get_display_name(), True, 'inverse')
    w = v.inverse()
    check_line(ctx, g, w.get_qasm(), w.get_jaqal(), w.get_display_name(),
               True, 'double inverse')
    ctx.reach('alone')


def proposed(ctx):
    """gates chosen at random are shown with the values that were chosen"""
    n = ctx.cfg['n']

    def turn(a, b):
        return ctx.arr(np.eye(2))
    P = ctx.ParameterizedUnitaryParameter
    prims = [ctx.UnitaryPrimitive(ctx.ParameterizedUnitary(
        2, turn, [P('a', 0, 3, True), P('b', -2, 2, False)], 'T')),
        ctx.UnitaryPrimitive(ctx.Unitary(4, ctx.arr(CNOT), 'CNOT'))]
    e = ctx.Compiler.create_random_sequence_entry(2 ** n, prims)
    u = e.get_full_unitary(2 ** n)
    if u.get_operation_name() == 'T':
        pars = [(k,) + tuple(u.get_parameter_value(k)) for k in 'ab']
    else:
        pars = []
    g = (u.get_operation_name(), pars,
         [int(q) for q in e.get_apply_to()], False)
    s = ctx.UnitarySequence(2 ** n, [e])
    check_text(ctx, s, [g], 'proposed')
    ctx.reach(u.get_operation_name())


def gates(ctx):
    """the library's gates"""
    k = ctx.cfg['gate']
    D = ctx.UnitaryDefinitions
    t, f = ctx.real('t', -20, 20), ctx.real('f', -20, 20)
    u = {'rx': lambda: D.rx(t), 'ry': lambda: D.ry(t), 'rz': lambda: D.rz(t),
         'rphi': lambda: D.rphi(t, f), 'xx': lambda: D.xx(t),
         'cnot': D.cnot, 'ccnot': D.ccnot, 'h': D.h}[k]()
    nm = {'rx': 'Rx', 'ry': 'Ry', 'rz': 'Rz', 'rphi': 'R', 'xx': 'XX',
          'cnot': 'CNOT', 'ccnot': 'CCNOT', 'h': 'H'}[k]
    pars = [] if k in ('cnot', 'ccnot', 'h') else [('θ', t, True)]
    if k == 'rphi':
        pars.append(('Φ', f, True))
    n = {2: 1, 4: 2, 8: 3}[u.get_dimension()]
    qs = [2, 0, 1][:n]
    s = ctx.UnitarySequence(8, [ctx.UnitarySequenceEntry(u, qs)])
    check_text(ctx, s, [(nm, pars, qs, False)], k)
    ctx.reach(k)


def jobs(tier):
    out = []
    T = tier == 'thorough'
    A, B = True, False
    for n, specs, at in [
            (1, [], ()), (1, [(1, (A,))], (0,)), (2, [(2, (A, B))], (1,)),
            (3, [(3, (B, A, A))], (4,)), (3, [(2, ()), (1, (B,))], (3, 1)),
            (2, [(1, (A,)), (2, (B,)), (1, ())], (1, 0, 0)),
            (3, [(2, (A,)), (3, ()), (2, (B, A))], (5, 2, 2))] + ([
                (3, [(3, (A, B, A)), (2, (B, B, A)), (1, (A, A, B))],
                 (k, k + 1, k + 2)) for k in range(6)] if T else []):
        out.append(dict(
            name='sequence_n%d_%s_%s' % (n, '-'.join(
                '%d%s' % (k, ''.join('A' if f else 'B' for f in fl))
                for k, fl in specs) or 'empty', '.'.join(map(str, at))),
            fn=sequence, cfg={'n': n, 'specs': specs, 'at': at}, cost=10,
            must=['plain', 'read', 'inverse', 'combined', 'appended']))
    for k, fl in [(1, ()), (1, (A,)), (2, (B,)), (3, (A, B)), (2, (B, A, A))]:
        out.append(dict(name='alone_%d_%s' % (k, ''.join(
            'A' if f else 'B' for f in fl)), fn=alone,
            cfg={'spec': (k, fl)}, must=['alone']))
    for n in (2, 3):
        out.append(dict(name='proposed_n%d' % n, fn=proposed, cfg={'n': n},
                        must=['T', 'CNOT']))
    for g in ('rx', 'ry', 'rz', 'rphi', 'xx', 'cnot', 'ccnot', 'h'):
        out.append(dict(name='gate_' + g, fn=gates, cfg={'gate': g},
                        must=[g]))
    return out
