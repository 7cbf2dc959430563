"""Shared pieces for the compilation harnesses: gate sets with exact rational
entries, independent costs, reading of results."""
from fractions import Fraction as F

import contextlib

import numpy as np


def rational(ctx, k=1):
    """power k of the rotation with cosine 3/5"""
    a, b = F(1), F(0)
    for _ in range(abs(k)):
        a, b = a * F(3, 5) - b * F(4, 5), a * F(4, 5) + b * F(3, 5)
    if k < 0:
        b = -b
    return ctx.arr([[ctx.num(a), ctx.num(-b)], [ctx.num(b), ctx.num(a)]])


Z1 = np.array([[1j, 0], [0, -1j]])
# determinant-one two-qubit gates that do not commute with qubit exchange
C2 = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, -1], [0, 0, 1, 0]])


def again(ctx, mark):
    """the draws since the mark once more; pinned ones for long runs"""
    if 'seed' in ctx.cfg:
        return ctx.pinned(ctx.cfg['seed'])
    ctx.rewind(mark)
    return contextlib.nullcontext()


class Gate:
    def __init__(self, name, matrix, where):
        self.name, self.matrix, self.where = name, matrix, where


def gateset(ctx, name):
    """list of Gate and number of qubits"""
    if name == 'one':
        return [Gate('R', rational(ctx), [[0]]),
                Gate('Z', ctx.arr(Z1), [[0]])], 1
    if name == 'slow':      # three gates in a row still increase the cost
        a, b = ctx.num(F(24, 25)), ctx.num(F(7, 25))
        return [Gate('L', ctx.arr([[a, -b], [b, a]]), [[0]])], 1
    if name == 'pair':      # gates that undo each other
        return [Gate('R', rational(ctx), [[0]]),
                Gate('V', rational(ctx, -1), [[0]])], 1
    if name == 'single':
        return [Gate('R', rational(ctx), [[0]])], 1
    if name in ('fine', 'fine3'):   # small steps, for large parameters
        h = F(1, 20) if name == 'fine' else F(1, 300)
        a, b = (1 - h * h) / (1 + h * h), 2 * h / (1 + h * h)
        return [Gate('S', ctx.arr([[ctx.num(a), ctx.num(-b)],
                                   [ctx.num(b), ctx.num(a)]]),
                     [[0], [1]] if name == 'fine' else [[0]])
                ], 2 if name == 'fine' else 3
    if name == 'two':
        return [Gate('R', rational(ctx), [[0], [1]]),
                Gate('C', ctx.arr(C2), [[0, 1], [1, 0]])], 2
    if name == 'restricted':
        return [Gate('R', rational(ctx), [[1]]),
                Gate('C', ctx.arr(C2), [[1, 0]])], 2
    raise KeyError(name)


def primitives(ctx, gates, n, explicit=None):
    out = []
    for g in gates:
        k = int(np.log2(g.matrix.shape[0]))
        full = len(g.where) == {1: n, 2: n * (n - 1)}[k]
        u = ctx.Unitary(2 ** k, ctx.copy(g.matrix), g.name)
        if full and not explicit:
            out.append(ctx.UnitaryPrimitive(u))
        else:
            out.append(ctx.UnitaryPrimitive(u, [list(w) for w in g.where]))
    return out


def read(ctx, seq, gates, n, label):
    """the sequence as a list of (gate name, qubits); every entry has to be
    one of the gates on one of its allowed qubit lists"""
    by = {g.name: g for g in gates}
    out = []
    for e in seq.get_sequence_entries():
        u = e.get_full_unitary(2 ** n)
        name, q = u.get_operation_name(), [int(x) for x in e.get_apply_to()]
        for nm in by:       # the name may carry the identity of the rest
            if name.split('--')[0] == nm:
                name = nm
        ok = name in by and q in by[name].where
        ctx.check(ok, label + ': gate and qubits are allowed')
        if not ok:
            ctx.cut()
        ctx.check(ctx.phase_eq(u.get_matrix(), ctx.place(
            by[name].matrix, q, n)), label + ': gate matrix')
        out.append((name, tuple(q)))
    return out


def product(ctx, items, gates, n):
    by = {g.name: g for g in gates}
    return ctx.prod_right_to_left(
        [ctx.place(by[nm].matrix, list(q), n) for nm, q in items], 2 ** n)


def targets(ctx, n):
    if n == 1:
        return {'R': rational(ctx), 'R2': rational(ctx, 2),
                'Rinv': rational(ctx, -1), 'I': ctx.eye(2),
                'Z': ctx.arr(Z1), 'ZR': ctx.mm(ctx.arr(Z1), rational(ctx)),
                'far': ctx.arr(np.array([[0, 1j], [1j, 0]]))}
    if n > 2:
        return {'I': ctx.eye(2 ** n)}
    r = rational(ctx)
    return {'R': ctx.place(r, [0], 2), 'R1': ctx.place(r, [1], 2),
            'C': ctx.place(ctx.arr(C2), [1, 0], 2), 'I': ctx.eye(4),
            'CR': ctx.mm(ctx.arr(C2), ctx.place(r, [0], 2)),
            'RR': ctx.kron(r, r)}


def as_array(items):
    """an array of objects"""
    a = np.empty(len(items), dtype=object)
    for i, x in enumerate(items):
        a[i] = x
    return a


def compiler(ctx, gates, n, **kw):
    ps = primitives(ctx, gates, n)
    if ctx.cfg.get('array'):
        ps = as_array(ps)
    return ctx.Compiler(2 ** n, ps, **kw)
