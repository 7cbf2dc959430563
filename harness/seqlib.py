"""Shared model of a gate sequence: a list of (matrix, qubits)."""
import numpy as np


def rot(ctx, axis, name):
    """one-parameter rotation and its independently written matrix"""
    t = ctx.real(name, -3, 3)
    c, s = ctx.cos(t / 2), ctx.sin(t / 2)
    if axis == 'x':
        m = ctx.arr([[c, -ctx.I * s], [-ctx.I * s, c]])
    elif axis == 'y':
        m = ctx.arr([[c, -s], [s, c]])
    else:
        m = ctx.arr([[ctx.cexp(-ctx.I * t / 2), 0],
                     [0, ctx.cexp(ctx.I * t / 2)]])
    return m


CNOT = np.eye(4)[[0, 1, 3, 2]]
SWAPT = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1j, 0, 0], [0, 0, 0, 1]])
PHASED_PERM = np.array([[0, 0, 1, 0], [1j, 0, 0, 0], [0, 0, 0, 1],
                        [0, 1, 0, 0]])


def gate(ctx, i, n):
    """the i-th distinct gate on an n-qubit system: (matrix, qubits)"""
    k = i % 6
    if k == 0:
        return rot(ctx, 'x', 'a%d' % i), [0]
    if k == 1:
        return (ctx.arr(PHASED_PERM), [1, 0]) if n > 1 else (
            rot(ctx, 'z', 'a%d' % i), [0])
    if k == 2:
        return rot(ctx, 'z', 'a%d' % i), [n - 1]
    if k == 3:
        return (ctx.arr(CNOT), [0, n - 1]) if n > 1 else (
            rot(ctx, 'y', 'a%d' % i), [0])
    if k == 4:
        return ctx.arr(np.array([[0, 1], [1j, 0]])), [n - 1]
    return (ctx.arr(SWAPT), [n - 1, n - 2]) if n > 1 else (
        ctx.arr(np.array([[0, 1], [1, 0]])), [0])


def entry(ctx, g, name='G'):
    m, q = g
    return ctx.UnitarySequenceEntry(
        ctx.Unitary(m.shape[0], ctx.copy(m), name), list(q))


def model_product(ctx, model, n):
    return ctx.prod_right_to_left([ctx.place(m, q, n) for m, q in model],
                                  2 ** n)


def check_sequence(ctx, s, model, n, label, entries=True, product=True):
    ctx.check(s.get_length() == len(model), label + ': length')
    if s.get_length() != len(model):
        return
    if entries:
        es = s.get_sequence_entries()
        ctx.check(len(es) == len(model), label + ': entries')
        ctx.check(ctx.all([ctx.phase_eq(e.get_full_unitary(
            2 ** n).get_matrix(), ctx.place(m, q, n))
            for e, (m, q) in zip(es, model)]), label + ': gates')
    if product:
        p = s.product()
        ctx.check(p.get_dimension() == 2 ** n, label + ': dimension')
        ctx.check(ctx.phase_eq(p.get_matrix(), model_product(ctx, model, n)),
                  label + ': product')


FAMILIES = ('identity', 'diagonal', 'permutation', 'real', 'hermitian',
            'symmetric', 'block', 'phase')


def family(ctx, kind, d, name='f'):
    """unitary matrices of dimension d of a special form, with free angles"""
    M = ctx.zeros(d)
    a = ctx.real(name + 'a', -3, 3)
    if kind == 'identity':
        return ctx.eye(d)
    if kind == 'phase':
        return ctx.cexp(ctx.I * a) * ctx.eye(d)
    if kind == 'diagonal':
        for i in range(d):
            M[i, i] = ctx.cexp(ctx.I * (-1) ** i *
                               ctx.real(name + 'd%d' % (i // 2), -3, 3))
        return M
    if kind == 'permutation':
        for i in range(d):
            M[i, (i + 1) % d] = ctx.num(1)
        return M
    M = ctx.eye(d)
    c, s = ctx.cos(a), ctx.sin(a)
    g = ctx.cexp(ctx.I * ctx.real(name + 'g', -3, 3))
    B = {'real': [[c, -s], [s, c]],
         'hermitian': [[c, s * g], [s * ctx.conj(g), -c]],
         'symmetric': [[c * g, ctx.I * s], [ctx.I * s, c * ctx.conj(g)]],
         'block': [[c, -s * g], [s * ctx.conj(g), c]]}[kind]
    if d > 1:
        for i in range(2):
            for j in range(2):
                M[-i, -j] = B[i][j]
    return M
