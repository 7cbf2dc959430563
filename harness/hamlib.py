"""Shared pieces for the Hamiltonian harnesses: families of Hermitian terms
with free strengths."""
import numpy as np

X = np.array([[0, 1], [1, 0]])
Y = np.array([[0, -1j], [1j, 0]])
Z = np.array([[1, 0], [0, -1]])
I2 = np.eye(2)
PAULI = {'X': X, 'Y': Y, 'Z': Z, 'I': I2}


def pauli(word):
    m = np.eye(1)
    for c in word:
        m = np.kron(m, PAULI[c])
    return m


def hermitian(ctx, d, name='h', size=3):
    m = ctx.zeros(d)
    for i in range(d):
        m[i, i] = ctx.real('%s%d' % (name, i), -size, size)
        for j in range(i):
            a = ctx.real('%s%d%dr' % (name, i, j), -size, size)
            b = ctx.real('%s%d%di' % (name, i, j), -size, size)
            m[i, j] = a + ctx.I * b
            m[j, i] = a - ctx.I * b
    return m


def family(ctx, words, lo=0.1, hi=3):
    """one term per word; a word is a Pauli string, possibly with a leading
    minus sign (negative strength), a digit (fixed strength), or the name of
    a general family"""
    out = []
    for i, w in enumerate(words):
        if w == 'any2' or w == 'any4':
            m = hermitian(ctx, int(w[3]), 'g%d' % i)
            ctx.assume(ctx.le(0.05, m[0, 0].real, 0))
            out.append(m)
            continue
        if w == 'diag2f':       # the first entry is the strength
            m = ctx.zeros(2)
            m[0, 0] = ctx.real('d%d' % i, 1, 3)
            m[1, 1] = ctx.real('e%d' % i, -0.9, 0.9)
            out.append(m)
            continue
        if w == 'diag2':
            m = ctx.zeros(2)
            m[0, 0] = ctx.real('d%d' % i, lo, hi)
            m[1, 1] = ctx.real('e%d' % i, -hi, hi)
            out.append(m)
            continue
        sign = -1 if w[0] == '-' else 1
        w = w.lstrip('-')
        if w[0].isdigit():
            s = ctx.num(int(w[0]))
            w = w[1:]
        else:
            s = ctx.real('s%d' % i, lo, hi)
        out.append(sign * s * ctx.arr(pauli(w)))
    return out


def terms(ctx, mats):
    return [ctx.HamiltonianTerm(ctx.copy(m)) for m in mats]


def total(mats):
    t = mats[0]
    for m in mats[1:]:
        t = t + m
    return t


def evolution(ctx, m, t):
    return ctx.expm(ctx.I * m * t)


def qubits(d):
    return list(range(int(np.log2(d))))
