"""Independent oracle for the triangular-shaped-cloud (quadratic spline) particle shape."""
import numpy as np


def w3(X):
    """X: position in cells.  Returns (nearest node i0, weights of nodes i0-1, i0, i0+1)"""
    X = np.asarray(X, float)
    i0 = np.floor(X + 0.5)
    e = X - i0
    return i0.astype(int), (0.5 * (0.5 - e) ** 2, 0.75 - e * e, 0.5 * (0.5 + e) ** 2)


def line(X, n):
    """weights of one particle on a wrapped axis of n nodes"""
    i0, w = w3(X)
    out = np.zeros(n)
    for k in (-1, 0, 1):
        out[(int(i0) + k) % n] += w[k + 1]
    return out


def cloud(Xs, shape):
    """outer product over the axes"""
    v = [line(X, n) for X, n in zip(Xs, shape)]
    out = v[0]
    for w in v[1:]:
        out = np.multiply.outer(out, w)
    return out


def gather(field, Xs):
    """value of a (wrapped) field array at node coordinates Xs (offset of the staggering already removed)"""
    v = field
    for X in Xs:
        v = np.tensordot(line(X, v.shape[0]), v, axes=(0, 0))
    return float(v)


def div(J, d):
    """backward-difference divergence of currents on a wrapped grid"""
    out = 0
    for a, (j, h) in enumerate(zip(J, d)):
        out = out + (j - np.roll(j, 1, axis=a)) / h
    return out
