"""Reference closed forms of the acquisitions, from the textbook definitions."""
import numpy as np
from scipy.stats import norm


def clip(s):
    return np.maximum(np.asarray(s, dtype=float), 1e-10)


def ei(m, s, b, j):
    s = clip(s)
    d = b - m - j
    return d * norm.cdf(d / s) + s * norm.pdf(d / s)


def mpi(m, s, b, j):
    s = clip(s)
    return norm.cdf((b - m - j) / s)


def lcb(m, s, w):
    return -m + w * s


def d_ei(m, s, dm, ds, b, j):
    s = clip(s)
    u = (b - m - j) / s
    return ds * norm.pdf(u) - dm * norm.cdf(u)


def d_mpi(m, s, dm, ds, b, j):
    s = clip(s)
    u = (b - m - j) / s
    return -norm.pdf(u) / s * (dm + u * ds)


def d_lcb(dm, ds, w):
    return -dm + w * ds


def value(kind, m, s, b, j, w):
    return ei(m, s, b, j) if kind == 'EI' else mpi(m, s, b, j) if kind == 'MPI' else lcb(m, s, w)


def grad(kind, m, s, dm, ds, b, j, w):
    return d_ei(m, s, dm, ds, b, j) if kind == 'EI' else d_mpi(m, s, dm, ds, b, j) if kind == 'MPI' else d_lcb(dm, ds, w)
