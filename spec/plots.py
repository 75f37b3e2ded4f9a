"""What the plotting and preprocessing helpers put on display, as formulas.  Read by the abstract interpreter, never
executed."""
import numpy as np


def difference(a, b):
    return np.abs(a - b)


def common_scale(a, b, n):
    lo = np.min([np.amin(a), np.amin(b)])
    hi = np.max([np.amax(a), np.amax(b)])
    return np.linspace(lo, hi, n)


def difference_scale(a, b, factor, n):
    lo = np.min([np.amin(a), np.amin(b)])
    hi = np.max([np.amax(a), np.amax(b)])
    return np.linspace(0, factor * max([np.abs(lo), np.abs(hi)]), n)


def mesh(x, y):
    return np.meshgrid(x, y)


def pick(a, k):
    return a[k]
