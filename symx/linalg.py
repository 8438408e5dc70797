"""numpy.linalg over SymArrays (small sizes)."""
import numpy as np

from . import npcall
from .arr import SymArray, lift

FUNC = {}


def norm(x, ord=None, axis=None, keepdims=False):
    x = lift(x)
    if ord not in (None, 2, "fro"):
        return npcall._fallback(np.linalg.norm, (x, ord, axis), {})
    return np.sqrt(npcall.red_sum(x * x, axis=axis, keepdims=keepdims))


def det(a):
    a = lift(a)
    if a.shape == (2, 2):
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    return npcall._fallback(np.linalg.det, (a,), {})


FUNC.update(norm=norm, det=det)
