"""Replacements for third-party functions the checked code calls (each is part of the claim)."""
import types

import numpy as np

from . import arr as A
from . import npcall, npproxy
from .arr import SymArray, SymScalar, SymSel, _np_arg, from_np, lift, make_array, obj_full
from .core import Inconclusive, b_and, b_or
from .scal import BOOL


def binary_dilation(input, structure=None, iterations=1, mask=None, output=None, border_value=0, origin=0,
                    brute_force=False, **k):
    """OR over the structuring element (scipy.ndimage.binary_dilation, border 0, centred)"""
    x = lift(input)
    o = A.cast_obj(x.o, A.native(x.dtype), BOOL)
    nd = o.ndim
    if structure is None:
        import scipy.ndimage

        st = scipy.ndimage.generate_binary_structure(nd, 1)
    else:
        st = np.asarray(_np_arg(structure)).astype(bool)
    if st.ndim != nd:
        raise RuntimeError("structure and input must have same dimensionality")
    cen = [n // 2 for n in st.shape]
    offs = [tuple(int(a) - c for a, c in zip(p, cen)) for p in np.argwhere(st)]
    for _ in range(int(iterations)):
        r = np.empty(o.shape, dtype=object)
        for ix in np.ndindex(*o.shape):
            terms = []
            for f in offs:
                j = tuple(i - d for i, d in zip(ix, f))
                if all(0 <= a < n for a, n in zip(j, o.shape)):
                    terms.append(o[j])
                elif border_value:
                    terms.append(True)
            r[ix] = b_or(*terms)
        o = r
    res = SymArray(o, BOOL)
    if output is not None and not isinstance(output, type):
        output[...] = res
        return output
    return res


def convolve(input, weights, output=None, mode="reflect", cval=0.0, origin=0):
    x = lift(input)
    w = np.asarray(_np_arg(weights))
    if mode not in ("reflect", "nearest", "constant", "mirror", "wrap"):
        raise Inconclusive("ndimage.convolve mode")
    w = w[tuple(slice(None, None, -1) for _ in range(w.ndim))]
    pad = {"reflect": "symmetric", "nearest": "edge", "constant": "constant", "mirror": "reflect", "wrap": "wrap"}[mode]
    cen = [n // 2 if n % 2 else n // 2 - 1 for n in w.shape]
    pw = [(c, n - 1 - c) for c, n in zip(cen, w.shape)]
    kw = {"constant_values": cval} if mode == "constant" else {}
    p = npcall.np_pad(x, pw, mode=pad, **kw)
    r = None
    for ix in np.ndindex(*w.shape):
        if w[ix] == 0:
            continue
        s = p[tuple(slice(i, i + n) for i, n in zip(ix, x.shape))] * float(w[ix])
        r = s if r is None else r + s
    if x.dtype.kind == "b":
        return np.not_equal(np.trunc(r), 0)
    if x.dtype.kind in "ui":
        r = r.astype(x.dtype)
    return r.astype(x.dtype) if x.dtype.kind == "f" else r


def maximum_filter(input, size=None, footprint=None, output=None, mode="reflect", cval=0.0, origin=0, *, axes=None, _op="maximum"):
    x = lift(input)
    if footprint is not None:
        fp = np.asarray(_np_arg(footprint)).astype(bool)
    else:
        sz = _np_arg(size)
        fp = np.ones((int(sz),) * x.ndim if np.ndim(sz) == 0 else tuple(int(s) for s in sz), dtype=bool)
    if origin != 0 or axes is not None:
        raise Inconclusive("ndimage filter origin/axes")
    pad = {"reflect": "symmetric", "nearest": "edge", "constant": "constant", "mirror": "reflect", "wrap": "wrap"}[mode]
    pw = [(n // 2, n - 1 - n // 2) for n in fp.shape]
    kw = {"constant_values": cval} if mode == "constant" else {}
    p = npcall.np_pad(x, pw, mode=pad, **kw)
    f = A.scal.UFUNC[_op]
    d = A.native(x.dtype)
    out = np.empty(x.shape, dtype=object)
    offs = [tuple(int(a) for a in q) for q in np.argwhere(fp)]
    for ix in np.ndindex(*x.shape):
        vs = [p.o[tuple(i + j for i, j in zip(ix, o))] for o in offs]
        if d.kind == "b":
            out[ix] = b_or(*vs) if _op == "maximum" else b_and(*vs)
        else:
            r = vs[0]
            for v in vs[1:]:
                r = f(d, r, v)
            out[ix] = r
    return SymArray(out, x.dtype)


def minimum_filter(*a, **k):
    return maximum_filter(*a, _op="minimum", **k)


def bitfield_to_boolean_mask(bitfield, ignore_flags=0, flip_bits=None, good_mask_value=False, dtype=np.bool_,
                             flag_name_map=None):
    from astropy.nddata.bitmask import interpret_bit_flags

    dtype = npproxy._dtarg(dtype)
    bf = lift(bitfield)
    ig = interpret_bit_flags(ignore_flags, flip_bits=flip_bits, flag_name_map=flag_name_map)
    good = bool(good_mask_value)
    if ig is None:
        r = np.full(bf.shape, good_mask_value, dtype=dtype)
        return from_np(r)
    ig = int(ig)
    w = A.native(bf.dtype).itemsize * 8
    keep = (~ig) & ((1 << w) - 1)
    if bf.dtype.kind == "i" and keep >= 1 << (w - 1):
        keep -= 1 << w
    bad = np.not_equal(np.bitwise_and(bf, A.native(bf.dtype).type(keep)), 0)
    r = ~bad if good else bad
    return r if np.dtype(dtype) == BOOL else r.astype(dtype)


def view_as_windows(arr_in, window_shape, step=1):
    x = lift(arr_in)
    w = (int(window_shape),) * x.ndim if np.ndim(_np_arg(window_shape)) == 0 else tuple(int(i) for i in _np_arg(window_shape))
    st = (int(step),) * x.ndim if np.ndim(_np_arg(step)) == 0 else tuple(int(i) for i in _np_arg(step))
    if len(w) != x.ndim or any(a > b for a, b in zip(w, x.shape)):
        raise ValueError("`window_shape` is incompatible with `arr_in.shape`")
    v = np.lib.stride_tricks.sliding_window_view(x.o, w)[tuple(slice(None, None, k) for k in st)]
    return SymArray(v, x.dtype)


def sigma_clip(data, sigma=3, sigma_lower=None, sigma_upper=None, maxiters=5, cenfunc="median", stdfunc="std",
               axis=None, masked=True, return_bounds=False, copy=True, grow=False):
    """astropy.stats.sigma_clip of one array as a whole: drop what lies further than sigma std from the median, repeat"""
    if axis is not None or masked or return_bounds or grow or cenfunc not in ("median", "mean") or stdfunc != "std":
        raise Inconclusive("sigma_clip options")
    lo = sigma if sigma_lower is None else sigma_lower
    hi = sigma if sigma_upper is None else sigma_upper
    x = lift(data).reshape(-1)
    x = x[np.isfinite(x)]
    n = 0
    while maxiters is None or n < maxiters:
        x = lift(x)
        if x.size == 0:
            break
        n += 1
        cen = npcall.call_function(np.median if cenfunc == "median" else np.mean, (x,), {})
        std = npcall.call_function(np.std, (x,), {})
        keep = (x >= cen - std * lo) & (x <= cen + std * hi)
        k = [bool(b) for b in keep]
        if all(k):
            break
        x = x[np.array(k)]
    return x


class Sub(types.ModuleType):
    """module that overlays some attributes on a real one"""

    def __init__(self, name, real, **over):
        super().__init__(name)
        self.__dict__["_realmod"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self._realmod, n)


def modules(loader):
    import astropy.nddata.bitmask as bm
    import scipy
    import scipy.ndimage as nd

    ndm = Sub("scipy.ndimage", nd, binary_dilation=binary_dilation, convolve=convolve,
              maximum_filter=maximum_filter, minimum_filter=minimum_filter)
    scp = Sub("scipy", scipy, ndimage=ndm)
    bmm = Sub("astropy.nddata.bitmask", bm, bitfield_to_boolean_mask=bitfield_to_boolean_mask)
    import astropy.stats
    import skimage.util

    sku = Sub("skimage.util", skimage.util, view_as_windows=view_as_windows)
    ast = Sub("astropy.stats", astropy.stats, sigma_clip=sigma_clip)
    return {"skimage.util": sku, "astropy.stats": ast, "scipy.ndimage": ndm, "scipy": scp, "astropy.nddata.bitmask": bmm}
