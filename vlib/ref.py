"""Independent reference semantics (numpy float64 / integers). Nothing here imports the code under test."""
import itertools
import math

import numpy as np


def rbits(fbw, clip=(-23, 23)):
    """Effective integer number of fractional bits."""
    f = np.asarray(fbw, dtype=np.float64)
    if clip is not None:
        f = np.clip(f, *clip)
    return np.round(f)  # half to even


def quant(x, f, floor=False):
    """x on the grid 2^-f: round to nearest (half up) or floor."""
    s = 2.0 ** np.asarray(f, dtype=np.float64)
    x = np.asarray(x, dtype=np.float64)
    return np.floor(x * s + (0.0 if floor else 0.5)) / s


def near_boundary(x, f, floor=False, rel=1e-5, abs_=1e-6):
    """Where a float32 evaluation of x may legitimately land on the neighbouring grid point."""
    t = np.asarray(x, np.float64) * 2.0 ** np.asarray(f, np.float64) + (0.0 if floor else 0.5)
    d = np.abs(t - np.round(t))
    return d <= rel * np.abs(t) + abs_


# ---------------------------------------------------------------- containers
def kif_of_range(lo, hi, f, pos_only=False):
    """Smallest fixed-point container (k, i, f) for values on the 2^-f grid within [lo, hi]; (0,0,0) if only zero."""
    lo, hi, f = int(round(lo * 2.0 ** f)), int(round(hi * 2.0 ** f)), int(f)
    if pos_only:
        lo, hi = max(lo, 0), max(hi, 0)
    if lo == 0 and hi == 0:
        return 0, 0, 0
    k = int(lo < 0)
    n = 0  # magnitude bits
    while hi > 2 ** n - 1 or lo < -(2 ** n):
        n += 1
    if k + n == 0:
        return 0, 0, 0
    return k, n - f, f


def bits_of_weight(w):
    """(k, i, f): span between the highest and the lowest set bit of one dyadic number."""
    w = float(w)
    if w == 0:
        return 0, 0, 0
    m, e = math.frexp(abs(w))  # abs(w) = m * 2^e
    n = int(m * 2 ** 53)
    e -= 53
    tz = (n & -n).bit_length() - 1
    n >>= tz
    e += tz
    return int(w < 0), e + n.bit_length(), -e


# ---------------------------------------------------------------- tensor ops
def pad_amounts(n, k, s, d, padding):
    ke = (k - 1) * d + 1
    if padding == 'valid':
        return (n - ke) // s + 1, 0, 0
    o = -(-n // s)
    tot = max((o - 1) * s + ke - n, 0)
    return o, tot // 2, tot - tot // 2


def conv(x, w, strides, dilation, padding, groups=1):
    """x: (N, *sp, C), w: (*k, C/groups, F)"""
    x, w = np.asarray(x, np.float64), np.asarray(w, np.float64)
    nd = w.ndim - 2
    outs, pads = [], [(0, 0)]
    for i in range(nd):
        o, a, b = pad_amounts(x.shape[1 + i], w.shape[i], strides[i], dilation[i], padding)
        outs.append(o)
        pads.append((a, b))
    xp = np.pad(x, pads + [(0, 0)])
    F = w.shape[-1]
    cg, fg = w.shape[-2], F // groups
    y = np.zeros((x.shape[0], *outs, F))
    for ks in itertools.product(*[range(w.shape[i]) for i in range(nd)]):
        sl = tuple(slice(ks[i] * dilation[i], ks[i] * dilation[i] + (outs[i] - 1) * strides[i] + 1, strides[i]) for i in range(nd))
        xs = xp[(slice(None),) + sl]
        for g in range(groups):
            y[..., g * fg:(g + 1) * fg] += xs[..., g * cg:(g + 1) * cg] @ w[ks][:, g * fg:(g + 1) * fg]
    return y


def pool(x, size, strides, padding, kind):
    x = np.asarray(x, np.float64)
    nd = len(size)
    outs, starts = [], []
    for i in range(nd):
        o, a, _ = pad_amounts(x.shape[1 + i], size[i], strides[i], 1, padding)
        outs.append(o)
        starts.append(a)
    y = np.zeros((x.shape[0], *outs, x.shape[-1]))
    for pos in itertools.product(*[range(o) for o in outs]):
        sl = tuple(slice(max(pos[i] * strides[i] - starts[i], 0), pos[i] * strides[i] - starts[i] + size[i]) for i in range(nd))
        win = x[(slice(None),) + sl].reshape(x.shape[0], -1, x.shape[-1])
        y[(slice(None),) + pos] = win.max(1) if kind == 'max' else win.mean(1)
    return y


ACT = {
    'linear': lambda x: x,
    'relu': lambda x: np.maximum(x, 0),
    'tanh': np.tanh,
    'sigmoid': lambda x: 1 / (1 + np.exp(-x)),
    'softplus': lambda x: np.log1p(np.exp(-np.abs(x))) + np.maximum(x, 0),
    'softsign': lambda x: x / (1 + np.abs(x)),
    'elu': lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0))),
    'square': lambda x: x * x,
    'halfabs': lambda x: np.abs(x) / 2,
    'negate': lambda x: -x,
}


# ---------------------------------------------------------------- fixed point (ap_fixed) on Python integers
def ap_round(num, sh, mode):
    """Round num / 2^sh (exact integers) to an integer under an ap_fixed quantization mode."""
    if sh <= 0:
        return num << (-sh)
    q, r = num >> sh, num & ((1 << sh) - 1)
    half = 1 << (sh - 1)
    if mode == 'TRN':
        return q
    if mode == 'TRN_ZERO':
        return q + 1 if (num < 0 and r) else q
    if r > half:
        return q + 1
    if r < half:
        return q
    if mode == 'RND':            # ties to +inf
        return q + 1
    if mode == 'RND_MIN_INF':
        return q
    if mode == 'RND_ZERO':
        return q + 1 if num < 0 else q
    if mode == 'RND_INF':
        return q if num < 0 else q + 1
    if mode == 'RND_CONV':
        return q + (q & 1)
    raise ValueError(mode)


def ap_overflow(v, k, b, mode):
    hi = 2 ** (b - k) - 1
    lo = -(hi + 1) if k else 0
    if lo <= v <= hi and mode != 'SAT_SYM':
        return v
    if mode == 'SAT':
        return hi if v > hi else lo
    if mode == 'SAT_ZERO':
        return 0
    if mode == 'SAT_SYM':
        lo = -hi if k else 0
        return min(max(v, lo), hi)
    if mode == 'WRAP':
        return (v - lo) % (hi - lo + 1) + lo
    raise ValueError(mode)


def ap_fixed(x, k, b, i, rnd, sat):
    """Exact value of ap_[u]fixed<b, i, rnd, sat>(x) for a float x (python ints)."""
    if b == 0:
        return 0.0
    m, e = math.frexp(float(x))
    num, e = int(m * 2 ** 53), e - 53
    f = b - i
    # want num * 2^e * 2^f rounded
    v = ap_round(num, -(e + f), rnd)
    return float(ap_overflow(v, k, b, sat)) * 2.0 ** -f
