"""Reference of the bit-operation (BOPs) accounting: exact widths after calibration, and the differentiable training-time estimate."""
import numpy as np

from . import gen, ref
from .gen import HKERNEL, HOPS


def relu_out(n):
    return n.p.get('act') == 'relu'


def exact_widths(n, lo, hi):
    """total bits of every output element of an H node, from the calibrated (group) range"""
    f = np.broadcast_to(gen.act_f(n), lo.shape)
    w = np.zeros(lo.shape)
    for p in np.ndindex(*lo.shape):
        w[p] = sum(ref.kif_of_range(lo[p], hi[p], int(f[p]), pos_only=relu_out(n)))
    return np.broadcast_to(w, (1,) + n.shape)


def est_widths(n, lo, hi, df=0.0, frozen=None):
    """training-time width of every output element: bits of the largest magnitude + fractional bits (+ sign)"""
    f = np.broadcast_to(gen.act_f(n), lo.shape)
    m = np.maximum(hi, 0) if relu_out(n) else np.maximum(np.abs(lo), np.abs(hi))
    i = np.floor(np.log2(m)) + 1
    k = np.zeros(lo.shape) if relu_out(n) else (lo < 0)
    bw = i + f + k
    mask = (bw > 0) if frozen is None else frozen
    return np.where(mask, bw + df, 0.0), mask


def exact_kernel(n, q):
    w = np.zeros(q.shape)
    for p in np.ndindex(*q.shape):
        _, i, f = ref.bits_of_weight(q[p])
        w[p] = i + f
    return w


def kq_axes(n):
    s, r = n.p['kq']['skip_dims'], len(n.layer.kernel.shape)
    if s is None or s == 'none':
        return ()
    if isinstance(s, str):
        return {'all': tuple(range(r)), 'batch': (0,), 'except_last': tuple(range(r - 1)), 'except_1st': (0,) + tuple(range(2, r))}[s]
    return tuple(s)


def est_kernel(n, q):
    """(group int bits + f, mask) before broadcasting to the kernel shape"""
    f = ref.rbits(gen.fbw_of(n.layer.kq), n.p['kq']['bw_clip'])
    i = np.floor(np.log2(np.abs(q))) + 1
    ax = kq_axes(n)
    if ax:
        i = i.max(axis=ax, keepdims=True)
    bw = i + f
    return bw, bw > 0


def contract(n, in_bw, k_bw):
    """bit operations of a kernel layer given the widths of its inputs and weights"""
    if n.op.startswith('dense'):
        return float(np.sum(in_bw @ k_bw))
    p = n.p
    t = float(np.sum(ref.conv(in_bw, k_bw, p['strides'], p['dilation'], p['padding'], p['groups'])))
    return t * p['parallel_factor'] / int(np.prod(n.shape[:-1]))


def propagate(g, widths, table=None):
    """widths of every node's output; `widths(n)` for H nodes"""
    table = {} if table is None else table
    for n in g.nodes:
        if n.op == 'input':
            continue
        if n.op == 'nested':
            propagate(n.p['graph'], widths, table)
            continue
        if n.op in HOPS:
            table[n] = widths(n)
            continue
        if n.op == 'signature':
            table[n] = np.broadcast_to(np.asarray(n.p['b'], np.float64), (1,) + n.shape)
            continue
        xs = [table[i] for i in n.inputs if i in table]
        if len(xs) != len(n.inputs):
            continue  # behind a nested model: nothing reads it
        if n.op in ('maxpool', 'avgpool'):
            table[n] = ref.pool(xs[0], n.p['size'], n.p['strides'], n.p['padding'], 'max')
        else:
            table[n] = gen.ref_node(n, xs)[1]
    return table


def exact_bops(g, pres, qk):
    """{node: exact BOPs}"""
    rng = {n: gen.group_range(n, pres[n]) for n in pres}
    t = propagate(g, lambda n: exact_widths(n, *rng[n]))
    return {n: (contract(n, t[n.inputs[0]], exact_kernel(n, qk[n])) if n.op in HKERNEL else 0.0) for n in g.hnodes()}
