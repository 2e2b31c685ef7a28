from .. import gen, ref  # noqa: F401
from ..core import Reject, Violation  # noqa: F401
from ..env import HGQ, keras, np, set_mode, tf  # noqa: F401
from ..gen import *  # noqa: F401,F403
from HGQ import to_proxy_model, trace_minmax  # noqa: F401


def aslist(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def nps(x):
    return [np.asarray(v) for v in aslist(x)]


def sub(data, sl):
    return [d[sl] for d in data] if isinstance(data, list) else data[sl]


def nrows(data):
    return (data[0] if isinstance(data, list) else data).shape[0]


def cat(*ds):
    if isinstance(ds[0], list):
        return [np.concatenate([d[i] for d in ds]) for i in range(len(ds[0]))]
    return np.concatenate(ds)


def pick_mode(ctx, rng, p_jit):
    mode = 'jit' if rng.random() < p_jit else 'eager'
    ctx.count('mode_' + mode)
    return mode


def pick_seq(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def graph_sig(g):
    return [(n.op, n.shape, str(n.p.get('act')), str(n.p.get('paq', {}).get('rnd_strategy')), str(n.p.get('paq', {}).get('skip_dims'))) for n in g.all_nodes()]


def fresh(rng, n=32, **opts):
    """a random model and calibration data"""
    G = gen.Gen(rng, **opts)
    g = G.build()
    return G, g, G.data(g, n)


def count_ops(ctx, g):
    for n in g.all_nodes():
        ctx.count('op_' + n.op)


def exactness_guard(g, vals):
    """Reject when some intermediate cannot be exact in float32 (documented exception of bit-accuracy)."""
    for n in g.all_nodes():
        if n.op != 'input' and n.op != 'nested':
            gen.ref_node(n, [vals[i] for i in n.inputs])


def minmax(n):
    """recorded range of a layer's activation quantizer"""
    q = n.layer.paq
    return q._min.numpy().astype(np.float64), q._max.numpy().astype(np.float64)


def clean_rows(g, vals, ctx=None, limit=None):
    """(mask of usable batch rows, {node: expected quantized pre-activations}); rows where a float function sits on a rounding tie are not usable"""
    n0 = next(iter(vals.values())).shape[0]
    ok = np.ones(n0, bool)
    pres = {}
    for n in g.all_nodes():
        if n.op in ('input', 'nested'):
            continue
        pre, out, amb = gen.ref_node(n, [vals[i] for i in n.inputs], ctx)
        if n.op in HOPS:
            if amb is not None and amb.any():
                ok &= ~amb.reshape(n0, -1).any(1)
                pre = np.where(amb, vals[n], pre)
            pres[n] = pre
    return ok, pres


def unambiguous(g, data):
    """rows of data on which no float function sits on a rounding tie: there the result might depend on the batch size"""
    ok, _ = clean_rows(g, gen.capture(g, data))
    if ok.sum() < 2:
        raise Reject('ambiguous data')
    return sub(data, ok)


def capture_batched(g, data, bsz):
    parts = [gen.capture(g, sub(data, slice(i, i + bsz))) for i in range(0, nrows(data), bsz)]
    return {n: np.concatenate([p[n] for p in parts]) for n in parts[0]}


def within(n, pre, lo, hi):
    """rows of pre inside the group range [lo, hi]"""
    return ((pre >= lo) & (pre <= hi)).reshape(pre.shape[0], -1).all(1)


def bits_exact(n, pos_only=False):
    k, i, f = n.layer.paq.get_bits_exact(pos_only=pos_only)
    return [np.asarray(v).astype(int) for v in (k, i, f)]


def in_container(v, k, i, f):
    """are the values v representable in the (broadcast) fixed point containers?"""
    v = np.asarray(v, np.float64)
    k, i, f = (np.broadcast_to(np.asarray(a, np.float64), v.shape) for a in (k, i, f))
    zero = k + i + f <= 0
    t = v * 2.0 ** f
    ok = (t == np.floor(t)) & (v >= -k * 2.0 ** i) & (v <= 2.0 ** i - 2.0 ** -f)
    return np.where(zero, v == 0, ok)
