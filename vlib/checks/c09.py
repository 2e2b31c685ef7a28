"""C09: the resource estimate that regularizes training: value, upper bound on the exact count, loss term and its gradients."""
from .common import *
from .. import bwref
from HGQ import FreeBOPs
from HGQ.utils import MonoL1

CASES = {'quick': 420, 'thorough': 6000}
REQUIRED = {'quick': {'estimates': 200, 'grads': 1500, 'nonzero_grads': 400, 'shared_groups': 200, 'upper_bound': 200, 'training_mode': 60, 'mode_jit': 4}, 'thorough': {'estimates': 2500}}
RULE = ('random calibrated models with random regularization strengths; per layer: estimate in inference and training mode, estimate >= exact count, total loss, and the gradient of the loss with respect to sampled '
        'bitwidths against a finite difference of the reference; distinct = (layer kinds, entry point, sharing pattern) with a non-zero penalty gradient')
ASSUMPTIONS = ['float32 logarithms: magnitudes between 2^-12 and 2^12', 'in training mode a quantized weight that is exactly a power of two carries float noise: both neighbouring widths are accepted',
               'activation-bitwidth gradients are not judged through pooling layers (ties)']


def case(ctx, rng):
    mode = pick_mode(ctx, rng, 0.05)
    l1 = {}

    def reg():
        v = float(rng.integers(0, 16)) / 2048
        return MonoL1(v)

    det = dict(rnds=('standard_round', 'floor', 'auto'), bn=False) if rng.random() < 0.5 else {}
    G = gen.Gen(rng, beta=True, **det, regularizer=reg, depth=(1, 2) if mode == 'jit' else (1, 4), groups=False, dropout=False, dilation=False, prune=0.25, pool=bool(rng.random() < 0.4))
    g = G.build()
    set_mode(mode)
    if not g.hnodes():
        raise Reject('no quantizer')
    for n in g.hnodes():
        l1[n] = (n.p['kq']['regularizer'].l1 if n.op in HKERNEL else 0., n.p['paq']['regularizer'].l1)
    if any(n.p.get('dilation') and max(n.p['dilation']) > 1 for n in g.all_nodes()):
        raise Reject('dilated')
    x = G.data(g, 24)
    ctx.step(g.desc())
    exact_total = trace_minmax(g.model, x, verbose=False, bsz=int(rng.integers(5, 64)))
    exact = {n: float(n.layer.bops.numpy()) for n in g.hnodes()}
    vals = gen.capture(g, x)
    _, pres = clean_rows(g, vals)
    qk = {n: gen.qkernel(n, ctx) for n in g.hnodes() if n.op in HKERNEL}
    ranges = {n: gen.group_range(n, pres[n]) for n in pres}
    for n in g.hnodes():
        m = np.abs(np.concatenate([ranges[n][0].ravel(), ranges[n][1].ravel()] + ([qk[n].ravel()] if n in qk else [])))
        m = m[m > 0]
        if m.size and (m.min() < 2.0 ** -12 or m.max() >= 2.0 ** 12):
            raise Reject('magnitude where float32 logarithms are inexact')
    est, masks = estimate(g, ranges, qk)
    beta = {n: float(n.layer.beta.numpy()) for n in g.hnodes()}
    # --- inference mode: value, loss, gradients
    variables = [(n, which, q.fbw) for n in g.hnodes() for which, q in (('k', getattr(n.layer, 'kq', None)), ('a', n.layer.paq)) if q is not None]
    with tf.GradientTape() as tape:
        g.model(x if isinstance(x, list) else tf.constant(x), training=False)
        losses = g.model.losses
        total = tf.add_n(losses)
    grads = tape.gradient(total, [v for _, _, v in variables], unconnected_gradients='zero')
    want_loss = 0.0
    for n in g.hnodes():
        got = float(n.layer.bops.numpy())
        if n.op in HKERNEL:
            ctx.check(abs(got - est[n]) <= 1e-4 * est[n] + 1e-3, 'estimate', lambda: f'{n.desc()}: estimate {got} want {est[n]}')
            ctx.check(got >= exact[n] * (1 - 1e-4) - 1e-3, 'upper_bound', lambda: f'{n.desc()}: estimate {got} below the exact count {exact[n]}')
            ctx.count('estimates')
            ctx.count('upper_bound')
            want_loss += beta[n] * est[n] + l1[n][0] * float(gen.fbw_of(n.layer.kq).sum())
        want_loss += l1[n][1] * float(gen.fbw_of(n.layer.paq).sum())
    ctx.check(abs(float(total) - want_loss) <= 1e-4 * abs(want_loss) + 1e-4, 'loss', f'loss {float(total)} want {want_loss}')
    fb, logs = FreeBOPs(), {}
    fb.set_model(g.model)
    fb.on_epoch_end(0, logs)
    ctx.check(abs(logs['bops'] - sum(est.values())) <= 1e-4 * sum(est.values()) + 1e-2, 'free_bops', f"{logs['bops']} want {sum(est.values())}")
    pools = any(n.op in ('maxpool', 'avgpool') for n in g.all_nodes())
    nz = 0
    for (n, which, v), gr in zip(variables, grads):
        if which == 'a' and pools:
            continue
        gr = np.asarray(tf.convert_to_tensor(gr))
        size = gr.size
        deg = degeneracy(n, which)
        pen = beta
        for _ in range(min(4, size)):
            p = tuple(int(rng.integers(s)) for s in gr.shape)
            d = sum(pen[m] * e for m, e in derivative(g, ranges, qk, masks, n, which, p).items()) / np.sqrt(deg)
            want = d + l1[n][0 if which == 'k' else 1]
            ctx.check(abs(float(gr[p]) - want) <= 2e-3 * abs(want) + 2e-5, f'gradient_{which}', lambda: f'{n.desc()} {which}{p}: gradient {gr[p]} want {want} (regularizer {l1[n]}, sharing {deg})')
            ctx.count('grads')
            if d > 0:
                nz += 1
                ctx.count('nonzero_grads')
            if deg > 1:
                ctx.count('shared_groups')
    # --- training mode
    if not any(n.op.endswith('bn') for n in g.hnodes()) and all(n.p[q]['rnd_strategy'] in ('standard_round', 'floor', 'auto') for n in g.hnodes() for q in ('paq', 'kq') if q in n.p):
        lo_hi(ctx, g, x, ranges, qk, mode)
    if nz:
        ctx.saw(tuple(sorted({n.op for n in g.all_nodes()})), mode, pools)
    ctx.sample = {'layers': {n.name: {'estimate': round(e, 2), 'exact': exact[n], 'beta': beta[n]} for n, e in list(est.items())[:4]}, 'loss': want_loss, 'exact_total': float(exact_total)}


def degeneracy(n, which):
    """how many values share one bitwidth"""
    if which == 'a':
        return int(np.prod(n.shape)) // int(np.prod(n.layer.paq.fbw.shape))
    d = int(np.prod(n.layer.kernel.shape)) // int(np.prod(n.layer.kq.fbw.shape))
    return d * (n.p['parallel_factor'] if n.op.startswith('conv') else 1)


def estimate(g, ranges, qk, only=None, delta=None, masks=None):
    """{kernel node: estimated BOPs}; optionally with the bitwidth element `only` = (node, which, index) moved by delta (rounding frozen)"""
    new = {}

    def widths(n):
        lo, hi = ranges[n]
        d = np.zeros(n.layer.paq.fbw.shape)
        if only is not None and only[0] is n and only[1] == 'a':
            d[only[2]] = delta
        bw, m = bwref.est_widths(n, lo, hi, np.broadcast_to(d, lo.shape), None if masks is None else masks[n, 'a'])
        new[n, 'a'] = m
        return np.broadcast_to(bw, (1,) + n.shape)

    t = bwref.propagate(g, widths)
    r = {}
    for n in g.hnodes():
        if n.op not in HKERNEL:
            continue
        bw, m = bwref.est_kernel(n, qk[n])
        if masks is not None:
            m = masks[n, 'k']
        new[n, 'k'] = m
        if only is not None and only[0] is n and only[1] == 'k':
            d = np.zeros(bw.shape)
            d[only[2]] = delta
            bw = bw + d
        r[n] = bwref.contract(n, t[n.inputs[0]], np.broadcast_to(np.where(m, bw, 0.), qk[n].shape))
    return (r, new) if masks is None else r


def derivative(g, ranges, qk, masks, n, which, p):
    a = estimate(g, ranges, qk, (n, which, p), 0.5, masks)
    b = estimate(g, ranges, qk, (n, which, p), -0.5, masks)
    return {m: a[m] - b[m] for m in a}


def lo_hi(ctx, g, x, ranges, qk, mode):
    """training-mode estimate: exactly determined up to the neighbours of powers of two"""
    g.model(x, training=True)
    # float noise of the training pass may widen the records: take them as they are now (C03 judges them)
    ranges = {n: minmax(n) for n in ranges}
    for n in g.hnodes():
        if n.op not in HKERNEL:
            continue
        got = float(n.layer.bops.numpy())
        b = []
        for sgn in (-1, 1):
            r2 = {m: (lo * (1 + sgn * 1e-6), hi * (1 + sgn * 1e-6)) for m, (lo, hi) in ranges.items()}
            q2 = {m: q * (1 + sgn * 1e-4) for m, q in qk.items()}
            b.append(estimate(g, r2, q2)[0][n])
        ctx.check(b[0] * (1 - 1e-3) - 1e-2 <= got <= b[1] * (1 + 1e-3) + 1e-2, 'training_estimate', lambda: f'{n.desc()}: {got} not in {b}')
        ctx.count('training_mode')
