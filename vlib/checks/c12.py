"""C12: fused batch normalization: batch statistics in training, momentum-averaged statistics in inference, one and the same folding."""
from .common import *

CASES = {'quick': 480, 'thorough': 8000}
REQUIRED = {'quick': {'train_steps': 400, 'infer': 400, 'stats': 400, 'agree': 60, 'grads': 60, 'mode_jit': 10, 'dense': 60, 'conv': 60, 'no_scale': 30, 'no_center': 40}, 'thorough': {'train_steps': 6000}}
RULE = ('single fused dense/convolution + batch normalization layers (every option, rank, stride, padding, group, momentum, epsilon) under histories of training-mode passes, inference passes, fit and predict; a shadow keeps the moving '
        'statistics; every output is compared with the reference folding; distinct = (layer kind, center, scale, bias, activation, operation bigram, mode)')
ASSUMPTIONS = ['float32: statistics within 1e-4 relative, outputs exact except within float error of a rounding boundary', 'batches of at least two samples']


def stats(n, x):
    """batch mean (bias included) and variance of the raw convolution"""
    L = n.layer
    w = L.kernel.numpy().astype(np.float64)
    if not n.p['scale']:
        w = gen.qkernel(n)
    z, _ = gen.linear_part(n, x, w, None)
    z = z.reshape(-1, z.shape[-1])
    m, v = z.mean(0), z.var(0)
    if n.p['use_bias']:
        m = m + L.bias.numpy().astype(np.float64)
    return m, v


def fold(n, mean, var):
    L, p = n.layer, n.p
    w = L.kernel.numpy().astype(np.float64)
    b = L.bias.numpy().astype(np.float64) if p['use_bias'] else None
    s = np.ones(w.shape[-1])
    if p['scale']:
        s = L.bn_gamma.numpy().astype(np.float64) / np.sqrt(var + p['epsilon'])
    w = w * s
    if p['center']:
        b = b - mean * s + L.bn_beta.numpy().astype(np.float64)
    return w, b


def expect(n, x, mean, var, rel):
    """(reference pre-activation, tolerance in which the float implementation has to be, elements that are exact)"""
    p = n.p
    w, b = fold(n, mean, var)
    fk, fa = ref.rbits(gen.fbw_of(n.layer.kq), p['kq']['bw_clip']), gen.act_f(n)
    flk, fla = p['kq']['rnd_strategy'] in ('floor', 3), is_floor(n)
    wq = ref.quant(w, fk, flk)
    amb = ref.near_boundary(w, fk, flk, rel, rel).any()
    bq = None
    if b is not None:
        fb = ref.rbits(np.max(gen.fbw_of(n.layer.paq), axis=tuple(range(fa.ndim - 1))), p['paq']['bw_clip'])
        bq = ref.quant(b, fb, fla)
        scale_b = np.abs(b) + (np.abs(mean) * np.abs(w).max() if p['center'] else 0) + 1
        t = b * 2.0 ** fb + (0 if fla else 0.5)
        amb |= bool((np.abs(t - np.round(t)) <= rel * scale_b * 2.0 ** fb + 1e-6).any())
    if amb:
        raise Reject('folded weight on a rounding boundary')
    z, mag = gen.linear_part(n, x, wq, bq)
    pre = ref.quant(z, fa, fla)
    t = z * 2.0 ** fa + (0 if fla else 0.5)
    unc = np.abs(t - np.round(t)) <= rel * (mag * 2.0 ** fa) + 1e-5
    return pre, unc, np.broadcast_to(2.0 ** -fa, pre.shape), mag


def judge(ctx, n, got, pre, unc, step, mag, key, what):
    act = ref.ACT[n.p['act']]
    want = act(pre)
    tol = 1e-5 * (mag + np.abs(pre) + 1) + np.where(unc, step * 1.001, 0)
    ctx.equal(got, want, key, f'{what} {n.desc()}', tol=tol)
    ctx.count('uncertain', unc.sum())


def case(ctx, rng):
    mode = pick_mode(ctx, rng, 0.08)
    G = gen.Gen(rng, bn_prob=1.0, rnds=('standard_round', 'floor', 'auto'), f_hi=4.5, kf_hi=5., groups=False, prune=0.1, regularizer=lambda: None)
    kind = int(rng.integers(1, 4))
    shape = G.rand_shape(kind)
    g = gen.Graph()
    ni = gen.Node('input', None, [], keras.layers.Input(shape=shape))
    g.inputs.append(ni)
    g.nodes.append(ni)
    q = G.add(g, 'signature', HGQ.Signature(1, 12, 5), [ni])
    n = G.dense(g, q) if kind == 1 or rng.random() < 0.25 else G.conv(g, q, kind - 1)
    g.model = m = keras.Model(ni.tensor, n.tensor)
    g.outputs = [n]
    G.randomize(g)
    p, L = n.p, n.layer
    ctx.count('dense' if n.op == 'densebn' else 'conv')
    if not p['scale']:
        ctx.count('no_scale')
    if not p['center']:
        ctx.count('no_center')
    set_mode(mode)
    ctx.step(n.desc())
    mm, mv = L.moving_mean.numpy().astype(np.float64), L.moving_variance.numpy().astype(np.float64)
    prev = 'new'
    for _ in range(int(rng.integers(2, 4 if mode == 'jit' else 6))):
        op = pick_seq(rng, ['train', 'train', 'infer', 'agree', 'fit', 'grads'])
        if mode == 'jit' and op == 'agree':
            op = 'train'
        B = int(rng.integers(2, 9))
        x = np.round(rng.normal(size=(B,) + shape) * rng.choice([0.5, 2.]) * 128) / 128
        x = np.clip(x, -16, 15.99).astype(np.float32)
        ctx.step(op)
        x64 = x.astype(np.float64)
        if op in ('train', 'agree', 'grads'):
            if op == 'grads':
                u = rng.normal(size=(B,) + n.shape).astype(np.float32)
                with tf.GradientTape() as t:
                    y = m(x, training=True)
                    s = tf.reduce_sum(y * u)
                    names = (['bn_beta'] if p['center'] else []) + (['bn_gamma'] if p['scale'] else []) + (['bias'] if p['use_bias'] else [])
                gr = dict(zip(names, t.gradient(s, [getattr(L, a) for a in names])))
                y = y.numpy()
            else:
                y = m(x, training=True).numpy()
            bm, bv = stats(n, x64)
            mm, mv = update(n, mm, mv, bm, bv)
            check_stats(ctx, n, mm, mv, f'{prev}->{op}')
            ctx.count('train_steps')
            if op == 'grads':
                gradients(ctx, n, x64, bm, bv, u, y, gr)
            try:
                e = expect(n, x64, bm, bv, 3e-5)
            except Reject:
                prev = op
                continue
            judge(ctx, n, y, *e, 'train_output', f'training output after {prev}')
            if op == 'agree':
                # with the moving statistics equal to those of the batch, inference computes what training computed
                save = [v.numpy() for v in (L.moving_mean, L.moving_variance)]
                if p['center']:
                    L.moving_mean.assign(bm.astype(np.float32))
                if p['scale']:
                    L.moving_variance.assign(bv.astype(np.float32))
                yi = m(x, training=False).numpy()
                tol = 2e-5 * (e[3] + np.abs(e[0]) + 1) + np.where(e[1], e[2] * 1.001, 0)
                ctx.equal(yi, y, 'train_inference', f'inference with the statistics of the batch vs training: {n.desc()}', tol=tol)
                L.moving_mean.assign(save[0])
                L.moving_variance.assign(save[1])
                ctx.count('agree')
        elif op == 'fit':
            # one epoch with a zero learning rate: the parameters stay, the statistics move batch by batch
            m.compile(keras.optimizers.SGD(0.0), 'mse', run_eagerly=mode == 'eager')
            nb = max(2, B // 2)
            m.fit(x, np.zeros((B,) + n.shape, np.float32), batch_size=nb, shuffle=False, verbose=0)
            for a in range(0, B, nb):
                bm, bv = stats(n, x64[a:a + nb])
                mm, mv = update(n, mm, mv, bm, bv)
            check_stats(ctx, n, mm, mv, f'{prev}->{op}')
            ctx.count('fit')
        # inference afterwards: uses (and keeps) the moving statistics, whatever the batch
        k = int(rng.integers(1, B + 1))
        r = rng.random()
        if mode == 'eager' and r < 0.3:
            yi = m.predict(x, batch_size=k, verbose=0)
        elif r < 0.7:
            yi = m(x, training=False).numpy()
        else:
            yi = m(x).numpy()
        check_stats(ctx, n, mm, mv, f'inference after {op}')
        mm, mv = L.moving_mean.numpy().astype(np.float64), L.moving_variance.numpy().astype(np.float64)
        try:
            e = expect(n, x64, mm, mv, 3e-6)
            judge(ctx, n, yi, *e, 'inference_output', f'inference after {op}')
            ctx.count('infer')
        except Reject:
            pass
        ctx.saw(n.op, p['center'], p['scale'], p['use_bias'], p['act'], prev, op, mode)
        prev = op
        if ctx.violations:
            return
    ctx.check(not L.moving_mean.trainable and not L.moving_variance.trainable, 'stats_trainable', n.desc())
    ctx.sample = {'layer': n.op, 'options': {k: p[k] for k in ('center', 'scale', 'use_bias', 'act', 'momentum', 'epsilon')}, 'history': ctx.log[1:]}


def update(n, mm, mv, bm, bv):
    a = n.p['momentum']
    if n.p['center']:
        mm = a * mm + (1 - a) * bm
    if n.p['scale']:
        mv = a * mv + (1 - a) * bv
    return mm, mv


def check_stats(ctx, n, mm, mv, what):
    L = n.layer
    ctx.equal(L.moving_mean.numpy(), mm, 'moving_mean', f'{what} {n.desc()}', tol=1e-4 * (np.abs(mm) + 1))
    ctx.equal(L.moving_variance.numpy(), mv, 'moving_variance', f'{what} {n.desc()}', tol=1e-4 * (np.abs(mv) + 1))
    ctx.count('stats')


def gradients(ctx, n, x, bm, bv, u, y, gr):
    """straight through the quantizers: beta gets the sum, gamma the sum against the normalized values; the bias is shifted away except for what the folding leaves of it"""
    p, L = n.p, n.layer
    if p['act'] == 'relu':
        if np.any(np.abs(y) < 1e-6) and np.any((np.abs(y) < 1e-4) & (y != 0)):
            return
        u = np.where(y > 0, u, 0)
    ax = tuple(range(u.ndim - 1))
    u64 = u.astype(np.float64)
    su = u64.sum(ax)
    mag = np.abs(u64).sum(ax) + 1
    if p['center']:
        ctx.equal(gr['bn_beta'].numpy(), su, 'beta_gradient', n.desc(), tol=1e-4 * mag)
    if p['scale']:
        w = L.kernel.numpy().astype(np.float64)
        z, zm = gen.linear_part(n, x, w, None)
        s = 1 / np.sqrt(bv + p['epsilon'])
        want = (u64 * (z - (bm if p['center'] else 0)) * s).sum(ax)
        ctx.equal(gr['bn_gamma'].numpy(), want, 'gamma_gradient', n.desc(), tol=1e-3 * (np.abs(u64 * (zm + np.abs(bm)) * s).sum(ax) + 1))
    if p['use_bias']:
        s = L.bn_gamma.numpy().astype(np.float64) / np.sqrt(bv + p['epsilon']) if p['scale'] else 1.0
        want = su * (1 - s) if p['center'] else su
        ctx.equal(gr['bias'].numpy(), want, 'bias_gradient', n.desc(), tol=1e-3 * (mag * (1 + np.abs(s)) + 1))
    ctx.count('grads')
