"""C02: quantization during training: values of every rounding strategy, straight-through and bitwidth gradients."""
from .common import *

CASES = {'quick': 1000, 'thorough': 8000}
REQUIRED = {'quick': {'standalone': 150, 'layer': 80, 'stochastic_cells': 20, 'noise_cells': 15, 'mode_jit': 60, 'frozen': 10}, 'thorough': {'standalone': 2000, 'layer': 1000}}
RULE = ('training-mode calls of quantizers and single layers over random shapes, homogeneous dims, strategies, real-valued bitwidths, exact/inexact step; distinct = (entry, strategy, homogeneous dims, '
        'exactness, mode) combinations whose value, input gradient and bitwidth gradient were all compared with the reference')
ASSUMPTIONS = ['stochastic strategies are judged per value (neighbouring grid points / half a step) and by their mean and variance within 8 standard errors']
LN2 = np.log(2.0)


def case(ctx, rng):
    r = rng.random()
    mode = pick_mode(ctx, rng, 0.2)
    if r < 0.5:
        standalone(ctx, rng, mode)
    elif r < 0.62:
        statistics(ctx, rng, mode)
    elif r < 0.94:
        layer(ctx, rng, mode)
    else:
        frozen(ctx, rng)


def gsum(a, gshape):
    ax = tuple(i for i, (m, n) in enumerate(zip(gshape, a.shape)) if m == 1 and n != 1)
    return a.sum(axis=ax, keepdims=True) if ax else a


def standalone(ctx, rng, mode):
    from .c01 import group_shape, hostile
    rank = int(rng.integers(1, 4))
    shape = tuple(int(v) for v in rng.integers(1, 6, size=rank))
    sd = pick_seq(rng, ['all', 'batch', 'except_last', 'none', None, (0,), (rank - 1,)])
    strat = int(rng.integers(0, 4))
    exact = bool(rng.random() < 0.7)
    q = HGQ.HGQ(3., sd, pick_seq(rng, [strat, ['standard_round', 'stochastic_round', 'fast_uniform_noise_injection', 'floor'][strat]]), exact_q_value=exact, minmax_record=True)
    gs = group_shape(shape, sd)
    set_mode(mode)
    q.build(shape)
    fbw = rng.uniform(-4, 7, size=gs).astype(np.float32)
    q.fbw.assign(fbw)
    f = ref.rbits(fbw) if exact else fbw.astype(np.float64)
    s = 2.0 ** f
    x = hostile(rng, shape, np.round(f))
    up = rng.integers(-4, 5, size=shape).astype(np.float32)
    xt = tf.constant(x)
    with tf.GradientTape() as t:
        t.watch(xt)
        y = q(xt, training=True, record_minmax=pick_seq(rng, [True, False]))
        L = tf.reduce_sum(y * up)
    gx, gf = t.gradient(L, [xt, q.fbw])
    y, gx, gf = y.numpy().astype(np.float64), gx.numpy(), gf.numpy()
    x64 = x.astype(np.float64)
    step = np.broadcast_to(1 / s, shape)
    t_ = x64 * s
    tol = step * 2.0 ** -15 + np.abs(x64) * 2.0 ** -20
    desc = f'shape={shape} skip={sd} strat={strat} exact={exact} mode={mode}'
    if strat in (0, 3):
        want = np.floor(t_ + (0.5 if strat == 0 else 0)) / s
        near = ref.near_boundary(x, f, strat == 3) if not exact else ref.near_boundary(x, f, strat == 3, 2e-7, 0) & ~(t_ == np.round(t_)) if strat == 0 else np.zeros(shape, bool)
        ok = (np.abs(y - want) <= tol) | (near & (np.abs(y - want) <= step * 1.001 + tol)) | (np.abs(t_) > 2 ** 22)
        ctx.check(ok.all(), 'train_value', lambda: f'{desc}: x={x[~ok][:2]} got {y[~ok][:2]} want {np.broadcast_to(want, shape)[~ok][:2]} f={np.broadcast_to(f, shape)[~ok][:2]}')
    elif strat == 1:
        lo, hi = np.floor(t_) / s, np.ceil(t_) / s
        ok = (np.abs(y - lo) <= tol) | (np.abs(y - hi) <= tol) | (np.abs(t_) > 2 ** 22) | ((np.abs(t_ - np.round(t_)) < 1e-4 * (1 + np.abs(t_))) & (np.abs(y - x64) <= step * 1.01))
        ctx.check(ok.all(), 'stochastic_value', lambda: f'{desc}: x={x[~ok][:2]} got {y[~ok][:2]}')
    else:
        small = np.abs(t_) <= 0.499
        ok = np.where(small, np.abs(y) <= tol, np.abs(y - x64) <= step * 0.5001 + tol) | (np.abs(t_) > 2 ** 22)
        ctx.check(ok.all(), 'noise_value', lambda: f'{desc}: x={x[~ok][:2]} got {y[~ok][:2]} step={step[~ok][:2]}')
    ctx.equal(gx, up, 'input_gradient', desc)
    sel = np.abs(t_) <= 2 ** 18
    e = np.where(sel, y - x64, 0)
    wantg = gsum(-LN2 * up * (y - x64), gs)
    tolg = gsum(np.abs(up) * (tol * 4 + np.abs(e) * 1e-4), gs) + 1e-12
    bad_group = gsum((~sel).astype(float), gs) > 0
    okg = (np.abs(gf - wantg) <= tolg) | bad_group
    ctx.check(okg.all(), 'bitwidth_gradient', lambda: f'{desc}: got {gf[~okg][:3]} want {wantg[~okg][:3]}')
    ctx.count('standalone')
    if (e != 0).any():
        ctx.saw('standalone', strat, str(sd), exact, mode)
    ctx.sample = {'entry': 'quantizer', 'desc': desc, 'x': float(x.ravel()[0]), 'y': float(y.ravel()[0]), 'grad_fbw': float(gf.ravel()[0])}


def statistics(ctx, rng, mode):
    """per-cell frequencies of the stochastic strategies"""
    strat = int(rng.integers(1, 3))
    N = 4096
    cells = int(rng.integers(1, 6))
    q = HGQ.HGQ(0., (0,), strat)
    set_mode(mode)
    q.build((N, cells))
    f = rng.integers(-2, 5, size=(1, cells)).astype(np.float32)
    q.fbw.assign(f)
    p = rng.uniform(0.05, 0.95, size=(1, cells))
    if strat == 2:
        p = rng.uniform(-0.4, 0.4, size=(1, cells))
    n = rng.integers(1, 20, size=(1, cells)) * rng.choice([-1, 1], size=(1, cells))
    n = np.where(n == -1, -3, n) + (strat == 2) * np.sign(n)
    x = ((n + p) * 2.0 ** -f).astype(np.float32)
    y = q(tf.constant(np.repeat(x, N, 0)), training=True).numpy().astype(np.float64)
    t = y * 2.0 ** f.astype(np.float64)
    px = x.astype(np.float64) * 2.0 ** f - n
    if strat == 1:
        up = (np.abs(t - (n + 1)) < 1e-3).mean(0)
        dn = (np.abs(t - n) < 1e-3).mean(0)
        ctx.check(np.all(np.abs(up + dn - 1) < 1e-12), 'stochastic_support', f'{t[:3]} {n}')
        se = np.sqrt(px[0] * (1 - px[0]) / N)
        ctx.check(np.all(np.abs(up - px[0]) <= 8 * se), 'stochastic_probability', f'fraction {px[0]} rounded up with frequency {up}')
        # independent across samples
        if N > 1:
            u = (t - n) - px
            corr = (u[1:] * u[:-1]).mean(0) / np.maximum(px[0] * (1 - px[0]), 1e-9)
            ctx.check(np.all(np.abs(corr) < 8 / np.sqrt(N)), 'stochastic_independent', f'lag correlation {corr}')
        ctx.count('stochastic_cells', cells)
    else:
        d = t - (n + px)
        ctx.check(np.all(np.abs(d) <= 0.501), 'noise_bound', f'{np.abs(d).max()}')
        ctx.check(np.all(np.abs(d.mean(0)) <= 8 * np.sqrt(1 / 12 / N) + 1e-4), 'noise_mean', f'{d.mean(0)}')
        ctx.check(np.all(np.abs(d.var(0) - 1 / 12) <= 8 * np.sqrt(1 / 180 / N) + 1e-4), 'noise_variance', f'{d.var(0)}')
        ctx.count('noise_cells', cells)
    ctx.saw('statistics', strat, mode)


def layer(ctx, rng, mode):
    """one kernel layer under a gradient tape: output, input/kernel/bias/bitwidth gradients"""
    G = gen.Gen(rng, bn=False, rnds=('standard_round', 'floor', 'auto'), f_hi=5, groups=False)
    kind = int(rng.integers(1, 4))
    shape = G.rand_shape(kind)
    xin = keras.layers.Input(shape=shape)
    g = gen.Graph()
    ni = gen.Node('input', None, [], xin)
    g.inputs.append(ni)
    g.nodes.append(ni)
    xin0, ni = xin, G.add(g, 'signature', HGQ.Signature(1, 12, 5), [ni])
    n = G.dense(g, ni) if kind == 1 or rng.random() < 0.2 else G.conv(g, ni, kind - 1)
    G.randomize(g)
    m = keras.Model(xin0, n.tensor)
    L, p = n.layer, n.p
    B = int(rng.integers(1, 5))
    x = rng.normal(size=(B,) + shape).astype(np.float32)
    set_mode(mode)
    up = rng.integers(-3, 4, size=(B,) + n.shape).astype(np.float32)
    xt = tf.constant(x)
    ws = [L.kernel, L.kq.fbw, L.paq.fbw] + ([L.bias] if p['use_bias'] else [])
    # a first inference pass on a layer without recorded range must not matter
    with tf.GradientTape() as t:
        t.watch(xt)
        y = m(xt, training=True)
        loss = tf.reduce_sum(y * up)
    grads = t.gradient(loss, [xt] + ws)
    gx, gk, gkf, gaf = [v.numpy().astype(np.float64) for v in grads[:4]]
    kq = gen.qkernel(n)
    bq = gen.qbias_candidates(n)[0] if p['use_bias'] else None
    z, mag = gen.linear_part(n, x.astype(np.float64), kq, bq)
    f = gen.act_f(n)
    pre = ref.quant(z, f, is_floor(n))
    # training-mode values carry the float error of the gradient trick; skip cases on rounding ties
    amb = ref.near_boundary(z, f, is_floor(n), 1e-4, 1e-4)
    if amb.any():
        raise Reject('pre-activation on a rounding tie')
    out = ref.ACT[p['act']](pre)
    scale = np.abs(z).max() + 1 + 8 * np.max(2.0 ** -f)
    tol = scale * 1e-5
    ctx.equal(y.numpy(), out, 'layer_train_value', n.desc(), tol=tol)
    mask = (pre > 0) if p['act'] == 'relu' else np.ones(pre.shape, bool)
    if p['act'] == 'relu' and (pre == 0).any():
        # value error of a few ulp decides relu's slope at zero
        mask_unc = pre == 0
        up = np.where(mask_unc, 0, up)
        with tf.GradientTape() as t:
            t.watch(xt)
            loss = tf.reduce_sum(m(xt, training=True) * up)
        grads = t.gradient(loss, [xt] + ws)
        gx, gk, gkf, gaf = [v.numpy().astype(np.float64) for v in grads[:4]]
    ge = up.astype(np.float64) * mask
    # kernel gradient through the (linear) contraction
    wantk = np.zeros(kq.shape)
    for idx in np.ndindex(*kq.shape):
        e = np.zeros(kq.shape)
        e[idx] = 1
        wantk[idx] = (gen.linear_part(n, x.astype(np.float64), e, None)[0] * ge).sum()
    tk = 1e-4 * (np.abs(wantk).max() + 1)
    ctx.equal(gk, wantk, 'kernel_gradient', n.desc(), tol=tk)
    gsh = tuple(L.kq.fbw.shape)
    w = L.kernel.numpy().astype(np.float64)
    wkf = gsum(-LN2 * wantk * (kq - w), gsh) if gsh else 0
    ctx.equal(gkf, wkf, 'kernel_bitwidth_gradient', n.desc(), tol=1e-3 * (np.abs(gsum(np.abs(wantk * (kq - w)), gsh)) + 1e-2))
    # input gradient: probe some positions
    flat = [int(rng.integers(0, d)) for d in x.shape]
    e = np.zeros(x.shape)
    e[tuple(flat)] = 1
    ctx.check(abs(gx[tuple(flat)] - (gen.linear_part(n, e, kq, None)[0] * ge).sum()) <= 1e-3 * (1 + np.abs(gx).max()), 'input_gradient_layer', n.desc())
    ash = tuple(L.paq.fbw.shape)
    waf = gsum(-LN2 * ge * (pre - z), ash)
    if p['use_bias']:
        b = L.bias.numpy().astype(np.float64)
        gb = grads[4].numpy()
        wb = ge.reshape(-1, b.size).sum(0)
        ctx.equal(gb, wb, 'bias_gradient', n.desc(), tol=1e-4 * (1 + np.abs(wb)))
        ctx.count('bias')
        # the bias shares the activation bitwidth (largest in its channel); with one bitwidth per channel the sum is unambiguous
        if int(np.prod(ash[:-1])) == 1:
            db = -LN2 * wb * (bq - b)
            waf = waf + (db.reshape(ash) if ash[-1] == b.size else db.sum().reshape(ash))
            ctx.equal(gaf, waf, 'activation_bitwidth_gradient', n.desc(), tol=1e-3 * (gsum(np.abs(ge * (pre - z)), ash) + np.abs(db).sum() + 1e-2))
    else:
        ctx.equal(gaf, waf, 'activation_bitwidth_gradient', n.desc(), tol=1e-3 * (gsum(np.abs(ge * (pre - z)), ash) + 1e-2))
    ctx.count('layer')
    ctx.saw('layer', n.op, p['act'], p['use_bias'], str(p['kq']['skip_dims']), str(p['paq']['skip_dims']), mode)


def frozen(ctx, rng):
    """non-trainable bitwidths never move while trainable ones may; weights do train"""
    tk, ta = bool(rng.integers(2)), bool(rng.integers(2))
    kc, pc = HGQ.get_default_kq_conf(), HGQ.get_default_paq_conf()
    kc.update(trainable=tk)
    pc.update(trainable=ta)
    n_in, units = int(rng.integers(2, 6)), int(rng.integers(1, 5))
    xin = keras.layers.Input(shape=(n_in,))
    q = HGQ.HQuantize(paq_conf=dict(pc))
    d = HGQ.HDense(units, kq_conf=dict(kc), paq_conf=dict(pc), beta=1e-3)
    m = keras.Model(xin, d(q(xin)))
    m.compile(keras.optimizers.SGD(0.05), 'mse')
    x = rng.normal(size=(32, n_in)).astype(np.float32)
    y = rng.normal(size=(32, units)).astype(np.float32)
    m(x, training=True)
    before = [d.kq.fbw.numpy(), d.paq.fbw.numpy(), q.paq.fbw.numpy(), d.kernel.numpy()]
    m.fit(x, y, epochs=2, batch_size=16, verbose=0)
    after = [d.kq.fbw.numpy(), d.paq.fbw.numpy(), q.paq.fbw.numpy(), d.kernel.numpy()]
    moved = [bool((a != b).any()) for a, b in zip(before, after)]
    ctx.check(moved[0] == tk, 'kernel_bw_trainable', f'trainable={tk} moved={moved[0]}')
    ctx.check(moved[1] == ta, 'activation_bw_trainable', f'trainable={ta} moved={moved[1]}')
    ctx.check(moved[2] == ta, 'input_bw_trainable', f'trainable={ta} moved={moved[2]}')
    ctx.check(moved[3], 'kernel_trains', 'kernel did not move')
    ctx.check(all(np.isfinite(a).all() for a in after), 'finite', 'non-finite weights after training')
    ctx.count('frozen')
    ctx.saw('frozen', tk, ta)
