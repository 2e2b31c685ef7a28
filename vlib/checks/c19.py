"""C19: initial kernel bitwidths give every weight the configured number of significant bits; adapted exactly once."""
import os

from .common import *

CASES = {'quick': 400, 'thorough': 7000}
REQUIRED = {'quick': {'weights': 3000, 'zero_weights': 100, 'adapted_at_build': 120, 'fixed_bw': 60, 'bn_adapted': 60, 'bn_once': 60, 'bn_reloaded': 25, 'bn_fit': 20, 'grouped': 80, 'mode_jit': 10, 'precision': 900}, 'thorough': {'weights': 80000}}
RULE = ('layers of every kind built from hostile initial kernels (powers of two and neighbours, zeros, tiny, huge, mixed magnitudes), homogeneous dims, clip ranges and initial widths; bitwidths compared with the reference at build, after '
        'inference, after training-mode passes, compiled training and reloading; distinct = (layer kind, adaption option, homogeneous dims, clip, operation, mode)')
ASSUMPTIONS = ['the adapted widths are reals: compared within 1e-3 bit at build', 'for the fused dense layer the normalization of the first batch may be estimated from the layer output: compared within a quarter bit where output quantization is fine and the activation linear, and required to be common to all weights of an output channel']


def kernel_of(rng):
    how = pick_seq(rng, ['normal', 'wide', 'pow2', 'zeros', 'tiny', 'huge', 'glorot'])

    def init(shape, dtype=None, **kw):
        w = rng.normal(size=shape)
        if how == 'wide':
            w = w * 2.0 ** rng.integers(-8, 8, size=shape)
        elif how == 'pow2':
            w = np.sign(w) * 2.0 ** rng.integers(-5, 5, size=shape) * pick_seq(rng, [1., 1. + 2.0 ** -20, 1. - 2.0 ** -20])
        elif how == 'zeros':
            w = np.where(rng.random(shape) < 0.3, 0., w)
        elif how == 'tiny':
            w = w * 2.0 ** -12
        elif how == 'huge':
            w = w * 2.0 ** 10
        return tf.constant(w.astype(np.float32))
    return how, ('glorot_uniform' if how == 'glorot' else init)


def axes(skip, rank):
    if skip is None or skip == 'none':
        return ()
    if isinstance(skip, str):
        return {'all': tuple(range(rank)), 'batch': (0,), 'except_last': tuple(range(rank - 1)), 'except_1st': (0,) + tuple(range(2, rank))}[skip]
    return tuple(skip)


def adapted(w, init, skip):
    with np.errstate(divide='ignore'):
        v = init - np.log2(np.abs(w.astype(np.float64)))
    ax = axes(skip, w.ndim)
    return v.min(axis=ax, keepdims=True) if ax else v


def close(ctx, got, want, key, what, tol=1e-3):
    fin = np.isfinite(want)
    ctx.check(got.shape == want.shape, key, lambda: f'{what}: shape {got.shape} want {want.shape}')
    bad = fin & ~(np.abs(got - np.where(fin, want, 0)) <= tol)
    ctx.evaluations += int(fin.sum())
    ctx.check(not bad.any(), key, lambda: f'{what}: {got[bad][:4]} want {want[bad][:4]}')
    ctx.check(np.all(got[~fin] >= 20), key + '_zero', lambda: f'{what}: all-zero group got {got[~fin][:4]}')


def build(rng, kind, **kw):
    rank = 2 if '1d' in kind else 3 if '2d' in kind else int(rng.integers(1, 3))
    shape = tuple(int(rng.integers(2, 5)) for _ in range(rank))
    i = keras.layers.Input(shape=shape)
    s = HGQ.Signature(1, 10, 4)(i)
    cls = {'dense': HGQ.HDense, 'densebn': HGQ.HDenseBatchNorm, 'conv1d': HGQ.HConv1D, 'conv2d': HGQ.HConv2D, 'conv1dbn': HGQ.HConv1DBatchNorm, 'conv2dbn': HGQ.HConv2DBatchNorm}[kind]
    a = (int(rng.integers(2, 6)),) if 'dense' in kind else (int(rng.integers(1, 4)), int(rng.integers(1, 3)))
    L = cls(*a, **kw)
    return shape, L, (lambda: keras.Model(i, L(s)))


def inputs(rng, shape, n):
    return (rng.integers(-255, 256, size=(n,) + shape) / 64).astype(np.float32)


def case(ctx, rng):
    mode = pick_mode(ctx, rng, 0.05)
    set_mode(mode)
    kind = pick_seq(rng, ['dense', 'dense', 'conv1d', 'conv2d', 'conv1dbn', 'conv2dbn', 'densebn', 'densebn', 'densebn'])
    how, ki = kernel_of(rng)
    kc, pc = HGQ.get_default_kq_conf(), HGQ.get_default_paq_conf()
    krank = {'1': 3, '2': 4}.get(kind[4], 2)
    kc['skip_dims'] = pick_seq(rng, [None, None, 'none', 'all', 'except_last', 'except_1st', 'batch', (krank - 1,)])
    kc['init_bw'] = float(rng.integers(0, 8)) + float(pick_seq(rng, [0, 0, 0.25]))
    kc['bw_clip'] = pick_seq(rng, [(-23, 23), (-23, 23), (-30, 30), (-4, 10)])
    kc['rnd_strategy'] = pick_seq(rng, ['standard_round', 'standard_round', 'floor', 'stochastic_round'])
    kc['trainable'] = bool(rng.integers(2))
    pc['skip_dims'] = pick_seq(rng, ['all', 'batch'])
    pc['init_bw'] = 9.
    adapt = bool(rng.random() < 0.75)
    kw = dict(kq_conf=kc, paq_conf=pc, kernel_initializer=ki, use_bias=bool(rng.random() < 0.7), activation=pick_seq(rng, [None, 'relu']))
    if not adapt or rng.random() < 0.3:
        kw['do_adapt_kernel_bits'] = adapt
    if kind.endswith('bn'):
        kw.update(scale=bool(rng.random() < 0.75), epsilon=float(pick_seq(rng, [1e-3, 0.125])))
    ctx.step(f'{kind} {how} {kc} {kw}')
    shape, L, mk = build(rng, kind, **kw)
    m = mk()
    w = L.kernel.numpy()
    f0 = L.kq.fbw.numpy().astype(np.float64)
    ctx.count('weights', w.size)
    ctx.count('zero_weights', (w == 0).sum())
    if axes(kc['skip_dims'], w.ndim):
        ctx.count('grouped')
    delayed = kind == 'densebn'
    clip = lambda v: np.clip(v, *kc['bw_clip'])
    if adapt and not delayed:
        close(ctx, f0, adapted(w, kc['init_bw'], kc['skip_dims']), 'build', f'{kind} {how} {kc["skip_dims"]} init {kc["init_bw"]}')
        ctx.count('adapted_at_build')
    else:
        ctx.check(np.all(f0 == kc['init_bw']), 'not_adapted', lambda: f'{kind} adapt={adapt}: {f0.ravel()[:4]} want {kc["init_bw"]}')
        ctx.count('fixed_bw')
    ctx.saw(kind, adapt, str(kc['skip_dims']), str(kc['bw_clip']), how, mode)
    x = inputs(rng, shape, 16)
    for _ in range(int(rng.integers(1, 3))):
        m(x, training=False)
    f1 = L.kq.fbw.numpy().astype(np.float64)
    ctx.check(np.array_equal(f1, clip(f0).astype(np.float32)), 'inference_moves', lambda: f'{kind}: {f1.ravel()[:4]} from {f0.ravel()[:4]}')
    ctx.check(np.array_equal(L.kernel.numpy(), w), 'kernel_moves', 'kernel changed')
    if adapt and not delayed and not kind.endswith('bn'):
        precision(ctx, L, w, kc, f'{kind} {how}')
    if not delayed or not adapt:
        for _ in range(2):
            m(x, training=True)
        f2 = L.kq.fbw.numpy()
        ctx.check(np.array_equal(f2, f1.astype(np.float32)), 'training_pass_moves', lambda: f'{kind}: {f2.ravel()[:4]} from {f1.ravel()[:4]}')
        return
    # ---- delayed adaption of the fused dense layer
    if clip(kc['init_bw']) != kc['init_bw']:
        return
    fit = rng.random() < 0.4
    if fit:
        m.compile(keras.optimizers.SGD(0.), 'mse')
        m.fit(x, np.zeros((16,) + tuple(m.output_shape[1:]), np.float32), batch_size=16, epochs=1, verbose=0, shuffle=False)
        ctx.count('bn_fit')
    else:
        m(x, training=True)
    f2 = L.kq.fbw.numpy().astype(np.float64)
    z = x.astype(np.float64) @ w.astype(np.float64)
    var = z.reshape(-1, z.shape[-1]).var(0)
    s = L.bn_gamma.numpy().astype(np.float64) / np.sqrt(var + kw['epsilon']) if kw['scale'] else np.ones(w.shape[-1])
    fine = kw['activation'] is None and how not in ('tiny', 'huge', 'wide') and np.all(var > 0.01)
    with np.errstate(divide='ignore'):
        raw = kc['init_bw'] - np.log2(np.abs(w.astype(np.float64)) * s)
    ax = axes(kc['skip_dims'], 2)
    want = clip(raw.min(axis=ax, keepdims=True) if ax else raw)
    if fine or not kw['scale']:
        edge = (want <= kc['bw_clip'][0] + 0.5) | (want >= kc['bw_clip'][1] - 0.5)
        tol = 0.25 if kw['scale'] else 1e-3
        if f2.shape == want.shape:
            bad = ~edge & (np.abs(f2 - want) > tol)
            ctx.check(not bad.any(), 'bn_adapt', lambda: f'{how} {kc["skip_dims"]} fit={fit}: {f2[bad][:4]} want {want[bad][:4]}')
        ctx.count('bn_adapted')
        ctx.evaluations += want.size
    elif not ax:
        off = f2 + np.log2(np.maximum(np.abs(w.astype(np.float64)), 1e-300))
        inside = (f2 > kc['bw_clip'][0]) & (f2 < kc['bw_clip'][1]) & (w != 0)
        for c in range(w.shape[1]):
            o = off[:, c][inside[:, c]]
            ctx.check(o.size == 0 or np.ptp(o) < 1e-3, 'bn_uniform', lambda: f'{how}: precision differs within a channel {o[:5]}')
        ctx.count('bn_adapted')
    if not np.all(f2 == kc['init_bw']):
        # once only: other data of another magnitude, other kernel, compiled or not
        for _ in range(2):
            y = inputs(rng, shape, 16) * 8
            if rng.random() < 0.3:
                L.kernel.assign(w * 4)
            if fit:
                m.fit(y, np.zeros((16,) + tuple(m.output_shape[1:]), np.float32), batch_size=8, epochs=1, verbose=0)
            else:
                m(y, training=True)
            f3 = L.kq.fbw.numpy()
            ctx.check(np.array_equal(f3, f2.astype(np.float32)), 'bn_again', lambda: f'fit={fit}: {f3.ravel()[:4]} from {f2.ravel()[:4]}')
        ctx.count('bn_once')
        if rng.random() < 0.6:
            path = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), f'c19_{os.getpid()}.weights.h5')
            m.save_weights(path)
            kw2 = dict(kw, kq_conf=dict(kc), paq_conf=dict(pc), name=L.name)
            i = keras.layers.Input(shape=shape)
            L2 = type(L)(L.units, **kw2)
            m2 = keras.Model(i, L2(HGQ.Signature(1, 10, 4)(i)))
            m2.load_weights(path)
            os.remove(path)
            ctx.check(np.array_equal(L2.kq.fbw.numpy(), f2.astype(np.float32)), 'reload', lambda: f'{L2.kq.fbw.numpy().ravel()[:4]}')
            m2(inputs(rng, shape, 16) * 4, training=True)
            f4 = L2.kq.fbw.numpy()
            ctx.check(np.array_equal(f4, f2.astype(np.float32)), 'reload_again', lambda: f'{f4.ravel()[:4]} from {f2.ravel()[:4]}')
            ctx.count('bn_reloaded')
    ctx.sample = {'layer': kind, 'kernel': how, 'init_bw': kc['init_bw'], 'widths': f2.ravel()[:4].tolist()}


def precision(ctx, L, w, kc, what):
    """every weight is represented with the promised number of significant bits"""
    q = L.fused_qkernel.numpy().astype(np.float64)
    w = w.astype(np.float64)
    f = np.broadcast_to(L.kq.fbw.numpy().astype(np.float64), w.shape)
    ok = (w != 0) & (f > kc['bw_clip'][0]) & (f < kc['bw_clip'][1])
    # the widest weight of its group decides
    ax = axes(kc['skip_dims'], w.ndim)
    ref_w = np.broadcast_to(np.abs(w).max(axis=ax, keepdims=True) if ax else np.abs(w), w.shape)
    err = 2.0 ** (-kc['init_bw'] + 0.5 + (0 if kc['rnd_strategy'] == 'floor' else -1)) * ref_w * 1.001
    bad = ok & (np.abs(q - w) > err + 1e-6 * np.abs(w))
    ctx.check(not bad.any(), 'precision', lambda: f'{what}: {w[bad][:3]} became {q[bad][:3]} at init_bw {kc["init_bw"]}')
    ctx.evaluations += int(ok.sum())
    ctx.count('precision', ok.sum())
