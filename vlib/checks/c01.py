"""C01: inference quantization puts every value on its declared grid, correctly rounded."""
from .common import *

CASES = {'quick': 640, 'thorough': 12000}
REQUIRED = {'quick': {'standalone': 150, 'layer': 60, 'ties': 500, 'mode_jit': 60, 'bias': 40, 'kernel': 60}, 'thorough': {'standalone': 2000, 'ties': 5000, 'mode_jit': 500}}
RULE = ('random quantizer configurations (rank 1-4, every homogeneous-dims form, all rounding strategies, clip ranges, real-valued and half-integer bitwidths) applied to hostile '
        'tensors (exact ties, neighbours of ties, tiny, huge, negative); distinct = (rank, homogeneous dims, strategy, mode, entry point, clip active) combinations in which a rounding actually changed a value')
ASSUMPTIONS = ['float32: adding one half before flooring may itself round; both outcomes are accepted there and nowhere else']


def hostile(rng, shape, f):
    """values around the grid 2^-f (f broadcastable to shape)"""
    step = 2.0 ** -np.broadcast_to(f, shape)
    kind = rng.integers(0, 7, size=shape)
    n = rng.integers(-40, 40, size=shape)
    x = np.where(kind == 0, n * step, 0.)
    x = np.where(kind == 1, (n + 0.5) * step, x)
    x = np.where(kind == 2, (n + 0.5) * step * (1 + rng.choice([-1, 1], size=shape) * 2.0 ** -20), x)
    x = np.where(kind == 3, rng.normal(size=shape) * step, x)
    x = np.where(kind == 4, rng.normal(size=shape) * 10.0 ** rng.uniform(-4, 3, size=shape), x)
    x = np.where(kind == 5, rng.normal(size=shape) * step * 1000, x)
    x = np.where(kind == 6, rng.choice([0., -0., 1e-30, -1e-30, 1., -1.], size=shape), x)
    return x.astype(np.float32)


def judge(ctx, x, got, f, floor, key, msg):
    """exact rounding of float32 x; the float32 sum x*s+0.5 may round up to the next integer"""
    s = 2.0 ** np.asarray(f, np.float64)
    want = ref.quant(x, f, floor)
    ok = got.astype(np.float64) == want
    if not floor:
        alt = np.floor((x.astype(np.float64) * s).astype(np.float32) + np.float32(0.5)).astype(np.float64) / s
        ok |= got.astype(np.float64) == alt
    t = np.abs(x * s)
    # beyond 2^23 the float32 value is its own grid point; x+(q-x) is then x
    ok |= (t >= 2.0 ** 23) & (got == x)
    ctx.evaluations += ok.size
    ties = (np.abs(x * s - np.floor(x * s) - 0.5) == 0) & (t < 2 ** 22)
    ctx.count('ties', ties.sum())
    if not ok.all():
        p = tuple(np.argwhere(~ok)[0])
        ctx.fail(key, f'{msg}: {int((~ok).sum())}/{ok.size} wrong, e.g. x={x[p]!r} f={np.broadcast_to(f, x.shape)[p]} got {got[p]!r} want {want[p]!r}')
    return bool((got != x).any())


def group_shape(shape, sd):
    rank = len(shape)
    ax = {'all': range(rank), 'batch': (0,), 'except_last': range(rank - 1), 'except_1st': [0] + list(range(2, rank)), 'none': (), None: ()}.get(sd, sd) if not isinstance(sd, (tuple, list)) else sd
    return tuple(1 if i in ax else n for i, n in enumerate(shape))


def case(ctx, rng):
    which = rng.random()
    mode = pick_mode(ctx, rng, 0.25)
    if which < 0.55:
        standalone(ctx, rng, mode)
    elif which < 0.75:
        layer(ctx, rng, mode)
    else:
        weights(ctx, rng, mode)


def standalone(ctx, rng, mode):
    rank = int(rng.integers(1, 5))
    shape = tuple(int(v) for v in rng.integers(1, 6, size=rank))
    sds = ['all', 'batch', 'except_last', 'except_1st', 'none', None, (0,), tuple(range(rank)), (rank - 1,), tuple(int(v) for v in rng.choice(rank, size=int(rng.integers(1, rank + 1)), replace=False))]
    sd = pick_seq(rng, sds)
    strat = pick_seq(rng, ['standard_round', 'floor', 'stochastic_round', 'fast_uniform_noise_injection', 0, 1, 2, 3])
    clip = pick_seq(rng, [(-23, 23), (-23, 23), (0, 4), (-2, 3), (1, 1), None])
    floor = strat in ('floor', 3)
    q = HGQ.HGQ(float(rng.integers(-3, 9)), sd, strat, bw_clip=clip, minmax_record=bool(rng.integers(2)))
    gs = group_shape(shape, sd)
    set_mode(mode)
    q.build(shape)
    ctx.check(tuple(q.fbw.shape) == gs, 'bitwidth_shape', f'{shape} {sd}: bitwidth shape {tuple(q.fbw.shape)} want {gs}')
    fbw = rng.uniform(-6, 10, size=gs)
    fbw = np.where(rng.random(gs) < 0.3, np.round(fbw) + 0.5, fbw).astype(np.float32)
    q.fbw.assign(fbw)
    f = ref.rbits(fbw, clip)
    x = hostile(rng, shape, f)
    tr = pick_seq(rng, [None, False])
    y = q(tf.constant(x), training=tr).numpy()
    nontriv = judge(ctx, x, y, f, floor, 'standalone', f'HGQ shape={shape} skip={sd} strat={strat} clip={clip} mode={mode}')
    ctx.equal(q.fbw.numpy(), np.clip(fbw, *clip) if clip else fbw, 'clip', 'bitwidths after a call')
    # idempotent
    y2 = q(tf.constant(y), training=tr).numpy()
    ctx.equal(y2, y, 'idempotent', 'quantizing a quantized tensor')
    ctx.count('standalone')
    if nontriv:
        ctx.saw('standalone', rank, str(sd), str(strat), mode, str(clip))
    ctx.sample = {'entry': 'HGQ', 'shape': shape, 'skip_dims': str(sd), 'strategy': str(strat), 'clip': str(clip), 'mode': mode, 'x': float(x.ravel()[0]), 'q': float(y.ravel()[0])}


def layer(ctx, rng, mode):
    """HQuantize through a model, every way of calling it, several input dtypes and batch sizes"""
    rank = int(rng.integers(1, 4))
    shape = tuple(int(v) for v in rng.integers(1, 6, size=rank))
    G = gen.Gen(rng)
    c = G.paq(rank, bw_clip=pick_seq(rng, [(-23, 23), (-1, 3)]))
    cc = dict(c)
    xin = keras.layers.Input(shape=shape)
    L = HGQ.HQuantize(paq_conf=c)
    m = keras.Model(xin, L(xin))
    fbw = G.rand_fbw(tuple(L.paq.fbw.shape), 7, 0.1)
    L.paq.fbw.assign(fbw)
    ctx.check(tuple(L.paq.fbw.shape) == group_shape((1,) + shape, cc['skip_dims']), 'bitwidth_shape', f'{shape} {cc["skip_dims"]} -> {tuple(L.paq.fbw.shape)}')
    f = ref.rbits(fbw, cc['bw_clip'])
    # 'auto' without a bias that could absorb the rounding offset means floor
    floor = cc['rnd_strategy'] in ('floor', 'auto')
    n = int(rng.integers(1, 9))
    x = hostile(rng, (n,) + shape, f)
    how = pick_seq(rng, ['call', 'call_false', 'predict', 'f64', 'int', 'tffunction'])
    set_mode(mode)
    if how == 'call':
        y = m(x).numpy()
    elif how == 'call_false':
        y = m(x, training=False).numpy()
    elif how == 'predict':
        y = m.predict(x, batch_size=3, verbose=0)
    elif how == 'f64':
        y = m(tf.constant(x, tf.float64)).numpy()
    elif how == 'int':
        x = np.round(x).clip(-100, 100).astype(np.int32)
        y = m(tf.constant(x)).numpy()
        x = x.astype(np.float32)
    else:
        y = tf.function(lambda t: m(t, training=False))(tf.constant(x)).numpy()
    nontriv = judge(ctx, x, y, f, floor, 'hquantize', f'HQuantize {shape} {cc} how={how} mode={mode}')
    ctx.count('layer')
    if nontriv:
        ctx.saw('layer', rank, str(cc['skip_dims']), cc['rnd_strategy'], how, mode)


def weights(ctx, rng, mode):
    """kernels and biases of generated layers"""
    G = gen.Gen(rng, depth=(1, 2), nested=0, multi_in=0, multi_out=0, branch=0, acti=False, pool=False, dropout=False, bn=False)
    g = G.build()
    set_mode(mode)
    for n in g.hnodes():
        if n.op not in HKERNEL:
            continue
        L, c = n.layer, n.p['kq']
        f = ref.rbits(L.kq.fbw.numpy(), c['bw_clip'])
        ctx.check(tuple(L.kq.fbw.shape) == group_shape(tuple(L.kernel.shape), c['skip_dims']), 'bitwidth_shape', f'kernel {tuple(L.kernel.shape)} {c["skip_dims"]} -> {tuple(L.kq.fbw.shape)}')
        w = hostile(rng, tuple(L.kernel.shape), f)
        L.kernel.assign(w)
        nt = judge(ctx, w, L.fused_qkernel.numpy(), f, c['rnd_strategy'] in ('floor', 3), 'kernel', n.desc())
        ctx.count('kernel')
        if nt:
            ctx.saw('kernel', n.op, str(c['skip_dims']), c['rnd_strategy'], mode)
        if n.p['use_bias']:
            fb = ref.rbits(np.max(fbw_of(L.paq), axis=tuple(range(L.paq.fbw.shape.rank - 1))), n.p['paq']['bw_clip'])
            b = hostile(rng, tuple(L.bias.shape), fb)
            L.bias.assign(b)
            # a layer with an all-zero kernel and zero input emits its quantized bias
            L.kernel.assign(np.zeros_like(w))
            sub_m = keras.Model([i.tensor for i in g.inputs], n.tensor)
            x = [np.zeros((2,) + i.shape, np.float32) for i in g.inputs]
            L.paq.fbw.assign(np.broadcast_to(np.max(L.paq.fbw.numpy()), L.paq.fbw.shape))
            fb = np.broadcast_to(ref.rbits(np.max(L.paq.fbw.numpy())), b.shape)
            y = sub_m(x, training=False).numpy().reshape(-1, b.shape[0])[0]
            qb = L.paq.bias_forward(L.bias, False).numpy() if hasattr(L.paq, 'bias_forward') else None
            if qb is not None:
                judge(ctx, b, qb, fb, is_floor(n), 'bias', n.desc())
            want = qb if qb is not None else ref.quant(b, fb, is_floor(n))
            if n.p['act'] == 'relu':
                want = np.maximum(want, 0)
            ctx.equal(y, want, 'bias_out', n.desc())
            ctx.count('bias')
    ctx.sample = {'entry': 'weights', 'graph': g.desc()[:4]}
