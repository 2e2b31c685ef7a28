"""C13: every layer computes its Keras counterpart on the quantized operands, sample by sample, however the model is called."""
from .common import *

CASES = {'quick': 300, 'thorough': 5000}
REQUIRED = {'quick': {'nodes': 700, 'batching': 60, 'dtype': 40, 'predict': 40, 'train': 40, 'dropout': 20, 'mode_jit': 15, 'op_conv2d': 20, 'op_conv1d': 20, 'op_add': 20, 'op_concat': 20, 'op_avgpool': 8, 'op_maxpool': 8,
                      'op_permute': 5, 'op_reshape': 5, 'op_flatten': 5, 'op_signature': 20, 'op_activation': 40, 'single': 60}, 'thorough': {'nodes': 10000}}
RULE = ('random models and single layers with hostile geometry (strides, dilation, padding, groups, pooling, permutations, 2-4 way merges); the value of every node is compared with an independent float64 reference computed from '
        'the observed inputs of that node; whole batch vs single samples vs permuted batch vs predict vs other input types; distinct = (layer kind, geometry, entry point, mode)')
ASSUMPTIONS = ['models whose intermediates float32 cannot hold exactly are rejected', 'a transcendental activation on a rounding tie may go either way']


def geometry(n):
    p = n.p
    return (n.op, p.get('strides'), p.get('dilation'), p.get('padding'), p.get('groups', 1) > 1, p.get('axis'), p.get('dims'), p.get('kind'), p.get('act'), len(n.inputs), len(n.shape))


def judge(ctx, g, vals, entry, mode, tol_train=None):
    for n in g.all_nodes():
        if n.op in ('input', 'nested'):
            continue
        pre, out, amb = gen.ref_node(n, [vals[i] for i in n.inputs], ctx)
        got = vals[n].astype(np.float64)
        tol = 0.0
        if n.op == 'avgpool':
            tol = 1e-6 * np.abs(out).max() + 1e-30
        if n.op in HKERNEL and n.p['act'] not in ('linear', 'relu', 'square', 'halfabs', 'negate') or n.op == 'activation':
            step = 2.0 ** -gen.act_f(n)
            tol = np.where(amb, np.broadcast_to(step, out.shape), 0)
        ctx.equal(got, out, f'node:{n.op}', f'{entry}: {n.desc()}', tol=tol)
        ctx.count('nodes')
        ctx.count('op_' + n.op)
        ctx.saw(geometry(n), entry, mode)


def case(ctx, rng):
    mode = pick_mode(ctx, rng, 0.1)
    r = rng.random()
    if r < 0.08:
        return dropout(ctx, rng, mode)
    if r < 0.4:
        return single(ctx, rng, mode)
    det_opts = dict(rnds=('standard_round', 'floor', 'auto'), bn=False, dropout=False) if rng.random() < 0.45 else {}
    G, g, x = fresh(rng, 12, **det_opts, depth=(1, 3) if mode == 'jit' else (1, 5), multi_in=0.3, branch=0.4, same_pad_avg=True)
    set_mode(mode)
    ctx.step(g.desc())
    vals = gen.capture(g, x)
    judge(ctx, g, vals, 'model', mode)
    m = g.model
    base = nps(m(x, training=False))
    for n, b in zip(g.outputs, base):
        ctx.equal(b, vals[n], 'output_order', f'output {n.desc()}')
    ctx.equal(np.concatenate([v.ravel() for v in nps(m(x))]), np.concatenate([b.ravel() for b in base]), 'default_mode', 'calling without training flag is inference')
    # other ways of calling
    variants(ctx, rng, m, x, base, mode)
    # deterministic models in training mode: same values up to float noise, except for batch normalization
    det = all(str(n.p['paq']['rnd_strategy']) in ('standard_round', 'floor', 'auto', '0', '3') and n.p['paq']['exact_q_value'] and
              (n.op not in HKERNEL or n.p['kq']['rnd_strategy'] in ('standard_round', 'floor', 0, 3)) for n in g.hnodes())
    if det and mode == 'eager' and not any(n.op == 'dropout' or n.op.endswith('bn') for n in g.all_nodes()):
        tv = gen.capture(g, x, training=True)
        gen.GUARD = False
        try:
            for n in g.all_nodes():
                if n.op in ('input', 'nested'):
                    continue
                pre, out, amb = gen.ref_node(n, [tv[i] for i in n.inputs])
                sc = max(np.abs(out).max(), max(np.abs(tv[i]).max() for i in n.inputs), 1e-6)
                step = np.broadcast_to(2.0 ** -gen.act_f(n), out.shape) if n.op in HOPS else 0.
                if n.op in HKERNEL:
                    sc = max(sc, np.abs(out).max()) * 8
                d = np.abs(tv[n] - out)
                bad = (d > 2e-5 * sc + 2e-5 * step) & (d > step * 1.0001 + 2e-5 * sc)
                # a value that crossed a rounding boundary by float noise moves by one step
                ctx.check(not bad.any(), f'train_node:{n.op}', lambda: f'training mode: {n.desc()}: off by {d.max()} (step {np.max(step)})')
                ctx.check((d > 2e-5 * sc + 2e-5 * step).mean() < 0.34 or n.op not in HOPS, f'train_many:{n.op}', lambda: f'training mode: {n.desc()}: {(d > 2e-5 * sc).mean()} of the values off by one step')
        finally:
            gen.GUARD = True
        ctx.count('train')
    ctx.sample = {'layers': [n.op for n in g.all_nodes()], 'mode': mode}


def variants(ctx, rng, m, x, base, mode):
    n = nrows(x)
    for v in rng.permutation(4)[:2 if mode == 'eager' else 1]:
        if v == 0:
            perm = rng.permutation(n)
            k = int(rng.integers(1, n))
            a, b = nps(m(sub(x, perm[:k]), training=False)), nps(m(sub(x, perm[k:]), training=False))
            for i, o in enumerate(base):
                ctx.equal(np.concatenate([a[i], b[i]]), o[perm], 'batching', f'output {i}: permuted and split at {k}')
            ctx.count('batching')
        elif v == 1:
            p = nps(m.predict(x, batch_size=int(rng.integers(1, n + 2)), verbose=0))
            for i, o in enumerate(base):
                ctx.equal(p[i], o, 'predict', f'output {i}')
            ctx.count('predict')
        elif v == 2:
            t = pick_seq(rng, ['float64', 'tensor', 'dataset'])
            if t == 'float64':
                p = nps(m([d.astype(np.float64) for d in x] if isinstance(x, list) else x.astype(np.float64), training=False))
            elif t == 'tensor':
                p = nps(m([tf.constant(d) for d in x] if isinstance(x, list) else tf.constant(x), training=False))
            else:
                ds = tf.data.Dataset.from_tensor_slices(tuple(x) if isinstance(x, list) else x).batch(5)
                ds = ds.map(lambda *a: (a,)) if isinstance(x, list) else ds
                p = nps(m.predict(ds, verbose=0))
            for i, o in enumerate(base):
                ctx.equal(p[i], o, 'input_type', f'output {i} for {t}')
            ctx.count('dtype')
        else:
            one = [nps(m(sub(x, slice(j, j + 1)), training=False)) for j in range(min(n, 4))]
            for i, o in enumerate(base):
                ctx.equal(np.concatenate([q[i] for q in one]), o[:len(one)], 'single_samples', f'output {i}')
            ctx.count('batching')


def single(ctx, rng, mode):
    """one layer of hostile geometry behind an input signature, called as a layer"""
    G = gen.Gen(rng, same_pad_avg=True, bn_prob=0.2)
    kind = int(rng.integers(1, 4))
    shape = tuple(int(v) for v in (rng.integers(1, 11, size=kind - 1).tolist() + [int(rng.integers(1, 7))]))
    g = gen.Graph()
    k = int(rng.integers(2, 5))
    heads = []
    for _ in range(k):
        ni = gen.Node('input', None, [], keras.layers.Input(shape=shape))
        g.inputs.append(ni)
        g.nodes.append(ni)
        heads.append(G.add(g, 'signature', HGQ.Signature(1, 9, 5, name=G.name('sig')), [ni], k=1, b=9, i=5))
    n = G.merge(g, heads) if rng.random() < 0.25 else G.op(g, heads[0])
    g.outputs = [n]
    if len(n.inputs) == 1:
        g.inputs = g.inputs[:1]
        g.nodes = [g.nodes[0], heads[0], n]
    g.model = keras.Model([i.tensor for i in g.inputs] if len(g.inputs) > 1 else g.inputs[0].tensor, n.tensor)
    G.randomize(g)
    set_mode(mode)
    ctx.step(g.desc())
    x = G.data(g, int(rng.integers(1, 6)), amp=3.)
    vals = gen.capture(g, x)
    judge(ctx, g, vals, 'single', mode)
    out = g.model(x, training=False)
    ctx.equal(out.numpy(), vals[n], 'single_output', n.desc())
    ctx.check(tuple(g.model.output_shape[1:]) == tuple(out.shape[1:]), 'static_shape', lambda: f'declared {g.model.output_shape} computed {out.shape} {n.desc()}')
    if hasattr(n.layer, 'compute_output_shape'):
        s = n.layer.compute_output_shape(tuple(n.inputs[0].tensor.shape) if len(n.inputs) == 1 else [tuple(i.tensor.shape) for i in n.inputs])
        ctx.check(tuple(s)[1:] == tuple(out.shape[1:]), 'compute_output_shape', lambda: f'{tuple(s)} vs {out.shape} {n.desc()}')
    ctx.count('single')
    ctx.sample = {'single': n.op, 'input': shape, 'mode': mode}


def dropout(ctx, rng, mode):
    rate = float(rng.choice([0.1, 0.25, 0.5, 0.75]))
    x = keras.layers.Input((40,))
    L = HGQ.layers.PDropout(rate)
    m = keras.Model(x, L(HGQ.Signature(1, 8, 4)(x)))
    set_mode(mode)
    d = (rng.integers(1, 50, size=(100, 40)) / 16).astype(np.float32)
    ctx.equal(m(d, training=False).numpy(), d, 'dropout_inference', f'rate {rate}')
    ctx.equal(m(d).numpy(), d, 'dropout_inference', f'rate {rate}')
    y = m(d, training=True).numpy()
    kept = y != 0
    ctx.equal(y[kept], (d / (1 - rate))[kept], 'dropout_scale', f'rate {rate}', tol=1e-4)
    se = np.sqrt(rate * (1 - rate) / kept.size)
    ctx.check(abs(kept.mean() - (1 - rate)) < 8 * se, 'dropout_rate', f'kept {kept.mean()} rate {rate}')
    ctx.count('dropout')
    ctx.saw('dropout', rate, mode)
