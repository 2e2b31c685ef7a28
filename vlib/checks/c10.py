"""C10: a saved model or proxy, loaded again, is the same model: outputs, bitwidths, calibration, further training."""
import contextlib
import json
import os

from .common import *
from .c05 import convert

CASES = {'quick': 200, 'thorough': 3000}
REQUIRED = {'quick': {'model': 60, 'proxy': 25, 'continued': 30, 'bn': 20, 'nested': 1, 'outputs': 5000, 'luts': 3, 'overrides': 20}, 'thorough': {'model': 1000, 'proxy': 400}}
RULE = ('random models (every layer kind, non-default options, trained or not) and their proxies taken through every supported way of persisting (HDF5 file with and without optimizer, weights file into a rebuilt model, cloning, '
        'serialization of single layers); compared on outputs, weights, declared configuration, recalibration, conversion and further training steps; distinct = (way, layer kinds)')
ASSUMPTIONS = ['TensorFlow/Keras HDF5 format (restoring any model from JSON or .keras hangs in this sandbox, plain Keras models included)', 'calibration records are not part of a saved model: they are re-traced', 'further training is compared for deterministic rounding strategies']


ACTS = ('relu', 'linear', 'tanh', 'sigmoid')


def norm(o):
    if isinstance(o, (list, tuple)):
        return [norm(v) for v in o]
    if isinstance(o, dict) and 'class_name' in o and 'config' in o:
        return {'class': o['class_name'].split('>')[-1], 'config': norm(o['config'])}
    if isinstance(o, dict):
        return {str(k): norm(v) for k, v in o.items()}
    if hasattr(o, 'get_config') and not isinstance(o, keras.layers.Layer):
        return {'class': type(o).__name__, 'config': norm(o.get_config())}
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.generic,)):
        return o.item()
    if callable(o):
        return getattr(o, '__name__', str(o))
    return o


@contextlib.contextmanager
def persist(way):
    """saving and loading must work, whoever raises"""
    try:
        yield
    except Exception as e:
        raise Violation('not_persistable', f'{way}: {type(e).__name__} {str(e)[-800:]}') from e


def flat_layers(m):
    for l in m.layers:
        if isinstance(l, keras.Model):
            yield from flat_layers(l)
        else:
            yield l


def case(ctx, rng):
    if rng.random() < 0.6:
        model_case(ctx, rng)
    else:
        proxy_case(ctx, rng)


def model_case(ctx, rng):
    det = rng.random() < 0.7
    kw = dict(depth=(1, 3), trainable_bw=True, beta=True, groups=False, acts=ACTS, dilation=False, multi_out=0.1)
    if det:
        kw.update(rnds=('standard_round', 'floor', 'auto'), dropout=False)
    state = rng.bit_generator.state
    G = VGen(rng, **kw)
    g = G.build()
    m = g.model
    if not g.hnodes():
        raise Reject('no quantizer')
    x = G.data(g, 16)
    mode = pick_mode(ctx, rng, 0.1)
    set_mode(mode)
    y = [rng.normal(size=(16,) + n.shape).astype(np.float32) for n in g.outputs]
    m.compile(keras.optimizers.SGD(0.01), 'mse')
    trained = bool(rng.random() < 0.5)
    if trained:
        m.train_on_batch(x, y if len(y) > 1 else y[0])
    way = pick_seq(rng, ['h5', 'h5', 'h5_noopt', 'weights_file', 'clone'])
    if way == 'clone' and any(n.op == 'nested' for n in g.nodes):
        way = 'h5'  # cloning a nested model restores it from its config: hangs here
    ctx.step([way, f'trained={trained}'] + g.desc())
    path = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), f'c10_{os.getpid()}.h5')
    co = dict(gen.CUSTOM)
    with persist(way), keras.utils.custom_object_scope(co):
        if way.startswith('h5'):
            m.save(path, include_optimizer=way == 'h5')
            keras.backend.clear_session() if rng.random() < 0.3 else None
            m2 = keras.models.load_model(path)
        elif way == 'clone':
            m2 = keras.models.clone_model(m)
            m2.set_weights(m.get_weights())
        else:
            m.save_weights(path)
            r2 = np.random.default_rng(0)
            r2.bit_generator.state = state
            g2 = VGen(r2, **kw).build()
            m2 = g2.model
            for v in m2.trainable_variables:
                v.assign(v + 0.37)
            m2.load_weights(path)
    if os.path.exists(path):
        os.remove(path)
    ctx.count('way_' + way)
    la, lb = list(flat_layers(m)), list(flat_layers(m2))
    ctx.check([type(a).__name__ for a in la] == [type(b).__name__ for b in lb] and [a.name for a in la] == [b.name for b in lb], 'layers', f'{[a.name for a in la]} {[b.name for b in lb]}')
    for a, b in zip(la, lb):
        ca, cb = norm(a.get_config()), norm(b.get_config())
        ctx.check(json.dumps(ca, sort_keys=True, default=str) == json.dumps(cb, sort_keys=True, default=str), 'config', lambda: f'{a.name}: {[(k, ca.get(k), cb.get(k)) for k in set(ca) | set(cb) if ca.get(k) != cb.get(k)]}')
        wa, wb = a.get_weights(), b.get_weights()
        ctx.check(len(wa) == len(wb), 'n_weights', f'{a.name}: {len(wa)} {len(wb)}')
        for i, (u, v) in enumerate(zip(wa, wb)):
            ctx.equal(v, u, 'weights', f'{way} {a.name} {a.weights[i].name}')
        if type(a).__name__.endswith('BatchNorm'):
            ctx.count('bn')
    ctx.check([v.shape for v in m.trainable_variables] == [v.shape for v in m2.trainable_variables], 'trainable', lambda: f'{[v.name for v in m.trainable_variables]} vs {[v.name for v in m2.trainable_variables]}')
    outs = nps(m(x, training=False)), nps(m2(x, training=False))
    for u, v in zip(*outs):
        ctx.equal(v, u, 'outputs', f'{way} inference')
        ctx.count('outputs', u.size)
    if rng.random() < 0.3:
        layer_case(ctx, rng, m)
    b1 = trace_minmax(m, x, verbose=False)
    b2 = trace_minmax(m2, x, verbose=False)
    ctx.check(b1 == b2, 'bops', f'{way}: {b1} {b2}')
    if rng.random() < 0.3:
        p1, p2 = convert(m, {}), convert(m2, {})
        xx = G.data(g, 16, amp=6.)
        for u, v in zip(nps(p1(xx)), nps(p2(xx))):
            ctx.equal(v, u, 'proxy', f'{way} converted')
        ctx.count('converted')
    if det:
        m.compile(keras.optimizers.SGD(0.02), 'mse')
        m2.compile(keras.optimizers.SGD(0.02), 'mse')
        if rng.random() < 0.15 and mode == 'eager':
            set_mode('jit')
        for s in range(2):
            r1 = m.train_on_batch(x, y if len(y) > 1 else y[0])
            r2 = m2.train_on_batch(x, y if len(y) > 1 else y[0])
            ctx.check(np.allclose(r1, r2, rtol=1e-4, atol=1e-5, equal_nan=True), 'training_loss', f'{way} step {s}: {r1} {r2}')
            for a, b in zip(m.weights, m2.weights):
                u, v = a.numpy(), b.numpy()
                ctx.check(np.allclose(u, v, rtol=1e-3, atol=1e-4, equal_nan=True), 'training', lambda: f'{way} step {s} {a.name}: {u.ravel()[:4]} {v.ravel()[:4]}')
        ctx.count('continued')
    ctx.count('model')
    if any(n.op == 'nested' for n in g.nodes):
        ctx.count('nested')
    ctx.saw('model', way, tuple(sorted({n.op for n in g.all_nodes()})))
    ctx.sample = {'way': way, 'trained': trained, 'ops': [n.op for n in g.all_nodes()]}


class VGen(gen.Gen):
    """non-default options of the layers"""

    def paq(self, rank, **over):
        c = super().paq(rank, **over)
        if self.chance(0.2):
            c['trainable'] = False
        if self.chance(0.2):
            c['bw_clip'] = (-20, 12)
        if self.chance(0.3):
            c['regularizer'] = self.pick([HGQ.utils.MonoL1(1e-3), None])
        return c

    def kq(self, krank, **over):
        c = super().kq(krank, **over)
        if self.chance(0.2):
            c['trainable'] = False
        if self.chance(0.2):
            c['exact_q_value'] = False
        return c


def layer_case(ctx, rng, m):
    """single layers through Keras' serialization of objects"""
    for l in flat_layers(m):
        if type(l).__module__.split('.')[0] != 'HGQ' or isinstance(l.input, (list, tuple)):
            continue
        with keras.utils.custom_object_scope(dict(gen.CUSTOM)):
            l2 = keras.layers.deserialize(keras.layers.serialize(l))
        inp = keras.layers.Input(shape=l.input_shape[1:])
        head = HGQ.Signature(1, 8, 4)
        mm = keras.Model(inp, l2(head(inp)))
        l2.set_weights(l.get_weights())
        ca, cb = norm(l.get_config()), norm(l2.get_config())
        ctx.check(ca == cb, 'layer_config', lambda: f'{l.name}: {[(k, ca.get(k), cb.get(k)) for k in set(ca) | set(cb) if ca.get(k) != cb.get(k)]}')
        x = rng.normal(size=(5,) + tuple(l.input_shape[1:])).astype(np.float32)
        ctx.equal(mm(x, training=False).numpy(), l(tf.constant(x), training=False).numpy(), 'layer_outputs', l.name)
        ctx.count('single_layers')


def proxy_case(ctx, rng):
    G, g, x = fresh(rng, 24, depth=(1, 4), acts=ACTS)
    trace_minmax(g.model, x, verbose=False)
    opts = dict(aggressive=bool(rng.random() < 0.6), skip_precision_reg=bool(rng.random() < 0.5))
    if rng.random() < 0.6:
        opts['unary_lut_max_table_size'] = 4096
    ctx.step([str(opts)] + g.desc())
    p = convert(g.model, opts)
    path = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), f'c10_{os.getpid()}.h5')
    way = pick_seq(rng, ['h5', 'h5', 'clone'])
    with persist(way), keras.utils.custom_object_scope(dict(gen.CUSTOM)):
        if way == 'h5':
            p.save(path)
            p2 = keras.models.load_model(path)
            os.remove(path)
        else:
            p2 = keras.models.clone_model(p)
            p2.set_weights(p.get_weights())
    a, b = list(p.layers), list(p2.layers)
    ctx.check([(type(u).__name__, u.name) for u in a] == [(type(u).__name__, u.name) for u in b], 'layers', f'{[u.name for u in a]} {[u.name for u in b]}')
    for u, v in zip(a, b):
        cu, cv = norm(u.get_config()), norm(v.get_config())
        ctx.check(json.dumps(cu, sort_keys=True, default=str) == json.dumps(cv, sort_keys=True, default=str), 'config', lambda: f'{u.name}: {[(k, cu.get(k), cv.get(k)) for k in set(cu) | set(cv) if cu.get(k) != cv.get(k)]}')
        for i, (s, t) in enumerate(zip(u.get_weights(), v.get_weights())):
            ctx.equal(t, s, 'weights', f'{u.name} {i}')
        if type(u).__name__ == 'FixedPointQuantizer':
            ctx.check(not v.trainable_variables, 'trainable', u.name)
            for at in ('RND', 'SAT'):
                ctx.check(getattr(u, at) == getattr(v, at), 'mode', f'{u.name} {at}')
            ctx.check(norm(u.overrides) == norm(v.overrides), 'overrides', f'{u.overrides} {v.overrides}')
            if u.overrides['layers']:
                ctx.count('overrides')
        if type(u).__name__ == 'UnaryLUT':
            ctx.count('luts')
    for amp in (1., 12.):
        d = G.data(g, 24, amp=amp)
        for s, t in zip(nps(p(d)), nps(p2(d))):
            ctx.equal(t, s, 'outputs', f'proxy {way} amp={amp} {opts}')
            ctx.count('outputs', s.size)
    ctx.count('proxy')
    ctx.saw('proxy', way, str(sorted(opts.items())), tuple(sorted({type(u).__name__ for u in a})))
    ctx.sample = {'way': way, 'proxy_layers': [type(u).__name__ for u in a], 'options': opts}
