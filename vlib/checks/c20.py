"""C20: flattening and conversion preserve the function, the names and the order of inputs and outputs of arbitrarily nested models."""
from .common import *
from HGQ.layers import HActivation, HAdd, HDense, HQuantize, PConcatenate, PDropout, PReshape
from HGQ.proxy.convert import convert_model

CASES = {'quick': 420, 'thorough': 7000}
REQUIRED = {'quick': {'flatten': 150, 'proxy': 150, 'nested': 250, 'nested_multi_in': 100, 'nested_multi_out': 100, 'depth2': 60, 'reused_layer': 60, 'reused_model': 40, 'multi_in': 100, 'multi_out': 100, 'xform': 60, 'dropped': 20, 'expanded': 20,
                      'out_is_nested': 30, 'mode_jit': 5}, 'thorough': {'nested': 4000}}
RULE = ('random graphs of plain Keras layers (with reused layers and reused nested models) flattened with and without a layer transformation, and of quantized layers converted to proxies; nested models have 1-3 inputs and 1-3 outputs, to depth 3, '
        'and outputs may be taken anywhere; values, order, names, absence of nesting and integrity of the original are judged; distinct = (kind, nesting, reuse, inputs, outputs, transformation)')
ASSUMPTIONS = ['call arguments other than tensors (e.g. training=True) are not preserved by flattening', 'quantized layers are used once each, as HGQ requires']
D = 3


@keras.utils.register_keras_serializable('verif')
class Scale(keras.layers.Layer):
    def __init__(self, c=1., atomic=False, **kw):
        super().__init__(**kw)
        self.c, self.atomic = c, atomic

    def call(self, x):
        return x * self.c


class Plain:
    """plain Keras layers, layers and models may be reused"""
    quantized = False

    def __init__(self, rng, ctx):
        self.rng, self.ctx, self.layers, self.models = rng, ctx, [], []

    def enter(self, t):
        return t

    leave = enter

    def unary(self, t, pool):
        rng = self.rng
        if self.layers and rng.random() < 0.25:
            self.ctx.count('reused_layer')
            return pick_seq(rng, self.layers)(t)
        L = pick_seq(rng, [lambda: keras.layers.Dense(D), lambda: keras.layers.Dense(D, activation='relu'), *[lambda: Scale(float(pick_seq(rng, [1., 1., 2., -0.5])))] * 3, lambda: keras.layers.ReLU(), lambda: keras.layers.Dropout(0.5), lambda: keras.layers.Activation('tanh')])()
        self.layers.append(L)
        return L(t)

    def merge(self, ts):
        if self.rng.random() < 0.3:
            return keras.layers.Dense(D)(keras.layers.Concatenate()(ts))
        if len(ts) == 2 and self.rng.random() < 0.5:
            return keras.layers.Subtract()(ts)
        return keras.layers.Add()(ts)


class Quantized(Plain):
    quantized = True

    def pc(self):
        c = HGQ.get_default_paq_conf()
        c['skip_dims'] = pick_seq(self.rng, ['all', (0,)])
        c['init_bw'] = float(self.rng.integers(1, 5))
        c['rnd_strategy'] = pick_seq(self.rng, ['standard_round', 'floor', 'auto'])
        return c

    def kc(self):
        c = HGQ.get_default_kq_conf()
        c['init_bw'] = float(self.rng.integers(1, 4))
        return c

    def enter(self, t):
        return HQuantize(paq_conf=self.pc())(t)

    leave = enter

    def dense(self, t):
        return HDense(D, activation=pick_seq(self.rng, [None, 'relu']), paq_conf=self.pc(), kq_conf=self.kc(), do_adapt_kernel_bits=False, bias_initializer='glorot_uniform' if False else keras.initializers.RandomUniform(-1, 1, seed=int(self.rng.integers(1e6))))(t)

    def unary(self, t, pool):
        r = self.rng.random()
        if r < 0.55:
            return self.dense(t)
        if r < 0.7:
            return HActivation('relu', paq_conf=self.pc())(t)
        if r < 0.8:
            return PDropout(0.5)(t)
        if r < 0.9:
            return PReshape((D,))(t)
        return HQuantize(paq_conf=self.pc())(t)

    def merge(self, ts):
        if self.rng.random() < 0.3:
            return self.dense(PConcatenate()(ts))
        return HAdd(paq_conf=self.pc())(ts)


def model(B, rng, ctx, depth, n_in=None, top=False):
    n_in = n_in or int(rng.integers(1, 4))
    ins = [keras.layers.Input(shape=(D,)) for _ in range(n_in)]
    pool = [B.enter(t) for t in ins]
    if rng.random() < 0.5:
        pool = [pool[i] for i in rng.permutation(n_in)]
    quant_of = list(pool)
    nested_out = []
    for _ in range(int(rng.integers(1, 5))):
        r = rng.random()
        if depth > 0 and r < 0.45:
            m = None
            if not B.quantized and B.models and rng.random() < 0.4:
                m = pick_seq(rng, B.models)
                ctx.count('reused_model')
            if m is None:
                m = model(B, rng, ctx, depth - 1)
                if not B.quantized:
                    B.models.append(m)
            k = len(m.inputs)
            args = [pick_seq(rng, pool) for _ in range(k)]
            outs = m(args if k > 1 else args[0])
            outs = list(outs) if isinstance(outs, (list, tuple)) else [outs]
            ctx.count('nested')
            ctx.count('nested_multi_in', k > 1)
            ctx.count('nested_multi_out', len(outs) > 1)
            ctx.count('depth2', depth < 2)
            nested_out += outs
            used = [outs[i] for i in rng.permutation(len(outs))][:int(rng.integers(1, len(outs) + 1))]
            pool += [B.leave(t) for t in used]
        elif len(pool) > 1 and r < 0.65:
            ts = [pool[i] for i in rng.choice(len(pool), size=int(rng.integers(2, min(3, len(pool)) + 1)), replace=False)]
            pool.append(B.merge(ts))
        else:
            pool.append(B.unary(pick_seq(rng, pool), pool))
    cand = [t for t in pool if not any(t is q for q in quant_of)] or pool
    n_out = int(rng.integers(1, 4))
    outs = [cand[i] for i in rng.permutation(len(cand))][:n_out]
    if top and nested_out and rng.random() < 0.4:
        outs[int(rng.integers(len(outs)))] = pick_seq(rng, nested_out)
        ctx.count('out_is_nested')
    seen = []
    for t in outs:
        if not any(t is s for s in seen):
            seen.append(t)
    outs = seen
    return keras.Model(ins if n_in > 1 else ins[0], outs if len(outs) > 1 else outs[0])


def flat(m):
    for l in m.layers:
        if isinstance(l, keras.Model):
            yield from flat(l)
        elif not isinstance(l, keras.layers.InputLayer):
            yield l


def live(m, wanted=None):
    """layers (outside nested models) and nested ones whose value some wanted output depends on"""
    found, seen, ins = [], set(), set()

    def walk(t):
        h = t._keras_history
        key = (id(h.layer), h.node_index, h.tensor_index)
        if key in seen:
            return
        seen.add(key)
        for k, i in enumerate(m.inputs):
            if i is t or (i._keras_history.layer is h.layer and i._keras_history.node_index == h.node_index and i._keras_history.tensor_index == h.tensor_index):
                ins.add(k)
                return
        args = h.layer._inbound_nodes[h.node_index].keras_inputs
        if isinstance(h.layer, keras.Model):
            sub_found, need = live(h.layer, [h.tensor_index])
            found.extend(sub_found)
            for k in need:
                walk(args[k])
        else:
            found.append(h.layer)
            for a in args:
                walk(a)
    for k, o in enumerate(m.outputs):
        if wanted is None or k in wanted:
            walk(o)
    return found, ins


def structure(m):
    return [(l.name, type(l).__name__, len(l._inbound_nodes), len(l._outbound_nodes), structure(l) if isinstance(l, keras.Model) else None) for l in m.layers]


def outputs(m, x):
    return [v.numpy() for v in aslist(m(x, training=False))]


def xformer(ctx):
    memo = {}

    def f(layer):
        if layer is None:
            return None
        if isinstance(layer, Scale) and not layer.atomic:
            if layer.c == 1.:
                ctx.count('dropped')
                return None
            ctx.count('expanded')
            i = keras.layers.Input(shape=(D,))
            return keras.Model(i, Scale(layer.c / 2, True, name=layer.name + '_b')(Scale(2., True, name=layer.name + '_a')(i)))
        if isinstance(layer, keras.layers.Dropout):
            return None
        if isinstance(layer, keras.layers.Dense) and not getattr(layer, '_verif', False):
            if id(layer) not in memo:
                c = keras.layers.Dense.from_config(layer.get_config())
                c.build(layer.input_shape if len(layer._inbound_nodes) == 1 else layer.get_input_shape_at(0))
                c.set_weights(layer.get_weights())
                c._verif = True
                memo[id(layer)] = c
            return memo[id(layer)]
        return layer
    return f


def case(ctx, rng):
    mode = pick_mode(ctx, rng, 0.03)
    set_mode(mode)
    quantized = rng.random() < 0.5
    B = (Quantized if quantized else Plain)(rng, ctx)
    m = model(B, rng, ctx, int(rng.integers(1, 4)), top=True)
    n_in, n_out = len(m.inputs), len(m.outputs)
    ctx.count('multi_in', n_in > 1)
    ctx.count('multi_out', n_out > 1)
    xs = [(rng.integers(-64, 65, size=(7, D)) / 16).astype(np.float32) for _ in range(n_in)]
    x = xs if n_in > 1 else xs[0]
    ctx.step([f'{l}' for l in structure(m)])
    names = [l.name for l in flat(m)]
    if quantized:
        for l in flat(m):
            if hasattr(l, 'kq'):
                l.kq.fbw.assign(np.round(rng.uniform(0, 4, size=tuple(l.kq.fbw.shape))).astype(np.float32))
        trace_minmax(m, x, verbose=False, bsz=int(rng.integers(2, 9)))
        before, ref_out = structure(m), outputs(m, x)
        c = to_proxy_model(m, aggressive=bool(rng.integers(2)), skip_precision_reg=True)
        ctx.count('proxy')
        have = {l.name for l in c.layers}
        for l in live(m)[0]:
            if isinstance(l, HDense) or isinstance(l, (HActivation, HQuantize)):
                ctx.check(l.name in have, 'name_lost', lambda: f'{l.name} not in {sorted(have)}')
    else:
        before, ref_out = structure(m), outputs(m, x)
        if rng.random() < 0.5:
            c = convert_model(m, xformer(ctx))
            ctx.count('xform')
        else:
            c = convert_model(m)
            cn = [l.name for l in c.layers]
            for l in live(m)[0]:
                ok = l.name in cn or l._inbound_nodes[1:] or B.models and any(c.startswith(l.name + '_') for c in cn)   # a further use gets a suffix, and the first may be unused
                ctx.check(bool(ok), 'name_lost', lambda: f'{l.name} not in {cn}')
        ctx.count('flatten')
    tops = [l for l in c.layers]
    ctx.check(not any(isinstance(l, keras.Model) for l in tops), 'nested_left', lambda: f'{[type(l).__name__ for l in tops]}')
    ctx.check(len({l.name for l in tops}) == len(tops), 'names_clash', lambda: f'{[l.name for l in tops]}')
    ctx.check(all(len(l._inbound_nodes) == 1 for l in tops), 'reuse_left', lambda: f'{[(l.name, len(l._inbound_nodes)) for l in tops]}')
    ctx.check(len(c.inputs) == n_in and [tuple(t.shape) for t in c.outputs] == [tuple(t.shape) for t in m.outputs], 'io', lambda: f'{c.inputs} {c.outputs}')
    got = outputs(c, x)
    tol = 0. if quantized else 1e-5
    for k, (u, v) in enumerate(zip(got, ref_out)):
        ctx.equal(u, v, 'function', f'output {k} of {n_out}, {"proxy" if quantized else "flattened"}', tol=tol * (1 + np.abs(v)))
    ctx.check(structure(m) == before, 'original_structure', lambda: f'{structure(m)} was {before}')
    for u, v in zip(outputs(m, x), ref_out):
        ctx.equal(u, v, 'original_outputs', 'original model after conversion')
    ctx.saw(quantized, str(structure(m).__len__()), n_in, n_out, any(isinstance(l, keras.Model) for l in m.layers), mode, len(names))
    ctx.sample = {'quantized': quantized, 'inputs': n_in, 'outputs': n_out, 'layers': names[:12]}
