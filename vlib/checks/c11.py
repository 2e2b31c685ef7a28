"""C11: inference, calibration, conversion and saving read the model; they never change what it computes, and repeat identically."""
import json
import os

from .common import *
from .c05 import convert
from .c10 import flat_layers, norm
from HGQ import CalibratedBOPs, FreeBOPs

CASES = {'quick': 240, 'thorough': 3600}
REQUIRED = {'quick': {'ops': 700, 'op_convert': 100, 'op_trace': 60, 'op_predict': 40, 'op_save': 20, 'independence': 60, 'repeat': 60}, 'thorough': {'ops': 9000}}
RULE = ('histories of 3-6 read-only operations (call, predict, evaluate, calibrate, convert with different options, save, configuration, callbacks) on random calibrated models, with a snapshot of all weights, '
        'names, configurations, ranges and outputs compared after every step; conversions repeated and compared; proxy and model mutated independently; distinct = (operation bigrams, layer kinds)')
ASSUMPTIONS = ['the resource estimate held in each layer is bookkeeping and may change', 'calibration may change the recorded ranges only']


def snapshot(m, x, ranges=True):
    s = {}
    for i, l in enumerate(flat_layers(m)):
        s[i, 'name'] = l.name
        s[i, 'config'] = json.dumps(norm(l.get_config()), sort_keys=True, default=str)
        s[i, 'flags'] = (l.trainable, l.built, len(l._inbound_nodes))
        for j, w in enumerate(l.weights):
            if 'bops' not in w.name:
                s[i, 'w', j, w.name, w.trainable] = w.numpy().copy()
        if ranges and hasattr(l, 'paq'):
            s[i, 'min'], s[i, 'max'] = l.paq._min.numpy(), l.paq._max.numpy()
    s['names'] = [l.name for l in m.layers] + list(m.input_names) + list(m.output_names)
    s['out'] = np.concatenate([v.ravel() for v in nps(m(x, training=False))])
    return s


def same(ctx, a, b, op):
    ctx.check(a.keys() == b.keys(), 'structure', lambda: f'after {op}: {[k for k in set(a) ^ set(b)][:4]}')
    for k in a:
        if k not in b:
            continue
        u, v = a[k], b[k]
        ok = np.array_equal(u, v, equal_nan=True) if isinstance(u, np.ndarray) else u == v
        ctx.check(ok, f'changed:{k[1] if isinstance(k, tuple) else k}', lambda: f'{op} changed {k}: {str(u)[:300]} -> {str(v)[:300]}')


def case(ctx, rng):
    mode = pick_mode(ctx, rng, 0.08)
    G, g, x = fresh(rng, 16, depth=(1, 2) if mode == 'jit' else (1, 4), acts=('relu', 'linear', 'tanh', 'sigmoid'), beta=True)
    x = unambiguous(g, x)
    if not g.hnodes():
        raise Reject('no quantizer')
    set_mode(mode)
    m = g.model
    y = [rng.normal(size=(nrows(x),) + n.shape).astype(np.float32) for n in g.outputs]
    y = y if len(y) > 1 else y[0]
    m.compile(keras.optimizers.SGD(0.01), 'mse')
    trace_minmax(m, x, verbose=False)
    ctx.step(g.desc())
    snap = snapshot(m, x)
    first = {k: v for k, v in snap.items() if isinstance(k, tuple) and k[1] in ('min', 'max')}
    prev, proxies = 'new', {}
    bops = trace_minmax(m, x, verbose=False)
    for step in range(int(rng.integers(3, 7))):
        op = pick_seq(rng, ['call', 'predict', 'evaluate', 'trace', 'convert', 'convert', 'save', 'config', 'callback', 'properties'])
        ctx.step(op)
        ranges = True
        if op == 'call':
            m(G.data(g, 5, amp=9.), training=pick_seq(rng, [None, False]))
        elif op == 'predict':
            m.predict(G.data(g, 7, amp=9.), batch_size=3, verbose=0)
        elif op == 'evaluate':
            m.evaluate(x, y, verbose=0)
        elif op == 'trace':
            if rng.random() < 0.5:
                b = trace_minmax(m, x, verbose=False, bsz=int(rng.integers(3, 20)))
                ctx.check(b == bops, 'bops_repeat', f'{b} {bops}')
                ctx.count('recalibrated')
                proxies = proxies if all(np.array_equal(snap[k], first[k]) for k in first) else {}
                snap.update(first)
            else:
                trace_minmax(m, G.data(g, 9), verbose=False, rst=bool(rng.integers(2)), cover_factor=pick_seq(rng, [1., 1.5]), no_bops_computation=bool(rng.integers(2)))
                ranges = False
        elif op == 'convert':
            opts = pick_seq(rng, [dict(aggressive=True), dict(aggressive=False), dict(aggressive=True, unary_lut_max_table_size=256), dict(aggressive=True, skip_precision_reg=True)])
            key = json.dumps(opts, sort_keys=True)
            for _ in range(1 + (rng.random() < 0.4)):
                try:
                    p = convert(m, opts)
                except Reject:
                    break
                sig = proxy_sig(p, G.data(g, 6, amp=5.) if key not in proxies else proxies[key][1])
                if key in proxies:
                    a = proxies[key][0]
                    ctx.check([u[:2] for u in a[0]] == [u[:2] for u in sig[0]], 'repeat_structure', lambda: f'{[u[:2] for u in a[0]]} {[u[:2] for u in sig[0]]}')
                    for u, v in zip(a[0], sig[0]):
                        for s, t in zip(u[2], v[2]):
                            ctx.equal(t, s, 'repeat_weights', f'converting twice {opts}: {u[0]}')
                    ctx.equal(sig[1], a[1], 'repeat_outputs', f'converting twice {opts}')
                    ctx.count('repeat')
                else:
                    proxies[key] = (sig, sig[2], p)
        elif op == 'save':
            path = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), f'c11_{os.getpid()}.h5')
            m.save(path)
            os.remove(path)
        elif op == 'config':
            for l in flat_layers(m):
                scribble(l.get_config())   # what the user does with a returned configuration is their business
        elif op == 'callback':
            for cb in (FreeBOPs(), CalibratedBOPs(x, 8)):
                cb.set_model(m)
                logs = {}
                cb.on_epoch_end(0, logs)
            ctx.check(logs['bops'] == bops, 'bops_callback', lambda: f'{logs} {bops}')
            proxies = proxies if all(np.array_equal(snap[k], first[k]) for k in first) else {}
            snap.update(first)
        elif op == 'properties':
            for n in g.hnodes():
                L = n.layer
                L.act_bw_exact, L.act_bw
                if n.op in HKERNEL:
                    L.kernel_bw_exact, L.kernel_bw, L.fused_qkernel, L.compute_exact_bops
                    if n.p['use_bias']:
                        L.fused_qbias
        ctx.count('op_' + op)
        ctx.count('ops')
        now = snapshot(m, x)
        if not ranges:
            for k in list(now):
                if isinstance(k, tuple) and k[1] in ('min', 'max'):
                    snap[k] = now[k]
            proxies = {}
        same(ctx, snap, now, op)
        ctx.saw(prev, op, mode)
        prev = op
        if ctx.violations:
            return
    for key, (sig, d, p) in proxies.items():
        independence(ctx, rng, m, p, sig, d, snap, x)
        break
    ctx.saw(tuple(sorted({n.op for n in g.all_nodes()})))
    ctx.sample = {'history': ctx.log[1:], 'ops': [n.op for n in g.all_nodes()]}


def scribble(conf):
    for c in ('kq_conf', 'paq_conf'):
        if c in conf:
            conf[c]['init_bw'] = 77
            conf[c].pop('rnd_strategy')
    conf['beta'] = 77.


def proxy_sig(p, d):
    names = {l.name for l in p.layers if not isinstance(l, (keras.layers.InputLayer, keras.layers.ReLU)) and type(l).__name__ != 'UnaryLUT'}
    return [(l.name if l.name in names else '', type(l).__name__, [w.numpy() for w in l.weights]) for l in p.layers], np.concatenate([v.ravel() for v in nps(p(d, training=False))]), d


def independence(ctx, rng, m, p, sig, d, snap, x):
    """changing the model leaves the proxy alone and vice versa"""
    saved = [v.numpy() for v in m.weights]
    for v in m.weights:
        if v.dtype.is_floating:
            v.assign(v + 0.731)
    for l in flat_layers(m):
        if hasattr(l, 'reset_minmax'):
            l.reset_minmax()
    s2 = proxy_sig(p, d)
    ctx.equal(s2[1], sig[1], 'proxy_follows_model', 'outputs of the proxy after the model was changed')
    for v, w in zip(m.weights, saved):
        v.assign(w)
    for v in p.weights:
        if v.dtype.is_floating:
            v.assign(v + 0.413)
    now = snapshot(m, x, ranges=False)
    same(ctx, {k: v for k, v in snap.items() if not (isinstance(k, tuple) and k[1] in ('min', 'max'))}, now, 'changing the proxy')
    ctx.count('independence')
