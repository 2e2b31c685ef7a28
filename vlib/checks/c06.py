"""C06: the generated firmware computes exactly what the proxy model (and, in range, the quantized model) computes."""
import contextlib
import io
import os
import shutil

from .common import *
from .c05 import convert

CASES = {'quick': 44, 'thorough': 320}
DEADLINE = {'quick': 150, 'thorough': 3600}
REQUIRED = {'quick': {'rows_calibrated': 300, 'rows_overflow': 200, 'exact': 10}, 'thorough': {'exact': 100}}
RULE = ('random models converted and compiled to C++ firmware (io_parallel, both HLS backends), run on the calibration data and, in the wrapping mode, on data far outside the calibrated range; every '
        'firmware output is compared with the proxy model and, on calibration data, with the quantized model; distinct = (layer kinds, conversion options, backend)')
ASSUMPTIONS = ['hls4ml 1.3.0 is the translator: where it narrows precisions inexactly by itself (decided by translating the same proxy a second time with neutral declarations) the model is not judged',
               'an exception raised by hls4ml or g++ rejects the case', 'saturating mode only on calibrated data']


class HGen(gen.Gen):
    """hls4ml 1.3.0 narrows shared-bitwidth quantizers and rounding activations inexactly on its own: fully heterogeneous bitwidths, and rounding only at the inputs and where the bias absorbs it"""
    free = False

    def paq(self, rank, **over):
        c = super().paq(rank, **over)
        c['skip_dims'] = (0,)
        if not self.free:
            c['rnd_strategy'] = 'floor'
        return c

    def quantize(self, g, x):
        self.free = True
        try:
            return super().quantize(g, x)
        finally:
            self.free = False

    def dense(self, g, x, units=None):
        self.free = True
        try:
            n = super().dense(g, x, units)
        finally:
            self.free = False
        if not n.p['use_bias'] and n.p['paq']['rnd_strategy'] != 'floor':
            raise Reject('rounding that no bias absorbs')
        return n


def case(ctx, rng):
    wrap = bool(rng.random() < 0.8)
    strict = bool(rng.random() < 0.6)
    kw = dict(depth=(1, 3), kinds=(1, 1, 2, 3), nested=0., multi_in=0.12, multi_out=0.0, branch=0.2, permute=False, dilation=False, groups=False, dropout=False, pool=wrap,
              acts=('relu', 'tanh', 'sigmoid', 'halfabs'), f_hi=3.5, kf_hi=3.0, ndense=False, signature=0.15, square_stride=True, no_concat=True, same_pool=False, prune=0., leaf_h=True)
    if not strict:
        kw.update(nested=0.1, prune=0.1, ndense=True)
    if not wrap:
        kw.update(multi_in=0, branch=0, relu_prob=0., acti=False, ops=('dense', 'conv1d', 'conv2d'))
    G = (HGen if strict else gen.Gen)(rng, **kw)
    g = G.build()
    x = G.data(g, 48)
    if g.outputs[0].op not in HOPS or any(n.op == 'activation' and n.p['act'] in ('linear',) for n in g.all_nodes()):
        raise Reject('leaf')
    ctx.step([f'wrap={wrap}'] + g.desc())
    trace_minmax(g.model, x, verbose=False)
    vals = gen.capture(g, x)
    ok, pres = clean_rows(g, vals)
    opts = dict(aggressive=wrap, unary_lut_max_table_size=2048)
    proxy = convert(g.model, opts)
    if any(type(l).__name__ == 'Activation' and l.activation.__name__ not in ('relu', 'linear') for l in proxy.layers):
        raise Reject('activation too wide for a table')
    backend = pick_seq(rng, ['vivado', 'vitis'])
    fw = build_firmware(ctx, proxy, backend, ctx.idx)
    try:
        bad = []
        m = nps(g.model(x, training=False))
        for what, d in [('calibration data', x)] + ([('overflowing data', G.data(g, 48, amp=10))] if wrap else []):
            a, b = nps(proxy(d, training=False)), run(fw, d)
            for i, (u, v) in enumerate(zip(a, b)):
                v = v.reshape(u.shape)
                ctx.evaluations += v.size
                if (u != v).any():
                    bad.append((what, d, i, f'{what}, output {i}: {int((u != v).sum())}/{u.size} differ, e.g. firmware {v[u != v][:3]} proxy {u[u != v][:3]}'))
                if d is x:
                    ctx.equal(u[ok], m[i][ok], 'proxy_vs_model', f'{what}, output {i}')
            ctx.count('rows_calibrated' if d is x else 'rows_overflow', nrows(d))
        if bad and blame(ctx, proxy, backend, bad):
            for what, _, _, msg in bad:
                ctx.fail('firmware_vs_proxy', f'{backend} wrap={wrap} {msg}')
        ctx.count('exact' if not bad else 'inexact')
    finally:
        shutil.rmtree(fw.config.get_output_dir(), ignore_errors=True)
    ctx.count('firmware')
    ctx.saw(tuple(sorted({n.op for n in g.all_nodes()})), tuple(sorted(opts.items())), backend)
    count_ops(ctx, g)
    ctx.sample = {'ops': [n.op for n in g.all_nodes()], 'wrap': wrap, 'backend': backend}


def blame(ctx, proxy, backend, bad):
    """Is the deviation due to what the proxy declares to hls4ml?  The same proxy is translated once more, with the declarations replaced by what the proxy's quantizers and tables
    actually compute: if the firmware is still off, hls4ml's own precision propagation is the cause and the observation says nothing about this repository."""
    from hls4ml.converters.keras_v2_to_hls import layer_handlers, parse_default_keras_layer
    from hls4ml.model.types import FixedPrecisionType

    def fpq(keras_layer, input_names, input_shapes, reader):
        conf = parse_default_keras_layer(keras_layer, input_names)
        L = proxy.get_layer(conf['name'])
        k, b, i = (np.asarray(v.numpy()) for v in (L.keep_negative, L.bits, L.integers))
        uniform = all(np.unique(v).size == 1 for v in (k, b, i))
        conf.update(RND=L.RND, SAT=L.SAT, fusible=uniform, overrides={'layers': {}})
        conf['mask_kbi'] = tuple(v.ravel()[:1] for v in (k, b, i)) if uniform else (k, b, i)
        return conf, input_shapes[0]

    def lut(keras_layer, input_names, input_shapes, reader):
        conf = parse_default_keras_layer(keras_layer, input_names)
        t = proxy.get_layer(conf['name']).table.numpy().astype(np.float64)
        k, i, f = ref.kif_of_range(t.min(), t.max(), max(gen.lsb(t), 0))
        conf.update(table_t=FixedPrecisionType(max(k + i + f, 1), k + i, k), table_data=t, activation='unary_lut')
        return conf, input_shapes[0]

    old = dict(layer_handlers)
    try:
        for n in ('FixedPointQuantizer', 'HGQ>FixedPointQuantizer'):
            layer_handlers[n] = fpq
        for n in ('UnaryLUT', 'HGQ>UnaryLUT'):
            layer_handlers[n] = lut
        try:
            fw = build_firmware(ctx, proxy, backend, f'{ctx.idx}n')
        except Reject:
            ctx.count('unattributed')
            return False
    finally:
        layer_handlers.clear()
        layer_handlers.update(old)
    try:
        for what, d, i, msg in bad:
            a, b = nps(proxy(d, training=False)), run(fw, d)
            if (a[i] != b[i].reshape(a[i].shape)).any():
                ctx.count('hls4ml_inexact')
                return False
        return True
    finally:
        shutil.rmtree(fw.config.get_output_dir(), ignore_errors=True)


def build_firmware(ctx, proxy, backend, idx):
    from hls4ml.converters import convert_from_keras_model
    out = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), f'fw{idx}_{os.getpid()}')
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            fw = convert_from_keras_model(proxy, io_type='io_parallel', output_dir=out, backend=backend,
                                          hls_config={'Model': {'Precision': 'fixed<1,0>', 'ReuseFactor': 1}})
            fw.compile()
        return fw
    except Exception as e:
        shutil.rmtree(out, ignore_errors=True)
        ctx.count('hls4ml_refused')
        raise Reject(f'hls4ml: {type(e).__name__} {str(e)[:300]}')


def run(fw, x):
    d = [np.ascontiguousarray(v) for v in x] if isinstance(x, list) else np.ascontiguousarray(x)
    r = fw.predict(d)
    return r if isinstance(r, list) else [r]
