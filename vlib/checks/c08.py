"""C08: the reported BOPs are the exact bit-operation count of the calibrated network."""
import contextlib
import io

from .common import *
from .. import bwref
from HGQ import CalibratedBOPs, FreeBOPs

CASES = {'quick': 420, 'thorough': 6000}
REQUIRED = {'quick': {'kernel_layers': 250, 'nested': 8, 'multi_in': 20, 'callback': 25, 'zero_weights': 100, 'pruned_inputs': 50, 'pool_before_kernel': 4, 'permute_before_kernel': 2, 'mode_jit': 3},
            'thorough': {'kernel_layers': 3000}}
RULE = ('random calibrated models (every layer kind, nested, several inputs, grouped/strided/dilated/padded convolutions, pruned weights and activations, recalibrated histories); the reference counts bits on '
        'integers from the observed values and weights alone; distinct = (layer kinds, entry point, mode) with a non-zero count')
ASSUMPTIONS = ['counts stay below 2^23 so that float32 holds them', 'the width of a pooled activation is the largest width in its window; a declared input signature counts its declared bits']


def case(ctx, rng):
    mode = pick_mode(ctx, rng, 0.05)
    G = gen.Gen(rng, prune=0.3, depth=(1, 2) if mode == 'jit' else (1, 5))
    g = G.build()
    set_mode(mode)
    x = unambiguous(g, G.data(g, 24))
    how = pick_seq(rng, ['trace', 'trace', 'verbose', 'callback', 'recalibrated', 'accumulated'])
    ctx.step([how] + g.desc())
    if how in ('recalibrated', 'accumulated'):
        x0 = unambiguous(g, G.data(g, 12, amp=4.))
        trace_minmax(g.model, x0, verbose=False)
    bsz = int(rng.integers(3, 40))
    printed = {}
    if how == 'callback':
        cb = CalibratedBOPs(x, bsz if rng.random() < 0.7 or isinstance(x, list) else None)
        cb.set_model(g.model)
        logs = {'loss': 1.0}
        cb.on_epoch_end(0, logs)
        total = logs['bops']
        ctx.count('callback')
    elif how == 'verbose':
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            total = trace_minmax(g.model, x, bsz=bsz)
        for line in out.getvalue().splitlines():
            if ': ' in line:
                k, v = line.rsplit(': ', 1)
                printed[k] = float(v)
    else:
        total = trace_minmax(g.model, x, bsz=bsz, verbose=False, rst=how != 'accumulated')
    allx = cat(x0, x) if how == 'accumulated' else x
    vals = gen.capture(g, allx)
    _, pres = clean_rows(g, vals)
    # the capture pass only reads, except for the on-the-fly estimates: recompute the exact ones once more
    total2 = trace_minmax(g.model, allx, bsz=1000, verbose=False)
    qk = {n: gen.qkernel(n, ctx) for n in g.hnodes() if n.op in HKERNEL}
    want = bwref.exact_bops(g, pres, qk)
    tot = sum(want.values())
    if tot > 2 ** 23:
        raise Reject('count too large for float32')
    for n, w in want.items():
        ctx.check(abs(float(n.layer.bops.numpy()) - w) <= 1e-5 * w + 1e-4, 'layer_bops', lambda: f'{n.desc()}: {n.layer.bops.numpy()} want {w}')
        if printed:
            ctx.check(n.name in printed and abs(printed[n.name] - w) <= 1e-5 * w + 1e-4, 'printed', lambda: f'{n.desc()}: printed {printed.get(n.name)} want {w}')
        if n.op in HKERNEL:
            ctx.count('kernel_layers')
            ctx.count('zero_weights', (qk[n] == 0).sum())
            src = n.inputs[0]
            ctx.count('pool_before_kernel', src.op in ('maxpool', 'avgpool'))
            ctx.count('permute_before_kernel', src.op == 'permute')
        lo, hi = gen.group_range(n, pres[n])
        ctx.count('pruned_inputs', ((lo == 0) & (hi == 0)).sum())
    exact_slack = 1e-5 * tot + 1e-3 * len(want)
    ctx.check(abs(float(total) - tot) <= exact_slack, 'total', f'{how}: {total} want {tot}')
    ctx.check(abs(float(total2) - tot) <= exact_slack, 'total_again', f'{how}: {total2} want {tot}')
    fb = FreeBOPs()
    fb.set_model(g.model)
    logs = {}
    fb.on_epoch_end(0, logs)
    ctx.check(abs(float(logs['bops']) - tot) <= exact_slack, 'free_bops', f'{logs} want {tot}')
    if any(n.op == 'nested' for n in g.nodes):
        ctx.count('nested')
    ctx.count('multi_in', len(g.inputs) > 1)
    if tot > 0:
        ctx.saw(tuple(sorted({n.op for n in g.all_nodes()})), how, mode)
    ctx.sample = {'how': how, 'bops': tot, 'layers': {n.name: w for n, w in list(want.items())[:6]}, 'mode': mode}
