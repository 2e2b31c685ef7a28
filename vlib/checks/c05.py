"""C05: the converted (proxy) model computes exactly what the quantized model computes on the calibrated range."""
from .common import *

CASES = {'quick': 260, 'thorough': 4000}
REQUIRED = {'quick': {'compared_rows': 3000, 'unseen_rows': 300, 'mode_jit': 10, 'opt_lut': 20, 'opt_reg': 30, 'opt_sat': 30, 'nested': 10, 'multi_io': 20}, 'thorough': {'compared_rows': 40000}}
RULE = ('random models x conversion options (wrap/saturate, table size for unary tables, precision registration), compared element by element on calibration data and on unseen data whose every intermediate '
        'stays in the calibrated range; distinct = (set of layer kinds, options, mode)')
ASSUMPTIONS = ['inputs are dyadic with at most 10 fractional bits', 'rows with a transcendental on a float32 rounding tie are not compared', 'models whose intermediates float32 cannot hold are rejected']


def case(ctx, rng):
    mode = pick_mode(ctx, rng, 0.06)
    G, g, x = fresh(rng, 32, **(dict(depth=(1, 2), nested=0) if mode == 'jit' else {}))
    set_mode(mode)
    opts = dict(aggressive=bool(rng.random() < 0.7), skip_precision_reg=bool(rng.random() < 0.6))
    if rng.random() < 0.3:
        opts['unary_lut_max_table_size'] = int(pick_seq(rng, [16, 64, 512, 4096]))
    ctx.step([str(opts)] + g.desc())
    trace_minmax(g.model, x, verbose=False, bsz=int(rng.integers(5, 64)))
    vals = gen.capture(g, x)
    ok, pres = clean_rows(g, vals)
    proxy = convert(g.model, opts)
    if not opts['aggressive']:
        ctx.count('opt_sat')
    if not opts['skip_precision_reg']:
        ctx.count('opt_reg')
    if 'unary_lut_max_table_size' in opts:
        ctx.count('opt_lut')
    if any(n.op == 'nested' for n in g.nodes):
        ctx.count('nested')
    if len(g.inputs) + len(g.outputs) > 2:
        ctx.count('multi_io')
    compare(ctx, g, proxy, x, ok, 'calibration data', opts)
    rng_of = {n: gen.group_range(n, pres[n]) for n in pres}
    # unseen data kept inside the calibrated range: shrunk, sign flipped and mixed samples
    y = G.data(g, 48, amp=0.35)
    v2 = gen.capture(g, y)
    try:
        ok2, pres2 = clean_rows(g, v2)
    except Reject:
        ok2, pres2 = np.zeros(nrows(y), bool), {}
    for n, p in pres2.items():
        ok2 &= within(n, p, *rng_of[n])
    ctx.count('unseen_rows', ok2.sum())
    if ok2.any():
        compare(ctx, g, proxy, y, ok2, 'unseen data inside the calibrated range', opts)
    ctx.saw(tuple(sorted({n.op for n in g.all_nodes()})), tuple(sorted(opts.items())), mode)
    ctx.sample = {'options': opts, 'ops': [n.op for n in g.all_nodes()], 'mode': mode}


def convert(model, opts):
    try:
        return to_proxy_model(model, **opts)
    except AssertionError as e:
        if 'constantly zero' in str(e) or 'zero array' in str(e):
            raise Reject('table for a pruned activation is refused')
        raise


def compare(ctx, g, proxy, x, ok, what, opts):
    a, b = nps(g.model(x, training=False)), nps(proxy(x, training=False))
    ctx.check(len(a) == len(b), 'n_outputs', f'{len(a)} {len(b)}')
    for i, (u, v) in enumerate(zip(a, b)):
        ctx.equal(v[ok], u[ok], 'bit_exact', f'{what}, output {i}, {opts}')
    ctx.count('compared_rows', int(ok.sum()))
