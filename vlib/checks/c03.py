"""C03: the recorded activation ranges follow the calibration history exactly."""
from .common import *
from HGQ import ResetMinMax

CASES = {'quick': 200, 'thorough': 3000}
REQUIRED = {'quick': {'op_trace_rst': 100, 'op_trace_acc': 60, 'op_reset': 30, 'op_infer': 60, 'op_train': 20, 'mode_jit': 10, 'nested': 10, 'unset': 20}, 'thorough': {'op_trace_rst': 1500}}
RULE = ('histories of 3-7 operations (calibrate with/without reset, any batch size, any sample order; plain inference; training steps; range reset; predict) on random models; a shadow interpreter recomputes the '
        'range of every quantizer group after every operation; distinct = (operation bigrams x nested/multi-input x mode) with at least one recorded range change')
ASSUMPTIONS = ['samples on which a float32 transcendental sits on a rounding tie are taken as the layer produced them', 'models whose intermediates float32 cannot hold are rejected']


def case(ctx, rng):
    mode = pick_mode(ctx, rng, 0.1)
    det = rng.random() < 0.35
    opts = dict(depth=(1, 3) if mode == 'jit' else (1, 4))
    if det:
        opts.update(rnds=('standard_round', 'floor', 'auto'), bn=False, dropout=False, acts=('relu', 'linear'))
    G = gen.Gen(rng, **opts)
    g = G.build()
    set_mode(mode)
    hn = g.hnodes()
    nested = any(n.op == 'nested' for n in g.nodes)
    if nested:
        ctx.count('nested')
    shadow = {n: None for n in hn}
    prev = 'new'
    ctx.step(g.desc())
    for step in range(int(rng.integers(3, 5 if mode == 'jit' else 8))):
        ops = ['trace_rst', 'trace_rst', 'trace_acc', 'trace_acc', 'infer', 'reset']
        if det:
            ops += ['train', 'train']
        op = pick_seq(rng, ops)
        data = G.data(g, int(rng.integers(3, 20)))
        n = nrows(data)
        changed = False
        ctx.step(f'{op} n={n}')
        if op.startswith('trace'):
            rst = op == 'trace_rst'
            if all(v is None for v in shadow.values()) and not rst and rng.random() < 0.5:
                rst = True
                op = 'trace_rst'
            if n > 1 and rng.random() < 0.3:
                data = sub(data, rng.permutation(n))
            bsz = int(rng.integers(1, n + 3)) if mode == 'eager' else n
            kw = dict(bsz=bsz, verbose=False, rst=rst, no_bops_computation=bool(rng.integers(2)))
            single = len(g.outputs) == 1
            rp = single and not kw['no_bops_computation'] and rng.random() < 0.4
            if rp:
                _, preds = trace_minmax(g.model, data, return_predictions=True, **kw)
            else:
                trace_minmax(g.model, data, **kw)
            vals = capture_batched(g, data, bsz)
            if rp:
                ctx.equal(preds, vals[g.outputs[0]], 'predictions', 'predictions returned by the calibration')
                ctx.count('predictions')
            changed = apply(shadow, hn, vals, g, ctx, rst)
        elif op == 'infer':
            g.model.predict(data, verbose=0, batch_size=3) if rng.random() < 0.3 else g.model(data, training=pick_seq(rng, [None, False]))
        elif op == 'train':
            g.model(data, training=True)
            # the values the layers exchanged in the same (deterministic) training step; each layer's own rounding is judged within one step
            gen.GUARD = False
            try:
                vals = gen.capture(g, data, training=True)
                changed = apply(shadow, hn, vals, g, ctx, False)
            finally:
                gen.GUARD = True
        elif op == 'reset':
            cb = ResetMinMax()
            if rng.random() < 0.5:
                cb.set_model(g.model)
                cb.on_epoch_end(0, {})
            else:
                ResetMinMax.reset_minmax(g.model)
            shadow = {k: None for k in shadow}
        ctx.count('op_' + op)
        tolerant = det and any('train' in s for s in ctx.log)
        for nd in hn:
            lo, hi = minmax(nd)
            if shadow[nd] is None:
                ctx.check(np.all(lo > hi), 'unset', f'{nd.desc()}: range {lo.ravel()[:3]}..{hi.ravel()[:3]} recorded without calibration after {op}')
                try:
                    nd.layer.paq.get_bits_exact()
                    ctx.fail('unset_silent', f'{nd.desc()}: bitwidths derived without any calibration')
                except AssertionError:
                    ctx.evaluations += 1
                ctx.count('unset')
            else:
                wl, wh = shadow[nd]
                step_ = 2.0 ** -gen.act_f(nd)
                tol = 0.0 if not tolerant else np.broadcast_to(step_ * 1.01, lo.shape) + 1e-4 * np.maximum(np.abs(wl), np.abs(wh))
                ctx.equal(lo, wl, 'range_min', f'{nd.desc()} after {prev}->{op}', tol=tol)
                ctx.equal(hi, wh, 'range_max', f'{nd.desc()} after {prev}->{op}', tol=tol)
                ctx.count('ranges', lo.size)
        if changed:
            ctx.saw(prev, op, nested, len(g.inputs), mode)
        prev = op
        if ctx.violations:
            break
    ctx.sample = {'history': [s for s in ctx.log[1:]], 'layers': len(hn), 'nested': nested}


def apply(shadow, hn, vals, g, ctx, rst):
    ok, pres = clean_rows(g, vals)
    changed = False
    for n in hn:
        lo, hi = gen.group_range(n, pres[n])
        if rst or shadow[n] is None:
            shadow[n] = (lo, hi)
            changed = True
        else:
            a, b = shadow[n]
            na, nb = np.minimum(a, lo), np.maximum(b, hi)
            changed |= bool((na != a).any() or (nb != b).any())
            shadow[n] = (na, nb)
    return changed
