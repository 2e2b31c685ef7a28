"""C18: calibration margins: ranges widened by the cover factor, bounded activations kept within what they can produce, predictions returned in order."""
from .common import *
from .c05 import convert

CASES = {'quick': 300, 'thorough': 5000}
REQUIRED = {'quick': {'widened': 150, 'narrowed': 60, 'plain': 60, 'ranges': 3000, 'act_tanh': 40, 'act_sigmoid': 40, 'act_softmax': 40, 'margin_rows': 40, 'compared_rows': 1000, 'predictions': 150, 'multi_out_pred': 15, 'refused': 30,
                      'mode_jit': 10, 'nested': 15}, 'thorough': {'ranges': 50000}}
RULE = ('histories of 1-3 calibrations with cover factors 0.25..4 (with and without reset) on random models rich in bounded activations; the range of every group is compared with the reference of the widened range, the predictions returned '
        'with inference, and the converted model with the model on unseen data which leaves the observed but not the widened range; distinct = (factor, reset, activation kinds, nested, outputs, mode)')
ASSUMPTIONS = ['a widened bound within float32 error of a rounding boundary may go either way', 'inputs are dyadic; models whose intermediates float32 cannot hold are rejected']
ref.ACT.setdefault('softmax', lambda x: (lambda e: e / e.sum(-1, keepdims=True))(np.exp(x - x.max(-1, keepdims=True))))


def widen(n, lo, hi, cf):
    """(lo, hi, tolerance lo, tolerance hi)"""
    f, fl = act_f(n), is_floor(n)
    step = np.broadcast_to(2.0 ** -f, lo.shape)
    m, d = (lo + hi) / 2, (hi - lo) / 2
    r = []
    for v in (m - d * cf, m + d * cf):
        q = ref.quant(v, f, fl)
        r += [q, np.where(ref.near_boundary(v, f, fl), step, 0.)]
    return r[0], r[2], r[1], r[3]


def clamp(n, lo, hi):
    if n.op != 'activation':
        return lo, hi
    f, fl, a = act_f(n), is_floor(n), n.p['act']
    one = lambda s: np.broadcast_to(ref.quant(s, f, fl), lo.shape)
    if a == 'softmax':
        return np.zeros_like(lo), np.ones_like(hi)
    if a == 'sigmoid':
        return np.maximum(lo, 0), np.minimum(hi, one(1.))
    if a == 'tanh':
        return np.maximum(lo, one(-1.)), np.minimum(hi, one(1.))
    return lo, hi


def case(ctx, rng):
    mode = pick_mode(ctx, rng, 0.08)
    G = gen.Gen(rng, depth=(1, 2) if mode == 'jit' else (1, 4), multi_out=0.35, acts=('tanh', 'sigmoid', 'softmax', 'tanh', 'sigmoid', 'softmax', 'relu', 'square', 'negate'), f_hi=5.5)
    g = G.build()
    set_mode(mode)
    hn = g.hnodes()
    nested = any(n.op == 'nested' for n in g.nodes)
    if nested:
        ctx.count('nested')
    shadow, tols = {}, {}
    ctx.step(g.desc())
    for step in range(int(rng.integers(1, 4))):
        cf = float(pick_seq(rng, [1.0, 1.0, 1.25, 1.5, 2.0, 3.0, 4.0, 1.1, 1.3, 0.5, 0.25, 0.9]))
        rst = not shadow or bool(rng.integers(2))
        x = G.data(g, int(rng.integers(3, 20)))
        kw = dict(bsz=int(rng.integers(1, nrows(x) + 2)) if mode == 'eager' else nrows(x), verbose=False, rst=rst, cover_factor=cf)
        ctx.step(f'{kw} n={nrows(x)}')
        # same batches: a float function on a rounding tie may depend on the batch size
        vals = capture_batched(g, x, kw['bsz'])
        ok, pres = clean_rows(g, vals)
        if rng.random() < 0.7:
            _, preds = trace_minmax(g.model, x, return_predictions=True, **kw)
            ctx.check((len(preds) == len(g.outputs)) if len(g.outputs) > 1 else True, 'n_predictions', lambda: f'{len(preds)} for {len(g.outputs)} outputs')
            for o, p in zip(g.outputs, preds if len(g.outputs) > 1 else [preds]):
                ctx.equal(np.asarray(p), vals[o], 'predictions', f'output {o.name}')
                ctx.count('predictions')
            if len(g.outputs) > 1:
                ctx.count('multi_out_pred')
        else:
            trace_minmax(g.model, x, no_bops_computation=bool(rng.integers(2)), **kw)
        ctx.count('widened' if cf > 1 else 'narrowed' if cf < 1 else 'plain')
        observed = {}
        for n in hn:
            lo, hi = observed[n] = gen.group_range(n, pres[n])
            tl = th = np.zeros_like(lo)
            if not rst:
                a, b = shadow[n]
                lo, hi = np.minimum(lo, a), np.maximum(hi, b)
            if cf != 1.0:
                lo, hi, tl, th = widen(n, lo, hi, cf)
            lo, hi = clamp(n, lo, hi)
            gl, gh = minmax(n)
            ctx.equal(gl, lo, 'range_min', f'{n.desc()} factor {cf} reset {rst}', tol=tl)
            ctx.equal(gh, hi, 'range_max', f'{n.desc()} factor {cf} reset {rst}', tol=th)
            if cf >= 1:
                soft = n.p.get('act') == 'softmax' and n.op == 'activation'
                stp = np.broadcast_to(2.0 ** -act_f(n), lo.shape) * soft
                ctx.check(np.all(gl <= observed[n][0]) and np.all(gh >= observed[n][1] - stp), 'covers', lambda: f'{n.desc()}: {gl.ravel()[:4]}..{gh.ravel()[:4]} does not cover {observed[n][0].ravel()[:4]}..{observed[n][1].ravel()[:4]}')
            ctx.count('ranges', lo.size)
            if n.op == 'activation':
                ctx.count('act_' + n.p['act'])
            shadow[n] = (gl, gh)
            if ctx.violations:
                return
        ctx.saw(cf, rst, tuple(sorted({n.p['act'] for n in hn if n.op == 'activation'})), nested, len(g.outputs), mode)
    # the margin is there in the converted model
    if not all(np.all(lo <= hi) for lo, hi in shadow.values()):
        return
    proxy = convert(g.model, dict(aggressive=bool(rng.random() < 0.8)))
    y = cat(G.data(g, 24, amp=0.5), G.data(g, 24, amp=1.5), x)
    v2 = gen.capture(g, y)
    try:
        ok2, pres2 = clean_rows(g, v2)
    except Reject:
        return
    out = np.zeros(nrows(y), bool)
    for n, p in pres2.items():
        # softmax: a group may hold the value next to one
        top = shadow[n][1] + (np.broadcast_to(2.0 ** -act_f(n), shadow[n][1].shape) if n.p.get('act') == 'softmax' and n.op == 'activation' else 0)
        ok2 &= within(n, p, shadow[n][0], top)
        out |= ~within(n, p, *observed[n])
    ctx.count('margin_rows', int((ok2 & out).sum()))
    ctx.count('compared_rows', int(ok2.sum()))
    for u, v in zip(nps(g.model(y, training=False)), nps(proxy(y, training=False))):
        ctx.equal(v[ok2], u[ok2], 'proxy_margin', 'converted model inside the widened range')
    if rng.random() < 0.3:
        for bad in (0., -1.):
            try:
                trace_minmax(g.model, x, verbose=False, cover_factor=bad)
                ctx.fail('bad_factor', f'cover factor {bad} accepted')
            except AssertionError:
                ctx.count('refused')
    ctx.sample = {'history': ctx.log[1:], 'ops': [n.op for n in hn]}
