"""C17: each layer follows the quantizer configuration it was given (or the defaults at that moment), and no configuration leaks anywhere else."""
import copy

from .common import *
from HGQ import get_default_kq_conf, get_default_paq_conf, set_default_kq_conf, set_default_paq_conf
from HGQ.utils import MonoL1

CASES = {'quick': 260, 'thorough': 4000}
REQUIRED = {'quick': {'layers': 500, 'default_conf': 150, 'shared_conf': 100, 'own_conf': 80, 'op_set': 60, 'op_mutate': 60, 'op_bad': 30, 'late': 500, 'mode_jit': 5}, 'thorough': {'layers': 7000}}
RULE = ('histories of reading, editing and setting the default quantizer configurations interleaved with building layers from the defaults, from a dict shared by several layers of different kinds and ranks, or from their own dict, '
        'the dicts being edited afterwards; a shadow keeps what every layer was promised; its bitwidth shapes, initial values, trainability, rounding and regularization are judged at once and again at the end; '
        'distinct = (layer kind, source of the configuration, homogeneous dims, rounding, preceding operation)')
ASSUMPTIONS = ['a layer takes its configuration when it is constructed']


def rand_conf(rng, base, kernel):
    c = dict(base)
    for k in list(c):
        if rng.random() < 0.6:
            c[k] = {'init_bw': float(rng.integers(0, 7)), 'skip_dims': pick_seq(rng, [None, 'all', 'batch', 'except_last', 'except_1st', 'none', (0,)] if kernel else ['all', 'batch', 'except_last', 'except_1st', (0,)]),
                    'rnd_strategy': pick_seq(rng, ['standard_round', 'floor', 'stochastic_round', 'fast_uniform_noise_injection'] + ([] if kernel else ['auto'])),
                    'exact_q_value': bool(rng.integers(2)), 'dtype': None, 'bw_clip': pick_seq(rng, [(-23, 23), (-2, 3), (0, 5)]), 'trainable': bool(rng.integers(2)),
                    'regularizer': pick_seq(rng, [None, MonoL1(2.0 ** -4), MonoL1(2.0 ** -8)]), 'minmax_record': True}[k]
    return c


def norm(c):
    return {k: (('l1', v.l1) if isinstance(v, MonoL1) else tuple(v) if isinstance(v, list) else v) for k, v in c.items()}


def shape_of(skip, shape):
    r = len(shape)
    ax = {None: (), 'none': (), 'all': tuple(range(r)), 'batch': (0,), 'except_last': tuple(range(r - 1)), 'except_1st': (0,) + tuple(range(2, r))}[skip] if skip is None or isinstance(skip, str) else tuple(skip)
    return tuple(1 if i in ax or d is None else d for i, d in enumerate(shape))


def build(rng, kind, kc, pc):
    """(node, kwargs that were passed)"""
    kw = {}
    if kc is not None:
        kw['kq_conf'] = kc
    if pc is not None:
        kw['paq_conf'] = pc
    rank = {'conv1d': 2, 'conv2d': 3}.get(kind, int(rng.integers(1, 4)))
    shape = tuple(int(rng.integers(2, 5)) for _ in range(rank))
    g = gen.Graph()
    ni = gen.Node('input', None, [], keras.layers.Input(shape=shape))
    g.inputs.append(ni)
    s = gen.Node('signature', HGQ.Signature(1, 8, 4), [ni], None)
    s.tensor = s.layer(ni.tensor)
    p = dict(act='linear', use_bias=bool(rng.integers(2)), strides=(1, 1), dilation=(1, 1), padding='valid', groups=1)
    ub = p['use_bias']
    if kind == 'quantize':
        kw.pop('kq_conf', None)
        L = HGQ.HQuantize(**kw)
    elif kind == 'activation':
        kw.pop('kq_conf', None)
        p['act'] = 'relu'
        L = gen.HActivation('relu', **kw)
    elif kind == 'add':
        kw.pop('kq_conf', None)
        L = gen.HAdd(**kw)
    elif kind == 'dense':
        L = HGQ.HDense(3, use_bias=ub, do_adapt_kernel_bits=False, **kw)
    elif kind == 'conv1d':
        L = HGQ.HConv1D(2, 2, use_bias=ub, do_adapt_kernel_bits=False, **kw)
    else:
        L = HGQ.HConv2D(2, 2, use_bias=ub, do_adapt_kernel_bits=False, **kw)
    n = gen.Node(kind, L, [s, s] if kind == 'add' else [s], None, **p)
    if rng.random() < 0.5:
        return n, s, ni       # built later
    n.tensor = L([s.tensor, s.tensor] if kind == 'add' else s.tensor)
    return n, s, ni


def judge(ctx, rng, item, what):
    n, s, ni, kc, pc = item
    if n.tensor is None:
        n.tensor = n.layer([s.tensor, s.tensor] if n.op == 'add' else s.tensor)
    L = n.layer
    n.p['paq'], n.p['kq'] = pc, kc
    out_shape = (None,) + n.shape
    ctx.check(tuple(L.paq.fbw.shape) == shape_of(pc['skip_dims'], out_shape), 'activation_shape', lambda: f'{what}: {tuple(L.paq.fbw.shape)} for {pc["skip_dims"]} of {out_shape}')
    ini = np.clip(pc['init_bw'], *pc['bw_clip'])
    if what == 'built':
        v = L.paq.fbw.numpy()
        ctx.check(np.all((v == pc['init_bw']) | (v == ini)), 'activation_init', lambda: f'{v.ravel()[:4]} {pc}')
    tr = {id(v) for v in L.trainable_variables}
    ctx.check((id(L.paq.fbw) in tr) == pc['trainable'], 'activation_trainable', lambda: f'{what}: {pc}')
    cfg = L.get_config()
    drop = {'rnd_strategy'} if n.op == 'activation' else set()
    ctx.check({k: v for k, v in norm(cfg['paq_conf']).items() if k not in drop} == {k: v for k, v in norm(pc).items() if k not in drop}, 'reported_paq', lambda: f'{what}: {cfg["paq_conf"]} != {pc}')
    reg = pc['regularizer'].l1 * L.paq.fbw.numpy().sum() if pc['regularizer'] is not None else 0.
    if n.op in HKERNEL:
        ks = tuple(L.kernel.shape)
        ctx.check(tuple(L.kq.fbw.shape) == shape_of(kc['skip_dims'], ks), 'kernel_shape', lambda: f'{what}: {tuple(L.kq.fbw.shape)} for {kc["skip_dims"]} of {ks}')
        if what == 'built':
            v = L.kq.fbw.numpy()
            ctx.check(np.all((v == kc['init_bw']) | (v == np.clip(kc['init_bw'], *kc['bw_clip']))), 'kernel_init', lambda: f'{v.ravel()[:4]} {kc}')
        ctx.check((id(L.kq.fbw) in tr) == kc['trainable'], 'kernel_trainable', lambda: f'{what}: {kc}')
        ctx.check(norm(cfg['kq_conf']) == norm(kc), 'reported_kq', lambda: f'{what}: {cfg["kq_conf"]} != {kc}')
        reg += kc['regularizer'].l1 * L.kq.fbw.numpy().sum() if kc['regularizer'] is not None else 0.
        if what == 'built':
            L.kernel.assign((rng.normal(size=ks) * 0.7).astype(np.float32))
            if n.p['use_bias']:
                L.bias.assign(rng.normal(size=tuple(L.bias.shape)).astype(np.float32))
    # behaviour: rounding and clipping as promised
    if what == 'built':
        for q in [L.paq] + ([L.kq] if n.op in HKERNEL else []):
            q.fbw.assign((q.fbw + rng.uniform(-3, 3, size=tuple(q.fbw.shape))).numpy().astype(np.float32))
    x = (rng.integers(-127, 128, size=(3,) + ni.shape) / 16).astype(np.float32)
    if what == 'built':   # the clip range takes effect on the stored bitwidths when they are first used
        L([x, x] if n.op == 'add' else x, training=False)
    y = L([x, x] if n.op == 'add' else x, training=False).numpy()
    try:
        pre, out, _ = gen.ref_node(n, [x] * len(n.inputs))
        ctx.equal(y, out, 'rounding', f'{what}: {n.op} {pc} {kc}')
    except Reject:
        pass
    losses = float(sum(float(np.asarray(l)) for l in L.losses if np.isfinite(np.asarray(l)).all()))
    regnow = (pc['regularizer'].l1 * L.paq.fbw.numpy().astype(np.float64).sum() if pc['regularizer'] is not None else 0.) + \
             (kc['regularizer'].l1 * L.kq.fbw.numpy().astype(np.float64).sum() if n.op in HKERNEL and kc['regularizer'] is not None else 0.)
    ctx.check(abs(losses - regnow) <= 1e-4 * (1 + abs(regnow)), 'regularization', lambda: f'{what}: {n.op} losses {losses} expected {regnow} {pc} {kc}')
    return x, y


def case(ctx, rng):
    mode = pick_mode(ctx, rng, 0.04)
    set_mode(mode)
    ok0, op0 = get_default_kq_conf(), get_default_paq_conf()
    saved = copy.copy(ok0), copy.copy(op0)
    try:
        run(ctx, rng, mode)
    finally:
        set_default_kq_conf(saved[0])
        set_default_paq_conf(saved[1])


def run(ctx, rng, mode):
    dk, dp = get_default_kq_conf(), get_default_paq_conf()       # shadow of the defaults
    sk, sp = rand_conf(rng, dk, True), rand_conf(rng, dp, False)  # dicts shared by several layers
    items, prev = [], 'new'
    for _ in range(int(rng.integers(4, 9))):
        op = pick_seq(rng, ['build', 'build', 'build', 'set', 'mutate', 'bad', 'reshare'])
        ctx.step(op)
        if op == 'set':
            a, b = rand_conf(rng, dk, True), rand_conf(rng, dp, False)
            if rng.random() < 0.5:
                set_default_kq_conf(a)
                dk = dict(a)
            else:
                set_default_paq_conf(b)
                dp = dict(b)
            a.update(init_bw=99., rnd_strategy='floor')    # the caller keeps using his dict
            b.update(init_bw=99., rnd_strategy='floor')
        elif op == 'mutate':
            a, b = get_default_kq_conf(), get_default_paq_conf()
            ctx.check(norm(a) == norm(dk), 'default_kq', lambda: f'{a} {dk}')
            ctx.check(norm(b) == norm(dp), 'default_paq', lambda: f'{b} {dp}')
            a.update(rand_conf(rng, a, True), init_bw=55.)
            b.clear()
        elif op == 'bad':
            for f, c in ((set_default_kq_conf, dict(dk, typo=1)), (set_default_paq_conf, {k: v for k, v in dp.items() if k != 'init_bw'}), (set_default_kq_conf, 'floor')):
                try:
                    f(c)
                    ctx.fail('bad_accepted', f'{c}')
                except AssertionError:
                    ctx.evaluations += 1
        elif op == 'reshare':
            sk.update(rand_conf(rng, sk, True))
            sp.update(rand_conf(rng, sp, False))
        else:
            kind = pick_seq(rng, ['quantize', 'activation', 'add', 'dense', 'dense', 'conv1d', 'conv2d'])
            src = pick_seq(rng, ['default', 'shared', 'own'])
            if src == 'default':
                kc = pc = None
                item = (dict(dk), dict(dp))
            elif src == 'shared':
                kc, pc = sk, sp
                item = (dict(sk), dict(sp))
            else:
                kc, pc = rand_conf(rng, dk, True), rand_conf(rng, dp, False)
                item = (dict(kc), dict(pc))
            n, s, ni = build(rng, kind, kc, pc)
            built = n.tensor is not None
            if src == 'own':
                ctx.check(norm(kc) == norm(item[0]) and norm(pc) == norm(item[1]), 'caller_dict', lambda: f'{kc} {pc}')
                kc.update(init_bw=33., skip_dims='all')
                pc.clear()
            elif src == 'shared':
                ctx.check(norm(sk) == norm(item[0]) and norm(sp) == norm(item[1]), 'caller_dict', lambda: f'{sk} {sp}')
            it = (n, s, ni) + item
            if built:
                xy = judge(ctx, rng, it, 'built')
            else:
                xy = None
            items.append((it, xy))
            ctx.count(src + '_conf')
            ctx.count('layers')
            ctx.saw(kind, src, str(item[1]['skip_dims']), item[1]['rnd_strategy'], prev, built)
        ctx.count('op_' + op)
        prev = op
        if ctx.violations:
            return
    for it, xy in items:
        if xy is None:
            judge(ctx, rng, it, 'built')
        else:
            y = it[0].layer([xy[0]] * 2 if it[0].op == 'add' else xy[0], training=False).numpy()
            ctx.equal(y, xy[1], 'later_output', f'{it[0].op} changed after {ctx.log}')
        judge(ctx, rng, it, 'late')
        ctx.count('late')
    ctx.sample = {'history': ctx.log, 'layers': [i[0][0].op for i in items]}
