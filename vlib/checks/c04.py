"""C04: derived bitwidths are sound (hold every recorded value) and tight (nothing smaller does)."""
from .common import *

CASES = {'quick': 360, 'thorough': 6000}
REQUIRED = {'quick': {'act_groups': 2000, 'kernel_elems': 3000, 'edge': 80, 'kernel_edge': 15, 'relu_groups': 200, 'mode_jit': 10}, 'thorough': {'act_groups': 20000}}
RULE = ('hostile quantizer ranges (powers of two, one step below/above, all-negative, all-positive, single-signed zero, one-bit) and random calibrated models, activations and kernels; distinct = '
        '(sign pattern of the range, magnitude bits, fraction bits, positive-only) containers whose minimality was decided against an integer oracle')
ASSUMPTIONS = ['effective precision within (-13, 13) fractional bits']


def judge(ctx, lo, hi, k, i, f, fq, pos_only, msg):
    """arrays over the groups; fq: the quantizer's own fractional bits"""
    lo, hi, fq = (np.broadcast_to(v, k.shape) for v in (lo, hi, fq))
    for idx in np.ndindex(*k.shape):
        want = ref.kif_of_range(lo[idx], hi[idx], fq[idx], pos_only)
        got = (int(k[idx]), int(i[idx]), int(f[idx]))
        ctx.check(got == want, 'container', lambda: f'{msg}{idx}: values in [{lo[idx]}, {hi[idx]}] step 2^-{fq[idx]} pos_only={pos_only}: derived (sign,int,frac)={got}, minimal {want}')
        ctx.saw(np.sign(lo[idx]), np.sign(hi[idx]), want[1] + want[2], want[2], pos_only)


def case(ctx, rng):
    mode = pick_mode(ctx, rng, 0.08)
    r = rng.random()
    if r < 0.4:
        edge(ctx, rng, mode)
    elif r < 0.5:
        kernel_edge(ctx, rng, mode)
    else:
        model(ctx, rng, mode)


def edge(ctx, rng, mode):
    C = int(rng.integers(2, 9))
    f = rng.integers(-5, 9, size=C).astype(np.float64)
    rows = []
    for c in range(C):
        n = int(rng.integers(0, 7)) if rng.random() < 0.8 else int(rng.integers(17, 23))
        e = pick_seq(rng, [2 ** n, 2 ** n - 1, 2 ** n + 1, 0, 1])
        d = pick_seq(rng, [-2 ** n, -2 ** n - 1, -(2 ** n) + 1, 0, -1, -int(rng.integers(0, 70))])
        s = rng.random()
        if s < 0.2:
            v = [e, e]
        elif s < 0.4:
            v = [d, d]
        else:
            v = [e, d]
        rows.append(np.array(v) * 2.0 ** -f[c])
    x = np.stack(rows, -1).astype(np.float32)
    act = pick_seq(rng, [None, 'relu_act', 'dense_relu', 'dense'])
    xin = keras.layers.Input(shape=(C,))
    pc = HGQ.get_default_paq_conf()
    pc['skip_dims'] = (0,)
    pc['rnd_strategy'] = pick_seq(rng, ['standard_round', 'floor'])
    q = HGQ.HQuantize(paq_conf=dict(pc))
    h = q(xin)
    lays = [q]
    if act == 'relu_act':
        L = HActivation('relu', paq_conf=dict(pc))
        h = L(h)
        lays.append(L)
    elif act is not None:
        L = HGQ.HDense(C, activation='relu' if act == 'dense_relu' else 'linear', use_bias=False, paq_conf=dict(pc))
        h = L(h)
        L.kernel.assign(np.eye(C, dtype=np.float32))
        L.kq.fbw.assign(np.zeros((C, C)))
        lays.append(L)
    m = keras.Model(xin, h)
    for L in lays:
        L.paq.fbw.assign(f.reshape(1, C).astype(np.float32) + np.float32(rng.uniform(-0.4, 0.4)))
    set_mode(mode)
    trace_minmax(m, x, verbose=False)
    for L in lays:
        pre = x.astype(np.float64) if not (act == 'relu_act' and L is not q) else np.maximum(x, 0).astype(np.float64)
        lo, hi = pre.min(0, keepdims=True), pre.max(0, keepdims=True)
        relu = L is not q and act == 'dense_relu'
        for po in (False, True):
            k, i, ff = [np.asarray(v).astype(int) for v in L.paq.get_bits_exact(pos_only=po)]
            judge(ctx, lo, hi, k, i, ff, f.reshape(1, C), po, f'{type(L).__name__} ')
            ctx.count('relu_groups' if po else 'act_groups', k.size)
        # deployment width: signed container, except that a fused relu only keeps the positive part
        want = np.array([sum(ref.kif_of_range(lo[0, c], hi[0, c], f[c], relu or (act == 'relu_act' and L is not q))) for c in range(C)])
        ctx.equal(np.asarray(L.act_bw_exact).reshape(-1), want, 'total_bits', f'{type(L).__name__} {act}')
    ctx.count('edge')
    ctx.sample = {'entry': 'edge ranges', 'x': x.tolist()[0][:4], 'f': f.tolist()[:4], 'act': act}


def kernel_edge(ctx, rng, mode):
    C, U = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    f = rng.integers(-6, 13, size=(C, U)).astype(np.float64)
    n = np.array([[pick_seq(rng, [0, 1, 3, 2 ** int(rng.integers(0, 23)), 2 ** int(rng.integers(1, 23)) - 1, 2 ** int(rng.integers(1, 23)) + 1, int(rng.integers(0, 100))]) for _ in range(U)] for _ in range(C)])
    w = n * rng.choice([-1., 1.], size=(C, U)) * 2.0 ** -f
    xin = keras.layers.Input(shape=(C,))
    L = HGQ.HDense(U)
    keras.Model(xin, L(HGQ.HQuantize()(xin)))
    L.kernel.assign(w.astype(np.float32))
    L.kq.fbw.assign((f + rng.uniform(-0.4, 0.4, size=f.shape)).astype(np.float32))
    set_mode(mode)
    k, i, ff = [np.asarray(v).astype(int) for v in L.kq.get_bits_exact(L.kernel)]
    bw = np.asarray(L.kernel_bw_exact)
    for idx in np.ndindex(C, U):
        want = ref.bits_of_weight(w[idx])
        got = (int(k[idx]), int(i[idx]), int(ff[idx]))
        ctx.check(got == want and int(bw[idx]) == want[1] + want[2], 'kernel_bits', lambda: f'weight {w[idx]!r}: derived {got} width {bw[idx]}, exact {want}')
        ctx.saw('kernel', want[1] + want[2], want[2])
    ctx.count('kernel_elems', w.size)
    ctx.count('kernel_edge')
    ctx.sample = {'entry': 'kernel', 'w': w.ravel()[:4].tolist()}


def model(ctx, rng, mode):
    G, g, x = fresh(rng, 24, **(dict(depth=(1, 2)) if mode == 'jit' else {}))
    set_mode(mode)
    trace_minmax(g.model, x, verbose=False)
    vals = gen.capture(g, x)
    ok, pres = clean_rows(g, vals)
    for n in g.hnodes():
        pre = pres[n]
        lo, hi = gen.group_range(n, pre)
        fq = gen.act_f(n)
        k, i, f = bits_exact(n)
        judge(ctx, lo, hi, k, i, f, fq, False, n.desc())
        ctx.check(bool(in_container(pre, k, i, f).all()), 'sound', n.desc())
        ctx.count('act_groups', k.size)
        if n.op in HKERNEL and n.p['act'] == 'relu':
            k, i, f = bits_exact(n, True)
            judge(ctx, lo, hi, k, i, f, fq, True, n.desc())
            ctx.check(bool(in_container(np.maximum(pre, 0), k, i, f).all()), 'sound_relu', n.desc())
            ctx.count('relu_groups', k.size)
        if n.op in HKERNEL:
            kq = gen.qkernel(n)
            k, i, f = [np.asarray(v).astype(int) for v in n.layer.kq.get_bits_exact(n.layer.fused_kernel)]
            bw = np.asarray(n.layer.kernel_bw_exact)
            for idx in np.ndindex(*kq.shape):
                want = ref.bits_of_weight(kq[idx])
                got = (int(k[idx]), int(i[idx]), int(f[idx]))
                ctx.check(got == want and int(bw[idx]) == want[1] + want[2], 'kernel_bits', lambda: f'{n.desc()}{idx}: weight {kq[idx]}: derived {got} width {bw[idx]}, exact {want}')
            ctx.count('kernel_elems', kq.size)
    ctx.sample = {'entry': 'model', 'graph': g.desc()[:3]}
