"""C16: a unary table equals the quantized activation on its whole input domain, and is used exactly when allowed."""
from .common import *
from .c05 import convert
from HGQ.proxy.unary_lut import UnaryLUT

CASES = {'quick': 420, 'thorough': 6000}
REQUIRED = {'quick': {'direct': 100, 'entries': 20000, 'wrapped': 2000, 'models': 80, 'tables': 60, 'not_tabled': 30, 'reload': 40, 'refused': 10, 'mode_jit': 10}, 'thorough': {'entries': 300000}}
RULE = ('tables built directly for random input/output formats, rounding and overflow modes and functions, read over their entire domain and beyond it; models converted with and without tables compared on every input of the domain; '
        'distinct = (function, input format, output format, modes, entry)')
ASSUMPTIONS = ['a function value within float32 error of a rounding boundary may go either way', 'inputs are on the input grid']

FUNCS = {
    'tanh': (lambda: 'tanh', np.tanh), 'sigmoid': (lambda: 'sigmoid', lambda x: 1 / (1 + np.exp(-x))), 'softplus': (lambda: 'softplus', ref.ACT['softplus']), 'softsign': (lambda: 'softsign', ref.ACT['softsign']),
    'elu': (lambda: 'elu', ref.ACT['elu']), 'square': (lambda: gen.CUSTOM['square'], lambda x: x * x), 'halfabs': (lambda: gen.CUSTOM['halfabs'], lambda x: np.abs(x) / 2), 'negate': (lambda: gen.CUSTOM['negate'], lambda x: -x),
    'exponential': (lambda: 'exponential', np.exp), 'shift': (lambda: shift, lambda x: x + 0.25), 'hard_sigmoid': (lambda: 'hard_sigmoid', lambda x: np.clip(0.2 * x + 0.5, 0, 1)),
}
EXACT = ('square', 'halfabs', 'negate', 'shift')


def shift(x):
    return x + 0.25


def domain(k, i, f):
    return np.arange(-k * 2 ** (i + f), 2 ** (i + f)) * 2.0 ** -f


def cast(v, k, i, f, R, S):
    return np.array([ref.ap_fixed(a, k, k + i + f, k + i, R, S) for a in np.asarray(v, np.float64)])


def tie(v, f, R, name):
    if name in EXACT:
        return np.zeros(v.shape, bool)
    t = v * 2.0 ** f * 2
    return np.abs(t - np.round(t)) <= 4e-6 * np.abs(t) + 1e-6


def case(ctx, rng):
    mode = pick_mode(ctx, rng, 0.08)
    set_mode(mode)
    if rng.random() < 0.45:
        direct(ctx, rng, mode)
    else:
        model(ctx, rng, mode)


def direct(ctx, rng, mode):
    name = pick_seq(rng, sorted(FUNCS))
    mk, fn = FUNCS[name]
    k, f = int(rng.integers(2)), int(rng.integers(-2, 8))
    n = int(rng.integers(1, 10))
    i = n - f
    if k + n > 12:
        n -= 1
        i = n - f
    if i > 4:
        i, f = i - 4, f + 4
        i = n - f
    x = domain(k, i, f)
    ko, fo = int(rng.integers(2)), int(rng.integers(0, 8))
    io = int(rng.integers(max(-fo - ko + 1, -2), 6))
    if ko + io + fo <= 0:
        io = 1 - fo
    R, S = pick_seq(rng, ['TRN', 'RND', 'RND_CONV', 'RND_INF', 'TRN_ZERO']), pick_seq(rng, ['WRAP', 'SAT', 'SAT_ZERO'])
    want = fn(x)
    if np.abs(want).max() * 2.0 ** fo > 2 ** 21:
        raise Reject('float32 cannot hold the scaled function')
    ctx.step(f'{name} in={(k, i, f)} out={(ko, io, fo, R, S)}')
    act = keras.layers.Activation(mk()) if rng.random() < 0.5 else keras.activations.get(mk())
    fun = act if isinstance(act, keras.layers.Layer) else (lambda a: act(tf.constant(a, tf.float32)))
    L = UnaryLUT.from_activation(fun, kif_in=(k, i, f), kifRS_out=(ko, io, fo, R, S))
    q = cast(want, ko, io, fo, R, S)
    amb = tie(want, fo, R, name)
    if amb.any():
        eps = 4e-6 * np.abs(want) + 1e-6 * 2.0 ** -fo
        alt = np.minimum(np.abs(read(L, x) - cast(want - eps, ko, io, fo, R, S)), np.abs(read(L, x) - cast(want + eps, ko, io, fo, R, S)))
        amb &= alt == 0
    got = read(L, x)
    ctx.equal(np.where(amb, q, got), q, 'table', f'{name} {(k, i, f)} -> {(ko, io, fo, R, S)}')
    ctx.count('entries', x.size)
    ctx.count('direct')
    # any shape, any order
    xs = rng.choice(x, size=(2, 3, 4))
    pos = ((xs - x[0]) * 2.0 ** f).astype(int)
    ctx.equal(np.asarray(L(tf.constant(xs, tf.float32))), got[pos], 'table_nd', name)
    # beyond the domain the input format wraps
    far = (x[None] + np.array([[-2], [-1], [1], [3]]) * x.size * 2.0 ** -f)
    if np.abs(far).max() * 2.0 ** f < 2 ** 22:
        ctx.equal(read(L, far), np.broadcast_to(got, far.shape), 'table_wrap', f'{name} {(k, i, f)}')
        ctx.count('wrapped', far.size)
    if rng.random() < 0.5:
        M = keras.layers.deserialize(keras.layers.serialize(L))
        M(tf.constant(x, tf.float32))
        M.set_weights(L.get_weights())
        ctx.equal(read(M, x), got, 'table_reload', name)
        ctx.count('reload')
    if rng.random() < 0.2:
        # larger than the maximum table size: refused, never silently wrong
        try:
            UnaryLUT.from_activation(fun, kif_in=(1, 6, 6), kifRS_out=(1, 2, 4, 'TRN', 'WRAP'))
            ctx.fail('too_large', 'a table of 2^13 entries was accepted')
        except AssertionError:
            ctx.evaluations += 1
        UnaryLUT.from_activation(fun, kif_in=(1, 2, 9), kifRS_out=(1, 6, 2, 'TRN', 'WRAP'))   # exactly the maximum
        ctx.count('refused')
    ctx.saw(name, k, i, f, ko, io, fo, R, S, mode)
    ctx.sample = {'direct': name, 'in': (k, i, f), 'out': (ko, io, fo, R, S)}


def read(L, x):
    return np.asarray(L(tf.constant(np.asarray(x), tf.float32))).astype(np.float64)


def model(ctx, rng, mode):
    """one or two activations behind a quantizer; every input value of the domain, with and without tables"""
    name = pick_seq(rng, sorted(set(FUNCS) - {'exponential'}))
    het = rng.random() < 0.4
    width = 2
    pc = HGQ.get_default_paq_conf()
    pc.update(skip_dims=(0,) if het else 'all', rnd_strategy=pick_seq(rng, ['standard_round', 'floor']))
    ac = HGQ.get_default_paq_conf()
    ac.update(skip_dims=(0,) if rng.random() < 0.4 else 'all', rnd_strategy=pick_seq(rng, ['standard_round', 'floor', 'auto']))
    xin = keras.layers.Input((width,))
    q = HGQ.HQuantize(paq_conf=pc)
    a = gen.HActivation(FUNCS[name][0](), paq_conf=ac, name='theact')
    t = a(q(xin))
    other = rng.random() < 0.3
    if other:
        t = HGQ.HDense(2)(t)
    m = keras.Model(xin, t)
    q.paq.fbw.assign(rng.integers(0, 6, size=q.paq.fbw.shape).astype(np.float32))
    a.paq.fbw.assign(rng.integers(1, 8, size=a.paq.fbw.shape).astype(np.float32))
    amp = float(rng.choice([0.5, 1., 3.]))
    calib = rng.uniform(-amp, amp, size=(64, width)).astype(np.float32)
    if rng.random() < 0.3:
        calib = np.abs(calib)
    trace_minmax(m, calib, verbose=False)
    aggr = bool(rng.integers(2))
    reg = bool(rng.integers(2))
    plain = convert(m, dict(aggressive=aggr, skip_precision_reg=reg))
    k, i, f = [np.asarray(v).astype(int) for v in q.paq.get_bits_exact()]
    bits = k + i + f
    if bits.max() <= 0:
        raise Reject('pruned')
    cap = int(2 ** int(rng.integers(max(bits.max() - 2, 1), min(bits.max() + 4, 12) + 1)))
    ctx.step(f'{name} input bits {bits.ravel()} cap {cap} aggressive {aggr} reg {reg}')
    tab = convert(m, dict(aggressive=aggr, skip_precision_reg=reg, unary_lut_max_table_size=cap))
    luts = [l for l in tab.layers if isinstance(l, UnaryLUT)]
    ctx.check(not any(isinstance(l, UnaryLUT) for l in plain.layers), 'unasked', 'a table was used without being asked for')
    for l in luts:
        ctx.check(int(l.table.shape[0]) <= cap, 'cap', lambda: f'table of {l.table.shape[0]} > {cap}')
    union = int(k.max() + i.max() + f.max())
    if 2 ** union <= cap:
        ctx.check(len(luts) == 1, 'not_used', f'input of {union} bits, cap {cap}, {len(luts)} tables')
    ctx.count('tables' if luts else 'not_tabled')
    # the whole domain of the input format, and beyond (the input quantizer wraps or saturates first)
    lo, hi, st = -2.0 ** i.max() * 1.5, 2.0 ** i.max() * 1.5, 2.0 ** -(f.max() + 1)
    n = int((hi - lo) / st)
    if n > 6000:
        raise Reject('domain too large')
    x = lo + np.arange(n) * st
    x = np.stack([x, rng.permutation(x)], 1).astype(np.float32)
    u, v = plain(x, training=False).numpy().astype(np.float64), tab(x, training=False).numpy().astype(np.float64)
    if name in EXACT:
        ok = np.ones(n, bool)
    else:
        mid = keras.Model(plain.inputs, next(l for l in plain.layers if l.name == 'theact').output)(x, training=False).numpy().astype(np.float64)
        fo = np.broadcast_to(np.round(a.paq.fbw.numpy()).astype(float), (1, width))
        tt = mid * 2.0 ** (fo + 1)
        ok = ~(np.abs(tt - np.round(tt)) <= 4e-6 * np.abs(tt) + 1e-6).any(1) | (tt == np.round(tt)).all(1)
    ctx.equal(v[ok], u[ok], 'table_vs_function', f'{name} {ctx.log[-1]}')
    ctx.count('entries', int(ok.sum()) * width)
    ctx.count('models')
    ctx.saw('model', name, tuple(bits.ravel()), tuple(a.paq.fbw.numpy().ravel()), aggr, bool(luts), mode)
    ctx.sample = {'model': name, 'bits': bits.ravel().tolist(), 'cap': cap, 'tables': len(luts)}
