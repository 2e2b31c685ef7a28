"""C07: the fixed-point emulation equals ap_fixed / ap_ufixed in every rounding and overflow mode."""
import os
import subprocess

from .common import *
from HGQ.proxy.fixed_point_quantizer import FixedPointQuantizer, fixed, gfixed, gfixed_quantizer, ufixed

CASES = {'quick': 640, 'thorough': 9000}
REQUIRED = {'quick': {'scalar': 60, 'layer': 100, 'mode_jit': 60, 'overflowed': 20000, 'ties': 5000, 'zero_bits': 50, 'ap_types': 4}, 'thorough': {'overflowed': 200000, 'ap_types': 40}}
RULE = ('random and hostile values (exact ties, one step around every representable bound, multiples of the wrap period) through scalar, broadcast and fully heterogeneous formats in all 7x5 rounding/overflow '
        'modes, eager and compiled, against integer arithmetic and, for a part, against the C++ ap_fixed simulation headers; distinct = (mode pair, signedness, entry point)')
ASSUMPTIONS = ['|x| * 2^f below 2^22, so that float32 holds the scaled value exactly', 'symmetric saturation and sign-magnitude wrap only where ap_fixed defines them (>1 signed bits; signed)',
               'sign-magnitude wrap is applied to the already rounded value; the C++ headers are only consulted for it under truncation']

R = ['TRN', 'RND', 'TRN_ZERO', 'RND_ZERO', 'RND_INF', 'RND_MIN_INF', 'RND_CONV']
S = ['SAT', 'SAT_ZERO', 'SAT_SYM', 'WRAP', 'WRAP_SM']


def reflect(v, k, b):
    n = 2 ** b
    lo = -(2 ** (b - 1)) if k else 0
    m = (v - lo) % (2 * n)
    return (m if m < n else 2 * n - 1 - m) + lo


def want(x, k, b, i, r, s):
    if b == 0:
        return 0.0
    if s != 'WRAP_SM':
        return ref.ap_fixed(x, k, b, i, r, s)
    m, e = np.frexp(np.float64(x))
    v = ref.ap_round(int(m * 2 ** 53), -(int(e) - 53 + b - i), r)
    return float(reflect(v, k, b)) * 2.0 ** -(b - i)


def values(rng, k, b, i, n):
    """float32 values around everything interesting for one format"""
    f = b - i
    hi = 2 ** (b - k)
    base = np.concatenate([rng.integers(-3 * hi - 2, 3 * hi + 3, size=n), [hi, hi - 1, hi + 1, -hi, -hi - 1, -hi + 1, 0, 1, -1, 2 * hi, -2 * hi, 2 * hi - 1, -2 * hi - 1]]).astype(np.float64)
    off = rng.choice([0, 0.5, -0.5, 0.25, 0.75, 0.5 + 2.0 ** -6, 0.5 - 2.0 ** -6], size=base.shape)
    v = base + off
    v = rng.choice(v, size=n)
    return (v * 2.0 ** -f).astype(np.float32)


def fmt(rng):
    k, b = int(rng.integers(0, 2)), int(rng.integers(1, 13))
    if rng.random() < 0.06:
        b = 0
    i = int(rng.integers(-3, b + 4))
    return k, b, i


def ok_combo(k, b, s):
    if s == 'SAT_SYM' and k and b == 1:
        return False
    return not (s == 'WRAP_SM' and not k)


def case(ctx, rng):
    if ctx.idx % 80 == 7:
        return ap_types(ctx, rng)
    mode = pick_mode(ctx, rng, 0.3)
    set_mode(mode)
    r, s = pick_seq(rng, R), pick_seq(rng, S)
    entry = pick_seq(rng, ['scalar', 'gfixed', 'array', 'layer', 'layer'])
    if entry in ('scalar', 'gfixed'):
        k, b, i = fmt(rng)
        while not ok_combo(k, b, s):
            k, b, i = fmt(rng)
        x = values(rng, k, b, i, 64)
        t = tf.constant(x)
        if entry == 'scalar':
            y = gfixed_quantizer(t, k, b, i, r, s)
        else:
            y = pick_seq(rng, [lambda: gfixed(k, b, i, r, s), lambda: (fixed if k else ufixed)(b, i, r, s)])()(t)
        K, B, I = (np.full(x.shape, v) for v in (k, b, i))
        ctx.count('scalar')
    else:
        rank = int(rng.integers(1, 4))
        shp = tuple(int(v) for v in rng.integers(1, 5, size=rank))
        fshp = (1,) + tuple(d if rng.random() < 0.7 else 1 for d in shp)
        fs = [fmt(rng) for _ in range(int(np.prod(fshp)))]
        for j, (k, b, i) in enumerate(fs):
            while not ok_combo(k, b, s):
                k, b, i = fmt(rng)
            fs[j] = (k, b, i)
        K, B, I = (np.array([f[j] for f in fs], np.int8).reshape(fshp) for j in range(3))
        n = int(rng.integers(1, 9))
        full = (n,) + shp
        Kb, Bb, Ib = (np.broadcast_to(v, full).astype(int) for v in (K, B, I))
        x = np.empty(full, np.float32)
        for p in np.ndindex(*full):
            x[p] = values(rng, int(Kb[p]), max(int(Bb[p]), 1), int(Ib[p]), 1)[0]
        if entry == 'array':
            y = gfixed_quantizer(tf.constant(x), K, B, I, r, s)
        else:
            L = FixedPointQuantizer(K, B, I, r, s)
            y = L(tf.constant(x), training=False)
            ctx.count('layer')
        K, B, I = Kb, Bb, Ib
    y = np.asarray(y)
    w = np.array([want(float(v), int(k), int(b), int(i), r, s) for v, k, b, i in zip(x.ravel(), K.ravel(), B.ravel(), I.ravel())]).reshape(x.shape)
    ctx.step(f'{entry} {r} {s} {mode}')
    if not ctx.equal(y, w, 'ap_fixed', f'{entry} {r} {s} {mode}'):
        p = tuple(np.argwhere(y != w)[0])
        ctx.step(f'x={x[p]!r} k={K[p]} b={B[p]} i={I[p]} got {y[p]!r} want {w[p]!r}')
    f = (B - I).astype(np.float64)
    t = x.astype(np.float64) * 2.0 ** f
    ctx.count('ties', (t - np.floor(t) == 0.5).sum())
    ctx.count('overflowed', ((np.floor(t) >= 2.0 ** (B - K)) | (t < -K * 2.0 ** (B - K))).sum())
    ctx.count('zero_bits', (B == 0).sum())
    ctx.saw(r, s, entry, mode, tuple(np.unique(K).tolist()))
    ctx.sample = {'entry': entry, 'rounding': r, 'overflow': s, 'mode': mode, 'x': float(x.ravel()[0]), 'format': [int(K.ravel()[0]), int(B.ravel()[0]), int(I.ravel()[0])], 'y': float(y.ravel()[0])}


def ap_types(ctx, rng):
    """the C++ simulation of ap_fixed shipped with hls4ml as the second oracle"""
    try:
        import hls4ml
        inc = os.path.join(os.path.dirname(hls4ml.__file__), 'templates', 'vivado', 'ap_types')
        if not os.path.exists(os.path.join(inc, 'ap_fixed.h')):
            raise ImportError
    except ImportError:
        raise Reject('no ap_fixed headers')
    types = []
    while len(types) < 24:
        k, b, i = fmt(rng)
        r, s = pick_seq(rng, R), pick_seq(rng, S)
        if b == 0 or not ok_combo(k, b, s) or (s == 'WRAP_SM' and r != 'TRN'):
            continue
        types.append((k, b, i, r, s))
    n = 200
    xs = np.stack([values(rng, k, b, i, n) for k, b, i, _, _ in types])
    d = os.path.join(os.environ['VERIF_SCRATCH'], f'ap{ctx.idx}')
    os.makedirs(d)
    src = '#include "ap_fixed.h"\n#include <cstdio>\nstatic float x[%d], y[%d];\nint main(int c, char **v) {\n FILE *f = fopen(v[1], "rb"); if (fread(x, 4, %d, f) != %d) return 1; fclose(f);\n' % ((xs.size,) * 4)
    for j, (k, b, i, r, s) in enumerate(types):
        src += f' for (int j = {j * n}; j < {(j + 1) * n}; j++) y[j] = (float)(double)ap_{"" if k else "u"}fixed<{b}, {i}, AP_{r}, AP_{s}>((double)x[j]);\n'
    src += ' f = fopen(v[2], "wb"); fwrite(y, 4, %d, f); fclose(f); return 0;\n}\n' % xs.size
    open(f'{d}/t.cpp', 'w').write(src)
    xs.tofile(f'{d}/x.bin')
    subprocess.run(['g++', '-w', '-O0', '-I', inc, f'{d}/t.cpp', '-o', f'{d}/t'], check=True, timeout=300, capture_output=True)
    subprocess.run([f'{d}/t', f'{d}/x.bin', f'{d}/y.bin'], check=True, timeout=60)
    ys = np.fromfile(f'{d}/y.bin', np.float32).reshape(xs.shape)
    for (k, b, i, r, s), x, y in zip(types, xs, ys):
        got = gfixed_quantizer(tf.constant(x), k, b, i, r, s).numpy()
        ctx.equal(got, y, 'ap_types', f'{(k, b, i, r, s)}')
        ctx.saw(r, s, 'C++', k)
    ctx.count('ap_types')
    ctx.sample = {'entry': 'C++ ap_fixed', 'types': [str(t) for t in types[:4]]}
