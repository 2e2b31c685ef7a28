"""Random HGQ models through the public API, together with an independent description of what they must compute."""
import numpy as np

from . import ref
from .core import Reject
from .env import HGQ, keras, tf
from HGQ.layers import (HActivation, HAdd, HConv1D, HConv1DBatchNorm, HConv2D, HConv2DBatchNorm, HDense, HDenseBatchNorm, HQuantize,
                        PAveragePooling1D, PAveragePooling2D, PConcatenate, PDropout, PFlatten, PMaxPooling1D, PMaxPooling2D, PPermute, PReshape,
                        Signature)

CUSTOM = {
    'square': lambda x: x * x,
    'halfabs': lambda x: tf.abs(x) / 2,
    'negate': lambda x: -x,
}


def square(x):
    return x * x


def halfabs(x):
    return tf.abs(x) * 0.5


def negate(x):
    return -x


CUSTOM = {'square': square, 'halfabs': halfabs, 'negate': negate}


class Node:
    def __init__(self, op, layer, inputs, tensor, **p):
        self.op, self.layer, self.inputs, self.tensor, self.p = op, layer, inputs, tensor, p
        self.name = layer.name if layer is not None else op

    @property
    def shape(self):
        return tuple(self.tensor.shape[1:])

    def desc(self):
        p = {k: v for k, v in self.p.items() if k not in ('graph',)}
        return f"{self.op}[{self.name}]{self.shape} <- {[i.name for i in self.inputs]} {p}"


HKERNEL = ('dense', 'densebn', 'conv1d', 'conv1dbn', 'conv2d', 'conv2dbn')
HOPS = HKERNEL + ('quantize', 'activation', 'add')


class Graph:
    """A generated model: `nodes` in topological order (nested models carry their own Graph in p['graph'])."""

    def __init__(self):
        self.inputs, self.outputs, self.nodes = [], [], []
        self.model = None

    def all_nodes(self):
        for n in self.nodes:
            if n.op == 'nested':
                yield from n.p['graph'].all_nodes()
            else:
                yield n

    def hnodes(self):
        return [n for n in self.all_nodes() if n.op in HOPS]

    def desc(self):
        r = []
        for n in self.nodes:
            r.append(n.desc())
            if n.op == 'nested':
                r += ['   ' + s for s in n.p['graph'].desc()]
        return r


class Gen:
    """opts: depth, kinds (allowed start ranks), ops (allowed), rnds, bn, nested, multi_in, multi_out, act, pow2pool, hls (restrict to hls4ml-able)"""

    def __init__(self, rng, **opts):
        self.rng = rng
        o = dict(depth=(1, 4), kinds=(1, 2, 3), bn=True, nested=0.15, multi_in=0.2, multi_out=0.15, branch=0.3, acts=('relu', 'linear', 'tanh', 'sigmoid', 'square', 'halfabs', 'negate'),
                 rnds=('standard_round', 'floor', 'auto', 'stochastic_round', 'fast_uniform_noise_injection'), signature=0.15, f_hi=4.5, kf_hi=4.0, prune=0.2, groups=True,
                 dilation=True, homog=0.35, dropout=True, permute=True, beta=False, trainable_bw=True, exact=True, pool=True, ndense=True, regularizer=None, hetero_act=True,
                 same_pad_avg=False, ops=None, acti=True, kernel_scale=0.7, min_dim=2, relu_prob=0.45, dup_out=False, prefix='')
        o.update(opts)
        self.o = o
        self.uid = 0

    # -- random helpers
    def pick(self, seq, p=None):
        return seq[int(self.rng.choice(len(seq), p=p))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def name(self, op):
        self.uid += 1
        return f"{self.o['prefix']}{op}_{self.uid}"

    def skip_dims(self, rank):
        """for an activation of `rank` non-batch dims"""
        r = self.rng.random()
        if not self.o['hetero_act']:
            return 'all'
        if r < 0.45:
            return (0,)
        c = ['all', 'batch', 'except_last', 'except_1st']
        if rank >= 2:
            c.append(tuple([0] + sorted(self.rng.choice(np.arange(1, rank + 1), size=int(self.rng.integers(1, rank)), replace=False).tolist())))
        return self.pick(c)

    def paq(self, rank, **over):
        c = HGQ.get_default_paq_conf()
        c['skip_dims'] = self.skip_dims(rank)
        c['rnd_strategy'] = self.pick(self.o['rnds'])
        c['init_bw'] = float(self.rng.integers(0, 6))
        if self.o['regularizer'] is not None:
            c['regularizer'] = self.o['regularizer']()
        if not self.o['exact'] and self.chance(0.3):
            c['exact_q_value'] = False
        c.update(over)
        return c

    def kq(self, krank, **over):
        c = HGQ.get_default_kq_conf()
        r = self.rng.random()
        if r < 0.6:
            c['skip_dims'] = None
        else:
            c['skip_dims'] = self.pick(['all', 'none', 'except_last', 'except_1st', 'batch', (0,), tuple(range(1, krank)), (krank - 1,)])
        c['rnd_strategy'] = self.pick([s for s in self.o['rnds'] if s != 'auto'])
        c['init_bw'] = float(self.rng.integers(1, 6))
        if self.o['regularizer'] is not None:
            c['regularizer'] = self.o['regularizer']()
        c.update(over)
        return c

    def beta(self):
        return float(self.rng.integers(0, 64)) / 1024 if self.o['beta'] else 0.

    # -- graph
    def build(self):
        g = Graph()
        rng = self.rng
        kind = int(self.pick(self.o['kinds']))
        shape = self.rand_shape(kind)
        n_in = 2 if self.chance(self.o['multi_in']) else 1
        streams = []
        for _ in range(n_in):
            x = keras.layers.Input(shape=shape, name=self.name('in'))
            ni = Node('input', None, [], x)
            ni.name = x.name if hasattr(x, 'name') else 'in'
            g.inputs.append(ni)
            g.nodes.append(ni)
            streams.append(self.head(g, ni))
        if n_in == 2:
            # let the streams grow separately now and then, then merge
            if self.chance(0.5):
                streams = [self.same_shape_op(g, s) for s in streams]
            cur = self.merge(g, streams)
        else:
            cur = streams[0]
        depth = int(rng.integers(self.o['depth'][0], self.o['depth'][1] + 1))
        outs = []
        for d in range(depth):
            if cur.op == 'nested':
                cur = self.quantize(g, cur)
            if self.chance(self.o['branch']):
                a, b = self.same_shape_op(g, cur), (cur if self.chance(0.3) else self.same_shape_op(g, cur))
                if a.shape == b.shape and a is not b:
                    three = b is not cur and cur.shape == a.shape and self.o.get('merge3', True) and self.chance(0.25)
                    cur = self.merge(g, [a, b, cur] if three else [a, b])
                    continue
                cur = a
                continue
            if d > 0 and self.chance(self.o['nested']):
                cur = self.nested(g, cur)
                continue
            cur = self.op(g, cur)
            if self.chance(self.o['multi_out'] / 2) and cur.op in HOPS:
                outs.append(cur)
        if self.chance(self.o['multi_out']) and cur.op in HOPS and cur.p.get('from_nested') is None:
            outs.append(cur)
            try:
                cur = self.op(g, cur)
            except Reject:
                pass
        while cur.op in ('dropout',):
            cur = self.op(g, cur)
        if self.o.get('leaf_h') and cur.op not in HOPS:
            cur = self.quantize(g, cur) if cur.op == 'nested' else self.dense(g, cur) if len(cur.shape) == 1 else self.conv(g, cur, len(cur.shape) - 1)
        outs = [o for i, o in enumerate(outs) if o is not cur and o not in outs[:i]] + [cur]
        g.outputs = outs
        g.model = keras.Model([n.tensor for n in g.inputs] if len(g.inputs) > 1 else g.inputs[0].tensor,
                              [n.tensor for n in outs] if len(outs) > 1 else outs[0].tensor)
        self.randomize(g)
        return g

    def rand_shape(self, kind):
        r = self.rng
        m = self.o['min_dim']
        if kind == 1:
            return (int(r.integers(m, 9)),)
        if kind == 2:
            return (int(r.integers(max(m, 3), 8)), int(r.integers(max(m - 1, 1), 5)))
        return (int(r.integers(max(m, 3), 7)), int(r.integers(max(m, 3), 7)), int(r.integers(max(m - 1, 1), 4)))

    def add(self, g, op, layer, inputs, **p):
        t = layer(inputs[0].tensor if len(inputs) == 1 else [i.tensor for i in inputs])
        n = Node(op, layer, inputs, t, **p)
        g.nodes.append(n)
        return n

    def head(self, g, x):
        if self.chance(self.o['signature']):
            k, b = 1, int(self.rng.integers(3, 7))
            i = int(self.rng.integers(1, b + 1))
            if self.chance(0.5) and self.o['hetero_act']:
                shp = (1,) + x.shape
                i = self.rng.integers(1, b + 1, size=shp).astype(np.int8)
                bb = np.full(shp, b, np.int8)
                kk = np.ones(shp, np.int8)
                return self.add(g, 'signature', Signature(kk, bb, i, name=self.name('sig')), [x], k=kk, b=bb, i=i)
            return self.add(g, 'signature', Signature(k, b, i, name=self.name('sig')), [x], k=k, b=b, i=i)
        return self.quantize(g, x)

    def quantize(self, g, x):
        c = self.paq(len(x.shape))
        return self.add(g, 'quantize', HQuantize(paq_conf=c, beta=self.beta(), name=self.name('quantize')), [x], paq=c)

    def merge(self, g, xs):
        rank = len(xs[0].shape)
        if self.chance(0.5) or self.o.get('no_concat') and rank > 1:
            c = self.paq(rank)
            return self.add(g, 'add', HAdd(paq_conf=c, beta=self.beta(), name=self.name('add')), xs, paq=c)
        ax = int(self.rng.integers(1, rank + 1))
        if self.chance(0.5) and not self.o.get('no_concat'):
            ax = -1
        return self.add(g, 'concat', PConcatenate(axis=ax, name=self.name('concat')), xs, axis=ax)

    def same_shape_op(self, g, x):
        rank = len(x.shape)
        r = self.rng.random()
        if r < 0.35 and self.o['acti'] and x.op != 'nested':
            return self.activation(g, x)
        if rank == 1:
            return self.dense(g, x, units=x.shape[-1])
        if rank == 2:
            return self.conv(g, x, 1, filters=x.shape[-1], same=True) if r < 0.75 or not self.o['ndense'] else self.dense(g, x, units=x.shape[-1])
        return self.conv(g, x, 2, filters=x.shape[-1], same=True) if r < 0.75 or not self.o['ndense'] else self.dense(g, x, units=x.shape[-1])

    def op(self, g, x):
        if x.op == 'nested':
            return self.quantize(g, x)
        rank = len(x.shape)
        cand = ['dense'] if (rank == 1 or self.o['ndense']) else []
        if self.o['acti']:
            cand += ['activation']
        if self.o['dropout'] and self.rng.random() < 0.3:
            cand += ['dropout']
        if rank == 1:
            cand += ['dense', 'reshape']
        if rank == 2:
            cand += ['conv1d', 'conv1d', 'flatten', 'reshape'] + (['maxpool1d', 'avgpool1d'] if self.o['pool'] else []) + (['permute'] if self.o['permute'] else [])
        if rank == 3:
            cand += ['conv2d', 'conv2d', 'flatten', 'reshape'] + (['maxpool2d', 'avgpool2d'] if self.o['pool'] else []) + (['permute'] if self.o['permute'] else [])
        if self.o['ops'] is not None:
            c2 = [c for c in cand if c in self.o['ops']]
            cand = c2 or cand
        op = self.pick(cand)
        if op == 'dense':
            return self.dense(g, x)
        if op == 'activation':
            return self.activation(g, x)
        if op == 'dropout':
            return self.add(g, 'dropout', PDropout(0.5, name=self.name('dropout')), [x])
        if op in ('conv1d', 'conv2d'):
            return self.conv(g, x, int(op[4]))
        if op == 'flatten':
            return self.add(g, 'flatten', PFlatten(name=self.name('flatten')), [x])
        if op == 'reshape':
            n = int(np.prod(x.shape))
            if rank == 1:
                ds = [d for d in range(1, n + 1) if n % d == 0]
                t = int(self.pick(ds))
                tgt = (t, n // t)
            elif rank == 2:
                tgt = self.pick([(n,), (x.shape[1], x.shape[0])])
            else:
                tgt = self.pick([(n,), (x.shape[0] * x.shape[1], x.shape[2])])
            return self.add(g, 'reshape', PReshape(tgt, name=self.name('reshape')), [x], target=tgt)
        if op == 'permute':
            dims = tuple(int(v) for v in self.rng.permutation(rank) + 1)
            return self.add(g, 'permute', PPermute(dims, name=self.name('permute')), [x], dims=dims)
        if op.startswith('maxpool') or op.startswith('avgpool'):
            return self.pooling(g, x, op[:3], int(op[-2]))
        raise AssertionError(op)

    def pooling(self, g, x, kind, nd):
        sz, st, pad = [], [], self.pick(['valid', 'same'] if self.o.get('same_pool', True) else ['valid'])
        for i in range(nd):
            n = x.shape[i]
            if kind == 'max':
                s = int(self.rng.integers(1, min(3, n) + 1))
                t = int(self.rng.integers(1, 4))
            else:
                s = int(self.pick([v for v in (1, 2, 4) if v <= n]))
                t = int(self.rng.integers(1, 4))
                if pad == 'same' and not self._same_ok(n, s, t):
                    pad = 'valid'
            sz.append(s)
            st.append(t)
        if kind == 'avg' and pad == 'same' and not all(self._same_ok(x.shape[i], sz[i], st[i]) for i in range(nd)):
            pad = 'valid'
        cls = {('max', 1): PMaxPooling1D, ('max', 2): PMaxPooling2D, ('avg', 1): PAveragePooling1D, ('avg', 2): PAveragePooling2D}[kind, nd]
        kw = dict(pool_size=tuple(sz), strides=tuple(st)) if nd == 2 else dict(pool_size=sz[0], strides=st[0])
        return self.add(g, f'{kind}pool', cls(padding=pad, name=self.name(f'{kind}pool'), **kw), [x], size=tuple(sz), strides=tuple(st), padding=pad, kind=kind)

    @staticmethod
    def _same_ok(n, s, t):
        """every (possibly clipped) window has a power of two size"""
        o, a, _ = ref.pad_amounts(n, s, t, 1, 'same')
        for p in range(o):
            lo, hi = max(p * t - a, 0), min(p * t - a + s, n)
            if (hi - lo) not in (1, 2, 4):
                return False
        return True

    def act_of_kernel(self):
        return 'relu' if self.chance(self.o['relu_prob']) else self.pick([None, 'linear'])

    def dense(self, g, x, units=None):
        units = units or int(self.rng.integers(1, 6))
        bn = self.o['bn'] and self.chance(self.o.get('bn_prob', 0.25))
        c, k = self.paq(len(x.shape)), self.kq(2)
        act, ub = self.act_of_kernel(), self.chance(0.75)
        kw = dict(units=units, activation=act, use_bias=ub, paq_conf=c, kq_conf=k, beta=self.beta())
        p = dict(paq=c, kq=k, act=act or 'linear', use_bias=ub)
        if len(x.shape) > 1 and self.chance(0.3):
            kw['parallel_factor'] = int(self.rng.integers(1, 4))
        p['parallel_factor'] = kw.get('parallel_factor', int(np.prod(x.shape[:-1])) if len(x.shape) > 1 else None)
        if bn:
            p.update(self.bn_params(kw, ub))
            return self.add(g, 'densebn', HDenseBatchNorm(name=self.name('densebn'), **kw), [x], **p)
        return self.add(g, 'dense', HDense(name=self.name('dense'), **kw), [x], **p)

    def bn_params(self, kw, ub):
        center = self.chance(0.75)
        scale = self.chance(0.75)
        kw.update(center=center, scale=scale, momentum=float(self.pick([0.5, 0.9, 0.99])), epsilon=float(self.pick([1e-3, 1e-2, 0.125])))
        return dict(center=center and ub, scale=scale, momentum=kw['momentum'], epsilon=kw['epsilon'])

    def conv(self, g, x, nd, filters=None, same=False):
        filters = filters or int(self.rng.integers(1, 4))
        bn = self.o['bn'] and self.chance(self.o.get('bn_prob', 0.25))
        ks = tuple(int(self.rng.integers(1, min(3, x.shape[i]) + 1)) for i in range(nd))
        pad = 'same' if same else self.pick(['valid', 'same'])
        st, dil = (1,) * nd, (1,) * nd
        if not same:
            r = self.rng.random()
            if r < 0.35:
                st = tuple(int(self.rng.integers(1, 4)) for _ in range(nd)) if nd == 1 or not self.o.get('square_stride') else (2, 2)
            elif r < 0.5 and self.o['dilation']:
                d = int(self.rng.integers(1, 3))
                if all((ks[i] - 1) * d + 1 <= x.shape[i] for i in range(nd)):
                    dil = (d,) * nd
        groups = 1
        if self.o['groups'] and self.chance(0.15):
            gs = [d for d in range(2, x.shape[-1] + 1) if x.shape[-1] % d == 0]
            if gs:
                gg = int(self.pick(gs))
                if same and filters % gg:
                    gg = 1
                groups = gg
                if not same:
                    filters = groups * int(self.rng.integers(1, 3))
        c, k = self.paq(nd + 1), self.kq(nd + 2)
        act, ub = self.act_of_kernel(), self.chance(0.75)
        pf = int(self.pick([1, 1, 2, 3, 4]))
        kw = dict(filters=filters, kernel_size=ks if nd == 2 else ks[0], strides=st if nd == 2 else st[0], dilation_rate=dil if nd == 2 else dil[0], padding=pad, groups=groups,
                  activation=act, use_bias=ub, paq_conf=c, kq_conf=k, beta=self.beta(), parallel_factor=pf)
        p = dict(paq=c, kq=k, act=act or 'linear', use_bias=ub, ks=ks, strides=st, dilation=dil, padding=pad, groups=groups, parallel_factor=pf)
        op = f'conv{nd}d'
        if bn:
            p.update(self.bn_params(kw, ub))
            cls = HConv1DBatchNorm if nd == 1 else HConv2DBatchNorm
            return self.add(g, op + 'bn', cls(name=self.name(op + 'bn'), **kw), [x], **p)
        cls = HConv1D if nd == 1 else HConv2D
        return self.add(g, op, cls(name=self.name(op), **kw), [x], **p)

    def activation(self, g, x):
        act = self.pick(self.o['acts'])
        c = self.paq(len(x.shape))
        return self.add(g, 'activation', HActivation(CUSTOM.get(act, act), paq_conf=c, beta=self.beta(), name=self.name('act')), [x], paq=c, act=act)

    def nested(self, g, x):
        o = dict(self.o, nested=0., multi_in=0., multi_out=0., signature=0., branch=0.2)
        sub = Gen(self.rng, **o)
        sub.uid = self.uid + 100
        ig = Graph()
        t = keras.layers.Input(shape=x.shape, name=sub.name('nin'))
        ni = Node('input', None, [], t)
        ig.inputs.append(ni)
        ig.nodes.append(ni)
        cur = sub.quantize(ig, ni)
        for _ in range(int(self.rng.integers(1, 3))):
            cur = sub.op(ig, cur)
        if cur.op not in HOPS:
            cur = sub.quantize(ig, cur)
        ig.outputs = [cur]
        ig.model = keras.Model(ig.inputs[0].tensor, cur.tensor, name=self.name('nested'))
        self.uid = sub.uid + 1
        n = self.add(g, 'nested', ig.model, [x], graph=ig)
        return n

    # -- weights and bitwidths
    def rand_fbw(self, shape, hi, prune):
        r = self.rng
        if self.chance(self.o['homog']):
            v = np.full(shape, r.uniform(0, hi))
        else:
            v = r.uniform(-0.5, hi, size=shape)
        m = r.random(shape)
        v = np.where(m < 0.15, np.round(v) + 0.5, v)  # ties in the bitwidth itself
        if prune and self.chance(0.5):
            v = np.where(r.random(shape) < prune, r.uniform(-12, -5, size=shape), v)
        return v.astype(np.float32)

    def randomize(self, g, scale=None):
        r = self.rng
        scale = self.o['kernel_scale'] if scale is None else scale
        for n in g.hnodes():
            L = n.layer
            if n.op in HKERNEL:
                kshape = tuple(L.kernel.shape)
                w = r.normal(size=kshape) * scale
                if self.chance(0.3):
                    w = np.where(r.random(kshape) < 0.2, 0., w)
                L.kernel.assign(w.astype(np.float32))
                L.kq.fbw.assign(self.rand_fbw(tuple(L.kq.fbw.shape), self.o['kf_hi'], self.o['prune']))
                if n.p['use_bias']:
                    L.bias.assign((r.normal(size=tuple(L.bias.shape)) * 0.8).astype(np.float32))
                if n.op.endswith('bn'):
                    ch = (L.kernel.shape[-1],)
                    if n.p['center']:
                        L.bn_beta.assign(r.normal(size=ch).astype(np.float32))
                        L.moving_mean.assign(r.normal(size=ch).astype(np.float32))
                    if n.p['scale']:
                        L.bn_gamma.assign(r.uniform(0.4, 1.6, size=ch).astype(np.float32))
                        L.moving_variance.assign(r.uniform(0.3, 2.5, size=ch).astype(np.float32))
            L.paq.fbw.assign(self.rand_fbw(tuple(L.paq.fbw.shape), self.o['f_hi'], self.o['prune'] * 0.7))

    def data(self, g, n, amp=None, frac=10):
        """dyadic inputs; for signature inputs, values already in the declared format"""
        out = []
        for ni in g.inputs:
            x = self.rng.normal(size=(n,) + ni.shape) * (amp if amp is not None else self.rng.choice([0.5, 1., 2., 4.]))
            cons = [m for m in g.nodes if ni in m.inputs]
            if cons and cons[0].op == 'signature':
                p = cons[0].p
                k, b, i = np.asarray(p['k'], float), np.asarray(p['b'], float), np.asarray(p['i'], float)
                f = b - i
                x = np.clip(np.floor(x * 2 ** f) / 2 ** f, -k * 2 ** (i - k), 2 ** (i - k) - 2 ** -f)
            else:
                x = np.clip(np.round(x * 2 ** frac) / 2 ** frac, -16, 16)
            out.append(x.astype(np.float32))
        return out if len(out) > 1 else out[0]


# ---------------------------------------------------------------- reference semantics of the nodes
def bias_covers(n):
    """is the rounding offset of this layer's quantizer absorbable in its bias?"""
    if n.op not in HKERNEL or not n.p['use_bias']:
        return False
    fs = tuple(n.layer.paq.fbw.shape)
    if int(np.prod(fs)) == 1:
        return True
    return int(np.prod(fs[:-1])) == 1 and fs[-1] == n.shape[-1]


def is_floor(n):
    s = n.p['paq']['rnd_strategy']
    if s == 'auto':
        if n.op == 'activation':
            return False
        return not bias_covers(n)
    return s in ('floor', 3)


def fbw_of(q):
    return q.fbw.numpy().astype(np.float64)


def act_f(n):
    return ref.rbits(fbw_of(n.layer.paq), n.p['paq']['bw_clip'])


def fused64(n):
    """float64 (kernel, bias) after folding the batch normalization; bias None without bias"""
    L = n.layer
    w = L.kernel.numpy().astype(np.float64)
    b = L.bias.numpy().astype(np.float64) if n.p['use_bias'] else None
    if n.op.endswith('bn'):
        sc = 1.0
        if n.p['scale']:
            sc = L.bn_gamma.numpy().astype(np.float64) / np.sqrt(L.moving_variance.numpy().astype(np.float64) + np.float64(np.float32(n.p['epsilon'])))
            w = w * sc
        if n.p['center']:
            b = b - L.moving_mean.numpy().astype(np.float64) * sc + L.bn_beta.numpy().astype(np.float64)
    return w, b


def qkernel(n, ctx=None, key='kernel'):
    """Expected quantized kernel; near a rounding tie of a folded (non-dyadic) kernel the layer's own choice is taken."""
    w, _ = fused64(n)
    c = n.p['kq']
    f = ref.rbits(fbw_of(n.layer.kq), c['bw_clip'])
    fl = c['rnd_strategy'] in ('floor', 3)
    q = ref.quant(w, f, fl)
    if n.op.endswith('bn') and n.p['scale']:
        got = n.layer.fused_qkernel.numpy().astype(np.float64)
        amb = ref.near_boundary(w, f, fl) & (np.abs(got - q) <= 2.0 ** -np.broadcast_to(f, w.shape))
        if ctx is not None:
            ctx.count('bn_kernel_ties', amb.sum())
        q = np.where(amb, got, q)
    return q


def qbias_candidates(n):
    """(bias, ambiguous mask, step): expected quantized bias used in the forward pass"""
    _, b = fused64(n)
    f = act_f(n)
    fb = ref.rbits(np.max(fbw_of(n.layer.paq), axis=tuple(range(f.ndim - 1))), n.p['paq']['bw_clip'])
    fl = is_floor(n)
    q = ref.quant(b, fb, fl)
    amb = ref.near_boundary(b, fb, fl) if n.op.endswith('bn') and n.p['center'] else np.zeros(q.shape, bool)
    return q, amb, 2.0 ** -np.broadcast_to(fb, q.shape)


def linear_part(n, x, kq, bq):
    p = n.p
    if n.op.startswith('dense'):
        z = x @ kq
        mag = np.abs(x) @ np.abs(kq)
    else:
        z = ref.conv(x, kq, p['strides'], p['dilation'], p['padding'], p['groups'])
        mag = ref.conv(np.abs(x), np.abs(kq), p['strides'], p['dilation'], p['padding'], p['groups'])
    if bq is not None:
        z = z + bq
        mag = mag + np.abs(bq)
    return z, mag


def lsb(a):
    """largest f such that.. smallest power of two step (as number of fractional bits) of the dyadic array"""
    a = np.asarray(a, np.float64)
    a = a[(a != 0) & np.isfinite(a)]
    if a.size == 0:
        return -64
    m, e = np.frexp(np.abs(a))
    n = (m * 2 ** 53).astype(np.int64)
    tz = np.zeros(n.shape, np.int64)
    low = n & -n
    tz = np.round(np.log2(low.astype(np.float64))).astype(np.int64)
    return int(np.max(53 - e - tz))


def ref_node(n, xs, ctx=None, kq=None, bq=None):
    """Reference (pre-activation quantized values, outputs, ambiguous mask) of a node from the values of its inputs."""
    p, op = n.p, n.op
    xs = [np.asarray(x, np.float64) for x in xs]
    x = xs[0]
    if op in HKERNEL:
        kq = qkernel(n, ctx) if kq is None else kq
        amb_b = None
        if p['use_bias'] and bq is None:
            bq, amb_b, _ = qbias_candidates(n)
            if amb_b.any():
                raise Reject('fused bias on a rounding tie')
        z, mag = linear_part(n, x, kq, bq)
        exact_guard(z, mag, x, kq, bq)
        f = act_f(n)
        pre = ref.quant(z, f, is_floor(n))
        exact_guard_q(z, f)
        return pre, ref.ACT[p['act']](pre), np.zeros(pre.shape, bool)
    if op == 'quantize':
        pre = ref.quant(x, act_f(n), is_floor(n))
        return pre, pre, np.zeros(pre.shape, bool)
    if op == 'activation':
        z = ref.ACT[p['act']](x)
        f, fl = act_f(n), is_floor(n)
        pre = ref.quant(z, f, fl)
        amb = np.zeros(pre.shape, bool)
        exact_guard_q(z, f)
        if p['act'] not in ('linear', 'relu', 'square', 'halfabs', 'negate'):
            amb = ref.near_boundary(z, f, fl)
        else:
            exact_guard(z, np.abs(z))
        return pre, pre, amb
    if op == 'add':
        z = sum(xs)
        exact_guard(z, sum(np.abs(v) for v in xs))
        pre = ref.quant(z, act_f(n), is_floor(n))
        exact_guard_q(z, act_f(n))
        return pre, pre, np.zeros(pre.shape, bool)
    if op in ('signature', 'dropout', 'input'):
        return None, x, None
    if op == 'concat':
        ax = p['axis']
        return None, np.concatenate(xs, axis=ax), None
    if op in ('flatten',):
        return None, x.reshape(x.shape[0], -1), None
    if op == 'reshape':
        return None, x.reshape((x.shape[0],) + tuple(p['target'])), None
    if op == 'permute':
        return None, x.transpose((0,) + tuple(p['dims'])), None
    if op in ('maxpool', 'avgpool'):
        return None, ref.pool(x, p['size'], p['strides'], p['padding'], p['kind']), None
    raise AssertionError(op)


GUARD = True


def exact_guard(z, mag, *ops):
    """float32 must hold every partial sum exactly, else the case is outside the exactness domain."""
    if not GUARD:
        return
    if ops:
        f = lsb(ops[0]) + lsb(ops[1])
        if len(ops) > 2 and ops[2] is not None:
            f = max(f, lsb(ops[2]))
    else:
        f = lsb(z)
    m = float(np.max(mag)) if np.size(mag) else 0.0
    if m > 0 and np.log2(m) + f > 23.5:
        raise Reject('float32 cannot hold an intermediate exactly')


def exact_guard_q(z, f):
    if not GUARD:
        return
    m = np.max(np.abs(z)) if np.size(z) else 0
    if m > 0 and np.log2(m) + np.max(f) > 22.5:
        raise Reject('float32 cannot hold a pre-activation exactly')


# ---------------------------------------------------------------- observation
def capture(g, data, training=False):
    """Values of every node (nested ones included) for `data`, as computed by the code under test."""
    xs = data if isinstance(data, list) else [data]
    vals = {n: np.asarray(x) for n, x in zip(g.inputs, xs)}
    nodes = [n for n in g.nodes if n.op != 'input']
    m = keras.Model([n.tensor for n in g.inputs], [n.tensor for n in nodes])
    outs = m([tf.constant(x) for x in xs], training=training)
    if len(nodes) == 1:
        outs = outs if isinstance(outs, (list, tuple)) else [outs]
    for n, v in zip(nodes, outs):
        vals[n] = v.numpy()
    for n in nodes:
        if n.op == 'nested':
            vals.update(capture(n.p['graph'], vals[n.inputs[0]], training))
    return vals


def reduce_axes(n):
    """axes of the layer's output sharing one activation bitwidth (incl. batch), derived from the declared homogeneous dims"""
    rank = len(n.shape) + 1
    s = n.p['paq']['skip_dims']
    if s is None or s == 'none':
        return ()
    if isinstance(s, str):
        return {'all': tuple(range(rank)), 'batch': (0,), 'except_last': tuple(range(rank - 1)), 'except_1st': (0,) + tuple(range(2, rank))}[s]
    return tuple(s)


def group_range(n, pre):
    ax = reduce_axes(n)
    return pre.min(axis=ax, keepdims=True), pre.max(axis=ax, keepdims=True)


def expected_pre(n, vals, ctx=None):
    """Reference quantized pre-activations of an H node from captured inputs (captured output where float functions are ambiguous)."""
    pre, out, amb = ref_node(n, [vals[i] for i in n.inputs], ctx)
    if amb is not None and amb.any():
        pre = np.where(amb, vals[n], pre)
    return pre, out, amb
