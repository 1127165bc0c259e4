"""An independent description and evaluator of networks.

A Spec lists modules and connections; `build` makes the pybrain network, `Ref` evaluates the same
network from its parameters by plain per-step recursion in numpy (complex values allowed, so that
derivatives can be taken by the complex step)."""
import numpy as np
from pybrain.structure import (FeedForwardNetwork, RecurrentNetwork, LinearLayer, SigmoidLayer, TanhLayer,
                               SoftmaxLayer, BiasUnit, LSTMLayer, FullConnection, IdentityConnection,
                               LinearConnection, SharedFullConnection, MotherConnection, GateLayer,
                               DoubleGateLayer, MultiplicationLayer, SwitchLayer, MDLSTMLayer,
                               FullNotSelfConnection, ReluLayer, PartialSoftmaxLayer, GaussianLayer)
from pybrain.structure.modules.softsign import SoftSignLayer
from pybrain.structure.connections.permutation import PermutationConnection
from pybrain.structure.connections.subsampling import SubsamplingConnection
from pybrain.structure.connections.shared import SharedSubsamplingConnection
from pybrain.structure.moduleslice import ModuleSlice


def sg(x):
    neg = np.real(x) < 0
    e = np.exp(np.where(neg, x, -x))
    return np.where(neg, e / (1. + e), 1. / (1. + e))


def softsign(x):
    s = np.where(np.real(x) < 0, -1., 1.)
    return x / (1 + s * x)


def softmax(x):
    e = np.exp(x - np.max(np.real(x)))
    return e / np.sum(e)


# kind: (indim factor, outdim factor, function)
SIMPLE = {
    'linear': (1, 1, lambda x, d: x),
    'sigmoid': (1, 1, lambda x, d: sg(x)),
    'tanh': (1, 1, lambda x, d: np.tanh(x)),
    'softsign': (1, 1, lambda x, d: softsign(x)),
    'relu': (1, 1, lambda x, d: np.where(np.real(x) > 0, x, 0 * x)),
    'softmax': (1, 1, lambda x, d: softmax(x)),
    'gate': (2, 1, lambda x, d: sg(x[:d]) * x[d:]),
    'doublegate': (2, 2, lambda x, d: np.concatenate([sg(x[:d]) * x[d:], (1 - sg(x[:d])) * x[d:]])),
    'mult': (2, 1, lambda x, d: x[:d] * x[d:]),
    'switch': (1, 2, lambda x, d: np.concatenate([sg(x), 1 - sg(x)])),
}
CLASSES = {'linear': LinearLayer, 'sigmoid': SigmoidLayer, 'tanh': TanhLayer, 'softsign': SoftSignLayer,
           'relu': ReluLayer, 'softmax': SoftmaxLayer, 'gate': GateLayer, 'doublegate': DoubleGateLayer,
           'mult': MultiplicationLayer, 'switch': SwitchLayer}


def pick(r, pairs):
    total = sum(w for _, w in pairs)
    x = r.random() * total
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


class Mod:
    def __init__(self, name, kind, dim, **kw):
        self.name, self.kind, self.dim = name, kind, dim
        self.__dict__.update(kw)
        if kind == 'bias':
            self.indim, self.outdim = 0, 1
        elif kind == 'lstm':
            self.indim, self.outdim = 4 * dim, dim
        elif kind == 'mdlstm':
            self.indim, self.outdim = (3 + 2 * self.dims) * dim, 2 * dim
        elif kind == 'net':
            self.indim, self.outdim = self.spec.indim, self.spec.outdim
        elif kind == 'psoftmax':
            self.indim = self.outdim = dim
        elif kind == 'gauss':
            self.indim = self.outdim = dim
        else:
            self.indim, self.outdim = SIMPLE[kind][0] * dim, SIMPLE[kind][1] * dim

    def make(self):
        k = self.kind
        if k == 'bias':
            return BiasUnit(name=self.name)
        if k == 'lstm':
            return LSTMLayer(self.dim, peepholes=self.peep, name=self.name)
        if k == 'mdlstm':
            return MDLSTMLayer(self.dim, self.dims, peepholes=self.peep, name=self.name)
        if k == 'psoftmax':
            m = PartialSoftmaxLayer(self.dim, self.slicelength)
            m.name = self.name
            return m
        if k == 'gauss':
            m = GaussianLayer(self.dim, name=self.name)
            m.enabled = False
            return m
        return CLASSES[k](self.dim, name=self.name)


def part_of(a, b, n):
    """a slice of n that properly contains a..b, or None"""
    for f, t in ((a - 1, b), (a, b + 1), (a - 1, b + 1)):
        if f >= 0 and t <= n and t - f < n:
            return f, t


class Con:
    def __init__(self, name, kind, src, dst, i0=0, i1=None, o0=0, o1=None, mother=None, perm=None, block=None,
                 rec=False, via=''):
        self.name, self.kind, self.src, self.dst = name, kind, src, dst
        self.i0, self.o0 = i0, o0
        self.i1 = src.outdim if i1 is None else i1
        self.o1 = dst.indim if o1 is None else o1
        self.mother, self.perm, self.block, self.rec, self.via = mother, perm, block, rec, via
        self.n_in, self.n_out = self.i1 - self.i0, self.o1 - self.o0

    def nparams(self):
        return {'full': self.n_in * self.n_out, 'shared': self.n_in * self.n_out, 'notself': self.n_in ** 2,
                'linear': self.n_in, 'identity': 0, 'perm': 0, 'sub': self.n_out, 'sharedsub': self.n_out}[self.kind]

    def make(self, mods, mothers):
        a, b = mods[self.src.name], mods[self.dst.name]
        kw = {}
        i0, i1, o0, o1 = self.i0, self.i1, self.o0, self.o1
        if 'i' in self.via and (i0 > 0 or i1 < self.src.outdim):
            around = part_of(i0, i1, self.src.outdim)
            if 'x' in self.via and around:
                # a part of a slice
                f, t = around
                a = ModuleSlice(a, outSliceFrom=f, outSliceTo=t)
                if i0 > f:
                    kw['inSliceFrom'] = i0 - f
                if i1 < t:
                    kw['inSliceTo'] = i1 - f
            elif 'I' in self.via and i0 > 1:
                a = ModuleSlice(a, outSliceFrom=1)
                a = ModuleSlice(a, outSliceFrom=i0 - 1, outSliceTo=i1 - 1)
            else:
                a = ModuleSlice(a, outSliceFrom=i0, outSliceTo=i1)
        else:
            if i0 > 0:
                kw['inSliceFrom'] = i0
            if i1 < self.src.outdim:
                kw['inSliceTo'] = i1
        if 'o' in self.via and (o0 > 0 or o1 < self.dst.indim):
            around = part_of(o0, o1, self.dst.indim)
            if 'x' in self.via and around:
                # a part of a slice
                f, t = around
                b = ModuleSlice(b, inSliceFrom=f, inSliceTo=t)
                if o0 > f:
                    kw['outSliceFrom'] = o0 - f
                if o1 < t:
                    kw['outSliceTo'] = o1 - f
            elif 'O' in self.via and o0 > 1:
                b = ModuleSlice(b, inSliceFrom=1)
                b = ModuleSlice(b, inSliceFrom=o0 - 1, inSliceTo=o1 - 1)
            else:
                b = ModuleSlice(b, inSliceFrom=o0, inSliceTo=o1)
        else:
            if o0 > 0:
                kw['outSliceFrom'] = o0
            if o1 < self.dst.indim:
                kw['outSliceTo'] = o1
        k = self.kind
        if k == 'full':
            return FullConnection(a, b, name=self.name, **kw)
        if k == 'identity':
            return IdentityConnection(a, b, name=self.name, **kw)
        if k == 'linear':
            return LinearConnection(a, b, name=self.name, **kw)
        if k == 'notself':
            return FullNotSelfConnection(a, b, name=self.name, **kw)
        if k == 'perm':
            return PermutationConnection(a, b, list(self.perm), self.block, name=self.name, **kw)
        if k == 'sub':
            return SubsamplingConnection(a, b, name=self.name, **kw)
        if k == 'shared':
            return SharedFullConnection(mothers[self.mother], a, b, name=self.name, **kw)
        if k == 'sharedsub':
            return SharedSubsamplingConnection(mothers[self.mother], a, b, name=self.name, **kw)
        raise KeyError(k)

    def apply(self, p, x):
        k = self.kind
        if k in ('full', 'shared', 'notself'):
            W = p.reshape(self.n_out, self.n_in)
            if k == 'notself':
                W = W * (1 - np.eye(self.n_in))
            return np.sum(W * x, axis=1)
        if k == 'identity':
            return x
        if k == 'linear':
            return p * x
        if k == 'perm':
            return np.concatenate([x[j * self.block:(j + 1) * self.block] for j in self.perm])
        if k in ('sub', 'sharedsub'):
            return p * (np.sum(x) / len(x))
        raise KeyError(k)


class Spec:
    def __init__(self, recurrent=False):
        self.recurrent = recurrent
        self.mods, self.cons, self.mothers = [], [], {}
        self.ins, self.outs = [], []

    @property
    def indim(self):
        return sum(m.indim for m in self.ins)

    @property
    def outdim(self):
        return sum(m.outdim for m in self.outs)

    def describe(self):
        return {'modules': ['%s:%s(%d)' % (m.name, m.kind, m.dim) for m in self.mods],
                'connections': ['%s%s:%s[%d:%d]->%s[%d:%d]' % ('REC ' if c.rec else '', c.kind, c.src.name, c.i0, c.i1,
                                                               c.dst.name, c.o0, c.o1) for c in self.cons],
                'in': [m.name for m in self.ins], 'out': [m.name for m in self.outs]}

    def signature(self):
        return (tuple((m.kind, m.dim) for m in self.mods), tuple((c.kind, c.i0, c.i1, c.o0, c.o1, c.rec)
                                                                for c in self.cons))


def build(spec, r=None, net=None):
    """The pybrain network of a spec (parts added in random order when r is given).
    Returns net, {name: part with parameters}."""
    if net is None:
        net = RecurrentNetwork() if spec.recurrent else FeedForwardNetwork()
    mods, nested = {}, {}
    for m in spec.mods:
        if m.kind == 'net':
            sub, subparts, _, _ = build(m.spec, r)
            sub.name = m.name
            mods[m.name] = sub
            for k, v in subparts.items():
                nested['%s/%s' % (m.name, k)] = v
        else:
            mods[m.name] = m.make()
    mothers = {k: MotherConnection(n, name=k) for k, n in spec.mothers.items()}
    cons = {}
    for c in spec.cons:
        cons[c.name] = c.make(mods, mothers)
    order = [('m', m) for m in spec.mods] + [('c', c) for c in spec.cons]
    if r is not None:
        r.shuffle(order)
    # inputs and outputs keep their order
    steps = [m.name for m in spec.mods if m in spec.ins or m in spec.outs]
    for m in spec.ins:
        net.addInputModule(mods[m.name])
    for m in spec.outs:
        net.addOutputModule(mods[m.name])
    early = bool(order) and r is not None and r.random() < .3
    if early:
        # the network is used before its last connection is added
        order.sort(key=lambda o: o[0] == 'c')
        early = order[-1][0] == 'c'
    for k, (t, x) in enumerate(order):
        if early and k == len(order) - 1:
            net.sortModules()
        if t == 'm':
            if x.name not in steps:
                net.addModule(mods[x.name])
        elif x.rec:
            net.addRecurrentConnection(cons[x.name])
        else:
            net.addConnection(cons[x.name])
    net.sortModules()
    parts = {}
    for m in spec.mods:
        if m.kind != 'net' and mods[m.name].paramdim:
            parts[m.name] = mods[m.name]
    for c in spec.cons:
        if c.nparams() and c.mother is None:
            parts[c.name] = cons[c.name]
    parts.update(mothers)
    parts.update(nested)
    return net, parts, mods, cons


class Ref:
    """Evaluates a spec over an input sequence. P: {part name: parameter array}."""

    def __init__(self, spec):
        self.spec = spec

    def run(self, P, seq, dtype=float):
        spec = self.spec
        prev = None
        state = {}
        outs = []
        for x in seq:
            x = np.asarray(x)
            acc = {m.name: np.zeros(m.indim, dtype=np.result_type(dtype, x)) for m in spec.mods}
            k = 0
            for m in spec.ins:
                acc[m.name] = acc[m.name] + x[k:k + m.indim]
                k += m.indim
            if prev is not None:
                for c in spec.cons:
                    if c.rec:
                        acc[c.dst.name][c.o0:c.o1] += c.apply(self._p(P, c), prev[c.src.name][c.i0:c.i1])
            out = {}
            todo = list(spec.mods)
            while todo:
                left = []
                for m in todo:
                    if any((c.dst is m) and (not c.rec) and c.src.name not in out for c in spec.cons):
                        left.append(m)
                        continue
                    inb = acc[m.name]
                    for c in spec.cons:
                        if c.dst is m and not c.rec:
                            inb[c.o0:c.o1] += c.apply(self._p(P, c), out[c.src.name][c.i0:c.i1])
                    out[m.name] = self.module(m, P, inb, state)
                assert len(left) < len(todo), 'loop'
                todo = left
            outs.append(np.concatenate([out[m.name] for m in spec.outs]))
            prev = out
        return outs

    @staticmethod
    def _p(P, c):
        return P.get(c.mother if c.mother else c.name)

    @staticmethod
    def module(m, P, x, state):
        if m.kind == 'bias':
            return np.ones(1)
        if m.kind in SIMPLE:
            return SIMPLE[m.kind][2](x, m.dim)
        if m.kind == 'psoftmax':
            return np.concatenate([softmax(x[k:k + m.slicelength]) for k in range(0, m.dim, m.slicelength)])
        if m.kind == 'gauss':
            return x
        if m.kind == 'net':
            sub = {k[len(m.name) + 1:]: v for k, v in P.items() if k.startswith(m.name + '/')}
            return Ref(m.spec).run(sub, [x], dtype=x.dtype)[0]
        d = m.dim
        if m.kind == 'lstm':
            s = state.get(m.name)
            gi, gf, cx, go = x[:d], x[d:2 * d], x[2 * d:3 * d], x[3 * d:]
            if m.peep:
                p = P[m.name]
                if s is not None:
                    gi = gi + p[:d] * s
                    gf = gf + p[d:2 * d] * s
            new = sg(gi) * np.tanh(cx)
            if s is not None:
                new = new + sg(gf) * s
            if m.peep:
                go = go + p[2 * d:] * new
            state[m.name] = new
            return sg(go) * np.tanh(new)
        if m.kind == 'mdlstm':
            D = m.dims
            gi, gf = x[:d], x[d:d * (1 + D)]
            cx, go = x[d * (1 + D):d * (2 + D)], x[d * (2 + D):d * (3 + D)]
            last = x[d * (3 + D):]
            if m.peep:
                p = P[m.name]
                for k in range(D):
                    gi = gi + p[:d] * last[k * d:(k + 1) * d]
                gf = gf + p[d:d * (1 + D)] * last
            new = sg(gi) * np.tanh(cx)
            for k in range(D):
                new = new + sg(gf[k * d:(k + 1) * d]) * last[k * d:(k + 1) * d]
            if m.peep:
                go = go + p[d * (1 + D):] * new
            return np.concatenate([sg(go) * np.tanh(new), new])
        raise KeyError(m.kind)


def snapshot(parts):
    """Current parameters of every part."""
    return {k: np.array(v.params, dtype=float) for k, v in parts.items()}


def random_spec(r, recurrent=False, kinds=None, conns=None, nested=0.0, maxmods=5, slices=0.3, mdlstm=False,
                shared=0.25, lstm=0.0, multi_io=True, outkinds=None):
    kinds = kinds or [('linear', 2), ('sigmoid', 3), ('tanh', 3), ('softsign', 1), ('relu', 1), ('softmax', 1),
                      ('gate', 1), ('doublegate', 1), ('mult', 1), ('switch', 1)]
    conns = conns or [('full', 8), ('identity', 1.5), ('linear', 1.5), ('notself', 1), ('perm', 1), ('sub', 1)]
    sp = Spec(recurrent)
    top = 8 if r.random() < .12 else 4
    names = ['%s%d' % (chr(97 + i), r.randrange(100)) for i in range(26)]
    r.shuffle(names)
    nin = r.choice([1, 1, 1, 2, 3]) if multi_io else 1
    nhid = r.randint(0, maxmods)
    nout = r.choice([1, 1, 1, 2]) if multi_io else 1
    for i in range(nin):
        k = r.choice(['linear', 'linear', 'tanh']) if multi_io else 'linear'
        if multi_io and r.random() < .1:
            # as many outputs as inputs, or more, or fewer
            k = r.choice([k for k in ('gate', 'mult', 'switch', 'sigmoid') if k in dict(kinds)] or [k])
        m = Mod(names.pop(), k, r.randint(1, top))
        sp.mods.append(m)
        sp.ins.append(m)
    if r.random() < .6:
        sp.mods.append(Mod(names.pop(), 'bias', 1))
    for i in range(nhid):
        if nested and r.random() < nested:
            sub = random_spec(r, maxmods=2, kinds=kinds, conns=conns, slices=slices, shared=shared, multi_io=True)
            m = Mod(names.pop(), 'net', 0, spec=sub)
        elif lstm and r.random() < lstm:
            m = Mod(names.pop(), 'lstm', r.randint(1, 3), peep=r.random() < .5)
        elif mdlstm and r.random() < .3:
            m = Mod(names.pop(), 'mdlstm', r.randint(1, 2), dims=r.randint(1, 2), peep=r.random() < .5)
        else:
            m = Mod(names.pop(), pick(r, kinds), r.randint(1, top))
        sp.mods.append(m)
    for i in range(nout):
        m = Mod(names.pop(), pick(r, outkinds or kinds), r.randint(1, top - 1))
        sp.mods.append(m)
        sp.outs.append(m)
    if multi_io and r.random() < .15:
        # an inner module may be an output as well
        inner = [m for m in sp.mods if m not in sp.outs and m not in sp.ins and m.kind != 'bias']
        if inner:
            sp.outs.append(r.choice(inner))
    if multi_io and r.random() < .08:
        # and so may inputs
        sp.outs.extend(r.sample(sp.ins, r.randint(1, len(sp.ins))))
    r.shuffle(sp.outs)
    cn = [0]

    def connect(a, b, rec=False):
        cn[0] += 1
        name = '%s_%d' % (r.choice('pqrstuvw'), cn[0])
        kind = pick(r, conns)
        i0, i1, o0, o1 = 0, a.outdim, 0, b.indim
        if r.random() < slices:
            i0 = r.randrange(a.outdim)
            i1 = r.randint(i0 + 1, a.outdim)
        if r.random() < slices:
            o0 = r.randrange(b.indim)
            o1 = r.randint(o0 + 1, b.indim)
        kw = {}
        if kind in ('identity', 'linear', 'notself', 'perm'):
            n = min(i1 - i0, o1 - o0)
            if kind == 'notself':
                n = max(n, 1)
            i1, o1 = i0 + n, o0 + n
            if kind == 'perm':
                divs = [x for x in range(1, n + 1) if n % x == 0]
                kw['block'] = r.choice(divs)
                perm = list(range(n // kw['block']))
                r.shuffle(perm)
                kw['perm'] = perm
        if kind in ('full', 'sub') and r.random() < shared:
            kind = {'full': 'shared', 'sub': 'sharedsub'}[kind]
            n = (i1 - i0) * (o1 - o0) if kind == 'shared' else o1 - o0
            same = [k for k, v in sp.mothers.items() if v == n]
            if same and r.random() < .7:
                kw['mother'] = r.choice(same)
            else:
                kw['mother'] = 'mo%s%d' % (r.choice('abcxyz'), cn[0])
                sp.mothers[kw['mother']] = n
        c = Con(name, kind, a, b, i0, i1, o0, o1, rec=rec, via=r.choice(['', '', 'i', 'o', 'io', 'iIoO', 'iox']), **kw)
        sp.cons.append(c)

    for j, b in enumerate(sp.mods):
        if b in sp.ins or b.kind == 'bias':
            continue
        before = [a for a in sp.mods[:j] if a not in sp.outs or a in sp.ins or r.random() < .3]
        before = [a for a in before if a.outdim > 0]
        if not before:
            before = sp.mods[:1]
        for a in r.sample(before, min(len(before), r.choice([1, 1, 2, 3]))):
            connect(a, b)
            if r.random() < .1:
                connect(a, b)          # parallel connection
    if recurrent:
        cand = [m for m in sp.mods if m.kind != 'bias']
        for _ in range(r.randint(1, 3)):
            connect(r.choice([m for m in sp.mods]), r.choice(cand), rec=True)
    if r.random() < .3:
        r.shuffle(sp.mods)
    return sp


def sensitivities(spec, P, seq, fn, h=1e-30, inputs=True):
    """Exact derivatives (complex step) of the scalar fn(outputs) with respect to all parameters and inputs."""
    ref = Ref(spec)
    dP = {}
    for k in P:
        g = np.zeros(len(P[k]))
        for i in range(len(P[k])):
            Q = dict(P)
            Q[k] = P[k].astype(complex)
            Q[k][i] += 1j * h
            g[i] = np.imag(fn(ref.run(Q, seq, dtype=complex))) / h
        dP[k] = g
    dX = []
    for t in range(len(seq) if inputs else 0):
        g = np.zeros(len(seq[t]))
        for i in range(len(g)):
            s = [np.array(x, dtype=complex) for x in seq]
            s[t][i] += 1j * h
            g[i] = np.imag(fn(ref.run(P, s, dtype=complex))) / h
        dX.append(g)
    return dP, dX


def check_derivs(c, net, parts, exp, key, tol=1e-7, msg=''):
    """Compare the derivatives of every part, and their place in the flat array, with the expected ones."""
    for k, v in parts.items():
        c.close(v.derivs, exp[k], key, tol, '%s of %s' % (k, msg))
    flat = np.array(net.derivs)
    # locate each part in the flat array by a unique fingerprint of its parameters
    order = []
    for k, v in parts.items():
        where = [i for i in range(net.paramdim) if net.params[i] == v.params[0]]
        if len(where) == 1:
            order.append(k)
            i = where[0]
            c.close(flat[i:i + v.paramdim], exp[k], key + '/flat array', tol, '%s of %s' % (k, msg))
    return order


def pair_spec(r, conns, top=12):
    """two or three wide layers, joined by single connections (with room for proper permutations and slices)"""
    sp = Spec(False)
    n = r.choice([2, 2, 3])
    sizes = [r.choice([1, 2, 3, 4, 5, 6, 6, 8, 9, 10, 12, 12]) for _ in range(n)]
    sizes = [min(s, top) for s in sizes]
    if r.random() < .5:
        sizes = [sizes[0]] * n
    sp.mods = [Mod('m%d' % i, r.choice(['linear', 'tanh']), s) for i, s in enumerate(sizes)]
    sp.ins, sp.outs = [sp.mods[0]], [sp.mods[-1]]
    for i, (a, b) in enumerate(zip(sp.mods, sp.mods[1:])):
        kind, kw = pick(r, conns), {}
        i0, o0 = [r.randrange(m.dim) if r.random() < .4 else 0 for m in (a, b)]
        i1, o1 = [r.randint(f + 1, m.dim) if r.random() < .4 else m.dim for f, m in ((i0, a), (o0, b))]
        if kind in ('identity', 'linear', 'notself', 'perm'):
            k = min(i1 - i0, o1 - o0)
            i1, o1 = i0 + k, o0 + k
            if kind == 'perm':
                kw['block'] = r.choice([x for x in range(1, k + 1) if k % x == 0])
                kw['perm'] = list(range(k // kw['block']))
                r.shuffle(kw['perm'])
        sp.cons.append(Con('c%d' % i, kind, a, b, i0, i1, o0, o1, via=r.choice(['', '', 'i', 'o', 'io', 'iIoO']), **kw))
    return sp
