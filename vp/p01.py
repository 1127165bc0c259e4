"""P01: feedforward activation equals the composition of the parts, whatever the topology and history."""
import numpy as np
from pybrain.structure import (LinearLayer, SigmoidLayer, TanhLayer, SoftmaxLayer)
from pybrain.structure.networks.network import NetworkConstructionException
from pybrain.structure import FeedForwardNetwork, FullConnection
from pybrain.tools import shortcuts
from pybrain.tools.shortcuts import buildNetwork
from pybrain.datasets import SupervisedDataSet
from vp.core import rnd_vec, Unchanged
from vp import refnet

RULE = ('a case builds one random acyclic network (up to 3 inputs, 5 inner modules of 11 kinds, 2 outputs, 8 connection '
        'kinds, slices, shared weights, nested networks, parts added in random order), sets random parameters and '
        'compares several activations with an independent evaluator; non-trivial when it has three connections or more; '
        'distinct by the sequence of module and connection kinds and slices')
EXPECT = ['wide', 'activations', 'history interleaved', 'dataset rows', 'nested networks', 'shared connections',
          'sliced connections', 'standalone layers', 'buildNetwork', 'parts', 'loops rejected', 'extreme inputs']
SCALES = [1, 1, 1, 3, 0.1, 30]


def setrandom(c, parts):
    for v in parts.values():
        sc = c.r.choice([1, .5, 2])
        v.params[:] = rnd_vec(c, len(v.params), sc)


WIDE = [('full', 2), ('identity', 1), ('linear', 1), ('notself', 1), ('perm', 3), ('sub', 1)]


def k_wide(c):
    k_net(c, spec=refnet.pair_spec(c.r, WIDE))
    c.ev('wide')


def k_net(c, nested=0.12, spec=None):
    r = c.r
    spec = spec or refnet.random_spec(r, nested=nested)
    net, parts, mods, cons = refnet.build(spec, r)
    setrandom(c, parts)
    P = refnet.snapshot(parts)
    c.eq((net.indim, net.outdim), (spec.indim, spec.outdim), 'dimensions')
    ref = refnet.Ref(spec)
    xs = [rnd_vec(c, spec.indim, r.choice(SCALES)) for _ in range(4)]
    xs.append(np.zeros(spec.indim))
    exp = [ref.run(P, [x])[0] for x in xs]
    first = []
    for x, e in zip(xs, exp):
        arg = x.copy() if r.random() < .7 else list(x)
        u = Unchanged(input=arg)
        if r.random() < .3:
            f = x.copy()
            f.setflags(write=False)      # a write by the network raises
            out = net.activate(f)
        else:
            out = net.activate(arg)
        c.close(out, e, 'activation', 1e-9, str(spec.describe()))
        u.verify(c, 'input modified')
        first.append(out)
        c.ev('activations')
    for _ in range(5):                    # any interleaving gives the same answers
        i = r.randrange(len(xs))
        op = r.random()
        if op < .2:
            net.reset()
        elif op < .3:
            net.activate(rnd_vec(c, spec.indim, 100))
        elif op < .4:
            first[i] = net.activate(xs[i])
            first[i][:] = 99.            # the returned array belongs to the caller
        c.close(net.activate(xs[i]), exp[i], 'activation/history', 1e-9)
        c.ev('history interleaved')
    keep = net.activate(xs[0])
    net.activate(xs[1])
    c.close(keep, exp[0], 'result overwritten by a later activation', 1e-9)
    ds = SupervisedDataSet(spec.indim, 1)
    for x in xs:
        ds.addSample(x, [0])
    c.close(net.activateOnDataset(ds), np.array(exp), 'dataset', 1e-9)
    c.ev('dataset rows', len(xs))
    # parameters are read live
    if parts:
        k = r.choice(sorted(parts))
        parts[k].params[:] = rnd_vec(c, len(parts[k].params))
        P = refnet.snapshot(parts)
        c.close(net.activate(xs[2]), ref.run(P, [xs[2]])[0], 'activation/after parameter change', 1e-9)
    c.eq({k: len(v) for k, v in P.items()}, {k: v.paramdim for k, v in parts.items()}, 'parameter sizes')
    for cc in spec.cons:
        if cc.mother:
            c.ev('shared connections')
        if cc.i0 or cc.o0 or cc.i1 < cc.src.outdim or cc.o1 < cc.dst.indim:
            c.ev('sliced connections')
    if any(m.kind == 'net' for m in spec.mods):
        c.ev('nested networks')
    if len(spec.cons) >= 3:
        c.sig(spec.signature())
    c.sample(spec.describe())


def k_nested(c):
    k_net(c, nested=.7)


def k_layers(c):
    """Standalone layers, ordinary and extreme inputs."""
    r = c.r
    kind = r.choice(sorted(refnet.SIMPLE) + ['psoftmax', 'bias', 'gauss'])
    d = r.randint(1, 5)
    kw = {}
    if kind == 'psoftmax':
        kw['slicelength'] = r.randint(1, 3)
        d = kw['slicelength'] * r.randint(1, 3)
    m = refnet.Mod('layer', kind, d, **kw)
    layer = m.make()
    c.eq((layer.indim, layer.outdim), (m.indim, m.outdim), 'layers/dimensions')
    for _ in range(4):
        x = rnd_vec(c, m.indim, r.choice(SCALES))
        layer.reset()
        out = layer.activate(x)
        c.close(out, np.real(refnet.Ref.module(m, {}, x, {})), 'layers/' + kind, 1e-9)
        c.ev('standalone layers')
    if kind in ('softmax', 'psoftmax', 'sigmoid', 'tanh', 'softsign', 'gate', 'doublegate', 'switch'):
        x = np.array([r.choice([1., -1.]) * 10 ** r.uniform(0, 2.6) for _ in range(m.indim)])
        layer.reset()
        out = layer.activate(x)
        c.ok(np.all(np.isfinite(out)), 'layers/finite', '%s of %s is %s' % (kind, x, out))
        if kind in ('sigmoid', 'switch', 'softmax', 'psoftmax'):
            c.ok(np.all((out >= 0) & (out <= 1)), 'layers/range', '%s of %s is %s' % (kind, x, out))
        if kind == 'softmax':
            c.close(sum(out), 1., 'layers/softmax sum')
        c.ev('extreme inputs')
    c.sig(kind, d, tuple(kw.values()))
    c.sample({'kind': kind, 'dim': d})


def k_build(c):
    r = c.r
    layers = [r.randint(1, 5) for _ in range(r.randint(2, 5))]
    opts = {}
    hid, out = r.choice(['sigmoid', 'tanh', 'softsign', 'relu', 'linear']), r.choice(['linear', 'sigmoid', 'tanh', 'softmax'])
    if hid != 'sigmoid' or r.random() < .5:
        opts['hiddenclass'] = refnet.CLASSES[hid]
    if out != 'linear' or r.random() < .5:
        opts['outclass'] = refnet.CLASSES[out]
    bias = r.random() < .7
    obias = r.random() < .7
    opts['bias'] = bias
    opts['outputbias'] = obias
    net = buildNetwork(*layers, **opts)
    sizes = 0
    for i in range(len(layers) - 1):
        sizes += layers[i] * layers[i + 1]
    if bias:
        sizes += sum(layers[1:-1]) + (layers[-1] if obias else 0)
    c.eq(net.paramdim, sizes, 'buildNetwork/parameters', str(layers))
    net.params[:] = rnd_vec(c, sizes)
    names = ['in'] + ['hidden%d' % i for i in range(len(layers) - 2)] + ['out']
    for _ in range(3):
        x = rnd_vec(c, layers[0], r.choice([1, 3]))
        a = x
        for i in range(1, len(names)):
            con = [k for k in net.connections[net[names[i - 1]]] if k.outmod is net[names[i]]]
            c.must(len(con) == 1, 'buildNetwork/connections', '%s -> %s' % (names[i - 1], names[i]))
            z = con[0].params.reshape(layers[i], layers[i - 1]).dot(a)
            if bias and (i < len(names) - 1 or obias):
                bc = [k for k in net.connections[net['bias']] if k.outmod is net[names[i]]]
                c.must(len(bc) == 1, 'buildNetwork/bias')
                z = z + bc[0].params
            kind = out if i == len(names) - 1 else hid
            a = refnet.SIMPLE[kind][2](z, layers[i])
        c.close(net.activate(x), a, 'buildNetwork', 1e-9, '%s %s' % (layers, opts))
        c.ev('buildNetwork')
    c.sig(tuple(layers), hid, out, bias, obias)
    c.sample({'layers': layers, 'options': str(opts)})


def k_parts(c):
    """Networks of parts: layers within a part are linked one to one, parts by full connections."""
    r = c.r
    parts, lays = [], []
    kinds = ['linear', 'sigmoid', 'tanh', 'softsign', 'relu']
    for i in range(r.randint(1, 4)):
        n = r.randint(1, 4)
        parts.append([(r.choice(kinds), n) for _ in range(r.randint(1, 3) if i or r.random() < .5 else 1)])
    if len(parts) == 1 and len(parts[0]) == 1:
        parts.append([('linear', 2)])
    lays = [[refnet.CLASSES[k](n) for k, _ in p] for p, n in zip(parts, [p[0][1] for p in parts])]
    bias = r.random() < .5
    net = shortcuts._buildNetwork(*[tuple(p) for p in lays], **({'bias': bias} if bias or r.random() < .5 else {}))
    c.eq((net.indim, net.outdim), (parts[0][0][1], parts[-1][-1][1]), 'parts/dimensions')
    size = sum(parts[i][0][1] * parts[i + 1][0][1] + (parts[i + 1][0][1] if bias else 0) for i in range(len(parts) - 1))
    c.eq(net.paramdim, size, 'parts/parameters', str(parts))
    if size:
        net.params[:] = rnd_vec(c, size)

    def between(a, b):
        con = [k for k in net.connections[a] if k.outmod is b]
        c.must(len(con) == 1, 'parts/connections', '%s: %d' % (parts, len(con)))
        return con[0]
    for _ in range(3):
        x = rnd_vec(c, parts[0][0][1], r.choice([1, 3]))
        a = x
        for i, p in enumerate(parts):
            for j, (k, n) in enumerate(p):
                if j:
                    c.eq(between(lays[i][j - 1], lays[i][j]).paramdim, 0, 'parts/identity')
                elif i:
                    a = between(lays[i - 1][-1], lays[i][0]).params.reshape(n, len(a)).dot(a)
                    if bias:
                        b = [q for m in net.modules for q in net.connections[m] if q.outmod is lays[i][0] and m is not lays[i - 1][-1]]
                        c.must(len(b) == 1, 'parts/bias', str(len(b)))
                        a = a + b[0].params
                a = refnet.SIMPLE[k][2](a, n)
        c.close(net.activate(x), a, 'parts', 1e-9, str(parts))
        c.ev('parts')
    c.sig(str(parts), bias)


def k_loops(c):
    r = c.r
    n = r.randint(2, 6)
    net = FeedForwardNetwork()
    ms = [LinearLayer(r.randint(1, 3), name='m%d' % i) for i in range(n)]
    r.shuffle(ms)
    net.addInputModule(ms[0])
    net.addOutputModule(ms[-1])
    for m in ms[1:-1]:
        net.addModule(m)
    edges = set()
    for i in range(n - 1):
        edges.add((i, i + 1))
    for _ in range(r.randint(0, 4)):
        i, j = sorted(r.sample(range(n), 2))
        edges.add((i, j))
    back = None
    if r.random() < .6:
        j, i = sorted([r.randrange(n), r.randrange(n)])
        back = (i, j)
    for i, j in edges:
        net.addConnection(FullConnection(ms[i], ms[j]))
    if back:
        net.addConnection(FullConnection(ms[back[0]], ms[back[1]]))
        c.raises(NetworkConstructionException, net.sortModules, 'loops', 'edges %s + %s' % (sorted(edges), back))
        c.ev('loops rejected')
    else:
        net.sortModules()
        c.eq(len(net.modulesSorted), n, 'sorting')
    c.sig(n, tuple(sorted(edges)), back)
    c.sample({'modules': n, 'edges': sorted(edges), 'back edge': back})


KINDS = [('net', k_net, 500, 12000), ('wide', k_wide, 400, 8000), ('nested', k_nested, 120, 4000), ('layers', k_layers, 200, 4000),
         ('buildNetwork', k_build, 120, 4000), ('parts', k_parts, 40, 1000), ('loops', k_loops, 60, 1500)]
