"""P06: copies, pickles and XML files reproduce a network exactly and independently of the original."""
import os, pickle, copy
import numpy as np
from pybrain.structure import (FeedForwardNetwork, RecurrentNetwork, LinearLayer, FullConnection, GaussianLayer)
from pybrain.structure.modules.mixturedensity import MixtureDensityLayer
from pybrain.structure.modules.softmax import PartialSoftmaxLayer
from pybrain.tools.customxml.networkwriter import NetworkWriter
from pybrain.tools.customxml.networkreader import NetworkReader
from pybrain.tools.customxml.handling import XMLHandling, baseTransform
from pybrain.tools.shortcuts import buildNetwork
from pybrain.supervised.trainers import BackpropTrainer
from pybrain.datasets import SupervisedDataSet, SequentialDataSet
from vp.core import rnd_vec, Unchanged
from vp import refnet

RULE = ('a case builds one random feedforward or recurrent network (nested networks, shared weights, slices, LSTM cells), '
        'reproduces it by copy, deepcopy, pickle (several protocols), XML or a chain of these, and compares behaviour, '
        'parameters, derivatives and names; then both sides are changed and trained separately; non-trivial when it has '
        'two parametrised parts; distinct by structure and way of reproduction')
EXPECT = ['copies', 'deepcopies', 'pickles', 'xml files', 'chains', 'networks appended to a file', 'networks read by name',
          'steps compared', 'copies trained', 'nested networks', 'shared parameters', 'recurrent networks',
          'independence checks', 'gradients compared', 'special layers', 'forgetful networks', 'containers pickled', 'numbers in files']
KINDS_ = [('linear', 2), ('sigmoid', 2), ('tanh', 2), ('softmax', .5), ('gate', .5), ('softsign', .5), ('relu', .5),
          ('switch', .5), ('doublegate', .5), ('mult', .5)]
CONNS = [('full', 8), ('identity', 1.5), ('linear', 1.5), ('notself', 1), ('perm', 1), ('sub', .7)]


def reproduce(c, net, how):
    if how == 'copy':
        c.ev('copies')
        return net.copy()
    if how == 'keep':
        c.ev('copies')
        return net.copy(keepBuffers=True)
    if how == 'deepcopy':
        c.ev('deepcopies')
        return copy.deepcopy(net)
    if how == 'pickle':
        c.ev('pickles')
        return pickle.loads(pickle.dumps(net, c.r.choice([0, 1, 2, 3, 4])))
    path = os.path.abspath('net_%d_%d.xml' % (os.getpid(), c.r.randrange(10 ** 9)))
    try:
        NetworkWriter.writeToFile(net, path)
        c.ev('xml files')
        return NetworkReader.readFrom(path)
    finally:
        if os.path.exists(path):
            os.remove(path)


def find(net, spec):
    """The live parametrised parts of a reproduced network, by name."""
    parts = {}
    for m in spec.mods:
        if m.kind == 'net':
            for k, v in find(net[m.name], m.spec).items():
                parts[m.name + '/' + k] = v
        elif net[m.name].paramdim:
            parts[m.name] = net[m.name]
    live = [x for l in net.connections.values() for x in l]
    if spec.recurrent:
        live += net.recurrentConns
    byname = {x.name: x for x in live}
    for x in spec.cons:
        if x.nparams() and not x.mother:
            parts[x.name] = byname[x.name]
    for m in net.motherconnections:
        parts[m.name] = m
    return parts


def compare(c, a, b, spec, key, n=4):
    r = c.r
    seq = [rnd_vec(c, spec.indim) for _ in range(r.randint(2, n))]
    a.reset()
    b.reset()
    for x in seq:
        if not c.close(b.activate(x), a.activate(x), key + '/activation', 1e-12, str(spec.describe())):
            return
        c.ev('steps compared')
    a.reset()
    b.reset()


def grads(c, net, spec, seq, errs):
    net.reset()
    if net.paramdim:
        net.resetDerivatives()
    if not spec.recurrent:
        for x, e in zip(seq, errs):
            net.activate(x)
            net.backActivate(e)
    else:
        for x in seq:
            net.activate(x)
        for e in reversed(errs):
            net.backActivate(e)
    d = np.array(net.derivs) if net.paramdim else np.zeros(0)
    net.reset()
    return d


def k_repro(c, recurrent=None, nested=.2):
    r = c.r
    rec = r.random() < .5 if recurrent is None else recurrent
    back = r.random() < .7
    spec = refnet.random_spec(r, recurrent=rec, kinds=KINDS_, conns=CONNS[:-1] if back else CONNS, nested=nested, maxmods=4,
                              lstm=.3 if rec else 0, mdlstm=r.random() < .3, shared=.4)
    net, parts, mods, cons = refnet.build(spec, r)
    for v in parts.values():
        v.params[:] = rnd_vec(c, v.paramdim, r.choice([.3, 1, 1e-7 if r.random() < .05 else .5]))
    P = refnet.snapshot(parts)
    if r.random() < .4:
        for _ in range(r.randint(1, 3)):
            net.activate(rnd_vec(c, spec.indim))     # some history
        if r.random() < .5:
            net.reset()
    hows = [r.choice(['copy', 'keep', 'deepcopy', 'pickle', 'xml', 'xml'])]
    while r.random() < .3:
        hows.append(r.choice(['copy', 'deepcopy', 'pickle', 'xml']))
        c.ev('chains')
    new = net
    for h in hows:
        new = reproduce(c, new, h)
    key = hows[0] if len(hows) == 1 else 'chain'
    c.ok(type(new) is type(net), key + '/class')
    c.eq((new.indim, new.outdim, new.paramdim), (net.indim, net.outdim, net.paramdim), key + '/dimensions')
    c.eq(new.name, net.name, key + '/name')
    c.eq(sorted(m.name for m in new.modules), sorted(m.name for m in spec.mods), key + '/modules')
    c.eq([m.name for m in new.inmodules], [m.name for m in spec.ins], key + '/inputs')
    c.eq([m.name for m in new.outmodules], [m.name for m in spec.outs], key + '/outputs')
    nparts = find(new, spec)
    c.eq(sorted(nparts), sorted(parts), key + '/parts')
    for k in parts:
        c.close(nparts[k].params, P[k], key + '/parameters', 0, k)
        c.ok(nparts[k] is not parts[k], key + '/shared part')
    for k, m in mods.items():
        c.ok(new[k] is not m, key + '/shared module')
        c.ok(type(new[k]) is type(m), key + '/module class')
    compare(c, net, new, spec, key)
    ref = refnet.Ref(spec)
    seq = [rnd_vec(c, spec.indim) for _ in range(3)]
    exp = ref.run(P, seq) if rec else [ref.run(P, [x])[0] for x in seq]
    for x, e in zip(seq, exp):
        c.close(new.activate(x), e, key + '/semantics', 1e-8)
    new.reset()
    if back:
        errs = [rnd_vec(c, spec.outdim) for _ in seq]
        g1, g2 = grads(c, net, spec, seq, errs), grads(c, new, spec, seq, errs)
        c.close(g2 if 'xml' not in hows else sorted(g2), g1 if 'xml' not in hows else sorted(g1), key + '/gradient', 1e-9)
        for k in parts:
            c.close(nparts[k].derivs, parts[k].derivs, key + '/gradient of a part', 1e-9, k)
        c.ev('gradients compared')
    # a write on one side is seen by all parts of that side, and by nobody on the other side
    if parts:
        new.params[:] = rnd_vec(c, new.paramdim, .5)
        for k in parts:
            c.close(parts[k].params, P[k], key + '/original changed', 0, k)
        Q = refnet.snapshot(nparts)
        c.ok(all(np.all(Q[k] != P[k]) for k in P), key + '/parts detached from the network')
        exp = ref.run(Q, seq) if rec else [ref.run(Q, [x])[0] for x in seq]
        for x, e in zip(seq, exp):
            c.close(new.activate(x), e, key + '/semantics after a write', 1e-8)
        k = r.choice(sorted(parts))
        new.reset()
        net.params[:] = rnd_vec(c, net.paramdim)
        parts[k].params[:] = 3.
        c.close(nparts[k].params, Q[k], key + '/reproduction changed', 0)
        out = net.activate(seq[0])
        new.activate(seq[0])
        new.randomize()
        net.reset()
        c.close(net.activate(seq[0]), out, key + '/original changed', 0)
        c.ev('independence checks')
        if back:
            train(c, new, spec, key)
    if rec:
        c.ev('recurrent networks')
    if any(m.kind == 'net' for m in spec.mods):
        c.ev('nested networks')
    if any(x.mother for x in spec.cons):
        c.ev('shared parameters')
    if len(parts) > 1:
        c.sig(spec.signature(), tuple(hows))
    c.sample({'structure': spec.describe(), 'reproduced by': hows})


def train(c, net, spec, key):
    """Training the reproduction moves it along its own gradient."""
    ds = SequentialDataSet(spec.indim, spec.outdim) if spec.recurrent else SupervisedDataSet(spec.indim, spec.outdim)
    for _ in range(3):
        ds.addSample(rnd_vec(c, spec.indim), rnd_vec(c, spec.outdim))
    net.params[:] = rnd_vec(c, net.paramdim, .3)
    seqs = [list(s) for s in ds._provideSequences()]
    net.resetDerivatives()
    for s in seqs:
        net.reset()
        outs = [net.activate(x) for x, _ in s]
        for o, (x, t) in reversed(list(zip(outs, s))):
            net.backActivate(t - o)
    g = np.array(net.derivs)
    p = np.array(net.params)
    tr = BackpropTrainer(net, ds, learningrate=1e-3, batchlearning=True)
    tr.train()
    c.close((np.array(net.params) - p) / 1e-3, g, key + '/training', 1e-6)
    c.ev('copies trained')


def k_nested(c):
    k_repro(c, recurrent=False, nested=.8)


def k_file(c):
    """Several networks in one file; equal module names; reading by position and by name."""
    r = c.r
    path = os.path.abspath('nets_%d_%d.xml' % (os.getpid(), r.randrange(10 ** 9)))
    nets = []
    try:
        count = r.randint(2, 4)
        names = ['net' + '1' * k for k in range(count)]
        r.shuffle(names)
        for i in range(count):
            net = buildNetwork(r.randint(1, 3), r.randint(1, 3), r.randint(1, 2), bias=r.random() < .6,
                               recurrent=r.random() < .3)
            net.name = names[i]
            net.params[:] = rnd_vec(c, net.paramdim)
            if i == 0:
                NetworkWriter.writeToFile(net, path)
            else:
                NetworkWriter.appendToFile(net, path)
                c.ev('networks appended to a file')
            nets.append(net)
        order = list(range(len(nets))) * 2
        r.shuffle(order)
        for i in order:
            if r.random() < .5:
                new = NetworkReader.readFrom(path, index=i)
            else:
                new = NetworkReader.readFrom(path, name=names[i])
                c.ev('networks read by name')
            net = nets[i]
            c.eq((new.name, new.indim, new.outdim, new.paramdim), (net.name, net.indim, net.outdim, net.paramdim), 'file/network')
            for _ in range(3):
                x = rnd_vec(c, net.indim)
                c.close(new.activate(x), net.activate(x), 'file/activation', 1e-12)
        new = NetworkReader.readFrom(path)
        c.eq(new.name, names[0], 'file/first')
        # overwriting replaces the whole file
        NetworkWriter.writeToFile(nets[-1], path)
        c.eq(NetworkReader.readFrom(path).name, nets[-1].name, 'file/overwritten')
    finally:
        if os.path.exists(path):
            os.remove(path)
    c.sig(len(nets), tuple(order))
    c.sample({'networks': len(nets), 'order': order})


def k_special(c):
    """Layers with construction arguments of their own, and forgetful networks."""
    r = c.r
    kind = r.choice(['partial', 'mixture', 'gauss', 'forget', 'names'])
    forget = kind == 'forget'
    name = 'forgetful' if forget else r.choice([None, 'a', 'my net'])
    net = RecurrentNetwork(forget=True, name=name) if forget else FeedForwardNetwork(name=name)
    if name:
        c.eq(net.name, name, 'special/given name')
    if kind == 'partial':
        s = r.randint(1, 3)
        o = PartialSoftmaxLayer(s * r.randint(1, 3), s)
        o.name = 'out'
    elif kind == 'mixture':
        o = MixtureDensityLayer(r.randint(1, 2), mix=r.randint(1, 3), name='out')
    elif kind == 'gauss':
        o = GaussianLayer(2, name='out')
        o.setSigma([0., 0.])
        o.enabled = False
    else:
        o = LinearLayer(2, name='out')
    i = LinearLayer(2, name='in' if kind != 'names' else r.choice(['x-y', 'a b', 'ä', "q'uote", 'A&B<C>']))
    con = FullConnection(i, o)
    net.addInputModule(i)
    net.addOutputModule(o)
    net.addConnection(con)
    if forget:
        net.addRecurrentConnection(FullConnection(o, o))
    net.sortModules()
    net.params[:] = rnd_vec(c, net.paramdim) * (1 if kind != 'gauss' else .1)
    if name:
        c.eq(net.name, name, 'special/given name')
    how = r.choice(['copy', 'pickle', 'xml', 'xml', 'xml'])
    new = reproduce(c, net, how)
    if kind == 'gauss':
        new[o.name].enabled = False
        c.close(new[o.name].params, o.params, 'special/parameters', 0)
    c.eq(new.name, net.name, 'special/name')
    c.eq(new.outmodules[0].indim, o.indim, 'special/dimension of ' + kind)
    c.eq(sorted(m.name for m in new.modules), sorted(m.name for m in net.modules), 'special/names')
    if kind == 'mixture':
        c.eq((new.outmodules[0].nDims, new.outmodules[0].nGaussians), (o.nDims, o.nGaussians), 'special/mixture')
    if kind == 'partial':
        c.eq(new.outmodules[0].slicelength, o.slicelength, 'special/slices')
    if forget:
        c.ok(new.forget, 'special/forget')
        c.ev('forgetful networks')
    for _ in range(4):
        x = rnd_vec(c, 2)
        c.close(new.activate(x), net.activate(x), 'special/activation of ' + kind, 1e-12)
    c.ev('special layers')
    c.sig(kind, how, o.indim)
    c.sample({'kind': kind, 'how': how})


def k_container(c):
    """Single connections and layers, and parts of a network, can be copied and pickled too."""
    r = c.r
    net = buildNetwork(2, 3, 1, bias=True)
    net.params[:] = rnd_vec(c, net.paramdim)
    p = np.array(net.params)
    con = r.choice([x for l in net.connections.values() for x in l])
    new = con.copy() if r.random() < .5 else pickle.loads(pickle.dumps(con))
    c.close(new.params, con.params, 'part/parameters', 0)
    q = np.array(con.params)
    new.params[:] = 9
    c.close(con.params, q, 'part/original changed', 0)
    c.close(net.params, p, 'part/network changed', 0)
    free = FullConnection(LinearLayer(2), LinearLayer(3))
    f2 = pickle.loads(pickle.dumps(free))
    c.close(f2.params, free.params, 'part/free connection', 0)
    f2.params[:] = 1
    c.ok(not np.any(np.asarray(free.params) == 1), 'part/free connection shared')
    c.ev('containers pickled')
    c.sig(con.inmod.name, con.outmod.name, r.random())
    c.sample({'connection': repr(con)})


def k_handling(c):
    """Trees of tags, attributes, lists and matrices in files."""
    r = c.r
    path = os.path.abspath('tree_%d_%d.xml' % (os.getpid(), r.randrange(10 ** 9)))
    try:
        h = XMLHandling(path, True)
        model = []                                # (tag, attributes, what, data)
        up = lambda v, n: v.upper() + n
        for i in range(r.randint(1, 8)):
            tag = r.choice(['a', 'bb', 'Row'])
            node = h.newRootNode(tag)
            attr = {'name': 'n%d' % i}
            for k in r.sample(['x', 'y', 'zed'], r.randint(0, 3)):
                attr[k] = r.choice(['1', 'some text', '<&>"', '', 'ä'])
            tr = r.random() < .3
            h.writeAttrDict(node, dict(attr, nothing=None), up if tr else None)
            if tr:
                attr = {k: up(v, k) for k, v in attr.items()}
            what = r.choice(['none', 'doubles', 'matrix', 'children'])
            prec = r.choice([2, 4, 6])
            if what == 'doubles':
                data = [r.gauss(0, 10) for _ in range(r.randint(1, 6))]
                h.writeDoubles(node, data, prec)
            elif what == 'matrix':
                data = c.np.normal(0, 10, (r.randint(1, 4), r.randint(1, 4)))
                h.writeMatrix(node, data, prec)
            elif what == 'children':
                data = [r.choice('pqr') for _ in range(r.randint(0, 4))]
                for k, t in enumerate(data):
                    h.writeAttrDict(h.newChild(node, t), {'k': str(k)})
            else:
                data = None
            model.append((tag, attr, what, data, prec))
        h.save()
        h = XMLHandling(path, False)
        kids = h.getChildrenOf(h.root)
        c.eq([k.nodeName for k in kids], [m[0] for m in model], 'tree/tags')
        for node, (tag, attr, what, data, prec) in zip(kids, model):
            c.eq(h.readAttrDict(node), attr, 'tree/attributes')
            c.eq(h.readAttrDict(node, up), {k: up(v, k) for k, v in attr.items()}, 'tree/transformed attributes')
            same = [n for n, m in zip(kids, model) if m[0] == tag]
            c.ok(h.findNode(tag, same.index(node)) is node, 'tree/find by position')
            c.eq(h.findNode(tag, len(same)), None, 'tree/find beyond the last')
            c.ok(h.findNamedNode(tag, attr['name']) is node, 'tree/find by name')
            if what in ('doubles', 'matrix'):
                # decimals are rounded as asked, and six digits are written
                tol = .51 * 10 ** -prec
                got = h.readDoubles(node) if what == 'doubles' else h.readMatrix(node)
                c.eq(np.shape(got), np.shape(data), 'tree/shape of numbers')
                c.ok(np.all(abs(np.array(got) - np.array(data)) <= tol + 1e-5 * abs(np.array(data))), 'tree/numbers', lambda: '%s %s' % (got, data))
                if what == 'matrix':
                    c.eq([h.readAttrDict(x) for x in h.getChildrenOf(node)], [{'number': str(i)} for i in range(len(data))], 'tree/rows')
                c.ev('numbers in files')
            elif what == 'children':
                c.eq([(x.nodeName, h.readAttrDict(x)) for x in h.getChildrenOf(node)], [(t, {'k': str(k)}) for k, t in enumerate(data)], 'tree/children')
                for t in 'pqr':
                    x = h.getChild(node, t)
                    c.eq(x and h.readAttrDict(x), {'k': str(data.index(t))} if t in data else None, 'tree/first child')
                    ks = [k for k, q in enumerate(data) if q == t]
                    for i in range(len(ks) + 1):
                        x = h.findNode(t, i, node)
                        c.eq(x and h.readAttrDict(x), {'k': str(ks[i])} if i < len(ks) else None, 'tree/find below')
            else:
                c.eq(h.readMatrix(node), None, 'tree/no matrix')
                c.eq(h.findNamedNode(tag, 'nobody'), None, 'tree/name not found')
        with open(path, 'w') as f:
            f.write('<?xml version="1.0" ?><Other/>')
        c.raises(Exception, lambda: XMLHandling(path, False), 'tree/other file accepted')
    finally:
        if os.path.exists(path):
            os.remove(path)
    m = LinearLayer(1, name='layer')
    c.eq((baseTransform(m), baseTransform(FullConnection), baseTransform(1.5), baseTransform('x')), ('layer', 'FullConnection', '1.5', 'x'), 'tree/text of a value')
    c.sig([(m[0], sorted(m[1]), m[2]) for m in model])
    c.sample([m[:3] for m in model])


KINDS = [('handling', k_handling, 60, 1200), ('reproduce', k_repro, 140, 6000), ('nested', k_nested, 50, 2000), ('file', k_file, 60, 1500),
         ('special', k_special, 80, 1500), ('container', k_container, 30, 400)]
