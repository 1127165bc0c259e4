"""P31: wrapped parameters - masks, cheap copies, decompositions by neuron, copies of parts."""
import copy, math, pickle
import numpy as np
from pybrain.structure import (FeedForwardNetwork, RecurrentNetwork, LinearLayer, SigmoidLayer, TanhLayer, BiasUnit, LSTMLayer, FullConnection)
from pybrain.structure.evolvables.maskedparameters import MaskedParameters
from pybrain.structure.evolvables.maskedmodule import MaskedModule
from pybrain.structure.evolvables.cheaplycopiable import CheaplyCopiable
from pybrain.structure.networks import NeuronDecomposableNetwork
from pybrain.structure.parametercontainer import ParameterContainer
from pybrain.supervised.trainers import BackpropTrainer
from pybrain.datasets import SupervisedDataSet
from pybrain.tools.shortcuts import buildNetwork
from vp.p12 import seed

RULE = ('a case wraps, converts or copies one module or parameter container and drives it through a random history of writes, mutations, copies and activations; non-trivial with at '
        'least two parameters; distinct by sizes, kinds and history')
EXPECT = ['two output modules', 'backward', 'other written in between', 'mask', 'zeros included', 'zeros left out', 'mask flipped', 'hidden values kept', 'complexity limited', 'mask frequencies', 'masked module', 'masked sequence', 'mask copied',
          'cheap copy', 'cheap copies interleaved', 'cheap copy trained', 'cheap mutation', 'decomposition', 'without ESP', 'recurrent decomposition', 'peepholes', 'slices', 'forgetful',
          'decomposition of a copy', 'unpickled decomposition', 'silenced neuron', 'part copied', 'part of a part']
ASSUMPTIONS = ['what a network computes from given parameters is judged elsewhere (P01, P02)', 'wrapping draws new random parameters, as the code has it',
               'cheap copies share their buffers and derivatives, as they are documented to share the structure']


def mask_state(c, m, pc, key):
    k = np.array(m.mask)
    n = len(pc.params)
    on = int(k.sum())
    c.ok(k.dtype == bool and k.shape == (n,), key + ': mask')
    c.close(pc.params, np.where(k, m.maskableParams, 0), key + ': masked values', 0)
    c.ok(1 <= on <= max(1, m.maxComplexity), key + ': complexity', lambda: '%d on, %d allowed' % (on, m.maxComplexity))
    want = np.array(pc.params) if m.returnZeros else np.array(pc.params)[k]
    c.close(m.params, want, key + ': values', 0)
    c.eq(m.paramdim, len(want), key + ': number')
    return k, np.array(m.maskableParams)


def k_mask(c):
    seed(c.seed)
    n = c.r.choice([1, 2, 5, 12])
    pc = ParameterContainer(n)
    kw = {}
    if c.r.random() < .5:
        kw['maxComplexity'] = c.r.randint(1, n)
        c.ev('complexity limited')
    kw['maskOnProbability'] = c.r.choice([0., .3, .5, 1.])
    kw['returnZeros'] = c.r.random() < .5
    m = MaskedParameters(pc, **kw)
    c.ok(m.pcontainer is pc, 'mask: other container')
    m.maskFlipProbability = c.r.choice([.05, .3, 1.])
    c.ev('zeros included' if m.returnZeros else 'zeros left out')
    k, v = mask_state(c, m, pc, 'new')
    hist = []
    for _ in range(c.r.randint(3, 12)):
        op = c.r.choice(['set', 'set', 'same', 'flip', 'flip', 'mutate', 'randomize', 'copy', 'switch', 'short'])
        hist.append(op)
        if op == 'set' or op == 'short':
            d = k.sum() if op == 'short' else m.paramdim
            x = c.np.normal(0, 1, d)
            m._setParameters(x)
            want = v.copy()
            want[k] = x[k] if len(x) == n and m.returnZeros else x
            k2, v2 = mask_state(c, m, pc, op)
            c.ok(np.array_equal(k, k2), 'set: mask changed')
            c.close(v2, want, 'set: values', 0, '%s of %d' % (k, d))
            v = v2
        elif op == 'same':
            m._setParameters(np.array(m.params))
            k2, v2 = mask_state(c, m, pc, op)
            c.ok(np.array_equal(k, k2) and np.array_equal(v, v2), 'set: setting the values as they are changes them', lambda: '%s: %s to %s' % (k, v, v2))
        elif op == 'flip':
            m.topologyMutate()
            k2, v2 = mask_state(c, m, pc, op)
            c.close(v2, v, 'flip: values forgotten', 0)
            if m.maskFlipProbability == 1. and n - k.sum() <= m.maxComplexity and k.sum() < n:
                c.ok(np.array_equal(k2, ~k), 'flip: not all', lambda: '%s to %s' % (k, k2))
            if (k2 & ~k).any():
                c.ev('hidden values kept')
            if (k2 != k).any():
                c.ev('mask flipped')
            k = k2
        elif op == 'mutate':
            m.mutate()
            k2, v2 = mask_state(c, m, pc, op)
            c.ok(np.array_equal(k, k2), 'mutate: mask changed')
            c.ok((v2 != v).all() and np.abs(v2 - v).max() < 6 * m.mutationStdev, 'mutate: values', lambda: '%s to %s' % (v, v2))
            v = v2
        elif op == 'randomize':
            m.randomize()
            k, v = mask_state(c, m, pc, op)
            if kw['maskOnProbability'] in (0., 1.):
                c.eq(int(k.sum()), 1 if not kw['maskOnProbability'] else min(n, m.maxComplexity), 'randomize: number on')
        elif op == 'copy':
            q = c.r.choice([m.copy, m.newSimilarInstance])()
            same = np.array_equal(q.maskableParams, v)
            mask_state(c, q, q.pcontainer, 'copy')
            c.ok(q.pcontainer is not pc, 'copy: shares the container')
            q.mutate(), q.topologyMutate(), q.randomize()
            k2, v2 = mask_state(c, m, pc, 'copied')
            c.ok(np.array_equal(k, k2) and np.array_equal(v, v2), 'copy: original changed')
            c.ev('mask copied')
            if same and c.r.random() < .5:
                m = q
                pc = q.pcontainer
                k, v = mask_state(c, m, pc, 'copy')
        else:
            m.returnZeros = not m.returnZeros
            mask_state(c, m, pc, op)
    c.ev('mask')
    c.sig(n, tuple(sorted(kw)), tuple(hist))
    c.sample('%d parameters, %s, %s' % (n, kw, hist))


def k_maskstat(c):
    seed(c.seed)
    n, p, f = 30, c.r.choice([.2, .5, .8]), c.r.choice([.05, .3])
    N = 120
    m = MaskedParameters(ParameterContainer(n), maskOnProbability=p)
    m.maskFlipProbability = f
    on = np.zeros(n)
    fl = np.zeros(n)
    for _ in range(N):
        m.randomize()
        on += m.mask
        k = np.array(m.mask)
        m.topologyMutate()
        fl += m.mask != k
    for what, A, q in (('random', on, p), ('flips', fl, f)):
        tot = A.sum() / (N * n)
        c.ok(abs(tot - q) < 5 * math.sqrt(q * (1 - q) / (N * n)), 'mask: ' + what, lambda: '%g of %g' % (tot, q))
        c.ok((np.abs(A / N - q) < 6 * math.sqrt(q * (1 - q) / N)).all(), 'mask: %s at some positions' % what)
    mx = c.r.randint(2, 10)
    q = MaskedParameters(ParameterContainer(n), maskOnProbability=.9, maxComplexity=mx)
    on = np.zeros(n)
    for _ in range(N):
        q.randomize()
        c.eq(int(q.mask.sum()), mx, 'mask: limited')
        on += q.mask
    e = mx / float(n)
    c.ok((np.abs(on / N - e) < 6 * math.sqrt(e * (1 - e) / N)).all(), 'mask: limited at some positions')
    c.ev('mask frequencies')
    c.sig(p, f, mx)


def k_maskmodule(c):
    seed(c.seed)
    rec = c.r.random() < .5
    net = buildNetwork(c.r.randint(1, 3), c.r.randint(1, 3), c.r.randint(1, 2), bias=c.r.random() < .5, recurrent=rec, **({'hiddenclass': LSTMLayer} if rec and c.r.random() < .4 else {}))
    ref = net.copy()
    m = MaskedModule(net, returnZeros=c.r.random() < .5)
    for ep in range(3):
        X = c.np.normal(0, 1, (c.r.randint(1, 5), net.indim))
        E = c.np.normal(0, 1, (len(X), net.outdim))
        ref._setParameters(np.where(m.mask, m.maskableParams, 0))
        m.reset(), ref.reset()
        net.resetDerivatives(), ref.resetDerivatives()
        if not rec:
            for x, e in zip(X, E):
                c.close(m.activate(x), ref.activate(x), 'masked module: output', 1e-12)
                c.close(m.backActivate(e), ref.backActivate(e), 'masked module: error', 1e-12)
        else:
            for x in X:
                c.close(m.activate(x), ref.activate(x), 'masked module: output', 1e-12)
            for e in reversed(E):
                c.close(m.backActivate(e), ref.backActivate(e), 'masked module: error', 1e-12)
            c.ev('masked sequence')
        c.close(net.derivs, ref.derivs, 'masked module: derivatives', 1e-12)
        c.r.choice([m.mutate, m.topologyMutate, m.randomize, lambda: m._setParameters(c.np.normal(0, 1, m.paramdim))])()
    c.ev('masked module')
    c.sig(rec, net.paramdim)


def k_cheap(c):
    seed(c.seed)
    rec = c.r.random() < .4
    net = buildNetwork(c.r.randint(1, 3), c.r.randint(1, 4), c.r.randint(1, 2), recurrent=rec)
    ref = net.copy()
    first = CheaplyCopiable(net)
    pop = [(first, np.array(net.params))]
    c.eq((first.indim, first.outdim, first.paramdim), (net.indim, net.outdim, net.paramdim), 'cheap copy: sizes')
    hist = []
    for _ in range(c.r.randint(4, 14)):
        i = c.r.randrange(len(pop))
        m, p = pop[i]
        op = c.r.choice(['copy', 'copy', 'run', 'run', 'run', 'set', 'write', 'mutate', 'randomize', 'similar', 'base', 'train'])
        hist.append(op)
        if op == 'copy':
            q = m.copy()
            c.ok(q is not m, 'cheap copy: itself')
            pop.append((q, p.copy()))
            c.ev('cheap copy')
        elif op == 'similar':
            q = m.newSimilarInstance()
            c.ok((np.array(q.params) != p).any(), 'cheap copy: similar instance the same')
            pop.append((q, np.array(q.params)))
        elif op == 'set':
            x = c.np.normal(0, 1, m.paramdim)
            m._setParameters(x.copy())
            pop[i] = (m, x)
        elif op == 'write':
            p = p.copy()
            p[-1] = 7
            m.params[-1] = 7
            pop[i] = (m, p)
        elif op in ('mutate', 'randomize'):
            getattr(m, op)()
            x = np.array(m.params)
            c.ok((x != p).any() and (op != 'mutate' or np.abs(x - p).max() < 6 * m.mutationStd), 'cheap copy: ' + op)
            pop[i] = (m, x)
            c.ev('cheap mutation')
        elif op == 'base':
            c.close(m.getBase().params, p, 'cheap copy: base', 0)
        elif op == 'train' and not rec:
            d = SupervisedDataSet(net.indim, net.outdim)
            for _ in range(3):
                d.addSample(c.np.normal(0, 1, net.indim), c.np.normal(0, 1, net.outdim))
            ref._setParameters(p.copy())
            ref.resetDerivatives()
            for z in (m, ref):
                seed(c.seed + len(hist))
                BackpropTrainer(z, d, learningrate=.1, batchlearning=True).train()
            c.close(m.params, ref.params, 'cheap copy: trained', 1e-9)
            pop[i] = (m, np.array(ref.params))
            c.ev('cheap copy trained')
        elif op == 'run':
            m, p = pop[i]
            ref._setParameters(p.copy())
            ref.reset(), m.reset()
            ref.resetDerivatives(), m.resetDerivatives()
            X = c.np.normal(0, 1, (c.r.randint(1, 3), net.indim))
            for x in X:
                c.close(m.activate(x), ref.activate(x), 'cheap copy: output', 1e-12, str(hist))
                if not rec and len(pop) > 1:
                    # another one in between
                    c.r.choice(pop)[0].activate(c.np.normal(0, 1, net.indim))
                    c.close(m.activate(x), ref.activate(x), 'cheap copy: output', 1e-12, str(hist))
                    c.ev('cheap copies interleaved')
            if not rec:
                X = X[-1:]
            for x in X:
                e = c.np.normal(0, 1, net.outdim)
                if len(pop) > 1 and c.r.random() < .5:
                    # another one's parameters are written into the structure, which was last run with these
                    other = c.r.choice(pop)[0]
                    c.r.choice([other.getBase, other.copy])()
                    c.ev('other written in between')
                if c.r.random() < .5 or rec:
                    c.close(m.backActivate(e), ref.backActivate(e), 'cheap copy: error', 1e-12)
                else:
                    base = m.getBase()
                    base.outputerror[0] = e
                    ref.outputerror[0] = e
                    if len(pop) > 1:
                        c.r.choice(pop)[0].getBase()
                    m.backward(), ref.backward()
                    c.close(m.inputerror[0], ref.inputerror[0], 'cheap copy: error backward', 1e-12)
                    c.ev('backward')
            c.close(m.derivs, ref.derivs, 'cheap copy: derivatives', 1e-12)
        for m, p in pop:
            c.close(m.params, p, 'cheap copy: parameters', 0, str(hist))
        if c.violations:
            return
    c.sig(rec, net.paramdim, tuple(hist))
    c.sample(str(hist))


def random_net(c, rec):
    """(network, sliced) of neurons and full connections"""
    sliced = c.r.random() < .4
    if not sliced:
        lstm = rec and c.r.random() < .5
        kw = dict(hiddenclass=LSTMLayer, peepholes=c.r.random() < .6) if lstm else dict(hiddenclass=c.r.choice([TanhLayer, SigmoidLayer, LinearLayer]))
        return buildNetwork(c.r.randint(1, 3), c.r.randint(1, 4), c.r.randint(1, 3), bias=c.r.random() < .6, outputbias=c.r.random() < .5, recurrent=rec, **kw), False
    forget = rec and c.r.random() < .4
    n = RecurrentNetwork(forget=forget) if rec else FeedForwardNetwork()
    a, h, g, o = LinearLayer(3, name='a'), TanhLayer(3, name='h'), SigmoidLayer(2, name='g'), LinearLayer(2, name='o')
    n.addInputModule(a)
    n.addModule(h), n.addModule(g)
    n.addOutputModule(o)
    n.addConnection(FullConnection(a, h, inSliceFrom=1, outSliceTo=2, name='1'))
    n.addConnection(FullConnection(a, h, inSliceTo=1, outSliceFrom=1, name='2'))
    n.addConnection(FullConnection(h, g, inSliceFrom=c.r.randint(0, 2), name='3'))
    n.addConnection(FullConnection(g, o, outSliceFrom=1, name='4'))
    n.addConnection(FullConnection(h, o, inSliceFrom=1, inSliceTo=2, name='5'))
    if rec:
        n.addRecurrentConnection(FullConnection(h, h, outSliceTo=1, name='6'))
        n.addRecurrentConnection(FullConnection(o, g, outSliceFrom=1, name='7'))
    if forget:
        c.ev('forgetful')
    if c.r.random() < .4:
        q = c.r.choice([LinearLayer, SigmoidLayer])(c.r.randint(1, 2), name='q')
        n.addOutputModule(q)
        n.addConnection(FullConnection(h, q, name='8'))
        n.addConnection(FullConnection(g, q, name='9'))
        c.ev('two output modules')
    n.sortModules()
    c.ev('slices')
    return n, True


def run(n, X):
    n.reset()
    return [np.array(n.activate(x)) for x in X]


def k_decompose(c):
    seed(c.seed)
    rec = c.r.random() < .5
    n, sliced = random_net(c, rec)
    X = c.np.normal(0, 1, (4, n.indim))
    Y, P, name = run(n, X), np.array(n.params), n.name
    d = NeuronDecomposableNetwork.convertNormalNetwork(n)
    if c.r.random() < .3:
        d.espStyleDecomposition = False
        d.sorted = False
        d.sortModules()
        c.ev('without ESP')
    esp = d.espStyleDecomposition
    what = '%s%s' % ('recurrent' if rec else 'feedforward', ', sliced' if sliced else '')
    c.close(run(d, X), Y, 'decomposition: other function', 1e-12, what)
    c.close(np.sort(d.params), np.sort(P), 'decomposition: other parameters', 0)
    c.eq((d.name, d.indim, d.outdim, d.paramdim), (name, n.indim, n.outdim, n.paramdim), 'decomposition: sizes')
    if rec:
        c.eq(d.forget, n.forget, 'decomposition: forgets', what)
    D = d.getDecomposition()
    c.eq(sum(map(len, D)), d.paramdim, 'decomposition: number of parameters')
    c.ok(all(len(x) for x in D), 'decomposition: neuron without parameters')
    c.close(np.sort(np.concatenate(D)), np.sort(d.params), 'decomposition: values', 0)
    old = np.array(d.params)
    for x in D:
        x *= 0
    c.close(d.params, old, 'decomposition: shares the parameters', 0)
    # every parameter has its place
    N = np.arange(d.paramdim) + 1.
    c.np.shuffle(N)
    it = iter(N)
    new = [np.array([next(it) for _ in x]) for x in D]
    d.setDecomposition(new)
    c.close(np.sort(d.params), np.sort(N), 'decomposition: parameters set', 0)
    for x, y in zip(d.getDecomposition(), new):
        c.close(x, y, 'decomposition: set and read again', 0)
    keep = np.array(d.params)
    # a neuron silenced by its parameters
    mods = list(d.modules)
    peep = any(isinstance(m, LSTMLayer) and m.peepholes for m in mods)
    silent = set()
    groups = []
    for i in range(len(new)):
        d._setParameters(c.np.normal(0, 1, d.paramdim))
        Z = d.getDecomposition()
        d.params[:] += 1e-9
        Z[i] = Z[i] * 0
        d.setDecomposition(Z)
        zero = set(np.where(np.array(d.params) == 0)[0])
        groups.append(zero)
        d.reset()
        for x in X:
            d.activate(x)
        t = -1 if not rec or getattr(d, 'forget', False) else d.offset - 1
        dead = []
        for m in mods:
            if m in d.inmodules or isinstance(m, BiasUnit):
                continue
            B = np.array(m.inputbuffer[:len(X)] if rec and not d.forget else m.inputbuffer[:1])
            for j in range(m.dim):
                cells = [j + q * m.dim for q in range(m.indim // m.dim)]
                if (B[:, cells] == 0).all():
                    dead.append((m.name, j))
                    if isinstance(m, LSTMLayer) and m.peepholes:
                        c.ok(all(m.params[j + q * m.dim] == 0 for q in range(3)), 'decomposition: peepholes of a neuron', what)
        silent.update(dead)
        outs = [x for x in dead if x[0] in [m.name for m in d.outmodules]]
        if esp and dead and not outs and not rec:
            # neither does it send anything: whatever it computes
            out = run(d, X)
            m = [m for m in mods if m.name == dead[0][0]][0]
            for con in d.connections[m]:
                if con.outmod in d.outmodules:
                    W = np.array(con.params).reshape(con.outdim, con.indim)
                    k = dead[0][1] - con.inSliceFrom
                    if 0 <= k < con.indim:
                        c.ok((W[:, k] == 0).all(), 'decomposition: what a neuron sends', what)
    c.ok(sum(map(len, groups)) == d.paramdim and len(set().union(*groups)) == d.paramdim, 'decomposition: parameters of several neurons', lambda: '%s' % groups)
    # the partition itself: weights into an output belong to the neuron that sends, the others to the one that receives
    d._setParameters(np.arange(d.paramdim) + 1.)
    owned = {}
    for con in [x for l in d.connections.values() for x in l] + list(getattr(d, 'recurrentConns', [])):
        W = np.array(con.params).reshape(con.outdim, con.indim)
        for i in range(con.outdim):
            for j in range(con.indim):
                if esp and con.outmod in d.outmodules:
                    key = con.inmod.name, (con.inSliceFrom + j) % con.inmod.dim
                else:
                    key = con.outmod.name, (con.outSliceFrom + i) % con.outmod.dim
                owned.setdefault(key, set()).add(int(W[i, j]) - 1)
    for m in mods:
        for i, w in enumerate(m.params if m.paramdim else []):
            owned.setdefault((m.name, i % m.dim), set()).add(int(w) - 1)
    c.eq(sorted(map(sorted, groups)), sorted(map(sorted, owned.values())), 'decomposition: parameters of each neuron', what)
    want = set()
    for m in mods:
        if m in d.inmodules or isinstance(m, BiasUnit):
            continue
        if esp and m in d.outmodules:
            continue
        want |= {(m.name, j) for j in range(m.dim)}
    # neurons nothing is connected to are always silent
    c.ok(want <= silent, 'decomposition: neuron not silenced', lambda: '%s: %s of %s' % (what, sorted(silent), sorted(want)))
    c.ev('silenced neuron')
    d._setParameters(keep)
    # a copy, and an unpickled one, have the same neurons in the same order
    for ev, q in (('decomposition of a copy', d.copy()), ('unpickled decomposition', pickle.loads(pickle.dumps(d)))):
        for x, y in zip(q.getDecomposition(), d.getDecomposition()):
            c.close(x, y, ev, 0, what)
        d._setParameters(c.np.normal(0, 1, d.paramdim))
        q.setDecomposition(d.getDecomposition())
        c.close(run(q, X), run(d, X), ev, 1e-12, what)
        q.setDecomposition([x * 0 for x in q.getDecomposition()])
        c.ok(np.abs(d.params).max() > 0, 'copy: changed the original')
        d._setParameters(keep)
        q._setParameters(keep.copy())
        c.ev(ev)
    if rec:
        c.ev('recurrent decomposition')
    if peep:
        c.ev('peepholes')
    c.ev('decomposition')
    c.sig(what, esp, d.paramdim, tuple(map(len, D)))
    c.sample('%s, %d neurons of %s parameters' % (what, len(D), list(map(len, D))))


def k_part(c):
    seed(c.seed)
    depth = c.r.choice([1, 1, 2])
    if depth == 2:
        c.ev('part of a part')
    rec = c.r.random() < .3
    inner = buildNetwork(2, c.r.randint(1, 3), 2, recurrent=rec, **({'hiddenclass': LSTMLayer} if rec and c.r.random() < .5 else {}))
    outer, levels = inner, [inner]
    for _ in range(depth):
        n = RecurrentNetwork() if rec else FeedForwardNetwork()
        a, o = LinearLayer(2), TanhLayer(2)
        n.addInputModule(a)
        n.addModule(outer)
        n.addOutputModule(o)
        n.addConnection(FullConnection(a, outer))
        n.addConnection(FullConnection(outer, o))
        n.sortModules()
        outer = n
        levels.append(n)
    part = c.r.choice(levels[:-1])
    X = c.np.normal(0, 1, (3, 2))
    Y = run(part, X)
    Z = run(outer, X)
    P = np.array(outer.params)
    how = c.r.choice(['copy', 'copy', 'deepcopy', 'pickle'])
    outer.reset()
    q = part.copy() if how == 'copy' else copy.deepcopy(part) if how == 'deepcopy' else pickle.loads(pickle.dumps(part))
    c.close(q.params, part.params, 'part: parameters', 0, how)
    c.close(run(q, X), Y, 'part: function', 1e-12, how)
    q.params[:] = q.params * .5 + .1
    part2 = np.array(q.params)
    c.close(outer.params, P, 'part: shared', 0, how)
    out = run(q, X)
    if how == 'copy':
        q._setParameters(np.array(part2) - .3)
        q._setParameters(np.array(part2))
        c.close(run(q, X), out, 'part: parameters set', 1e-12)
    # it computes with the parameters it shows
    w = part.params.copy()
    part.params[:] = part2
    c.close(run(part, X), out, 'part: computes with other parameters', 1e-12, how)
    c.close(q.params, part2, 'part: shared', 0, how)
    part.params[:] = w
    outer.resetDerivatives()
    q.reset()
    q.resetDerivatives()
    q.activate(X[0])
    q.backActivate([1., -1.])
    c.ok(np.abs(q.derivs).max() > 0 and (np.array(outer.derivs) == 0).all(), 'part: derivatives', how)
    c.close(run(outer, X), Z, 'part: the whole changed', 1e-12, how)
    r = np.array(q.params)
    q.randomize()
    c.ok((np.array(q.params) != r).any(), 'part: not randomized')
    c.close(outer.params, P, 'part: shared', 0, how)
    c.ev('part copied')
    c.sig(depth, rec, how, inner.paramdim)


KINDS = [
    ('masks', k_mask, 250, 6000),
    ('frequencies', k_maskstat, 4, 60),
    ('masked modules', k_maskmodule, 60, 1000),
    ('cheap copies', k_cheap, 120, 3000),
    ('decompositions', k_decompose, 120, 2500),
    ('parts', k_part, 80, 1500),
]
