"""P30: restricted Boltzmann machines and deep belief training."""
import itertools, math
import numpy as np
from pybrain.datasets import SupervisedDataSet, UnsupervisedDataSet
from pybrain.structure import LinearLayer, SigmoidLayer, TanhLayer, BiasUnit, FullConnection, FeedForwardNetwork
from pybrain.structure.networks.rbm import Rbm
from pybrain.tools.shortcuts import buildNetwork
from pybrain.unsupervised.trainers.rbm import RbmGibbsTrainer, RbmBernoulliTrainer, RbmGaussTrainer, RbmGibbsTrainerConfig
from pybrain.unsupervised.trainers.deepbelief import DeepBeliefTrainer
from vp.p12 import seed

RULE = ('a case builds a machine or a chain of layers, and trains it on random data while the sampled states are recorded, or runs it; non-trivial with at least two units; '
        'distinct by sizes, data, settings and trainer')
EXPECT = ['machine', 'inverse', 'given weights', 'from modules', 'epoch', 'bernoulli', 'gauss', 'supervised data', 'smaller batch', 'momentum switched', 'default settings', 'several epochs',
          'frequencies', 'learned', 'deep', 'deep: layers', 'deep: supervised', 'deep: again', 'deep: parameters set', 'refused']
ASSUMPTIONS = ['momentum starts anew with each batch, as the code has it', 'the order of the batches is free', 'random draws are judged within five standard deviations under fixed seeds']


def sig(x):
    return 1. / (1 + np.exp(-np.clip(x, -500, 500)))


def machine(c, nv, nh):
    how = c.r.choice(['dims', 'given', 'modules'])
    W, b = np.array(c.np.normal(0, 1, (nh, nv))), c.np.normal(0, 1, nh)
    if how == 'dims':
        m = Rbm.fromDims(nv, nh)
        W, b = np.array(m.params).reshape(nh, nv), np.array(m.biasParams)
    elif how == 'given':
        m = Rbm.fromDims(nv, nh, W.flatten(), b.copy())
        c.ev('given weights')
    else:
        named = c.r.random() < .5
        v, h, u = LinearLayer(nv, **({'name': 'visible'} if named else {})), SigmoidLayer(nh, **({'name': 'hidden'} if named else {})), BiasUnit()
        con, bc = FullConnection(v, h), FullConnection(u, h)
        con.params[:], bc.params[:] = W.flatten(), b
        m = Rbm.fromModules(v, h, u, con, bc)
        c.ev('from modules')
        c.ok(m.visible is v and m.hidden is h, 'machine: layers')
    return m, W, b


def k_machine(c):
    seed(c.seed)
    nv, nh = c.r.randint(1, 6), c.r.randint(1, 6)
    m, W, b = machine(c, nv, nh)
    c.eq((m.visibleDim, m.hiddenDim), (nv, nh), 'machine: dimensions')
    c.close(m.params, W.flatten(), 'machine: weights', 1e-12)
    c.close(m.biasParams, b, 'machine: biases', 1e-12)
    for _ in range(4):
        x = c.r.choice([c.np.normal(0, 2, nv), c.np.randint(0, 2, nv) * 1.])
        c.close(m.activate(x), sig(W.dot(x) + b), 'machine: hidden probabilities', 1e-9)
    c.ev('machine')
    i = m.invert()
    c.eq((i.visibleDim, i.hiddenDim), (nh, nv), 'inverse: dimensions')
    h = c.np.randint(0, 2, nh) * 1.
    c.close(i.activate(h), sig(W.T.dot(h) + i.biasParams), 'inverse: reconstruction', 1e-9, '%d visible, %d hidden' % (nv, nh))
    c.close(i.invert().params, W.flatten(), 'inverse: twice', 1e-12)
    i.params[:] = 0
    c.close(m.params, W.flatten(), 'inverse: shares weights', 1e-12)
    # changing its parameters changes the machine
    m.params[:] = np.arange(nv * nh)
    m.biasParams[:] = -1
    x = c.np.normal(0, 1, nv)
    c.close(m.activate(x), sig(np.arange(nv * nh).reshape(nh, nv).dot(x) - 1), 'machine: changed weights', 1e-9)
    c.ev('inverse')
    c.sig(nv, nh)


def config(c):
    k = RbmGibbsTrainerConfig()
    if c.r.random() < .3:
        c.ev('default settings')
        c.eq((k.batchSize, k.rWeights, k.rHidBias, k.rVisBias, k.weightCost, k.iniMm, k.finMm, k.mmSwitchIter, k.maxIter), (10, .1, .1, .1, .0002, .5, .9, 5, 9), 'settings')
        return k, c.r.random() < .5
    k.batchSize, k.maxIter, k.mmSwitchIter = c.r.randint(1, 7), c.r.randint(1, 8), c.r.randint(0, 6)
    k.rWeights, k.rHidBias, k.rVisBias = c.r.uniform(.01, .3), c.r.uniform(.01, .3), c.r.uniform(.01, .3)
    k.weightCost, k.iniMm, k.finMm = c.r.choice([0, .01, .1]), c.r.uniform(0, .9), c.r.uniform(0, .9)
    return k, False


def dataset(c, nv, n, binary):
    X = c.np.randint(0, 2, (n, nv)) * 1. if binary else c.np.normal(0, 1, (n, nv))
    if c.r.random() < .4:
        d = SupervisedDataSet(nv, 1)
        for x in X:
            d.addSample(x, [c.r.random()])
        c.ev('supervised data')
    else:
        d = UnsupervisedDataSet(nv)
        for x in X:
            d.addSample(x)
    return d, X


class Follow:
    """follows a trainer by the states it samples"""

    def __init__(self, T):
        class Recorded(T):
            def sampler(s, probabilities):
                p = np.array(probabilities, dtype=float)
                h = super(Recorded, s).sampler(probabilities)
                self.calls.append((p, np.array(h, dtype=float)))
                return h
        self.T, self.calls = Recorded, []


def replay(c, calls, X, W, b, vb, k, what):
    """one epoch of contrastive divergence over the recorded states; returns the parameters"""
    n, B = len(X), k.batchSize
    W, b, vb = W.copy(), b.copy(), vb.copy()
    left = list(range(0, n, B))
    pos = 0
    while left:
        if not c.ok(pos < len(calls), 'epoch: samples missed', lambda: '%s: %d states sampled, batches %s not seen' % (what, len(calls), left)):
            return None
        # which batch is it
        def fit(s):
            rows = X[s:s + B]
            if pos + len(rows) > len(calls):
                return float('inf')
            return max(np.abs(calls[pos + i][0] - sig(W.dot(r) + b)).max() for i, r in enumerate(rows))
        # a shorter batch may be the beginning of a longer one
        s = min(left, key=lambda s: (fit(s) > 1e-7, -len(X[s:s + B]), fit(s)))
        if not c.ok(fit(s) < 1e-7, 'epoch: hidden probabilities', lambda: '%s: none of the remaining batches has the probabilities %s' % (what, calls[pos][0])):
            return None
        rows = X[s:s + B]
        if any(o != s and fit(o) < 1e-7 and not np.array_equal(X[o:o + B], rows) for o in left):
            # saturated units do not tell which batch this is
            c.ev('ambiguous')
            return None
        left.remove(s)
        if len(rows) < B:
            c.ev('smaller batch')
        oW, ob, ov = 0., 0., 0.
        for t in range(k.maxIter):
            dW, db, dv = np.zeros_like(W), np.zeros_like(b), np.zeros_like(vb)
            for r in rows:
                if not c.ok(pos < len(calls), 'epoch: too few states sampled', what):
                    return None
                p, h = calls[pos]
                pos += 1
                if not c.close(p, sig(W.dot(r) + b), 'epoch: hidden probabilities', 1e-6, '%s: iteration %d' % (what, t)):
                    return None
                v = sig(W.T.dot(h) + vb)
                q = sig(W.dot(v) + b)
                dW += np.outer(p, r) - np.outer(q, v)
                db += p - q
                dv += r - v
            mm = k.iniMm if t < k.mmSwitchIter else k.finMm
            if 0 < k.mmSwitchIter <= t:
                c.ev('momentum switched')
            m = float(len(rows))
            oW = oW * mm + k.rWeights * (dW / m - k.weightCost * W)
            ob = ob * mm + k.rHidBias * db / m
            ov = ov * mm + k.rVisBias * dv / m
            W, b, vb = W + oW, b + ob, vb + ov
    if not c.eq(pos, len(calls), 'epoch: states sampled', what):
        return None
    return W, b, vb


def k_train(c):
    seed(c.seed)
    nv, nh, n = c.r.randint(1, 6), c.r.randint(1, 6), c.r.randint(1, 14)
    gauss = c.r.random() < .4
    d, X = dataset(c, nv, n, c.r.random() < .3)
    m, W, b = machine(c, nv, nh)
    k, none = config(c)
    f = Follow(RbmGaussTrainer if gauss else RbmBernoulliTrainer)
    t = f.T(m, d) if none else f.T(m, d, k)
    what = '%s, %d visible, %d hidden, %d samples, batches of %d' % ('gauss' if gauss else 'bernoulli', nv, nh, n, k.batchSize)
    vb = np.array(t.invRbm.biasParams)
    c.close(t.invRbm.params, W.T.flatten(), 'epoch: inverse at the start', 1e-12)
    for ep in range(c.r.choice([1, 1, 2, 4])):
        if ep:
            c.ev('several epochs')
        f.calls[:] = []
        t.train()
        z = replay(c, f.calls, X, W, b, vb, k, what)
        if z is None:
            return
        W, b, vb = z
        good = (c.close(m.params, W.flatten(), 'epoch: weights', 1e-6, what) and c.close(m.biasParams, b, 'epoch: hidden biases', 1e-6, what) and
                c.close(t.invRbm.biasParams, vb, 'epoch: visible biases', 1e-6, what) and c.close(t.invRbm.params, W.T.flatten(), 'epoch: inverse weights', 1e-6, what))
        if not good:
            return
        c.ev('epoch')
    c.close(d['input' if 'input' in d.getFieldNames() else 'sample'], X, 'epoch: data changed', 0)
    if not gauss:
        c.ok(all(set(h) <= {0., 1.} for _, h in f.calls), 'epoch: states')
    c.ev('gauss' if gauss else 'bernoulli')
    c.sig(gauss, nv, nh, n, k.batchSize, k.maxIter)
    c.sample(what)


def k_sampler(c):
    seed(c.seed)
    nh = c.r.randint(1, 6)
    d, X = dataset(c, 2, 2, True)
    m = Rbm.fromDims(2, nh)
    n = 1500
    p = c.np.uniform(0, 1, nh)
    p[0] = c.r.choice([0., 1., p[0]])
    S = np.array([RbmBernoulliTrainer(m, d).sampler(p) for _ in range(n)], dtype=float)
    sd = np.sqrt(p * (1 - p) / n)
    c.ok((np.abs(S.mean(0) - p) <= 5 * sd + 1e-12).all() and set(S.ravel()) <= {0., 1.}, 'sampler: bernoulli', lambda: '%s of %s' % (S.mean(0), p))
    if nh > 1:
        q = S[:, 0] * S[:, 1]
        pq = p[0] * p[1]
        c.ok(abs(q.mean() - pq) <= 5 * math.sqrt(pq * (1 - pq) / n) + 1e-12, 'sampler: dependent units')
    S = np.array([RbmGaussTrainer(m, d).sampler(p) for _ in range(n)], dtype=float)
    c.ok(np.abs(S.mean(0) - p).max() <= 5 / math.sqrt(n) and np.abs(S.var(0) - 1).max() <= 5 * math.sqrt(2. / n), 'sampler: gauss')
    c.ev('frequencies')
    c.sig(nh, c.seed % 1000)


def loglik(X, W, b, vb):
    """exact, by enumeration of the visible states"""
    V = np.array(list(itertools.product([0., 1.], repeat=len(vb))))
    F = lambda v: v.dot(vb) + np.logaddexp(0, v.dot(W.T) + b).sum(-1)
    f = F(V)
    return float(np.mean(F(X)) - f.max() - np.log(np.exp(f - f.max()).sum()))


def k_learn(c):
    seed(c.seed)
    nv = c.r.randint(4, 7)
    base = c.np.randint(0, 2, (2, nv)) * 1.
    base[1] = 1 - base[0]
    X = base[c.np.randint(0, 2, 20)]
    d = UnsupervisedDataSet(nv)
    for x in X:
        d.addSample(x)
    m = Rbm.fromDims(nv, 3)
    m.params[:] *= .1
    m.biasParams[:] *= .1
    k = RbmGibbsTrainerConfig()
    k.maxIter = 1
    t = RbmBernoulliTrainer(m, d, k)
    a = loglik(X, np.array(m.params).reshape(3, nv), np.array(m.biasParams), np.array(t.invRbm.biasParams))
    for _ in range(150):
        t.train()
    z = loglik(X, np.array(m.params).reshape(3, nv), np.array(m.biasParams), np.array(t.invRbm.biasParams))
    c.ok(z > a and z > -.8 * nv * math.log(2), 'learning', lambda: 'log likelihood %g at the start, %g after 150 epochs, %g for independent units' % (a, z, -nv * math.log(2)))
    c.ev('learned')
    c.sig(nv, c.seed % 1000)
    c.sample('log likelihood %.3g to %.3g' % (a, z))


def k_deep(c):
    seed(c.seed)
    dims = [c.r.randint(1, 5) for _ in range(c.r.randint(2, 4))]
    if c.r.random() < .5:
        net = buildNetwork(*dims, bias=True, hiddenclass=SigmoidLayer, outclass=SigmoidLayer)
        L = [net['in']] + [net['hidden%d' % i if len(dims) > 3 or i else 'hidden0'] for i in range(len(dims) - 2)] + [net['out']]
        bias = net['bias']
    else:
        net = FeedForwardNetwork()
        L = [LinearLayer(dims[0])] + [SigmoidLayer(n) for n in dims[1:]]
        bias = BiasUnit()
        net.addInputModule(L[0])
        for l in [bias] + L[1:-1]:
            net.addModule(l)
        net.addOutputModule(L[-1])
        cons = [FullConnection(x, y) for x, y in zip(L, L[1:])] + [FullConnection(bias, l) for l in L[1:]]
        c.r.shuffle(cons)
        for x in cons:
            net.addConnection(x)
        net.sortModules()
    con = [[x for x in net.connections[l]][0] for l in L[:-1]]
    bc = [[x for x in net.connections[bias] if x.outmod is l][0] for l in L[1:]]
    d, X = dataset(c, dims[0], c.r.randint(1, 9), c.r.random() < .5)
    if isinstance(d, SupervisedDataSet):
        c.ev('deep: supervised')
    gauss = c.r.random() < .3
    k, none = config(c)
    epochs = c.r.choice([1, 2, 3])
    f = Follow(RbmGaussTrainer if gauss else RbmBernoulliTrainer)
    name = 'gauss' if gauss else 'bernoulli'
    what = 'layers %s, %s, %d samples, %d epochs' % (dims, name, len(X), epochs)
    t = DeepBeliefTrainer(net, d, epochs, None if none else k, name)
    inits = []

    class Start(f.T):
        def __init__(s, rbm, *a, **kw):
            f.T.__init__(s, rbm, *a, **kw)
            inits.append((len(f.calls), np.array(s.invRbm.biasParams), s.rbm))
    t.trainers = {name: Start}
    t.trainerKlass = Start
    for again in range(c.r.choice([1, 1, 2])):
        if again:
            c.ev('deep: again')
        f.calls[:], inits[:] = [], []
        W = [np.array(x.params).reshape(x.outdim, x.indim) for x in con]
        b = [np.array(x.params) for x in bc]
        t.train()
        if not c.eq(len(inits), len(dims) - 1, 'deep: machines trained', what):
            return
        Y = X
        for j in range(len(dims) - 1):
            calls = f.calls[inits[j][0]:inits[j + 1][0] if j + 2 < len(dims) else None]
            per = len(calls) // epochs
            vb = inits[j][1]
            for e in range(epochs):
                z = replay(c, calls[e * per:(e + 1) * per if e + 1 < epochs else None], Y, W[j], b[j], vb, k, '%s, layer %d' % (what, j))
                if z is None:
                    return
                W[j], b[j], vb = z
            if not (c.close(con[j].params, W[j].flatten(), 'deep: weights', 1e-6, what) and c.close(bc[j].params, b[j], 'deep: biases', 1e-6, what)):
                return
            c.close(t.rbms[j].params, W[j].flatten(), 'deep: machines kept', 1e-6, what)
            c.close(t.invRbms[j].params, W[j].T.flatten(), 'deep: inverses kept', 1e-6, what)
            c.close(t.invRbms[j].biasParams, vb, 'deep: inverse biases kept', 1e-6, what)
            Y = sig(Y.dot(W[j].T) + b[j])
            c.ev('deep: layers')
        c.eq((len(t.rbms), len(t.invRbms)), (len(dims) - 1,) * 2, 'deep: number of machines')
        for x, y in zip(X, Y):
            c.close(net.activate(x), y, 'deep: network', 1e-6, what)
    # the parameters of the network are still its own
    c.close(np.sort(net.params), np.sort(np.concatenate([x.params for x in con + bc])), 'deep: parameters of the network', 0, what)
    net._setParameters(np.zeros(net.paramdim))
    c.close(net.activate(X[0]), .5 * np.ones(dims[-1]), 'deep: parameters set', 1e-12, what)
    net.params[:] = c.np.normal(0, 1, net.paramdim)
    y = X[0]
    for j in range(len(con)):
        y = sig(con[j].params.reshape(dims[j + 1], dims[j]).dot(y) + bc[j].params)
    c.close(net.activate(X[0]), y, 'deep: parameters set', 1e-9, what)
    c.ev('deep: parameters set')
    c.close(d['input' if 'input' in d.getFieldNames() else 'sample'], X, 'deep: data changed', 0)
    c.ev('deep')
    c.sig(tuple(dims), gauss, len(X), epochs)
    c.sample(what)


def k_refuse(c):
    from pybrain.datasets.dataset import DataSet
    net = buildNetwork(2, 2, 1)
    c.raises(ValueError, lambda: DeepBeliefTrainer(net, DataSet()), 'refused: dataset')
    m = Rbm.fromDims(2, 2)
    c.raises(NotImplementedError, lambda: RbmGibbsTrainer(m, UnsupervisedDataSet(2)).sampler(np.zeros(2)), 'refused: sampler')
    c.raises(KeyError, lambda: DeepBeliefTrainer(net, UnsupervisedDataSet(2), distribution='cauchy'), 'refused: distribution')
    c.ev('refused')
    c.sig(1)


KINDS = [
    ('machines', k_machine, 80, 1000),
    ('epochs', k_train, 200, 6000),
    ('samplers', k_sampler, 10, 150),
    ('learning', k_learn, 5, 100),
    ('deep belief', k_deep, 80, 3000),
    ('refusals', k_refuse, 1, 1),
]
