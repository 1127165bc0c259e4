"""P03: backpropagated errors and derivatives are the exact gradient of a feedforward network."""
import numpy as np
from pybrain.structure import FeedForwardNetwork, LinearLayer, FullConnection, BiasUnit
from pybrain.structure.modules.mixturedensity import MixtureDensityLayer
from pybrain.supervised.trainers.mixturedensity import BackpropTrainerMix
from pybrain.tools.shortcuts import buildNetwork
from pybrain.datasets import SupervisedDataSet
from vp.core import rnd_vec, Unchanged
from vp import refnet

RULE = ('a case builds one random acyclic network (as for P01, without inner softmax layers), presents one to four '
        'input/output-error pairs and compares the error returned for the input and the derivatives accumulated in every '
        'part with complex-step derivatives of the independent evaluator; non-trivial when it has parameters; distinct by '
        'structure')
EXPECT = ['wide', 'backward passes', 'derivatives compared', 'softmax outputs', 'nested networks', 'shared connections',
          'mixture densities', 'accumulated passes', 'mdlstm', 'derivative resets', 'finite differences']
ASSUMPTIONS = ['a softmax output layer passes the output error through unchanged (cross entropy convention); '
               'softmax layers inside a network are outside the property']
KINDS_ = [('linear', 2), ('sigmoid', 3), ('tanh', 3), ('softsign', 1), ('relu', 1), ('gate', 1), ('doublegate', 1),
          ('mult', 1), ('switch', 1)]
# (subsampling connections declare that they have no backward pass)
CONNS = [('full', 8), ('identity', 1.5), ('linear', 1.5), ('notself', 1), ('perm', 1.5)]


def setrandom(c, parts, scale=(1, .5, 2)):
    for v in parts.values():
        v.params[:] = rnd_vec(c, len(v.params), c.r.choice(scale))


def k_wide(c):
    k_net(c, spec=refnet.pair_spec(c.r, [('full', 1), ('identity', 1), ('linear', 1), ('notself', 1), ('perm', 3)], top=8))
    c.ev('wide')


def k_net(c, nested=.1, spec=None, **kw):
    r = c.r
    spec = spec or refnet.random_spec(r, kinds=KINDS_, conns=CONNS, nested=nested, maxmods=4, **kw)
    net, parts, mods, cons = refnet.build(spec, r)
    setrandom(c, parts)
    net._setParameters(np.array(net.params)) if r.random() < .3 and parts else None
    P = refnet.snapshot(parts)
    if parts:
        net.resetDerivatives()
    total = {k: np.zeros(len(v)) for k, v in P.items()}
    passes = r.choice([1, 1, 2, 4])
    for n in range(passes):
        x, e = rnd_vec(c, spec.indim, r.choice([1, 2])), rnd_vec(c, spec.outdim)
        out = net.activate(x)
        if r.random() < .3:
            net.activate(rnd_vec(c, spec.indim))
            net.activate(x)
        u = Unchanged(err=e, **({'params': np.array(net.params)} if parts else {}))
        ie = net.backActivate(e)
        u.verify(c, 'output error modified')
        dP, dX = refnet.sensitivities(spec, P, [x], lambda o: np.dot(o[0], e))
        c.close(ie, dX[0], 'input error', 1e-7, str(spec.describe()))
        c.close(net.activate(x), out, 'activation changed by the backward pass', 1e-12)
        for k in total:
            total[k] += dP[k]
        c.ev('backward passes')
        if n:
            c.ev('accumulated passes')
    if parts:
        for k in P:
            c.close(parts[k].params, P[k], 'parameters changed by the backward pass', 0)
        refnet.check_derivs(c, net, parts, total, 'derivatives', 1e-7, str(spec.describe()))
        c.ev('derivatives compared', net.paramdim)
        net.resetDerivatives()
        c.ok(not np.any(net.derivs), 'resetDerivatives')
        for k, v in parts.items():
            c.ok(not np.any(v.derivs), 'resetDerivatives', k)
        c.ev('derivative resets')
        # and once more, after the parameters moved
        net.params[:] = rnd_vec(c, net.paramdim)
        P = refnet.snapshot(parts)
        x, e = rnd_vec(c, spec.indim), rnd_vec(c, spec.outdim)
        net.activate(x)
        ie = net.backActivate(e)
        dP, dX = refnet.sensitivities(spec, P, [x], lambda o: np.dot(o[0], e))
        c.close(ie, dX[0], 'input error', 1e-7)
        refnet.check_derivs(c, net, parts, dP, 'derivatives after reset', 1e-7, str(spec.describe()))
        if len(parts) > 1:
            c.sig(spec.signature())
    for k, n in (('net', 'nested networks'), ('mdlstm', 'mdlstm')):
        if any(m.kind == k for m in spec.mods):
            c.ev(n)
    if any(x.mother for x in spec.cons):
        c.ev('shared connections')
    c.sample(spec.describe())


def k_nested(c):
    k_net(c, nested=.7)


def k_mdlstm(c):
    k_net(c, nested=0, mdlstm=True)


def k_softmax(c):
    """Softmax output with target minus output as the error: gradient of the cross entropy."""
    r = c.r
    spec = refnet.random_spec(r, kinds=KINDS_, conns=CONNS, maxmods=3, outkinds=[('softmax', 1)], multi_io=False)
    net, parts, mods, cons = refnet.build(spec, r)
    setrandom(c, parts, (.5, 1))
    if not parts:
        return
    P = refnet.snapshot(parts)
    x = rnd_vec(c, spec.indim)
    t = np.abs(rnd_vec(c, spec.outdim)) + 1e-3
    if r.random() < .5:
        t = np.zeros(spec.outdim)
        t[r.randrange(spec.outdim)] = 1.
    t /= sum(t)
    net.resetDerivatives()
    out = net.activate(x)
    ie = net.backActivate(t - out)
    dP, dX = refnet.sensitivities(spec, P, [x], lambda o: np.sum(t * np.log(o[0])))
    c.close(ie, dX[0], 'softmax/input error', 1e-6, str(spec.describe()))
    refnet.check_derivs(c, net, parts, dP, 'softmax/derivatives', 1e-6, str(spec.describe()))
    c.ev('softmax outputs')
    c.ev('backward passes')
    c.sig(spec.signature())
    c.sample(spec.describe())


def k_mixture(c):
    """Mixture density networks: one step of the trainer follows the gradient of the log likelihood."""
    r = c.r
    nd, K = r.randint(1, 3), r.randint(1, 3)
    nin, nh = r.randint(1, 3), r.randint(1, 3)
    net = FeedForwardNetwork()
    i, h, o, b = LinearLayer(nin, name='i'), refnet.CLASSES[r.choice(['tanh', 'sigmoid'])](nh, name='h'), \
        MixtureDensityLayer(nd, name='out', mix=K), BiasUnit(name='b')
    net.addInputModule(i)
    net.addModule(h)
    net.addModule(b)
    net.addOutputModule(o)
    for a, d in ((i, h), (b, h), (h, o), (b, o)):
        net.addConnection(FullConnection(a, d))
    net.sortModules()
    net.params[:] = rnd_vec(c, net.paramdim, .5)
    rows = [(rnd_vec(c, nin), rnd_vec(c, nd)) for _ in range(r.randint(1, 3))]
    ds = SupervisedDataSet(nin, nd)
    for x, t in rows:
        ds.addSample(x, t)

    def nll(p):
        old = np.array(net.params)
        net.params[:] = p
        e = 0.
        for x, t in rows:
            y = net.activate(x)
            # reference read out of the raw output activations
            z = np.array(o.inputbuffer[0])
            w = np.exp(z[:K] - max(z[:K]))
            w /= sum(w)
            s = np.exp(z[K:2 * K])
            m = z[2 * K:].reshape(K, nd)
            c.close(y, np.concatenate([w, s, m.flatten()]), 'mixture/layer', 1e-9)
            dens = [w[k] * np.exp(-.5 * np.sum((t - m[k]) ** 2) / s[k] ** 2) / (2 * np.pi * s[k] ** 2) ** (nd / 2.)
                    for k in range(K)]
            e -= np.log(sum(dens))
        net.params[:] = old
        return e

    p0 = np.array(net.params)
    g = np.zeros(len(p0))
    for j in range(len(p0)):
        d = np.zeros(len(p0))
        d[j] = 1e-4
        g[j] = (8 * (nll(p0 + d) - nll(p0 - d)) - (nll(p0 + 2 * d) - nll(p0 - 2 * d))) / (12 * 1e-4)
        c.ev('finite differences')
    eta = 1e-3
    tr = BackpropTrainerMix(net, ds, learningrate=eta, momentum=0., batchlearning=True)
    e0 = nll(p0)
    err = tr.train()
    c.close(err * len(rows), e0, 'mixture/error', 1e-9)
    c.close((np.array(net.params) - p0) / eta, -g, 'mixture/gradient', 2e-5, 'dim %d mix %d' % (nd, K))
    c.ev('mixture densities')
    c.sig(nd, K, nin, nh)
    c.sample({'dimensions': nd, 'gaussians': K})


KINDS = [('net', k_net, 160, 6000), ('nested', k_nested, 50, 1500), ('mdlstm', k_mdlstm, 60, 2000), ('wide', k_wide, 100, 3000),
         ('softmax', k_softmax, 80, 2500), ('mixture', k_mixture, 50, 1500)]
