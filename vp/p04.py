"""P04: backpropagation through time yields the exact gradient of a sequence."""
import numpy as np
from pybrain.structure import LSTMLayer, RecurrentNetwork
from pybrain.tools.shortcuts import buildNetwork
from vp.core import rnd_vec, Unchanged
from vp import refnet
from vp.p02 import setrandom

RULE = ('a case builds one random recurrent network with delayed connections, LSTM cells with and without peepholes, '
        'multi-dimensional LSTM cells and nested feedforward networks, runs one to three sequences of different length '
        'forward and then backward with random output errors, and compares the error returned for every input and the '
        'accumulated derivatives with complex-step derivatives of the whole unrolled sequence; non-trivial when a delayed '
        'connection or a stateful layer is present and the sequence is longer than one step; distinct by structure')
EXPECT = ['steps backward', 'derivatives compared', 'lstm', 'peepholes', 'mdlstm', 'delayed connections',
          'accumulated sequences', 'shorter after longer', 'nested networks', 'batched derivatives']
ASSUMPTIONS = ['softmax layers are outside the property (they pass errors through unchanged)']
STABLE = [('linear', 1), ('sigmoid', 3), ('tanh', 3), ('softsign', 1), ('gate', .7), ('switch', .7), ('mult', .5),
          ('doublegate', .5)]
CONNS = [('full', 8), ('identity', 1.5), ('linear', 1.5), ('notself', 1), ('perm', 1)]


def k_bptt(c, **kw):
    r = c.r
    kw.setdefault('lstm', .25)
    kw.setdefault('nested', .1)
    spec = refnet.random_spec(r, recurrent=True, kinds=STABLE, conns=CONNS, maxmods=3, **kw)
    net, parts, mods, cons = refnet.build(spec, r)
    setrandom(c, parts)
    for cc in spec.cons:
        if cc.rec and cc.nparams():
            parts[cc.mother or cc.name].params[:] *= .5
    P = refnet.snapshot(parts)
    total = {k: np.zeros(len(v)) for k, v in P.items()}
    if parts:
        net.resetDerivatives()
    last = None
    nseq = r.choice([1, 2, 3])
    for s in range(nseq):
        n = r.choice([1, 2, 3, 4, 5, 6])
        seq = [rnd_vec(c, spec.indim, r.choice([.5, 1, 2])) for _ in range(n)]
        errs = [rnd_vec(c, spec.outdim) * (r.random() < .8) for _ in range(n)]
        if r.random() < .5 or s:
            net.reset()
        exp = refnet.Ref(spec).run(P, seq)
        if not np.all(np.isfinite(exp)) or np.max(np.abs(exp)) > 1e5:
            c.ev('exploding sequences left out')
            net.reset()
            break
        for x, e in zip(seq, exp):
            c.close(net.activate(x), e, 'forward', 1e-7)
        dP, dX = refnet.sensitivities(spec, P, seq, lambda o: sum(np.dot(a, b) for a, b in zip(o, errs)))
        for t in reversed(range(n)):
            u = Unchanged(err=errs[t])
            ie = net.backActivate(errs[t])
            u.verify(c, 'output error modified')
            c.close(ie, dX[t], 'input error', 1e-6, 'step %d of %d, sequence %d of %s' % (t, n, s, spec.describe()))
            c.ev('steps backward')
        c.eq(net.offset, 0, 'offset after backward')
        for k in total:
            total[k] += dP[k]
        if s:
            c.ev('accumulated sequences')
            if n < last:
                c.ev('shorter after longer')
        last = n
        if parts and (r.random() < .5 or s == nseq - 1) and max(np.max(np.abs(v)) for v in total.values()) < 1e9:
            refnet.check_derivs(c, net, parts, total, 'derivatives', 1e-6, 'sequence %d (%d steps) of %s' % (s, n, spec.describe()))
            c.ev('derivatives compared', net.paramdim)
    c.close(np.concatenate([parts[k].params for k in sorted(parts)]) if parts else [],
            np.concatenate([P[k] for k in sorted(parts)]) if parts else [], 'parameters changed', 0)
    if parts:
        net.resetDerivatives()
        c.ok(not np.any(net.derivs), 'resetDerivatives')
    for m in spec.mods:
        if m.kind == 'lstm':
            c.ev('lstm')
            if m.peep:
                c.ev('peepholes')
        if m.kind == 'mdlstm':
            c.ev('mdlstm')
        if m.kind == 'net':
            c.ev('nested networks')
    c.ev('delayed connections', sum(1 for x in spec.cons if x.rec))
    c.sig(spec.signature())
    c.sample(spec.describe())


def k_lstm(c):
    k_bptt(c, lstm=.8, nested=0)


def k_mdlstm(c):
    k_bptt(c, lstm=0, nested=0, mdlstm=True)


def k_mdchain(c):
    """The intended use of MDLSTM cells: the state slice is fed back by a delayed identity connection."""
    r = c.r
    d = r.randint(1, 3)
    spec = refnet.Spec(True)
    a = refnet.Mod('a', 'linear', r.randint(1, 3))
    m = refnet.Mod('m', 'mdlstm', d, dims=1, peep=r.random() < .6)
    o = refnet.Mod('o', r.choice(['linear', 'tanh']), r.randint(1, 2))
    spec.mods, spec.ins, spec.outs = [a, m, o], [a], [o]
    spec.cons = [refnet.Con('c1', 'full', a, m, o1=4 * d, via='o'), refnet.Con('c2', 'full', m, o, i1=d, via='i'),
                 refnet.Con('c3', 'identity', m, m, i0=d, o0=4 * d, rec=True, via=r.choice(['', 'io'])),
                 refnet.Con('c4', 'full', m, m, i1=d, o1=4 * d, rec=True, via=r.choice(['', 'io']))]
    net, parts, mods, cons = refnet.build(spec, r)
    c.eq((mods['m'].meatSlice().indim, mods['m'].meatSlice().outdim, mods['m'].stateSlice().indim,
          mods['m'].stateSlice().outdim), (4 * d, d, d, d), 'mdlstm slices')
    setrandom(c, parts)
    P = refnet.snapshot(parts)
    net.resetDerivatives()
    n = r.randint(2, 7)
    seq = [rnd_vec(c, spec.indim) for _ in range(n)]
    errs = [rnd_vec(c, spec.outdim) for _ in range(n)]
    for x, e in zip(seq, refnet.Ref(spec).run(P, seq)):
        c.close(net.activate(x), e, 'forward', 1e-7)
    dP, dX = refnet.sensitivities(spec, P, seq, lambda o_: sum(np.dot(p, q) for p, q in zip(o_, errs)))
    for t in reversed(range(n)):
        c.close(net.backActivate(errs[t]), dX[t], 'mdlstm chain/input error', 1e-6)
        c.ev('steps backward')
    refnet.check_derivs(c, net, parts, dP, 'mdlstm chain/derivatives', 1e-6, str(spec.describe()))
    c.ev('mdlstm')
    c.sig(d, n, m.peep, o.kind)
    c.sample(spec.describe())


def k_buffers(c):
    """One long sequence: the buffers grow in the middle; then the whole is walked back."""
    r = c.r
    net = buildNetwork(2, 2, 1, hiddenclass=r.choice([LSTMLayer]), peepholes=r.random() < .5, bias=r.random() < .5)
    net.params[:] = rnd_vec(c, net.paramdim, .4)
    n = r.randint(9, 40)
    seq = [rnd_vec(c, 2) for _ in range(n)]
    errs = [rnd_vec(c, 1) for _ in range(n)]

    def run():
        net.reset()
        return [net.activate(x) for x in seq]

    out = run()
    net.resetDerivatives()
    run()
    ies = [net.backActivate(e) for e in reversed(errs)][::-1]
    d = np.array(net.derivs)
    # central differences of the outputs of the network itself
    p0 = np.array(net.params)
    for j in r.sample(range(len(p0)), min(4, len(p0))):
        h = 1e-5
        f = []
        for s in (1, -1, 2, -2):
            net.params[j] = p0[j] + s * h
            f.append(sum(np.dot(e, y) for e, y in zip(errs, run())))
            net.params[j] = p0[j]
        c.close(d[j], (8 * (f[0] - f[1]) - (f[2] - f[3])) / (12 * h), 'long sequence/derivatives', 1e-5, 'length %d' % n)
    t = r.randrange(n)
    for i in range(2):
        f = []
        for s in (1, -1):
            seq[t][i] += s * 1e-5
            f.append(sum(np.dot(e, y) for e, y in zip(errs, run())))
            seq[t][i] -= s * 1e-5
        c.close(ies[t][i], (f[0] - f[1]) / 2e-5, 'long sequence/input error', 1e-5)
    # deriving in batches is the same as deriving at once
    net.reset()
    net.resetDerivatives()
    for k in range(2):
        run()
        for e in reversed(errs):
            net.backActivate(e)
    c.close(net.derivs, 2 * d, 'long sequence/accumulation', 1e-9)
    c.ev('batched derivatives')
    c.sig(n)
    c.sample({'length': n})


KINDS = [('bptt', k_bptt, 120, 4000), ('lstm', k_lstm, 70, 2500), ('mdlstm', k_mdlstm, 50, 1500),
         ('mdchain', k_mdchain, 50, 1500), ('long', k_buffers, 40, 800)]
