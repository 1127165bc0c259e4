"""P02: sequence processing: recurrent connections carry exactly the previous step, reset forgets everything."""
import numpy as np
from pybrain.structure import RecurrentNetwork, LSTMLayer, SigmoidLayer, TanhLayer, LinearLayer, FullConnection
from pybrain.structure.modules.module import Module
from pybrain.tools.shortcuts import buildNetwork
from pybrain.datasets import SupervisedDataSet
from vp.core import rnd_vec, Unchanged
from vp import refnet

RULE = ('a case builds one random recurrent network (feedforward part as for P01, plus one to three delayed connections, '
        'LSTM layers, nested feedforward networks), feeds it several sequences separated by resets, long enough to grow '
        'the buffers, and compares every output with an independent evaluator that knows the whole history; '
        'non-trivial when there is a delayed connection or a stateful layer; distinct by structure')
EXPECT = ['steps', 'shifted', 'resets', 'buffer growth', 'lstm', 'delayed connections', 'forgetful networks', 'nested networks',
          'dataset rows', 'recurrent buildNetwork', 'mdlstm', 'mid-sequence parameter change']


def setrandom(c, parts):
    for v in parts.values():
        v.params[:] = rnd_vec(c, len(v.params), c.r.choice([.3, .7, 1]))


def sequences(c, dim, n, lo=1, hi=14):
    return [[rnd_vec(c, dim, c.r.choice([.5, 1, 2])) for _ in range(c.r.randint(lo, hi))] for _ in range(n)]


STABLE = [('linear', 1), ('sigmoid', 3), ('tanh', 3), ('softsign', 1), ('softmax', 1), ('gate', .5), ('switch', 1)]


def k_rec(c, forget=False, **kw):
    r = c.r
    spec = refnet.random_spec(r, recurrent=True, kinds=STABLE, lstm=kw.pop('lstm', .25), nested=kw.pop('nested', .1),
                              maxmods=4, **kw)
    net, parts, mods, cons = refnet.build(spec, r, RecurrentNetwork(forget=True) if forget else None)
    setrandom(c, parts)
    for cc in spec.cons:                  # keep the delayed loops from exploding
        if cc.rec and cc.nparams():
            parts[cc.mother or cc.name].params[:] *= .4
    P = refnet.snapshot(parts)
    ref = refnet.Ref(spec)
    seqs = sequences(c, spec.indim, r.randint(2, 4))
    if r.random() < .4:
        seqs.append([rnd_vec(c, spec.indim) for _ in range(r.randint(30, 70))])
    r.shuffle(seqs)
    kept = []
    for k, seq in enumerate(seqs):
        exp = ref.run(P, seq)
        for t, x in enumerate(seq):
            arg = x.copy() if r.random() < .8 else list(x)
            u = Unchanged(input=arg)
            out = net.activate(arg)
            if not c.close(out, exp[t], 'sequence%s/step %s' % ('/forget' if forget else '', 'first' if t == 0 else 'later'),
                           1e-7, 'sequence %d step %d of %s' % (k, t, spec.describe())):
                return
            u.verify(c, 'input modified')
            if r.random() < .1:
                kept.append((out, exp[t].copy()))
            c.ev('steps')
            if forget:
                c.ev('forgetful networks')
        if not forget:
            c.eq(net.offset, len(seq), 'offset')
            rows = net.inputbuffer.shape[0]
            c.ok(rows > len(seq), 'buffers/length')
            c.close(net.inputbuffer[:len(seq)], np.array(seq), 'buffers/inputs')
            c.close(net.outputbuffer[:len(seq)], np.array(exp), 'buffers/outputs', 1e-7)
            if len(seq) > 30:
                c.ev('buffer growth')
        net.reset()
        c.ev('resets')
        c.eq(net.offset, 0, 'offset after reset')
        if not forget:
            c.ok(not np.any(net.inputbuffer) and not np.any(net.outputbuffer), 'reset/buffers')
    for o, e in kept:
        c.close(o, e, 'returned output changed later', 1e-7)
    if not forget:
        seq = seqs[0]
        ds = SupervisedDataSet(spec.indim, 1)
        for x in seq:
            ds.addSample(x, [0])
        if r.random() < .5:
            net.activate(rnd_vec(c, spec.indim))          # whatever came before is forgotten
        c.close(net.activateOnDataset(ds), np.array(ref.run(P, seq)), 'dataset', 1e-7)
        c.ev('dataset rows', len(seq))
        # the parameters of the moment are used, the past stays
        c.eq(net.offset, 0, 'offset after activateOnDataset')
    if any(m.kind == 'lstm' for m in spec.mods):
        c.ev('lstm')
    if any(m.kind == 'net' for m in spec.mods):
        c.ev('nested networks')
    n = sum(1 for x in spec.cons if x.rec)
    c.ev('delayed connections', n)
    if n or any(m.kind == 'lstm' for m in spec.mods):
        c.sig(forget, spec.signature())
    c.sample(spec.describe())


def k_forget(c):
    k_rec(c, forget=True, lstm=.25, nested=.1)


def k_shift(c):
    """Moving the window of remembered steps does not change what comes after."""
    r = c.r
    spec = refnet.random_spec(r, recurrent=True, kinds=STABLE, lstm=.4, nested=.3, maxmods=4)
    net, parts, mods, cons = refnet.build(spec, r, None)
    setrandom(c, parts)
    for cc in spec.cons:
        if cc.rec and cc.nparams():
            parts[cc.mother or cc.name].params[:] *= .4
    P = refnet.snapshot(parts)
    seq = sequences(c, spec.indim, 1, 6, 25)[0]
    exp = refnet.Ref(spec).run(P, seq)
    base = 0                                  # step t is in row t - base
    every = [net] + sorted(net.modules, key=lambda m: m.name)
    for t, x in enumerate(seq):
        if t and r.random() < .4:
            n = len(net.inputbuffer)
            k = r.choice([-1, -2, -3, 1, 2])
            if k < 0 and t - base + k < 1 or k > 0 and t - base + k > n - 1 or any(len(m.inputbuffer) != n for m in every):
                pass
            else:
                old = [(np.array(m.inputbuffer), np.array(m.outputbuffer)) for m in every]
                net.shift(k)
                base -= k
                c.eq([m.offset for m in every], [t - base] * len(every), 'shift/offset')
                for m, bufs in zip(every, old):
                    for b, o in zip((m.inputbuffer, m.outputbuffer), bufs):
                        want = np.zeros_like(o)
                        if k < 0:
                            want[:k] = o[-k:]
                        else:
                            want[k:] = o[:-k]
                        c.close(b, want, 'shift/buffers', 0, m.name)
                c.ev('shifted')
        out = net.activate(x)
        if not c.close(out, exp[t], 'shift/activation', 1e-7, 'step %d of %s' % (t, spec.describe())):
            return
    # any contents, any distance: rows move, the others are zero
    m = r.choice(every)
    old = {}
    for b, d in m.bufferlist:
        getattr(m, b)[:] = c.np.normal(0, 1, (len(getattr(m, b)), d))
        old[b] = np.array(getattr(m, b))
    n, o = len(m.inputbuffer), m.offset
    k = r.randint(-n, n)
    type(m).shift(m, k) if not hasattr(m, 'modules') else Module.shift(m, k)
    c.eq(m.offset, o + k, 'shift/offset of a module')
    for b in old:
        want = np.zeros_like(old[b])
        if k < 0:
            want[:n + k] = old[b][-k:]
        else:
            want[k:] = old[b][:n - k]
        c.close(getattr(m, b), want, 'shift/buffers of a module', 0, b)
    m.offset = o
    c.raises(AssertionError, lambda: net.shift(len(net.inputbuffer) + 1), 'shift/too far')
    c.sig(spec.signature(), base)
    c.sample(spec.describe())


def k_change(c):
    """Changing parameters in the middle of a sequence changes only what comes after."""
    r = c.r
    spec = refnet.random_spec(r, recurrent=True, kinds=STABLE, maxmods=3)
    net, parts, mods, cons = refnet.build(spec, r)
    if not parts:
        return
    setrandom(c, parts)
    seq = sequences(c, spec.indim, 1, 4, 12)[0]
    cut = r.randint(1, len(seq) - 1)
    for cc in spec.cons:
        if cc.rec and cc.nparams():
            parts[cc.mother or cc.name].params[:] *= .4
    P1 = refnet.snapshot(parts)
    e1 = refnet.Ref(spec).run(P1, seq[:cut])
    for x, e in zip(seq[:cut], e1):
        c.close(net.activate(x), e, 'before change', 1e-7)
    if r.random() < .5:
        net.params[:] = rnd_vec(c, net.paramdim, .4)
    else:
        net._setParameters(rnd_vec(c, net.paramdim, .4))
    P2 = refnet.snapshot(parts)
    e2 = _two_phase(spec, P1, P2, seq, cut)
    for x, e in zip(seq[cut:], e2[cut:]):
        c.close(net.activate(x), e, 'after change', 1e-7, str(spec.describe()))
    c.ev('mid-sequence parameter change')
    c.sig(spec.signature())
    c.sample(spec.describe())


def _two_phase(spec, P1, P2, seq, cut):
    class Two(refnet.Ref):
        pass
    # the evaluator is re-run with a parameter dictionary switching at the cut
    class Switch(dict):
        step = -1

        def get(self, k, d=None):
            return (P1 if self.step < cut else P2).get(k, d)

        def __getitem__(self, k):
            return (P1 if self.step < cut else P2)[k]
    S = Switch()

    class It:
        def __iter__(self):
            for t, x in enumerate(seq):
                S.step = t
                yield x
    return refnet.Ref(spec).run(S, It())


def k_lstm(c):
    """Standalone LSTM layers in a plain network, with and without peepholes."""
    k_rec(c, lstm=.8, nested=0)


def k_build(c):
    r = c.r
    layers = [r.randint(1, 3) for _ in range(r.randint(3, 4))]
    hid = r.choice(['lstm', 'tanh', 'sigmoid'])
    if hid == 'lstm':
        layers = layers[:3]
    peep = r.random() < .5
    bias = r.random() < .5
    kw = {'hiddenclass': {'lstm': LSTMLayer, 'tanh': TanhLayer, 'sigmoid': SigmoidLayer}[hid]}
    if hid == 'lstm':
        kw['peepholes'] = peep
    if hid != 'lstm' or r.random() < .5:
        kw['recurrent'] = True
    net = buildNetwork(*layers, bias=bias, outputbias=bias, **kw)
    net.params[:] = rnd_vec(c, net.paramdim, .6)
    sp = refnet.Spec(True)
    names = ['in'] + ['hidden%d' % i for i in range(len(layers) - 2)] + ['out']
    ms = []
    for i, n in enumerate(names):
        k = 'linear' if i in (0, len(names) - 1) else hid
        ms.append(refnet.Mod(n, k, layers[i], peep=peep))
    if bias:
        ms.append(refnet.Mod('bias', 'bias', 1))
    sp.mods = ms
    sp.ins, sp.outs = [ms[0]], [ms[len(names) - 1]]
    P = {}
    d = {m.name: m for m in ms}
    live = list(net.connections.items())
    for m in net.modules:
        if m.paramdim:
            P[m.name] = np.array(m.params)
    for k, (m, cl) in enumerate(live):
        for con in cl:
            name = 'c%d' % len(sp.cons)
            sp.cons.append(refnet.Con(name, 'full', d[con.inmod.name], d[con.outmod.name]))
            P[name] = np.array(con.params)
    want = {(names[i], names[i + 1]) for i in range(len(names) - 1)}
    if bias:
        want |= {('bias', n) for n in names[1:]}
    c.eq({(x.src.name, x.dst.name) for x in sp.cons}, want, 'buildNetwork/connections')
    c.eq(len(net.recurrentConns), 1 if hid == 'lstm' else 0, 'buildNetwork/recurrent connections')
    for con in net.recurrentConns:
        c.ok(con.inmod is con.outmod and con.inmod.name.startswith('hidden'), 'buildNetwork/self recurrence')
        name = 'c%d' % len(sp.cons)
        sp.cons.append(refnet.Con(name, 'full', d[con.inmod.name], d[con.outmod.name], rec=True))
        P[name] = np.array(con.params)
    ref = refnet.Ref(sp)
    for seq in sequences(c, layers[0], 2):
        exp = ref.run(P, seq)
        for x, e in zip(seq, exp):
            c.close(net.activate(x), e, 'buildNetwork', 1e-7, '%s %s' % (layers, kw))
            c.ev('steps')
        net.reset()
    c.ev('recurrent buildNetwork')
    c.sig(tuple(layers), hid, peep, bias)
    c.sample({'layers': layers, 'hidden': hid, 'peepholes': peep})


def k_mdlstm(c):
    k_rec(c, lstm=0, nested=0, mdlstm=True)
    c.ev('mdlstm')


KINDS = [('shift', k_shift, 60, 2000), ('recurrent', k_rec, 160, 6000), ('forget', k_forget, 80, 3000), ('lstm', k_lstm, 80, 3000),
         ('change', k_change, 60, 2000), ('buildNetwork', k_build, 60, 2000), ('mdlstm', k_mdlstm, 60, 2000)]
