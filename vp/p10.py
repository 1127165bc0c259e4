"""P10: every training step changes the parameters exactly as the configured rule says."""
import numpy as np
from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet
from pybrain.supervised.trainers import BackpropTrainer, RPropMinusTrainer
from pybrain.auxiliary import GradientDescent
from vp import refnet
from vp.core import rnd_vec, Unchanged

RULE = ('a case trains one random network (feedforward or recurrent, with slices and shared weights) on a random '
        'dataset (plain, sequential, weighted) for one to four epochs and follows the parameters with an independent '
        'implementation of the update rule driven by complex-step gradients, in the order in which the network was '
        'observed to receive the samples; non-trivial when some parameter moved; distinct by network, data shape and settings')
EXPECT = ['epoch', 'online', 'batch', 'rprop', 'momentum', 'lrdecay', 'weightdecay', 'importance', 'sequences',
          'update', 'rprop shrunk', 'rprop grown', 'rprop at a bound', 'parameters changed between epochs', 'descent', 'switched dataset', 'settings left out', 'gradient check']
ASSUMPTIONS = ['gradients below 1e-10 have no reliable sign and are excluded from the sign-based rule',
               'runs are followed until a parameter exceeds 1e3 in size']
KINDSM = [('linear', 2), ('sigmoid', 3), ('tanh', 3), ('softsign', 1), ('gate', .5)]
CONNS = [('full', 8), ('identity', 1), ('linear', 1.5), ('notself', 1), ('perm', 1)]


def dataset(c, spec, shape):
    r = c.r
    di, do = spec.indim, spec.outdim
    cls = {'plain': SupervisedDataSet, 'seq': SequentialDataSet, 'imp': ImportanceDataSet}[shape]
    ds = cls(di, do)
    Q = []
    for s in range(r.randint(1, 4)):
        q = []
        if shape != 'plain':
            ds.newSequence()
        for i in range(1 if shape == 'plain' or not spec.recurrent else r.randint(1, 3)):
            smp = [rnd_vec(c, di), rnd_vec(c, do)]
            if shape == 'imp':
                smp.append(np.array([r.choice([0.0, 1.0, r.uniform(.2, 2)]) for _ in range(do)]))
                if not any(smp[2]):
                    smp[2][0] = 1.0
            ds.addSample(*smp)
            q.append(smp)
        Q.append(q)
    return ds, Q


class Rule:
    """The update rule, per part."""

    def __init__(self, P, kind, lr, decay, mom, eta):
        self.kind, self.lr, self.decay, self.mom = kind, lr, decay, mom
        self.v = {k: np.zeros(len(a)) for k, a in P.items()}
        self.eta = eta
        if kind == 'rprop':
            self.step = {k: np.full(len(a), eta[4]) for k, a in P.items()}
            self.last = {k: np.zeros(len(a)) for k, a in P.items()}

    def update(self, P, G, c):
        out = {}
        dead = {}
        for k in P:
            if self.kind == 'rprop':
                up, down, lo, hi, _ = self.eta
                g = G[k].copy()
                dead[k] = abs(g) < 1e-10
                out[k] = P[k] + np.sign(g) * self.step[k]
                d = self.last[k] * g
                grow, shrink = d > 0, d < 0
                s = np.where(grow, self.step[k] * up, np.where(shrink, self.step[k] * down, self.step[k]))
                if np.any(s > hi) or np.any(s < lo):
                    c.ev('rprop at a bound')
                if grow.any():
                    c.ev('rprop grown')
                if shrink.any():
                    c.ev('rprop shrunk')
                self.step[k] = np.clip(s, lo, hi)
                self.last[k] = np.where(shrink, 0, g)
            else:
                self.v[k] = self.mom * self.v[k] + self.lr * G[k]
                out[k] = P[k] + self.v[k]
        self.lr *= self.decay
        c.ev('update')
        return out, dead


def seq_error(outs, q):
    e = w = 0
    for o, s in zip(outs, q):
        d = (s[1] - o) ** 2
        i = s[2] if len(s) > 2 else np.ones(len(d))
        e = e + 0.5 * np.sum(i * d)
        w += np.sum(i)
    return e, w


def k_train(c, kind=None):
    r = c.r
    recurrent = r.random() < .4
    shape = r.choice(['seq', 'imp']) if recurrent else r.choice(['plain', 'plain', 'seq', 'imp'])
    spec = refnet.random_spec(r, recurrent=recurrent, kinds=KINDSM, conns=CONNS, maxmods=2, lstm=.3 if recurrent else 0)
    net, parts, mods, cons = refnet.build(spec, r)
    if not parts:
        c.ev('no parameters')
        return
    for v in parts.values():
        v.params[:] = rnd_vec(c, len(v.params), .5)
    P = refnet.snapshot(parts)
    kind = kind or r.choice(['online', 'online', 'batch'])
    lr = r.choice([0.01, 0.05, 0.2])
    decay = r.choice([1.0, 1.0, 0.9, 0.5])
    mom = r.choice([0., 0., 0.5, 0.9])
    wd = r.choice([0., 0., 0.01, 0.1])
    eta = None
    opts = dict(weightdecay=wd)
    ds, Q = dataset(c, spec, shape)
    data = (ds, Q)
    if kind == 'rprop':
        eta = (r.choice([1.2, 1.5, 3.0]), r.choice([0.5, 0.2]), r.choice([1e-6, 0.02]), r.choice([5.0, 0.12]), r.choice([0.1, 0.05]))
        decay, mom = 1.0, 0.
        if r.random() < .3:
            eta = (1.2, .5, 1e-6, 5.0, 0.1)
        else:
            opts.update(etaplus=eta[0], etaminus=eta[1], deltamin=eta[2], deltamax=eta[3], delta0=eta[4])
        tr = RPropMinusTrainer(net, dataset=ds, **opts)
    else:
        opts.update(learningrate=lr, lrdecay=decay, momentum=mom)
        if r.random() < .15:
            # nothing asked for: plain steps of a hundredth of the gradient
            lr, decay, mom, wd, opts = 0.01, 1.0, 0., 0., {}
            c.ev('settings left out')
        if kind == 'batch':
            opts['batchlearning'] = True
        tr = BackpropTrainer(net, ds if r.random() < .5 else None, **opts)
        if tr.ds is None:
            tr.setData(ds)
    rule = Rule(P, kind, lr, decay, mom, eta)
    seen = []
    activate = net.activate

    def watch(x):
        seen.append(np.array(x, dtype=float))
        return activate(x)
    net.activate = watch
    tag = '%s %s %s %s' % (kind, shape, opts, spec.describe())
    moved = False
    epochs = 0
    for ep in range(r.randint(1, 4)):
        if ep and r.random() < .25:
            # a user moves the parameters between two epochs
            net.params[:] = net.params + rnd_vec(c, net.paramdim, .1)
            P = refnet.snapshot(parts)
            c.ev('parameters changed between epochs')
        if ep and r.random() < .2:
            ds, Q = dataset(c, spec, shape)
            data = (ds, Q)
            tr.setData(ds)
            c.ev('switched dataset')
        snap = [np.array(ds[f]) for f in ds.getFieldNames()]
        del seen[:]
        how = r.choice(['train', 'train', 'trainEpochs', 'trainOnDataset'])
        err = None
        if how == 'train':
            err = tr.train()
        elif how == 'trainEpochs':
            tr.trainEpochs()
        else:
            tr.trainOnDataset(ds)
        epochs += 1
        c.ev('epoch')
        for a, f in zip(snap, ds.getFieldNames()):
            c.ok(np.array_equal(a, ds[f]), 'data changed', '%s of %s' % (f, tag))
        # the order in which the sequences were presented
        order, left, k = [], list(range(len(Q))), 0
        while k < len(seen):
            m = [i for i in left if np.array_equal(Q[i][0][0], seen[k])]
            c.must(m, 'presentation', 'a sample was presented twice in an epoch or never existed: %s' % tag)
            q = Q[m[0]]
            for j, s in enumerate(q):
                c.must(k + j < len(seen) and np.array_equal(seen[k + j], s[0]), 'presentation', 'sequence out of order: %s' % tag)
            k += len(q)
            order.append(m[0])
            left.remove(m[0])
        c.must(not left, 'presentation', '%d sequences were not presented: %s' % (len(left), tag))
        total = weight = 0
        acc = {k: 0 for k in P}
        dead = {}
        for i in order:
            q = Q[i]
            ref = refnet.Ref(spec)
            e, w = seq_error(ref.run(P, [s[0] for s in q]), q)
            total += e
            weight += w
            dP, _ = refnet.sensitivities(spec, P, [s[0] for s in q], lambda o: -seq_error(o, q)[0], inputs=False)
            for k in P:
                acc[k] = acc[k] + dP[k]
            if kind == 'online':
                P, _ = rule.update(P, {k: acc[k] - wd * P[k] for k in P}, c)
                acc = {k: 0 for k in P}
        if kind != 'online':
            P, dead = rule.update(P, {k: acc[k] - wd * P[k] for k in P}, c)
        top = max(np.max(np.abs(v)) for v in P.values())
        if not top < 1e3:
            c.ev('runs left at large parameters')
            return
        if err is not None:
            c.close(err, total / weight, 'returned error', 1e-6, tag)
        for k, v in parts.items():
            got = np.array(v.params)
            if k in dead:
                P[k] = np.where(dead[k], got, P[k])
                for j in np.nonzero(dead[k])[0]:
                    rule.last[k][j] = 0
            if not c.close(got, P[k], 'parameters/' + kind, 1e-6, 'epoch %d, %s of %s' % (ep, k, tag)):
                return
            P[k] = got
        moved = moved or bool(np.any(np.abs(net.params) > 0))
        c.eq(tr.totalepochs, epochs, 'epoch counter', tag)
    c.ev(kind)
    for n, v in (('momentum', mom), ('lrdecay', decay != 1.0), ('weightdecay', wd), ('importance', shape == 'imp'),
                 ('sequences', shape == 'seq')):
        if v:
            c.ev(n)
    if moved:
        c.sig(kind, shape, spec.signature(), lr, decay, mom, wd)
    c.sample({'trainer': kind, 'data': shape, 'settings': str(opts), 'network': spec.describe()})


def k_rprop(c):
    k_train(c, 'rprop')


def k_descent(c):
    """The descent object by itself, over long gradient histories."""
    r = c.r
    n = r.randint(1, 5)
    gd = GradientDescent()
    rprop = r.random() < .5
    P = {'p': rnd_vec(c, n)}
    if rprop:
        gd.rprop = True
        eta = (gd.etaplus, gd.etaminus, gd.deltamin, gd.deltamax, gd.deltanull)
        if r.random() < .5:
            gd.deltamin, gd.deltamax, gd.deltanull, gd.etaplus, gd.etaminus = 1e-3, r.choice([.2, 2.]), .1, 1.5, .3
            eta = (gd.etaplus, gd.etaminus, gd.deltamin, gd.deltamax, gd.deltanull)
        rule = Rule(P, 'rprop', 0, 1., 0., eta)
    else:
        gd.alpha, gd.alphadecay, gd.momentum = r.choice([.1, .5]), r.choice([1., .99, .9]), r.choice([0., .1, .9])
        rule = Rule(P, 'plain', gd.alpha, gd.alphadecay, gd.momentum, None)
    start = P['p'].copy()
    u = Unchanged(start=start)
    gd.init(start)
    for t in range(r.randint(5, 40)):
        g = rnd_vec(c, n) * np.array([r.choice([1, 1, 1, 0]) for _ in range(n)]) if r.random() < .8 else np.abs(rnd_vec(c, n))
        P, _ = rule.update(P, {'p': g}, c)
        got = gd(g.copy() if r.random() < .5 else g.tolist() if not rprop else g.copy())
        if not c.close(got, P['p'], 'descent', 1e-9, 'step %d rprop=%s' % (t, rprop)):
            break
    u.verify(c, 'descent/initial values modified')
    c.ev('descent')
    c.sig(rprop, n, t)


def k_check(c):
    """The gradient check lists the computed and the numerical derivatives of the error of every sequence."""
    r = c.r
    recurrent = r.random() < .4
    shape = r.choice(['seq', 'imp']) if recurrent else r.choice(['plain', 'plain', 'seq', 'imp'])
    spec = refnet.random_spec(r, recurrent=recurrent, kinds=KINDSM, conns=CONNS, maxmods=2, lstm=.3 if recurrent else 0)
    net, parts, mods, cons = refnet.build(spec, r)
    if not parts:
        c.ev('no parameters')
        return
    for v in parts.values():
        v.params[:] = rnd_vec(c, len(v.params), .5)
    P = refnet.snapshot(parts)
    ds, Q = dataset(c, spec, shape)
    given = r.random() < .5
    tr = BackpropTrainer(net, None if given else ds)
    params = np.array(net.params)
    res = tr._checkGradient(ds, True) if given else tr._checkGradient(silent=True)
    what = '%s %s' % (shape, spec.describe())
    c.ev('gradient check')
    c.close(net.params, params, 'gradient check/parameters changed', 1e-12, what)
    for k, v in parts.items():
        v.params[:] = np.arange(len(v.params)) + 1000. * (1 + list(parts).index(k))
    where = np.array(net.params)
    if not c.eq((len(res), [len(q) for q in res]), (len(Q), [net.paramdim] * len(Q)), 'gradient check/shape', what):
        return
    for row, q in zip(res, Q):
        dP, _ = refnet.sensitivities(spec, P, [s[0] for s in q], lambda o: -seq_error(o, q)[0], inputs=False)
        want = np.empty(len(where))
        for i, k in enumerate(parts):
            for j, v in enumerate(np.ravel(dP[k]) if np.size(dP[k]) else []):
                want[where == 1000. * (1 + i) + j] = v
        # computed: the descent direction; numerical: the slope of the error
        c.close([a for a, _ in row], want, 'gradient check/computed', 1e-6, what)
        c.close([b for _, b in row], -want, 'gradient check/numerical', 1e-3, what)
    c.sig('check', shape, spec.signature())


KINDS = [('train', k_train, 220, 5000), ('rprop', k_rprop, 140, 3000), ('descent', k_descent, 100, 2000),
         ('check', k_check, 60, 1000)]
