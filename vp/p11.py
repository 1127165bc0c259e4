"""P11: training until convergence returns the best parameters seen, and tests report the true error."""
import copy
import numpy as np
from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet, ClassificationDataSet
from pybrain.supervised.trainers import BackpropTrainer, RPropMinusTrainer
from pybrain.tools.shortcuts import buildNetwork
from pybrain.structure import SoftmaxLayer, SigmoidLayer, LSTMLayer, LinearLayer
from vp.core import rnd_vec

RULE = ('a case trains one small network until convergence with random settings while every epoch and every '
        'validation is recorded, and checks the whole recorded run; non-trivial when at least two epochs ran; distinct by '
        'settings, sizes and number of epochs; test functions are compared with their definitions on random data')
EXPECT = ['half a split', 'run', 'epoch', 'stopped by maxEpochs', 'stopped by convergence', 'best is not last', 'restored', 'own split',
          'given split', 'testOnData', 'testOnClassData', 'continued training', 'too small', 'rprop run']
ASSUMPTIONS = ['the stopping criterion is the documented one: no improvement within continueEpochs, or a plateau within the threshold']


def mse(net, Q):
    e = w = 0
    for q in Q:
        m = copy.deepcopy(net)
        m.reset()
        for s in q:
            o = m.activate(s[0])
            i = s[2] if len(s) > 2 else np.ones(len(s[1]))
            e += 0.5 * float(np.sum(i * (s[1] - o) ** 2))
            w += float(np.sum(i))
    return e / w


def data(c, shape, n, di, do, fn=None):
    cls = {'plain': SupervisedDataSet, 'seq': SequentialDataSet, 'imp': ImportanceDataSet}[shape]
    ds = cls(di, do)
    Q = []
    for i in range(n):
        if shape != 'plain':
            ds.newSequence()
        q = []
        for j in range(1 if shape == 'plain' else c.r.randint(1, 3)):
            x = rnd_vec(c, di)
            s = [x, (fn(x) if fn else rnd_vec(c, do))]
            if shape == 'imp':
                s.append(np.array([c.r.uniform(.1, 2) for _ in range(do)]))
            ds.addSample(*s)
            q.append(s)
        Q.append(q)
    return ds, Q


def seqs(ds, shape):
    if shape == 'plain':
        return [[(np.array(x), np.array(t))] for x, t in ds]
    return [[tuple(np.array(v) for v in s) for s in q] for q in ds]


def ident(Q):
    return sorted(tuple(np.round(np.concatenate([np.ravel(v) for s in q for v in s]), 12)) for q in Q)


def k_converge(c):
    r = c.r
    shape = r.choice(['plain', 'plain', 'plain', 'seq', 'imp'])
    di, do = r.randint(1, 2), r.randint(1, 2)
    net = buildNetwork(di, r.randint(1, 3), do, bias=r.random() < .7, recurrent=shape != 'plain',
                       hiddenclass=r.choice([SigmoidLayer, LSTMLayer]) if shape != 'plain' else SigmoidLayer)
    w = rnd_vec(c, di)
    learnable = r.random() < .5
    fn = (lambda x: np.full(do, np.dot(w, x))) if learnable else None
    n = r.randint(4, 14)
    ds, Q = data(c, shape, n, di, do, fn)
    lr = r.choice([.01, .1, .3])
    rp = r.random() < .25
    if rp:
        tr = RPropMinusTrainer(net, dataset=ds)
        c.ev('rprop run')
    else:
        tr = BackpropTrainer(net, ds, learningrate=lr, momentum=r.choice([0, .5]), batchlearning=r.random() < .3)
    cont = r.choice([1, 2, 3, 5, 10])
    maxe = r.choice([None, None, 1, 2, 5, 8, 20])
    if r.random() < .15:
        cont, maxe = 1, None
    if maxe is None:
        maxe_eff = 400
    if maxe is None and r.random() < .7:
        # a plateau comes soon
        net.params[:] *= 0.1
    kw = dict(continueEpochs=cont)
    thr = 10
    if r.random() < .3:
        thr = r.choice([1, 2, 3])
        kw['convergence_threshold'] = thr
    given = r.random() < .4
    prop = r.choice([.25, .5, .2, .4])
    if given:
        vds, VQ = data(c, shape, r.randint(1, 5), di, do, fn)
        tds, TQ = data(c, shape, r.randint(1, 6), di, do, fn)
        kw.update(trainingData=tds, validationData=vds)
        c.ev('given split')
    else:
        if r.random() < .15:         # half a split is none
            kw[r.choice(['trainingData', 'validationData'])] = data(c, shape, r.randint(1, 5), di, do, fn)[0]
            c.ev('half a split')
        if r.random() < .7:
            kw['validationProportion'] = prop
        else:
            prop = .25
    limit = maxe
    if maxe is None:
        # bounded observation: the monitor stops runs which do not converge within 150 epochs
        limit = 150
    kw['maxEpochs'] = limit
    log = []          # ('train', params after, error, data) / ('test', params, error, data)
    train, test = tr.train, tr.testOnData

    def wtrain(*a, **k):
        before = np.array(net.params)
        e = train(*a, **k)
        log.append(('train', before, np.array(net.params), e, tr.ds))
        c.ev('epoch')
        return e

    def wtest(*a, **k):
        e = test(*a, **k)
        log.append(('test', None, np.array(net.params), e, a[0] if a else k.get('dataset')))
        return e
    tr.train, tr.testOnData = wtrain, wtest
    start = np.array(net.params)
    tag = 'n=%d %s %s' % (n, {k: v for k, v in kw.items() if not k.endswith('Data')}, shape)
    use = r.random() < .3
    if use:
        kw['dataset'] = ds
    trerr, verr = tr.trainUntilConvergence(**kw)
    c.ev('run')
    trains = [l for l in log if l[0] == 'train']
    c.must(trains, 'no training', tag)
    E = len(trains)
    c.ok(E <= limit, 'more epochs than maxEpochs', '%d epochs: %s' % (E, tag))
    # training data and validation data
    tdata = trains[0][4]
    c.ok(all(t[4] is tdata for t in trains), 'training data', 'changed during the run')
    TQ = seqs(tdata, shape)
    if given:
        VQ = VQ
        c.ok(tdata is tds, 'training data', 'is not the one given')
    else:
        vd = [l for l in log if l[0] == 'test']
        if vd and vd[0][4] is not None:
            VQ = seqs(vd[0][4], shape)
        else:
            seen = ident(TQ)
            VQ = [q for q in Q if ident([q])[0] not in seen]
        k = int(len(Q) * (1 - prop))
        c.eq((len(TQ), len(VQ)), (k, len(Q) - k), 'split sizes', tag)
        c.eq(sorted(ident(TQ) + ident(VQ)), ident(Q), 'split', tag)
        c.ev('own split')
    c.ok(tr.ds is ds, 'dataset restored', 'trainer is left on other data: %s' % tag)
    # continuity: each epoch starts where the last ended
    for i, t in enumerate(trains):
        c.close(t[1], start if i == 0 else trains[i - 1][2], 'continuity', 1e-12, tag)
    # the true validation error after each epoch, computed on copies
    V = []
    m = net.copy()
    for P in [start] + [t[2] for t in trains]:
        m._setParameters(P.copy())
        V.append(mse(m, VQ))
    T = [t[3] for t in trains]
    best = 1 + int(np.argmin(V[1:]))
    got = np.array(net.params)
    m._setParameters(got.copy())
    c.close(mse(m, VQ), min(V[1:]), 'not the best parameters', 1e-9, 'validation errors %s: %s' % (V[-12:], tag))
    cand = [i for i in range(1, E + 1) if np.allclose(trains[i - 1][2], got, rtol=1e-12, atol=1e-12)]
    c.ok(cand, 'parameters never seen', tag)
    c.ev('restored')
    if best != E:
        c.ev('best is not last')
    ties = [i for i in range(1, E + 1) if abs(V[i] - V[best]) <= 1e-12]
    c.ok(len(trerr) in ties, 'training errors', '%d returned, best epoch %s of %d: %s' % (len(trerr), ties, E, tag))
    c.close(trerr, T[:len(trerr)], 'training errors', 1e-9, tag)
    c.ok(len(verr) == len(trerr) + 1, 'validation errors', '%d for %d epochs: %s' % (len(verr), len(trerr), tag))
    c.close(verr, V[:len(verr)], 'validation errors', 1e-7, tag)
    c.close(tr.trainingErrors, T, 'recorded training errors', 1e-9, tag)
    c.close(tr.validationErrors, V, 'recorded validation errors', 1e-7, tag)
    # the stopping rule
    def stop(k):
        """after k epochs"""
        v = V[:k + 1]
        if len(v) < 2 * cont:
            return False
        old, new = v[-2 * cont:-cont], v[-cont:]
        if min(new) > max(old):
            return True
        return sum(round(y, thr) - round(new[-1], thr) for y in new) == 0
    def margin(k):
        v = V[:k + 1]
        if len(v) < 2 * cont:
            return True
        old, new = v[-2 * cont:-cont], v[-cont:]
        near = [abs((abs(y) * 10 ** thr) % 1 - .5) < 1e-3 for y in new]
        return abs(min(new) - max(old)) > 1e-9 and not any(near) and thr < 6
    if all(margin(k) for k in range(1, E + 1)) or thr >= 6 and cont == 1:
        for k in range(1, E):
            c.ok(not stop(k), 'stopped too late', 'after %d of %d epochs: %s' % (k, E, tag))
        if E < limit:
            c.ok(stop(E), 'stopped too early', 'after %d epochs, errors %s: %s' % (E, V, tag))
    elif E < limit:
        c.ok(len(V) >= 2 * cont, 'stopped too early', 'after %d epochs: %s' % (E, tag))
    c.ev('stopped by maxEpochs' if E == limit else 'stopped by convergence')
    if E > 1:
        c.sig(shape, n, E, best, cont, maxe, prop, given)
    # training goes on from what was returned
    del log[:]
    tr.train()
    c.close(log[0][1], got, 'continued training', 1e-12, tag)
    ref = net.copy()
    ref._setParameters(got.copy())
    c.ok(not np.array_equal(net.params, got), 'continued training', 'no effect')
    jump = np.max(np.abs(net.params - got))
    c.ev('continued training')
    c.sample({'settings': tag, 'epochs': E, 'best': best, 'validation': V[:5]})


def k_small(c):
    r = c.r
    n = r.randint(1, 3)
    ds, Q = data(c, 'plain', n, 1, 1)
    net = buildNetwork(1, 1)
    tr = BackpropTrainer(net, ds)
    p = r.choice([0.0, 0.25, 0.5, 0.9, 1.0])
    before = np.array(net.params)
    k = int(n * (1 - p))
    if k == 0 or k == n:
        c.raises(ValueError, lambda: tr.trainUntilConvergence(validationProportion=p, maxEpochs=3), 'too small to split', '%d, %s' % (n, p))
        c.close(net.params, before, 'too small to split', 0, 'parameters changed')
        c.ev('too small')
    c.sig('small', n, p)


def k_test(c):
    r = c.r
    shape = r.choice(['plain', 'seq', 'imp'])
    di, do = r.randint(1, 3), r.randint(1, 3)
    net = buildNetwork(di, r.randint(1, 3), do, bias=True, recurrent=shape != 'plain', outclass=r.choice([LinearLayer, SigmoidLayer]))
    ds, Q = data(c, shape, r.randint(1, 6), di, do)
    ds2, Q2 = data(c, shape, r.randint(1, 6), di, do)
    tr = r.choice([BackpropTrainer, RPropMinusTrainer])(net, dataset=ds)
    before = np.array(net.params)
    if r.random() < .5:
        tr.verbose = False
        net.activate(rnd_vec(c, di))
    c.close(tr.testOnData(), mse(net, Q), 'testOnData', 1e-9, shape)
    c.close(tr.testOnData(ds2), mse(net, Q2), 'testOnData', 1e-9, shape + ' other data')
    c.close(tr.testOnData(verbose=True), mse(net, Q), 'testOnData', 1e-9, shape + ' again')
    c.ok(tr.ds is ds, 'testOnData/dataset', 'replaced')
    c.close(net.params, before, 'testOnData/parameters', 0, '')
    c.ev('testOnData')
    c.sig('test', shape, di, do, [len(q) for q in Q])
    if shape != 'imp':
        out = []
        for q in Q:
            m = copy.deepcopy(net)
            m.reset()
            for s in q:
                out.append(int(np.argmax(m.activate(s[0]))))
        got = tr.testOnClassData()
        c.eq([int(v) for v in got], out, 'testOnClassData', shape)
        o, t = tr.testOnClassData(return_targets=True)
        c.eq([int(v) for v in o], out, 'testOnClassData', shape)
        c.eq([int(v) for v in t], [int(np.argmax(s[1])) for q in Q for s in q], 'testOnClassData/targets', shape)
        o2 = tr.testOnClassData(dataset=ds2)
        out2 = []
        for q in Q2:
            m = copy.deepcopy(net)
            m.reset()
            for s in q:
                out2.append(int(np.argmax(m.activate(s[0]))))
        c.eq([int(v) for v in o2], out2, 'testOnClassData/other data', shape)
        c.ev('testOnClassData')


KINDS = [('converge', k_converge, 160, 3000), ('small', k_small, 40, 200), ('test', k_test, 120, 2500)]
