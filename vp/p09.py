"""P09: splitting, batching, windowing and validating lose, duplicate and invent nothing."""
import os, tempfile, copy
import numpy as np
from pybrain.datasets import (SupervisedDataSet, SequentialDataSet, ImportanceDataSet, ClassificationDataSet)
from pybrain.datasets.classification import SequenceClassificationDataSet
from pybrain.supervised.trainers.trainer import Trainer
from pybrain.supervised.trainers import BackpropTrainer
from pybrain.tools.validation import (Validator, ModuleValidator, CrossValidator, ClassificationHelper,
                                      SequenceHelper, testOnSequenceData)
from pybrain.tools.datasettools import convertSequenceToTimeWindows, DataSetNormalizer
from pybrain.tools.svmdata import SVMData
from pybrain.tools.shortcuts import buildNetwork
from pybrain.structure import LinearLayer, SigmoidLayer, TanhLayer, LSTMLayer, SoftmaxLayer
from vp.core import rnd_vec, Unchanged

RULE = ('a case builds one random dataset whose samples are all distinguishable and runs one family of operations '
        'on it (split, batches, cross-validation, error measures, windows, normalisation, files); non-trivial when '
        'it has three samples or more; distinct by operation, sizes and proportions')
EXPECT = ['split:supervised', 'split:sequential', 'split:importance', 'batches', 'randomBatches', 'crossvalidation', 'fold', 'mse', 'importance mse',
          'hit rate', 'sequence output', 'sequence hit rate', 'windows', 'normalize', 'normalizer file', 'svm file',
          'epochs per fold', 'sequence helper']
ASSUMPTIONS = ['samples are identified by a unique first input component']


def fl(x):
    return [float(v) for v in np.ravel(x)]


def supervised(c, n=None, cls=SupervisedDataSet, di=None, do=None):
    r = c.r
    n = n or r.randint(1, 30)
    di, do = di or r.randint(1, 4), do or r.randint(1, 3)
    ds = cls(di, do)
    S = []
    for i in range(n):
        x = [i + 1000.0] + fl(rnd_vec(c, di - 1))
        t = fl(rnd_vec(c, do))
        if cls is ImportanceDataSet:
            w = [r.uniform(0.1, 3) for _ in range(do)]
            if r.random() < .3:
                w = [0.0 if r.random() < .5 else v for v in w]
            ds.addSample(x, t, w)
            S.append((x, t, w))
        else:
            ds.addSample(x, t)
            S.append((x, t))
    return ds, S


def sequential(c, cls=SequentialDataSet, minlen=1, maxlen=6, nseq=None, di=None, do=None):
    r = c.r
    di, do = di or r.randint(1, 3), do or r.randint(1, 3)
    ds = cls(di, do)
    Q = []
    k = 0
    for s in range(nseq or r.randint(1, 8)):
        ds.newSequence()
        q = []
        for i in range(r.randint(minlen, maxlen)):
            k += 1
            smp = [[k + 1000.0] + fl(rnd_vec(c, di - 1)), fl(rnd_vec(c, do))]
            if cls is ImportanceDataSet:
                smp.append([r.uniform(0.1, 3) for _ in range(do)])
            ds.addSample(*smp)
            q.append(tuple(smp))
        Q.append(q)
    return ds, Q


def content(ds, fields=('input', 'target')):
    return [tuple(fl(x) for x in s) for s in zip(*[ds[f] for f in fields])]


def seqs(ds):
    return [[tuple(fl(x) for x in s) for s in q] for q in ds]


def key(s):
    return s[0][0]


def k_split(c):
    r = c.r
    kind = r.choice(['supervised', 'sequential', 'importance'])
    p = r.choice([0.5, 0.25, 0.75, 1.0, 0.0, r.random(), r.random(), r.random()])
    c.ev('split:' + kind)
    if kind == 'supervised':
        ds, S = supervised(c)
        left, right = ds.splitWithProportion(p)
        L, R = content(left), content(right)
        c.eq((len(left), len(right)), (int(len(S) * p), len(S) - int(len(S) * p)), 'split/sizes', p)
        c.eq(sorted(L + R, key=key), [tuple(s) for s in S], 'split/conservation', 'p=%s' % p)
        c.eq(content(ds), [tuple(s) for s in S], 'split/original', 'changed')
        for d in (left, right):
            if len(d):
                d['input'][0][:] = -1.0
                d['target'][0][:] = -1.0
        c.eq(content(ds), [tuple(s) for s in S], 'split/aliasing', 'parts share memory with the original')
        c.sig(kind, len(S), p) if len(S) > 2 else None
        # a part is a dataset of its own
        for d in (left, right):
            n = len(d)
            d.addSample([1.0] * ds.indim, [2.0] * ds.outdim)
            c.eq(len(d), n + 1, 'split/part usable', '')
            c.eq((d.indim, d.outdim), (ds.indim, ds.outdim), 'split/part dims', '')
    else:
        cls = SequentialDataSet if kind == 'sequential' else ImportanceDataSet
        ds, Q = sequential(c, cls)
        left, right = ds.splitWithProportion(p)
        L, R = seqs(left) if len(left) else [], seqs(right) if len(right) else []
        k = int(len(Q) * p)
        c.eq((len(L), len(R)), (k, len(Q) - k), 'split/sequence sizes', p)
        c.eq(sorted(L + R, key=lambda q: key(q[0])), Q, 'split/sequences', 'p=%s' % p)
        c.eq(seqs(ds), Q, 'split/original', 'changed')
        c.ok(type(left) is type(ds) and type(right) is type(ds), 'split/type', '')
        c.sig(kind, [len(q) for q in Q], p) if sum(map(len, Q)) > 2 else None
        for d in (left, right):
            if len(d):
                d['input'][0][:] = -1.0
        c.eq(seqs(ds), Q, 'split/aliasing', 'parts share memory with the original')


def k_batches(c):
    r = c.r
    ds, S = supervised(c)
    n = r.randint(1, len(S) + 3)
    label = r.choice(['input', 'target'])
    rows = [s[0 if label == 'input' else 1] for s in S]
    plain = [rows[i:i + n] for i in range(0, len(rows), n)]
    conv = lambda bs: [[fl(x) for x in b] for b in bs]
    c.eq(conv(ds.batches(label, n)), plain, 'batches', 'n=%d of %d' % (n, len(S)))
    c.ev('batches')
    perm = list(range(len(plain)))
    r.shuffle(perm)
    c.eq(conv(ds.batches(label, n, perm)), [plain[i] for i in perm], 'batches/permuted', perm)
    got = conv(ds.randomBatches(label, n))
    c.ev('randomBatches')
    c.eq(sorted(got), sorted(plain), 'batches/random', 'n=%d of %d' % (n, len(S)))
    c.sig('batches', n, len(S), label) if len(S) > 2 else None


class SpyTrainer(Trainer):
    """Records the data it gets; every training epoch moves the weights in a known way."""
    log = []

    def __init__(self, module, dataset=None):
        Trainer.__init__(self, module)
        if dataset is not None:
            self.setData(dataset)

    def train(self):
        SpyTrainer.log.append((id(self), self.module, content(self.ds), fl(self.module.params)))
        self.module._setParameters(self.module.params + 1.0)


def k_cross(c):
    r = c.r
    n_folds = r.choice([2, 3, 4, 5, 5, r.randint(2, 9)])
    n = n_folds + r.randint(1, 20)
    classification = r.random() < .3
    ds, S = supervised(c, n, di=2, do=1)
    if classification:
        S = [(x, [float(r.randrange(3))]) for x, t in S]
        ds = ClassificationDataSet(2, 1, nb_classes=3)
        for x, t in S:
            ds.addSample(x, [int(t[0])])
    net = buildNetwork(2, r.randint(1, 3), 1, bias=r.random() < .5)
    before = fl(net.params)
    SpyTrainer.log = []
    tr = SpyTrainer(net, ds)
    tests = []

    def valfunc(module, test):
        tests.append((module, content(test), fl(module.params)))
        if r2 == 'mse':
            return ModuleValidator.MSE(module, test)
        return float(np.sum(test['target'])) + len(tests)
    r2 = r.choice(['mse', 'own'])
    epochs = r.choice([None, 1, 2, 3])
    kw = {} if epochs is None else {'max_epochs': epochs}
    if n_folds != 5 or r.random() < .5:
        kw['n_folds'] = n_folds
    cv = CrossValidator(tr, ds, valfunc=valfunc, **kw)
    got = cv.validate()
    c.ev('crossvalidation')
    c.sig('cv', n, n_folds, epochs, classification)
    e = epochs or 1
    tag = '%d folds of %d, %s epochs' % (n_folds, n, epochs)
    c.eq(len(tests), n_folds, 'crossvalidation/folds', tag)
    c.eq(len(SpyTrainer.log), n_folds * e, 'crossvalidation/trainings', tag)
    c.ev('epochs per fold', len(SpyTrainer.log))
    everything = [tuple(s) for s in S]
    alltests = []
    perf = []
    for i, (mod, test, params) in enumerate(tests):
        c.ev('fold')
        alltests += test
        runs = SpyTrainer.log[i * e:(i + 1) * e]
        c.ok(abs(len(test) - n / n_folds) < 1, 'crossvalidation/fold size', '%s: %d' % (tag, len(test)))
        for k, (tid, m, train, p0) in enumerate(runs):
            c.ok(m is mod, 'crossvalidation/module', 'the validated module is not the trained one')
            c.ok(m is not net, 'crossvalidation/clone', 'the original module was trained')
            c.eq(sorted(train + test, key=key), everything, 'crossvalidation/partition', '%s fold %d' % (tag, i))
            c.close(p0, [v + k for v in before], 'crossvalidation/leak', 1e-12, '%s: fold %d does not start from the original' % (tag, i))
        c.close(params, [v + e for v in before], 'crossvalidation/trained', 1e-12, tag)
        if r2 == 'mse':
            ref = copy.deepcopy(net)
            ref._setParameters(np.array(before) + e)
            perf.append(np.mean([(float(ref.activate(x)[0]) - t[0]) ** 2 for x, t in test]))
        else:
            perf.append(sum(t[0] for x, t in test) + i + 1)
    c.eq(sorted(alltests, key=key), everything, 'crossvalidation/tests', 'every sample is tested exactly once (%s)' % tag)
    c.close(got, np.mean(perf), 'crossvalidation/mean', 1e-9, tag)
    c.close(net.params, before, 'crossvalidation/original', 0, 'original module changed')
    c.eq(content(ds), everything, 'crossvalidation/data', 'dataset changed')


def k_cross_real(c):
    """A real trainer on the folds gives what training by hand on the same folds gives."""
    r = c.r
    ds, S = supervised(c, r.randint(6, 15), di=2, do=1)
    ds2 = SupervisedDataSet(2, 1)
    for x, t in S:
        ds2.addSample([x[0] - 1008.0, x[1]], t)
    net = buildNetwork(2, 2, 1)
    before = net.params.copy()
    tr = BackpropTrainer(net, ds2, learningrate=0.01, batchlearning=True)
    folds = []
    k = r.randint(1, 3)
    own = r.random() < .5
    cv = CrossValidator(tr, ds2, n_folds=3, max_epochs=k,
                        valfunc=lambda m, t: folds.append((content(t), ModuleValidator.MSE(m, t))) or folds[-1][1])
    got = cv.validate()
    c.close(got, np.mean([f[1] for f in folds]), 'crossvalidation/mean', 1e-12, '')
    for test, perf in folds:
        m = net.copy()
        keys = [s[0] for s in test]
        rest = [s for s in content(ds2) if s[0] not in keys]
        d = SupervisedDataSet(2, 1)
        for s in rest:
            d.addSample(*s)
        t = BackpropTrainer(m, d, learningrate=0.01, batchlearning=True)
        for _ in range(k):
            t.train()
        err = np.mean([(m.activate(x)[0] - y[0]) ** 2 for x, y in test])
        c.close(perf, err, 'crossvalidation/training', 1e-7, '')
    c.close(net.params, before, 'crossvalidation/original', 0, '')
    c.sig('cvreal', len(S), k)


def net_for(c, di, do, recurrent):
    r = c.r
    kw = dict(bias=r.random() < .5, outclass=r.choice([LinearLayer, SigmoidLayer, TanhLayer]))
    if recurrent:
        return buildNetwork(di, r.randint(1, 3), do, recurrent=True,
                            hiddenclass=r.choice([LSTMLayer, SigmoidLayer]), **kw)
    return buildNetwork(di, r.randint(1, 3), do, **kw)


def outputs(net, Q):
    """Outputs over sequences, from an independently reset copy."""
    res = []
    for q in Q:
        m = net.copy()
        m.reset()
        res.append([np.array(m.activate(s[0])) for s in q])
    return res


def k_measures(c):
    r = c.r
    shape = r.choice(['supervised', 'sequential', 'importance'])
    di, do = r.randint(1, 3), r.randint(1, 3)
    if shape == 'supervised':
        ds, S = supervised(c, di=di, do=do)
        Q = [[s] for s in S]
        net = net_for(c, di, do, False)
    else:
        ds, Q = sequential(c, SequentialDataSet if shape == 'sequential' else ImportanceDataSet, di=di, do=do)
        net = net_for(c, di, do, True)
    for q in Q:
        for s in q:
            s[0][0] -= 1010.0
    ds['input'][:, 0] -= 1010.0
    params = fl(net.params)
    if r.random() < .5:
        net.activate(rnd_vec(c, di))          # a dirty history must not matter
    out = outputs(net, Q)
    flat = [s for q in Q for s in q]
    O = np.array([o for q in out for o in q])
    T = np.array([s[1] for s in flat])
    if shape == 'importance':
        W = np.array([s[2] for s in flat])
        c.ev('importance mse')
        msev = float((W * (O - T) ** 2).sum() / W.sum())
        half = 0.5 * msev
        c.close(Validator.MSE(O, T, W), msev, 'mse/importance', 1e-9)
    else:
        msev = float(((O - T) ** 2).mean())
        half = 0.5 * msev
        c.close(Validator.MSE(O, T), msev, 'mse/plain', 1e-9)
        c.close(Validator.MSE(O.tolist(), T.tolist()), msev, 'mse/lists', 1e-9)
    c.ev('mse')
    c.close(Validator.ESS(O, T), ((O - T) ** 2).sum(axis=0), 'ess', 1e-9)
    c.close(ModuleValidator.calculateModuleOutput(net, ds), O, 'module output', 1e-9, shape)
    c.ev('sequence output')
    c.close(ModuleValidator.MSE(net, ds), msev, 'module mse', 1e-9, shape)
    c.close(ModuleValidator.validate(Validator.MSE, net, ds), msev, 'module validate', 1e-9, shape)
    net.reset()
    for k in (1, r.randint(1, 3)):
        c.close(ds.evaluateModuleMSE(net, averageOver=k), half, 'evaluateModuleMSE', 1e-9, '%s over %d' % (shape, k))
    if shape == 'supervised':
        c.close(ds.evaluateMSE(net.activate), half, 'evaluateMSE', 1e-9, shape)
    c.close(net.params, params, 'measures/parameters', 0, 'validation changed the module')
    c.eq(content(ds), [tuple(s[:2]) for s in flat], 'measures/data', 'validation changed the dataset')
    c.sig('measures', shape, di, do, [len(q) for q in Q]) if len(flat) > 2 else None


def k_hits(c):
    r = c.r
    n, k = r.randint(1, 40), r.randint(1, 5)
    a = [r.randrange(k) for _ in range(n)]
    b = [r.randrange(k) for _ in range(n)]
    hit = sum(x == y for x, y in zip(a, b)) / n
    c.ev('hit rate')
    c.close(Validator.classificationPerformance(a, b), hit, 'hit rate', 1e-12)
    c.close(Validator.classificationPerformance(np.array(a).reshape(n, 1), np.array(b).reshape(n, 1)), hit, 'hit rate/column', 1e-12)
    D = np.array([fl(rnd_vec(c, k)) for _ in range(n)])
    u = Unchanged(D=D)
    cl = ClassificationHelper.oneOfManyToClasses(D)
    c.eq([int(v) for v in cl], [max(range(k), key=lambda j: D[i, j]) for i in range(n)], 'oneOfManyToClasses', '')
    u.verify(c, 'oneOfManyToClasses/input')
    c.sig('hits', n, k, a)

    # whole sequences are classified by their summed outputs
    do = r.randint(2, 4)
    di = r.randint(1, 3)
    ds = SequentialDataSet(di, do)
    Q = []
    for s in range(r.randint(1, 7)):
        ds.newSequence()
        cls = r.randrange(do)
        q = []
        for i in range(r.randint(1, 5)):
            last = cls
            x, t = fl(rnd_vec(c, di, 2)), [float(j == last) for j in range(do)]
            ds.addSample(x, t)
            q.append((x, t))
        Q.append(q)
    net = buildNetwork(di, 2, do, recurrent=True, outclass=r.choice([SoftmaxLayer, LinearLayer]), bias=True)
    out = outputs(net, Q)
    good = 0
    for q, o in zip(Q, out):
        good += int(np.argmax(np.sum(o, axis=0))) == int(np.argmax(q[-1][1]))
    c.close(testOnSequenceData(net, ds), good / len(Q), 'sequence hit rate', 1e-12, 'lengths %s' % [len(q) for q in Q])
    c.ev('sequence hit rate')
    ends = list(np.cumsum([len(q) for q in Q]) - 1)
    c.eq([int(e) for e in SequenceHelper.getSequenceEnds(ds)], [int(e) for e in ends], 'sequence ends', '')
    c.eq([int(np.ravel(e)[0]) for e in SequenceHelper.getSequenceStarts(ds)],
         [0] + [int(e) + 1 for e in ends[:-1]], 'sequence starts', '')
    imp = SequenceHelper.getSequenceEndsImportance(ds)
    c.eq(fl(imp), [float(i in ends) for i in range(len(ds))], 'sequence ends importance', '')
    c.ev('sequence helper')
    c.sig('seqhits', [len(q) for q in Q], do)

    # the class of a module whose single output is a class number
    d1 = SupervisedDataSet(1, 1)
    w = r.choice([1.0, 2.0])
    net = buildNetwork(1, 1, bias=False)
    net._setParameters(np.array([w]))
    exp = 0
    m = r.randint(1, 12)
    for i in range(m):
        x, t = float(r.randrange(4)), float(r.randrange(4))
        d1.addSample([x], [t])
        exp += (w * x == t)
    c.close(ModuleValidator.classificationPerformance(net, d1), exp / m, 'module hit rate', 1e-12)


def k_windows(c):
    r = c.r
    ds, Q = sequential(c, maxlen=9)
    w = r.randint(1, 5)
    win = convertSequenceToTimeWindows(ds, SupervisedDataSet, w)
    exp = []
    for q in Q:
        for k in range(0, len(q) - w + 1, w):
            exp.append(([v for s in q[k:k + w] for v in s[0]], q[k + w - 1][1]))
    c.eq(content(win), exp, 'windows', 'lengths %s window %d' % ([len(q) for q in Q], w))
    c.eq((win.indim, win.outdim), (ds.indim * w, ds.outdim), 'windows/dims', '')
    c.eq(seqs(ds), Q, 'windows/original', '')
    c.ev('windows')
    c.sig('windows', [len(q) for q in Q], w)


def k_normalize(c):
    r = c.r
    n, d = r.randint(2, 15), r.randint(1, 4)
    X = np.array([[r.gauss(3, 4) for _ in range(d)] for _ in range(n)])
    if r.random() < .25:
        X[:, r.randrange(d)] = 2.5       # a constant feature
    field = r.choice(['input', 'target'])
    meanstd = r.random() < .5
    lo = r.uniform(-3, 1)
    hi = lo + r.uniform(0.5, 3)

    def make(A):
        ds = SupervisedDataSet(d, d)
        other = np.arange(len(A) * d, dtype=float).reshape(len(A), d)
        for i in range(len(A)):
            ds.addSample(*((A[i], other[i]) if field == 'input' else (other[i], A[i])))
        return ds, other
    ds, other = make(X)
    norm = DataSetNormalizer(meanstd=meanstd)
    with np.errstate(all='ignore'):
        norm.calculate(ds, bounds=[lo, hi], field=field)
    c.close(ds[field], X, 'normalize/calculate', 0, 'calculating changed the data')

    def expected(A):
        E = np.zeros_like(A)
        for j in range(d):
            col = X[:, j]
            if meanstd:
                s = np.std(col)
                E[:, j] = (A[:, j] - np.mean(col)) / (s if s > 0 else 1.0)
            else:
                a, b = col.min(), col.max()
                E[:, j] = (A[:, j] - a) * ((hi - lo) / (b - a) if b > a else 1.0) + lo
        return E
    Y = X if r.random() < .5 else X[::-1] * r.uniform(.5, 2)
    ds2, other2 = make(Y)
    norm.normalize(ds2, field)
    c.close(ds2[field], expected(Y), 'normalize', 1e-7, 'meanstd=%s bounds %s' % (meanstd, (lo, hi)))
    c.close(ds2['target' if field == 'input' else 'input'], other2, 'normalize/other field', 0, '')
    c.ev('normalize')
    if meanstd is False and not np.any(X.max(0) == X.min(0)):
        c.close(norm.normalizePattern(Y[0]), expected(Y)[0], 'normalize/pattern', 1e-7, '')
        if Y is X:
            c.close([ds2[field].min(0), ds2[field].max(0)], [[lo] * d, [hi] * d], 'normalize/range', 1e-7, '')
    if d > 1:
        bad = SupervisedDataSet(d - 1, d - 1)
        bad.addSample([0.0] * (d - 1), [0.0] * (d - 1))
        c.raises(IndexError, lambda: norm.normalize(bad, field), 'normalize/dimension', '')
    c.raises(IndexError, lambda: DataSetNormalizer().normalize(ds, field), 'normalize/uninitialised', '')
    fd, f = tempfile.mkstemp()
    os.close(fd)
    try:
        norm.save(f)
        with np.errstate(all='ignore'):
            back = DataSetNormalizer(f)
        c.eq(bool(back.meanstd), meanstd, 'normalizer file/kind', '')
        ds3, _ = make(Y)
        back.normalize(ds3, field)
        c.close(ds3[field], expected(Y), 'normalizer file', 1e-7, 'after save and load')
        c.ev('normalizer file')
    finally:
        os.unlink(f)
    c.sig('norm', n, d, meanstd, field)


def k_svm(c):
    r = c.r
    n, d = r.randint(1, 12), r.randint(1, 6)
    X, y = [], []
    lines = []
    for i in range(n):
        x = [r.gauss(0, 1) if r.random() < .6 else 0.0 for _ in range(d)]
        if i == 0:
            x[-1] = 1.5
        t = r.randrange(4)
        X.append(x)
        y.append([float(t)])
        items = ['%d:%r' % (j + 1, v) for j, v in enumerate(x) if v != 0.0 or r.random() < .2]
        if not items:
            items, x[0] = ['1:0.5'], 0.5
        lines.append('%d %s' % (t, ' '.join(items)))
    r.shuffle
    tmp = tempfile.mkdtemp()
    f = os.path.join(tmp, 'data.svm')
    try:
        with open(f, 'w') as fh:
            fh.write('\n'.join(lines) + '\n')
        ds = SVMData(f)
    finally:
        if os.path.exists(f):
            os.unlink(f)
        os.rmdir(tmp)
    c.eq(content(ds), list(zip(X, y)), 'svm file', lines)
    c.eq({int(k): int(v) for k, v in ds.classHist.items()},
         {int(t): [q[0] for q in y].count(t) for t in set(q[0] for q in y)}, 'svm file/histogram', '')
    c.eq(ds.nClasses, len(set(q[0] for q in y)), 'svm file/classes', '')
    c.ev('svm file')
    c.sig('svm', n, d, y)


KINDS = [('split', k_split, 400, 6000), ('batches', k_batches, 200, 3000), ('cross', k_cross, 120, 2000),
         ('crossreal', k_cross_real, 24, 300), ('measures', k_measures, 150, 2500), ('hits', k_hits, 150, 2500),
         ('windows', k_windows, 150, 2000), ('normalize', k_normalize, 200, 3000), ('svm', k_svm, 100, 1500)]
