"""P32: training tools - grid searches over meta-parameters, network training tools, support vector machines."""
import copy, csv, logging, math, os, sys, tempfile, types
import numpy as np
from pybrain.datasets import ClassificationDataSet, SequenceClassificationDataSet, SupervisedDataSet
from pybrain.supervised.trainers import BackpropTrainer, RPropMinusTrainer
from pybrain.tools.customxml import NetworkReader
from pybrain.tools.gridsearch import GridSearch2D, GridSearchDOE, GridSearchCostGamma, GridSearchDOECostGamma
from pybrain.tools.neuralnets import NNregression, NNclassifier
from pybrain.tools.svmdata import SVMData
from vp.p12 import seed

RULE = ('a case runs one search or one training tool on a random task while the monitors record every validation, training and evaluation it makes; non-trivial with at least two '
        'settings or two increments; distinct by bounds, sizes and performances')
EXPECT = ['square range', 'grid', 'line', 'every setting once', 'best setting', 'design of experiments', 'level', 'inside the bounds', 'cost and gamma', 'folds', 'validated once', 'regression',
          'classification', 'sequences', 'increment', 'stopped early', 'ran to the end', 'best weights', 'no test data', 'curve saved', 'network saved', 'one of many', 'svm trained',
          'svm classified', 'svm grid', 'svm design of experiments', 'svm log', 'model file', 'libsvm data', 'raw data']
ASSUMPTIONS = ['libsvm is not installed: a stand-in with its interface records what it is given and answers by a known function', 'ties between settings may be broken either way',
               'the errors themselves are judged in P09']

logging.disable(logging.CRITICAL)


def perf_fn(c):
    k = c.r.choice(['hill', 'random', 'flat', 'slope', 'negative'])
    a, b = c.r.uniform(-1, 1), c.r.uniform(-1, 1)
    table = {}
    rr = c.r

    def f(p):
        x, y = float(p[0]), float(p[1])
        if k == 'hill':
            return -(x - 10 * a) ** 2 - (y - 10 * b) ** 2 * .3
        if k == 'flat':
            return .5
        if k == 'slope':
            return x * a + y * b
        if k == 'negative':
            return -100 - abs(math.sin(3 * x + a) * math.cos(2 * y + b))
        key = (x, y)
        if key not in table:
            table[key] = rr.random()
        return table[key]
    return k, f


def k_grid(c):
    r = c.r
    lo = [r.uniform(-10, 5), r.uniform(-10, 5)]
    hi = [lo[0] + r.uniform(.5, 10), lo[1] + r.uniform(.5, 10)]
    n = r.choice([1, 2, 3, 7, (2, 5), (5, 2), (1, 4), (4, 4), [3, 8], 9])
    nc, ng = (n, n) if isinstance(n, int) else n
    kind, f = perf_fn(c)
    calls, lines, values = [], [], {}

    class G(GridSearch2D):
        def _validate(self, p):
            calls.append(tuple(float(v) for v in p))
            values[calls[-1]] = f(p)
            return values[calls[-1]]

        def _onStep(self):
            c.ev('line')
            xs, ys = sorted(set(p[0] for p in calls)), sorted(set(p[1] for p in calls))
            c.eq(sorted(calls), sorted((x, y) for x in xs for y in ys), 'a step without a complete grid')
            lines.append(len(calls))
            c.eq({tuple(map(float, k)): v for k, v in self.getPerformances().items()}, values, 'performances during the search')
    g = G(lo, hi, n)
    best = g.search()
    want = sorted((x, y) for x in np.linspace(lo[0], hi[0], nc) for y in np.linspace(lo[1], hi[1], ng))
    c.close(np.array(sorted(calls)).reshape(len(calls), 2), want, 'settings of the grid')
    c.eq(len(set(calls)), len(calls), 'settings validated twice')
    c.ev('every setting once', len(calls))
    c.ok(tuple(map(float, best)) in values and values[tuple(map(float, best))] == max(values.values()), 'best setting',
         lambda: '%s has %s, the maximum is %s' % (best, values.get(tuple(best)), max(values.values())))
    c.ev('best setting')
    c.ok(len(lines) >= 1 and lines[-1] == nc * ng, 'steps of the grid search')
    p = g.getPerformances()
    c.eq({tuple(map(float, k)): v for k, v in p.items()}, values, 'performances')
    p.clear()
    c.eq(len(g.getPerformances()), nc * ng, 'the performances given out belong to the caller')
    c.ev('grid')
    c.sig(nc, ng, kind, best)


def k_doe(c):
    r = c.r
    lo = np.array([r.uniform(-10, 5), r.uniform(-10, 5)])
    hi = lo + [r.uniform(.5, 10), r.uniform(.5, 10)]
    if r.random() < .4:
        lo, hi = np.array([-5., -15.]), np.array([15., 3.])
    n = r.randint(1, 6)
    kind, f = perf_fn(c)
    calls, values = [], []
    table = []

    class G(GridSearchDOE):
        def _validate(self, p):
            calls.append(np.array(p, float))
            # the same place has the same performance, up to rounding
            for q, v in table:
                if np.allclose(q, p, rtol=0, atol=1e-9):
                    values.append(v)
                    return v
            v = f(p)
            table.append((np.array(p, float), v))
            values.append(v)
            return v
    g = G(list(lo), list(hi), n)
    best = np.array(g.search())
    c.eq(len(calls), 13 * n, 'validations of the search')
    if len(calls) != 13 * n:
        return
    centre = (lo + hi) / 2
    pat = np.array([(x, y) for x in (-1, 0, 1) for y in (-1, 0, 1)] + [(x, y) for x in (-.5, .5) for y in (-.5, .5)])
    for l in range(n):
        c.ev('level')
        pts, vals = np.array(calls[13 * l:13 * l + 13]), values[13 * l:13 * l + 13]
        half = (hi - lo) / 2 ** (l + 1)
        mid = np.minimum(np.maximum(centre, lo + half), hi - half)
        want = pat * half + mid
        o = lambda a: a[np.lexsort(np.round((a - lo) / (hi - lo) * 2 ** 10).T)]
        c.close(o(pts), o(want), 'settings of level %d' % min(l, 1), 1e-7)
        c.ok((pts >= lo - 1e-9).all() and (pts <= hi + 1e-9).all(), 'settings outside the bounds', lambda: '%s..%s' % (pts.min(0), pts.max(0)))
        c.ev('inside the bounds', 13)
        ok = [np.allclose(p, b, atol=1e-9) for p, b, in zip(pts, pts) for _ in [0]]
        top = [p for p, v in zip(pts, vals) if v == max(vals)]
        nxt = best if l == n - 1 else None
        if nxt is not None:
            c.ok(any(np.allclose(p, nxt, rtol=0, atol=1e-9) for p in top), 'best of the last level', lambda: '%s, best were %s' % (nxt, top))
        else:
            # the next grid is around one of the best
            npts = np.array(calls[13 * l + 13:13 * l + 26])
            nmid = (npts.min(0) + npts.max(0)) / 2
            h2 = half / 2
            cand = [p for p in top if np.allclose(np.minimum(np.maximum(p, lo + h2), hi - h2), nmid, rtol=0, atol=1e-7)]
            c.ok(len(cand) > 0, 'next grid around the best', lambda: 'middle %s, best were %s' % (nmid, top))
            if not cand:
                return
            centre = cand[0]
    c.ok(max(values) <= [v for q, v in table if np.allclose(q, best, rtol=0, atol=1e-9)][0], 'best of all levels')
    c.eq(len(g._performances) <= 13 * n, True, 'performances')
    c.ev('design of experiments')
    c.ev('best setting')
    c.sig(n, kind, np.round(best, 6))


class StubModule:
    indim = outdim = 1

    def __init__(self):
        self.quality = 0

    def reset(self):
        pass

    def activate(self, x):
        # the samples below the quality are right
        x = float(np.ravel(x)[0])
        return np.array([x if x < self.quality else -1.0])


class StubTrainer:
    log = []

    def __init__(self, quality):
        self.fn, self.args, self.sets, self.module, self.ds = quality, {}, [], StubModule(), None
        self.original = True

    def __deepcopy__(self, memo):
        t = StubTrainer(self.fn)
        t.args, t.ds, t.original = dict(self.args), self.ds, False
        t.module.quality = self.module.quality
        return t

    def setArgs(self, **kw):
        self.args.update(kw)
        StubTrainer.log.append(('args', self, dict(kw)))

    def setData(self, ds):
        self.ds = ds

    def train(self):
        self.module.quality = self.fn(self.args['cost'], self.args['gamma'])
        StubTrainer.log.append(('train', self, sorted(float(x[0]) for x in self.ds['input'])))

    def trainEpochs(self, n):
        for _ in range(n):
            self.train()


def k_costgamma(c):
    seed(c.seed)
    r = c.r
    doe = r.random() < .5
    N = r.randint(6, 30)
    ds = SupervisedDataSet(1, 1)
    for i in range(N):
        ds.addSample([i], [i])
    a, b = r.randint(-5, 15), r.randint(-15, 3)
    folds = r.choice([None, 2, 3, 5])
    epochs = r.choice([None, 1, 3])

    def q(cost, gamma):
        return max(0, N - abs(math.log(cost, 2) - a) - .7 * abs(math.log(gamma, 2) - b))
    StubTrainer.log = log = []
    t = StubTrainer(q)
    t.args = {'cost': 1, 'gamma': 1, 'other': 7}
    kw = {}
    if folds:
        kw[r.choice(['nfolds', 'folds'])] = folds
    if epochs:
        kw['max_epochs'] = epochs
    lims = [-5, -15], [15, 3]
    if r.random() < .4:
        # a point and its mirror image are two
        lims = [-4, -4], [4, 4]
        c.ev('square range')
    if doe:
        g = GridSearchDOECostGamma(t, ds, *lims, n_iterations=r.randint(1, 3), **kw)
    else:
        n = r.choice([2, 3, (2, 4), 5])
        g = GridSearchCostGamma(t, ds, *lims, n_steps=n, **kw)
    best = g.search()
    K, E = folds or 5, epochs or 1
    perf = g.getPerformances() if hasattr(g, 'getPerformances') else dict(g._performances)
    c.eq(t.args, {'cost': 1, 'gamma': 1, 'other': 7}, 'the trainer given was changed')
    c.eq(t.module.quality, 0, 'the module given was trained')
    settings = [e for e in log if e[0] == 'args']
    trains = [e for e in log if e[0] == 'train']
    seen = [(math.log(e[2]['cost'], 2), math.log(e[2]['gamma'], 2)) for e in settings]
    c.eq(len(set(seen)), len(seen), 'settings validated twice')
    c.ev('validated once', len(seen))
    c.eq(len(trains), len(seen) * K * E, 'trainings of the search')
    c.close(sorted(seen), sorted(perf), 'settings of the search', 1e-9)
    if not c.violations:
        for i, (x, y) in enumerate(seen):
            mine = trains[i * K * E:(i + 1) * K * E]
            sh = []
            for k in range(K):
                group = mine[k * E:(k + 1) * E]
                c.eq(len(set(id(e[1]) for e in group)), 1, 'one trainer per fold')
                c.ok(all(e[1].args.get('other') == 7 for e in group), 'settings of the trainer lost')
                test = sorted(set(range(N)) - set(group[0][2]))
                c.ev('folds')
                qq = q(2 ** x, 2 ** y)
                sh.append(sum(v < qq for v in test) / float(len(test)))
            key = min(perf, key=lambda p: abs(p[0] - x) + abs(p[1] - y))
            c.close(perf[key], np.mean(sh), 'performance of a setting', 1e-9)
    bp = tuple(map(float, best))
    key = min(perf, key=lambda p: abs(p[0] - bp[0]) + abs(p[1] - bp[1]))
    c.close(bp, key, 'best setting', 1e-9)
    if not doe:
        c.close(perf[key], max(perf.values()), 'best setting', 1e-12)
    c.ev('cost and gamma')
    c.sig(doe, N, K, E, best)


# --------------------------------------------------------------- network training tools

def scratch(c):
    return tempfile.mkdtemp(prefix='p32-')


def drop(d):
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    os.rmdir(d)


class Recorder:
    """Subclasses a trainer so that every increment of training is recorded with the parameters it reached."""

    def __init__(self, base, meddle):
        rec = self
        self.runs = []
        self.made = []

        class T(base):
            def __init__(self, module, *a, **kw):
                base.__init__(self, module, *a, **kw)
                rec.made.append((self, module, kw))

            def trainEpochs(self, epochs=1, *a, **kw):
                base.trainEpochs(self, epochs, *a, **kw)
                meddle(self.module, len(rec.runs))
                rec.runs.append((epochs, np.array(self.module.params)))
        self.cls = T


def plan(c, net, k):
    pass


def errors(net, params, ds, kind):
    """Own computation of the error, on a copy of the network."""
    net = net.copy()
    net._setParameters(np.array(params))
    if kind == 'regression':
        net.reset()
        out = []
        for x in ds['input']:
            out.append(np.array(net.activate(x)))
        return float(np.mean((np.array(out) - ds['target']) ** 2))
    if kind == 'class':
        good = 0
        for x, t in zip(ds['input'], ds['target']):
            net.reset()
            good += np.argmax(net.activate(x)) == np.argmax(t)
        return 100. * (1 - good / float(len(ds)))
    good = 0
    st = [int(v) for v in ds['sequence_index'][:, 0]] + [len(ds['input'])]
    for a, b in zip(st, st[1:]):
        net.reset()
        s = 0
        for x in ds['input'][a:b]:
            s = s + np.array(net.activate(x))
        good += np.argmax(s) == np.argmax(ds['target'][b - 1])
    return 100. * (1 - good / float(len(st) - 1))


def regdata(c, n, di, do):
    d = SupervisedDataSet(di, do)
    for _ in range(n):
        d.addSample(c.np.normal(0, 1, di), c.np.normal(0, 1, do))
    return d


def clsdata(c, n, di, k):
    d = ClassificationDataSet(di, 1, nb_classes=k)
    for i in range(n):
        d.addSample(c.np.normal(0, 1, di) + (i % k), [i % k])
    return d


def seqdata(c, n, di, k):
    d = SequenceClassificationDataSet(di, 1, nb_classes=k)
    for i in range(n):
        d.newSequence()
        for _ in range(c.r.randint(1, 4)):
            d.appendLinked(c.np.normal(0, 1, di) + (i % k), [i % k])
    return d


def k_training(c):
    seed(c.seed)
    r = c.r
    kind = c.kind[3:]
    di = r.randint(1, 3)
    k = r.choice([2, 3])
    make = {'regression': lambda n: regdata(c, n, di, k - 1), 'class': lambda n: clsdata(c, n, di, k), 'sequence': lambda n: seqdata(c, n, di, k)}[kind]
    ds = make(r.randint(3, 12))
    tds = make(r.choice([r.randint(2, 8), 20])) if r.random() < .75 else None
    vds = make(r.randint(2, 8)) if r.random() < .6 else None
    raw = {n: np.array(d['target']) for n, d in (('DS', ds), ('TDS', tds), ('VDS', vds)) if d is not None}
    inputs = {n: np.array(d['input']) for n, d in (('DS', ds), ('TDS', tds), ('VDS', vds)) if d is not None}
    inc = r.choice([1, 2, 3])
    maxe = inc * r.randint(1, 6) + r.choice([0, 0, 0, 1])
    conv = r.choice([0, 0, 1, 2, 3])
    noisy = r.random() < .6
    scale = r.choice([.3, 1., 3.])
    if noisy and tds is not None and r.random() < .4:
        maxe, conv = inc * r.randint(6, 10), r.choice([2, 3])

    def meddle(module, i):
        # disturb the parameters now and then, so that the test error goes up and down
        if noisy and i:
            module._setParameters(module.params + c.np.normal(0, scale, module.paramdim))
    rec = Recorder(r.choice([BackpropTrainer, RPropMinusTrainer]) if kind != 'sequence' else BackpropTrainer, meddle)
    tool = (NNregression if kind == 'regression' else NNclassifier)(ds, epoinc=inc, maxepochs=maxe)
    tool.set(TDS=tds, VDS=vds)
    if kind == 'regression' or r.random() < .5:
        tool.set(hidden=4)
        H = 4
    else:
        H = 10
    kw = {}
    if r.random() < .5:
        H = kw['hidden'] = r.randint(1, 4)
    setup = tool.setupRNN if kind == 'sequence' else tool.setupNN
    setup(trainer=rec.cls, verbose=False, **kw)
    tr, net, args = rec.made[0]
    c.eq(len(rec.made), 1, 'trainers made')
    c.ok(tool.Trainer is tr and args.get('dataset') is ds and args.get('verbose') is False, 'trainer set up')
    c.eq((net.indim, net.outdim, net['hidden0'].outdim), (di, k - 1 if kind == 'regression' else k, H), 'network set up')
    if kind != 'regression':
        for n, d in (('DS', ds), ('TDS', tds), ('VDS', vds)):
            if d is not None:
                c.ev('one of many')
                c.close(d['target'], np.eye(k)[raw[n][:, 0].astype(int)], 'targets in one-of-many form', 0, n)
                c.close(d['class'], raw[n], 'classes kept', 0, n)
        tool._convertAllDataToOneOfMany()
        c.eq(ds.outdim, k, 'converted twice')
    p0 = np.array(net.params)
    tool.runTraining(convergence=conv)
    # the reference: which increments should have been run, and what the curves should be
    steps = len(rec.runs)
    c.ok(all(e == inc for e, _ in rec.runs), 'epochs per increment')
    trn = [errors(net, p, ds, kind) for _, p in rec.runs]
    tst = [errors(net, p, tds, kind) for _, p in rec.runs] if tds is not None else []
    best, since, bi = float('inf'), 0, None
    want = None
    for i in range(steps):
        c.ev('increment')
        if tds is not None:
            if tst[i] < best - 1e-12:
                best, since, bi = tst[i], 0, i
            else:
                since += 1
            if conv > 0 and since >= conv:
                want = i + 1
                break
        if (i + 1) * inc >= maxe:
            want = i + 1
            break
    if want is None:
        c.fail('stopped too early', '%d increments of %d epochs, at most %d epochs, %d without improvement, convergence %d' % (steps, inc, maxe, since, conv))
    else:
        c.eq(steps, want, 'increments', 'of %d epochs, at most %d epochs, convergence %d' % (inc, maxe, conv))
        c.ev('stopped early' if want * inc < maxe else 'ran to the end')
    x, y, v = tool.trainCurve
    c.eq([int(q) for q in x], [inc * i for i in range(steps + 1)], 'epochs of the curve')
    c.close(y[1:], trn, 'training curve', 1e-7)
    c.eq(len(y), steps + 1, 'length of the curve')
    c.close(v[1:], tst, 'test curve', 1e-7)
    if tds is None:
        c.ev('no test data')
    if vds is not None and tds is not None and bi is not None:
        c.ev('best weights')
        c.close(net.params, rec.runs[bi][1], 'weights after the validation', 0)
    elif steps:
        c.close(net.params, rec.runs[-1][1], 'weights after the training', 0)
    for n, d in (('DS', ds), ('TDS', tds), ('VDS', vds)):
        if d is not None:
            c.close(d['input'], inputs[n], 'inputs changed', 0, n)
            if kind == 'regression':
                c.close(d['target'], raw[n], 'targets changed', 0, n)
    d = scratch(c)
    try:
        f = os.path.join(d, 'curve.csv')
        tool.saveTrainingCurve(f)
        rows = [[float(q) for q in row] for row in csv.reader(open(f)) if row]
        cols = [x[1:], y[1:]] + ([v[1:]] if tds is not None else [])
        c.close(np.array(rows), np.array(cols).T, 'curve in the file', 1e-9)
        c.ev('curve saved')
        f = os.path.join(d, 'net.xml')
        tool.saveNetwork(f)
        n2 = NetworkReader.readFrom(f)
        for xx in ds['input'][:4]:
            if kind != 'sequence':
                net.reset(), n2.reset()
            c.close(n2.activate(xx), net.activate(xx), 'network in the file', 1e-9)
        c.ev('network saved')
    finally:
        drop(d)
    c.ev({'regression': 'regression', 'class': 'classification', 'sequence': 'sequences'}[kind])
    c.sig(kind, di, k, inc, maxe, conv, steps, noisy, tds is None, vds is None)


# --------------------------------------------------------------- support vector machines

class Svm:
    """The stand-in for libsvm's python interface; score(C, gamma) is the share of right answers in cross-validations."""
    log = []
    score = None

    class svm_parameter:
        def __init__(self, **kw):
            self.__dict__.update(kw)
            self.kw = dict(kw)
            Svm.log.append(('parameter', dict(kw)))

    class svm_problem:
        def __init__(self, y, x):
            self.y, self.x = [float(v) for v in y], [list(v) for v in x]

    class svm_model:
        def __init__(self, a, param=None):
            if param is None:
                self.param, self.problem = {'file': open(a).read()}, None
            else:
                self.param, self.problem = dict(param.kw), a

        def save(self, f):
            with open(f, 'w') as fh:
                fh.write(repr(sorted((k, v) for k, v in self.param.items() if k in ('C', 'gamma'))))

        def predict(self, x):
            return ('class', round(float(sum(x)), 6))

        def predict_values(self, x):
            return ('raw', round(float(sum(x)), 6))

        def predict_probability(self, x):
            return ('prob', round(float(sum(x)), 6))

        def get_nr_class(self):
            return len(set(self.problem.y))

    @staticmethod
    def cross_validation(problem, param, k):
        Svm.log.append(('cv', param.kw['C'], param.kw['gamma'], k))
        good = int(round(Svm.score(param.kw['C'], param.kw['gamma']) * len(problem.y)))
        return [v if i < good else v + 1 for i, v in enumerate(problem.y)]


def svm_mod():
    if 'svm' not in sys.modules or not hasattr(sys.modules['svm'], 'stand_in'):
        m = types.ModuleType('svm')
        m.stand_in = True
        for n in ('svm_model', 'svm_parameter', 'svm_problem', 'cross_validation'):
            setattr(m, n, getattr(Svm, n))
        for i, n in enumerate(['C_SVC', 'NU_SVC', 'ONE_CLASS', 'EPSILON_SVR', 'NU_SVR']):
            setattr(m, n, i)
        for i, n in enumerate(['LINEAR', 'POLY', 'RBF', 'SIGMOID', 'PRECOMPUTED']):
            setattr(m, n, i)
        sys.modules['svm'] = m
    from pybrain.supervised.trainers import svmtrainer
    from pybrain.structure.modules.svmunit import SVMUnit
    return svmtrainer, SVMUnit


def k_svm(c):
    mod, SVMUnit = svm_mod()
    r = c.r
    Svm.log = []
    di = r.randint(1, 3)
    ds = clsdata(c, r.randint(4, 20), di, r.choice([2, 3]))
    y = np.array(ds['target'])[:, 0]
    unit = SVMUnit()
    tr = mod.SVMTrainer(unit, ds)
    kw = {}
    lC, lg = r.randint(-5, 10), r.randint(-10, 3)
    if r.random() < .8:
        kw['log2C'] = lC
    if r.random() < .8:
        kw['log2g'] = lg
    if r.random() < .3:
        kw['weight'] = [1, 2]
    if r.random() < .5:
        kw['eps'] = .1
    given = dict(kw)
    tr.train(**kw)
    want = {'kernel_type': 2}
    if 'log2C' in given:
        want['C'] = 2 ** lC
    if 'log2g' in given:
        want['gamma'] = 2 ** lg
    if 'weight' in given:
        want.update(weight=[1, 2], nr_weight=2)
    if 'eps' in given:
        want['eps'] = .1
    c.eq(unit.model.param, want, 'parameters of the machine')
    c.eq(unit.model.problem.y, [float(v) for v in y], 'targets of the machine')
    c.close(unit.model.problem.x, ds['input'], 'inputs of the machine', 0)
    c.eq(unit.getNbClasses(), len(set(y)), 'classes of the machine')
    c.ev('svm trained')
    for val, name in ((False, 'class'), ('class', 'class'), (True, 'raw'), ('raw', 'raw'), ('prob', 'prob')):
        out = unit.activateOnDataset(ds, values=val) if val is not False else unit.activateOnDataset(ds)
        c.eq(out, [(name, round(float(sum(x)), 6)) for x in ds['input']], 'classification')
        c.ev('svm classified', len(out))
    unit.reset()
    c.ok(unit.input is None and unit.output is None, 'reset of the unit')
    d = scratch(c)
    try:
        f = os.path.join(d, 'model')
        tr.save(f)
        text = open(f).read()
        u2 = SVMUnit()
        mod.SVMTrainer(u2, ds, modelfile=f)
        c.eq(u2.model.param, {'file': text}, 'model file')
        c.ev('model file')
    finally:
        drop(d)
    c.sig(sorted(want), len(y), lC, lg)


def k_svmsearch(c):
    mod, SVMUnit = svm_mod()
    r = c.r
    Svm.log = log = []
    ds = clsdata(c, r.randint(10, 40), 2, 2)
    y = np.array(ds['target'])[:, 0]
    N = len(y)
    a, b = r.uniform(0, 25), r.uniform(-7, 1)
    w = r.choice([.02, .05])
    Svm.score = staticmethod(lambda C, g: max(0., 1 - w * abs(math.log(C, 2) - a) - 2 * w * abs(math.log(g, 2) - b)))
    doe = r.random() < .6
    d = scratch(c)
    try:
        f = os.path.join(d, 'log.txt')
        if not doe and r.random() < .5 or doe and r.random() < .4:
            unit = SVMUnit()
            tr = mod.SVMTrainer(unit, ds)
            tr.train(search='GridSearchDOE' if doe else 'GridSearch', searchlog=f, eps=.25)
            lo, hi, st, cv, depth = [0, -7], [25, 1], [.5, .2], 5, 8
            model = unit.model
        else:
            lo = [r.randint(-5, 10), r.randint(-7, 0)]
            hi = [lo[0] + r.randint(1, 12), lo[1] + r.randint(1, 8)]
            st = [r.choice([1, .5, 2, .25]), r.choice([1, .5, 2])]
            cv, depth = r.choice([2, 3, 5]), r.randint(0, 5)
            problem = sys.modules['svm'].svm_problem(y, ds['input'].tolist())
            cls = mod.GridSearchDOE if doe else mod.GridSearch
            model = cls(problem, y, lo, hi, st, crossval=cv, maxdepth=depth, searchlog=f, eps=.25, kernel_type=2)
        rows = [[float(v) for v in l.split(',')] for l in open(f) if l.strip()]
    finally:
        drop(d)
    runs = [(math.log(e[1], 2), math.log(e[2], 2), e[3]) for e in log if e[0] == 'cv']
    pts = [(x, z) for x, z, _ in runs]
    sc = [int(round(Svm.score(2 ** x, 2 ** z) * N)) / float(N) for x, z in pts]
    c.ok(all(k == cv for _, _, k in runs), 'parts of the cross-validation')
    c.close(np.array(rows)[:, :2], pts, 'search log', 1e-4)
    c.close(np.array(rows)[:, 2], sc, 'accuracy in the search log', 1e-4)
    c.ev('svm log', len(rows))
    c.ok(len(set(np.round(pts, 9).ravel().tolist() and [tuple(q) for q in np.round(pts, 9).tolist()])) == len(pts), 'settings validated twice')
    P = np.array(pts)
    c.ok((P >= np.array(lo) - 1e-9).all() and (P <= np.array(hi) + 1e-9).all(), 'settings outside the bounds')
    if not doe:
        rng = lambda k: [lo[k] + i * st[k] for i in range(int(math.floor((hi[k] - lo[k]) / st[k] + 1e-9)) + 2)]
        want = sorted((x, z) for x in rng(0) for z in rng(1) if x <= hi[0] + 1e-9 and z <= hi[1] + 1e-9)
        # accumulated steps of .2 need not reach the end
        got = sorted(pts)
        miss = [q for q in want if np.min(np.abs(P - q).sum(1)) > 1e-6]
        c.ok(all(abs(q[0] - hi[0]) < 1e-6 or abs(q[1] - hi[1]) < 1e-6 for q in miss) and len(got) + len(miss) == len(want), 'settings of the grid',
             lambda: '%d of %d, missing %s' % (len(got), len(want), miss[:4]))
        if all(float(s * 4).is_integer() for s in st):
            c.eq(len(miss), 0, 'settings of the grid')
        c.ev('svm grid')
    else:
        c.ok(len(pts) <= 13 * (depth + 1) and len(pts) >= 13, 'validations of the search', lambda: '%d settings, depth %d' % (len(pts), depth))
        pat = np.array([(x, z) for x in (-1, 0, 1) for z in (-1, 0, 1)] + [(x, z) for x in (-.5, .5) for z in (-.5, .5)])
        lo_, hi_ = np.array(lo, float), np.array(hi, float)
        # replay the search: the grid of each level is half as wide, around the best of the level before
        Q = lambda q: tuple(int(v) for v in np.rint((np.array(q) - lo_) / (hi_ - lo_) * 2 ** (depth + 4)))
        known, order, mids = {}, 0, [(lo_ + hi_) / 2]
        for l in range(depth + 1):
            half = (hi_ - lo_) / 2 ** (l + 1)
            cand = []
            for m in mids:
                m = np.minimum(np.maximum(m, lo_ + half), hi_ - half)
                g = [Q(q) for q in pat * half + m]
                new = [q for q in g if q not in known]
                if sorted(new) == sorted(Q(q) for q in pts[order:order + len(new)]):
                    cand = [g, new]
                    break
            c.ok(len(cand) > 0, 'settings of level %d' % min(l, 1), lambda: 'none of the grids around %s has the settings %s' % (mids, pts[order:order + 13]))
            if not cand:
                return
            for q, s in zip(pts[order:order + len(cand[1])], sc[order:]):
                known[Q(q)] = s
            order += len(cand[1])
            top = max(known[q] for q in cand[0])
            mids = [np.array(q) / 2.0 ** (depth + 4) * (hi_ - lo_) + lo_ for q in cand[0] if known[q] == top]
        c.eq(order, len(pts), 'settings beyond the last level')
        c.ev('svm design of experiments')
    C, g = model.param['C'], model.param['gamma']
    i = int(np.argmin(np.abs(P - [math.log(C, 2), math.log(g, 2)]).sum(1)))
    c.close(P[i], [math.log(C, 2), math.log(g, 2)], 'parameters chosen were not tried', 1e-6)
    c.eq(sc[i], max(sc), 'parameters chosen are not the best tried', '2**%s, 2**%s' % (math.log(C, 2), math.log(g, 2)))
    c.eq(model.param.get('eps'), .25, 'other parameters lost')
    c.eq(model.param.get('kernel_type'), 2, 'kernel lost')
    c.ev('best setting')
    c.sig(doe, lo, hi, st, len(pts))


def k_svmdata(c):
    r = c.r
    d = scratch(c)
    try:
        D = SVMData()
        for rep in range(r.randint(1, 2)):
            n, di, k = r.randint(1, 12), r.randint(1, 4), r.randint(1, 4)
            X = [[round(r.uniform(-5, 5), 4) if r.random() < .7 else 0. for _ in range(di)] for _ in range(n)]
            if not any(x[-1] for x in X):
                X[0][-1] = 1.5
            y = [r.randrange(k) for _ in range(n)]
            if r.random() < .5:
                f = os.path.join(d, 'a%d.svm' % rep)
                with open(f, 'w') as fh:
                    for x, t in zip(X, y):
                        fh.write('%s %s\n' % (r.choice(['%d', '+%d', '%d.0']) % t, ' '.join('%d:%s' % (i + 1, v) for i, v in enumerate(x) if v)))
                ncls = len(set(y))
                c.ev('libsvm data')
            else:
                f = os.path.join(d, 'x%d.data' % rep)
                with open(f, 'w') as fh:
                    fh.write(''.join(' '.join(map(str, x)) + '\n' for x in X))
                with open(f.replace('data', 'targets'), 'w') as fh:
                    fh.write(''.join(' '.join('1' if i == t else '0' for i in range(k)) + '\n' for t in y))
                ncls = k
                c.ev('raw data')
            D.loadData(f)
            c.close(D['input'], X, 'inputs of the file', 1e-12)
            c.close(D['target'], [[t] for t in y], 'targets of the file', 0)
            c.close(D.getTargets(), [[t] for t in y], 'targets given out', 0)
            c.eq((len(D), D.indim, D.outdim), (n, di, 1), 'dimensions of the file')
            c.eq(D.getNbSamples(), n, 'number of samples')
            c.eq(D.getNbClasses(), ncls, 'number of classes')
            c.eq({int(a): b for a, b in D.getClassHistogram().items()}, {t: y.count(t) for t in set(y)}, 'histogram')
            c.eq(sorted(D.getClass(i) for i in range(len(set(y)))), sorted(set(y)), 'classes')
            c.eq(D.getFileName(), f, 'file name')
            D.getTargets()[0][0] = 99
            c.close(D['target'], [[t] for t in y], 'the targets given out belong to the caller', 0)
            c.sig(n, di, k, y)
    finally:
        drop(d)


KINDS = [('grid', k_grid, 60, 1200), ('doe', k_doe, 60, 1200), ('costgamma', k_costgamma, 20, 300), ('nn-regression', k_training, 30, 500), ('nn-class', k_training, 30, 500),
         ('nn-sequence', k_training, 12, 200), ('svm', k_svm, 40, 600), ('svmsearch', k_svmsearch, 24, 300), ('svmdata', k_svmdata, 60, 1000)]
