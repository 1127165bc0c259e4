"""P08: class-labelled datasets keep, convert and partition their labels faithfully."""
import io, os, pickle
import numpy as np
from pybrain.datasets import ClassificationDataSet, SequenceClassificationDataSet, SupervisedDataSet

RULE = ('a case builds a random class-labelled dataset (1-40 samples, 1-6 classes, some classes absent) and runs '
        'every conversion against a model kept as Python lists; non-trivial when it has two classes or more and '
        'four samples or more; distinct by label sequence')
EXPECT = ['oneOfMany', 'roundtrip', 'histogram', 'add', 'splitByClass', 'castToRegression', 'libsvm',
          'sequence class', 'sequence remove', 'sequence oneOfMany', 'pickle', 'implicit classes', 'seqsplit', 'made from arrays', 'sequences from arrays']


def ints(a):
    return [int(v) for v in np.ravel(a)]


def make(c, n=None, k=None, labels=True, nb=True, d=None):
    r = c.r
    k = k or r.randint(1, 6)
    n = n or r.randint(1, 40)
    d = d or r.randint(1, 4)
    X = [[r.gauss(0, 1) for _ in range(d)] for _ in range(n)]
    y = [r.randrange(k) for _ in range(n)]
    names = ['name%d' % i for i in range(k)]
    style = r.choice(['add', 'arrays'])
    if style == 'add':
        ds = ClassificationDataSet(d, 1, nb_classes=k if nb else 0, class_labels=names if labels else None)
        for x, t in zip(X, y):
            ds.addSample(x, r.choice([[t], np.array([t])]))
    else:
        ds = ClassificationDataSet(np.array(X), np.array(y).reshape(n, 1), nb_classes=k if nb else 0,
                                   class_labels=names if labels else None)
    return ds, X, y, k, names, style


def same(c, ds, X, y, key):
    c.eq([list(map(float, r)) for r in ds['input']], X, key + '/inputs')
    c.eq(ints(ds['target']), y, key + '/targets')


def k_convert(c):
    ds, X, y, k, names, style = make(c)
    r = c.r
    n = len(X)
    if style == 'arrays':
        c.eq(ints(ds['class']), y, 'made from arrays/class field')
        c.eq({int(a): int(b) for a, b in ds.classHist.items()}, {i: y.count(i) for i in range(k)}, 'made from arrays/histogram')
        c.eq(np.asarray(ds['target']).dtype.kind, 'i', 'made from arrays/type of targets')
        same(c, ds, X, y, 'made from arrays')
        plain = ClassificationDataSet(np.array(X), np.array(y).reshape(n, 1))
        c.eq((plain.nClasses, sorted(map(int, plain.class_labels))), (len(set(y)), sorted(set(y))), 'made from arrays/implicit classes')
        c.ev('made from arrays')
    hist = ds.calculateStatistics()
    c.eq({int(a): int(b) for a, b in hist.items()}, {i: y.count(i) for i in range(k)}, 'histogram')
    c.eq(ds.nClasses, k, 'number of classes')
    c.ev('histogram')
    for i in range(k):
        c.eq(ds.getClass(i), names[i], 'labels')
    bounds = r.choice([(0, 1), (-1, 1), (-3, 7), (1, 0), (0.25, 0.75), (-0.5, 0.5), (0, 0.9)])
    if bounds == (0, 1) and r.random() < .5:
        ds._convertToOneOfMany()
    else:
        ds._convertToOneOfMany(bounds=bounds if r.random() < .5 else list(bounds))
    exp = [[bounds[1] if j == t else bounds[0] for j in range(k)] for t in y]
    c.close(ds['target'], np.array(exp, dtype=float), 'one of many', 1e-12, 'bounds %s' % (bounds,))
    c.eq(ints(ds['class']), y, 'one of many/class field')
    c.eq([list(map(float, w)) for w in ds['input']], X, 'one of many/inputs')
    c.eq(ds.outdim, k, 'one of many/outdim')
    c.eq(len(ds), n, 'one of many/length')
    for i in range(n):
        s = ds.getSample(i)
        c.eq([float(v) for v in s[0]], X[i], 'one of many/sample')
        c.close(s[1], exp[i], 'one of many/sample')
    c.ev('oneOfMany', n)
    cp = pickle.loads(pickle.dumps(ds)) if r.random() < .5 else ds.copy()
    c.eq(cp.nClasses, k, 'copies/number of classes')
    c.eq(list(cp.class_labels), list(ds.class_labels), 'copies/labels')
    c.close(cp['target'], np.array(exp, dtype=float), 'copies/targets')
    c.ev('pickle')
    if k > 1:
        ds._convertToOneOfMany(bounds=(5, 6))     # already converted: stays
        c.close(ds['target'], np.array(exp, dtype=float), 'one of many/twice')
    for d in (ds, cp):
        d._convertToClassNb()
        same(c, d, X, y, 'roundtrip')
        c.eq(d.outdim, 1, 'roundtrip/outdim')
        c.ev('roundtrip')
    if k > 1 and n > 3:
        c.sig(tuple(y), bounds)
    c.sample({'labels': y, 'bounds': bounds, 'style': style})


def k_select(c):
    ds, X, y, k, names, style = make(c)
    r = c.r
    n = len(X)
    ds.assignClasses()
    onehot = r.random() < .4
    if onehot:
        ds._convertToOneOfMany()
    targ = np.array(ds['target'], dtype=float)
    cls = r.randrange(k)
    extra = r.choice([None, None, 'aux', 'importance'])
    if extra:
        ds.addField(extra, 1)
        ds.setField(extra, np.arange(n).reshape(n, 1) + .5)
    if not onehot and r.random() < .2:
        # number of classes not known before
        ds.nClasses = 0
        ds = ds.copy()
        k = None
    a, b = ds.splitByClass(cls)
    for part, idx in ((a, [i for i in range(n) if y[i] == cls]), (b, [i for i in range(n) if y[i] != cls])):
        c.eq([list(map(float, w)) for w in part['input']], [X[i] for i in idx], 'split by class/inputs')
        c.close(part['target'], targ[idx], 'split by class/targets')
        c.eq(ints(part['class']), [y[i] for i in idx], 'split by class/class')
        c.eq(len(part), len(idx), 'split by class/length')
        if extra:
            c.close(np.ravel(part[extra]), np.array(idx) + .5, 'split by class/' + extra)
        c.eq(part.nClasses, len(set(y[i] for i in idx)) if k is None else k, 'split by class/number of classes')
    k = k or max(y) + 1
    c.eq([list(map(float, w)) for w in ds['input']], X, 'split by class/source')
    c.close(ds['target'], targ, 'split by class/source')
    c.ev('splitByClass')
    values = np.array([r.gauss(0, 3) for _ in range(k)])
    reg = ds.castToRegression(values)
    c.eq(isinstance(reg, SupervisedDataSet) and not isinstance(reg, ClassificationDataSet), True, 'regression/type')
    c.eq([list(map(float, w)) for w in reg['input']], X, 'regression/inputs')
    c.close(np.ravel(reg['target']), [values[t] for t in y], 'regression/targets')
    c.eq(len(reg), n, 'regression/length')
    c.ev('castToRegression')
    if k > 1 and n > 3:
        c.sig(tuple(y), cls, onehot)
    c.sample({'labels': y, 'selected': cls, 'one of many': onehot})


def k_add(c):
    r = c.r
    d = r.randint(1, 3)
    k = r.randint(2, 5)
    A, XA, yA, _, _, _ = make(c, k=k, d=d)
    B, XB, yB, _, _, _ = make(c, k=k, d=d)
    S = A + B
    same(c, S, XA + XB, yA + yB, 'sum')
    S.assignClasses()
    c.eq(ints(S['class']), yA + yB, 'sum/class field')
    c.eq(S.nClasses, k, 'sum/number of classes')
    same(c, A, XA, yA, 'sum/left operand')
    same(c, B, XB, yB, 'sum/right operand')
    c.ev('add')
    C, _, _, _, _, _ = make(c, k=k + 1, d=d)
    c.raises(IndexError, lambda: A + C, 'sum/classes disagree')
    D, _, _, _, _, _ = make(c, k=k, d=d + 1)
    c.raises(TypeError, lambda: A + D, 'sum/dimensions disagree')
    sup = SupervisedDataSet(d, 1)
    c.raises(TypeError, lambda: A + sup, 'sum/types disagree')
    E = A.copy()
    E._convertToOneOfMany()
    c.raises(TypeError, lambda: E + B, 'sum/one of many')
    if len(XA) + len(XB) > 3:
        c.sig(tuple(yA), tuple(yB))
    # number of classes derived from the data
    F, XF, yF, kF, _, _ = make(c, labels=False, nb=False)
    F.assignClasses()
    c.eq(F.nClasses, len(set(yF)), 'implicit classes')
    c.eq(ints(F['class']), yF, 'implicit classes/field')
    G, XG, yG, kG, _, _ = make(c, labels=False, nb=False, d=F.indim)
    F.nClasses = G.nClasses = 0
    S = F + G
    same(c, S, XF + XG, yF + yG, 'sum/implicit classes')
    c.eq(S.nClasses, len(set(yF + yG)), 'sum/implicit classes')
    c.eq(ints(S['class']), yF + yG, 'sum/implicit classes')
    c.ev('implicit classes')
    Q, _, _, _ = seqmake(c)
    c.raises(NotImplementedError, lambda: Q + Q, 'sum/sequences')
    c.sample({'left': yA, 'right': yB})


def k_libsvm(c):
    r = c.r
    n, d = r.randint(1, 12), r.choice([1, 2, 3, 4, 5, 6, 9, 10, 11, 25])
    rowsl, lab, text = [], [], ''
    for i in range(n):
        row = [0.0] * d
        t = r.randrange(4)
        ids = sorted(r.sample(range(d), r.randint(1, d)))
        if i == 0 and d - 1 not in ids:
            ids.append(d - 1)
        s = '%d' % t
        for j in ids:
            row[j] = round(r.gauss(0, 2), 4) if r.random() < .85 else 0.0
            s += ' %d:%s' % (j + 1, row[j])
        text += s + '\n'
        rowsl.append(row)
        lab.append(t)
    ds = ClassificationDataSet.load_libsvm(io.StringIO(text))
    same(c, ds, rowsl, lab, 'libsvm')
    c.eq(ds.indim, d, 'libsvm/features')
    c.ev('libsvm', n)
    if n > 3:
        c.sig(text)
    c.sample(text[:200])


def seqmake(c, k=None, minlen=1):
    r = c.r
    k = k or r.randint(1, 4)
    d = r.randint(1, 3)
    ds = SequenceClassificationDataSet(d, 1, nb_classes=k)
    seqs = []
    for s in range(r.randint(1, 12)):
        ds.newSequence()
        q = []
        for _ in range(r.randint(minlen, 5)):
            x, t = [r.gauss(0, 1) for _ in range(d)], r.randrange(k)
            ds.addSample(x, [t])
            q.append((x, t))
        seqs.append(q)
    ds.assignClasses()
    return ds, seqs, k, d


def seqsame(c, ds, seqs, key):
    c.eq(int(ds.getNumSequences()), len(seqs), key + '/number')
    for i, q in enumerate(seqs):
        X, T = ds.getSequence(i)[:2]
        c.eq([list(map(float, x)) for x in X], [s[0] for s in q], key + '/inputs')
        c.eq(ints(T), [s[1] for s in q], key + '/targets')


def k_seq(c):
    ds, seqs, k, d = seqmake(c)
    r = c.r
    last = [q[-1][1] for q in seqs]
    c.eq(ints(ds.getSequenceClass()), last, 'sequence class/all')
    for i in range(len(seqs)):
        c.eq(int(ds.getSequenceClass(i)), last[i], 'sequence class/one')
    c.raises(IndexError, lambda: ds.getSequenceClass(len(seqs)), 'sequence class/bounds')
    c.ev('sequence class', len(seqs))
    hist = ds.calculateStatistics()
    ally = [s[1] for q in seqs for s in q]
    c.eq({int(a): int(b) for a, b in hist.items()}, {i: ally.count(i) for i in range(k)}, 'histogram/sequences')
    nrem = 0
    while len(seqs) > 1 and r.random() < .7:
        i = r.randrange(len(seqs))
        ds.removeSequence(i)
        del seqs[i]
        nrem += 1
        seqsame(c, ds, seqs, 'sequence removal')
        if r.random() < .3:                  # and it grows again
            x, t = [r.gauss(0, 1) for _ in range(d)], r.randrange(k)
            ds.newSequence()
            ds.addSample(x, [t])
            ds.assignClasses()
            seqs.append([(x, t)])
            seqsame(c, ds, seqs, 'sequence added after a removal')
        c.ok(all(len(x) == 2 for q in ds for x in q) and len(ds.getLinked(0)) == 2, 'sequence removal/samples')
        c.eq(ints(ds['class']), [s[1] for q in seqs for s in q], 'sequence removal/class field')
        c.eq(ints(ds.getSequenceClass()), [q[-1][1] for q in seqs], 'sequence removal/classes')
        c.ev('sequence remove')
    ally = [s[1] for q in seqs for s in q]
    ds._convertToOneOfMany()
    c.close(ds['target'], np.array([[float(j == t) for j in range(k)] for t in ally]), 'one of many/sequences')
    c.eq(ints(ds.getSequenceClass()), [q[-1][1] for q in seqs], 'sequence class/one of many')
    ds._convertToClassNb()
    seqsame(c, ds, seqs, 'roundtrip/sequences')
    c.ev('sequence oneOfMany')
    if len(ally) > 3 and k > 1:
        c.sig(tuple(ally), nrem)
    c.sample({'sequences': [[s[1] for s in q] for q in seqs], 'removed': nrem})


def k_seqarrays(c):
    """Sequences from arrays; samples that appear without their class."""
    r = c.r
    k, d, n = r.randint(1, 4), r.randint(1, 3), r.randint(1, 12)
    X = [[r.gauss(0, 1) for _ in range(d)] for _ in range(n)]
    y = [r.randrange(k) for _ in range(n)]
    names = ['n%d' % i for i in range(k)]
    ds = SequenceClassificationDataSet(np.array(X), np.array(y).reshape(n, 1), nb_classes=k, class_labels=names)
    c.eq(int(ds.getNumSequences()), 1, 'sequences from arrays/number')
    seqs = [list(zip(X, y))]
    seqsame(c, ds, seqs, 'sequences from arrays')
    c.eq(ints(ds['class']), y, 'sequences from arrays/class field')
    c.eq({int(a): int(b) for a, b in ds.classHist.items()}, {i: y.count(i) for i in range(k)}, 'sequences from arrays/histogram')
    c.eq([ds.getClass(i) for i in range(k)], names, 'sequences from arrays/labels')
    for _ in range(r.randint(1, 4)):
        ds.newSequence()
        q = [([r.gauss(0, 1) for _ in range(d)], r.randrange(k)) for _ in range(r.randint(1, 4))]
        for x, t in q:
            ds.appendLinked(x, [t])
        seqs.append(q)
    i = r.randrange(len(seqs))
    if r.random() < .5:
        ds.removeSequence(i)              # assigns the classes that are missing
        del seqs[i]
    else:
        ds.calculateStatistics()
    ally = [t for q in seqs for x, t in q]
    seqsame(c, ds, seqs, 'sequences grown')
    c.eq(ints(ds['class']), ally, 'sequences grown/class field')
    c.eq(ints(ds.getSequenceClass()), [q[-1][1] for q in seqs], 'sequences grown/classes')
    c.eq([len(x) for x in (ds['input'], ds['target'], ds['class'])], [len(ally)] * 3, 'sequences grown/length')
    c.ev('sequences from arrays')
    if n > 3 and k > 1:
        c.sig(tuple(y), tuple(ally))
    c.sample({'labels': ally})


def k_seqsplit(c):
    ds, seqs, k, d = seqmake(c)
    r = c.r
    tf = r.choice([0, .15, .3, .5])
    vf = r.choice([0, 0, .2, .4])
    parts = ds.stratifiedSplit(testfrac=tf, evalfrac=vf)
    last = [q[-1][1] for q in seqs]
    exp_n = {}
    for cl in range(k):
        n = last.count(cl)
        exp_n[cl] = (n - int(tf * n) - int(vf * n), int(tf * n), int(vf * n))
    got = []
    for pi, p in enumerate(parts):
        cnt = {cl: 0 for cl in range(k)}
        if len(p) > 0:
            for i in range(int(p.getNumSequences())):
                X, T = p.getSequence(i)[:2]
                key = (tuple(tuple(float(v) for v in x) for x in X), int(p.getSequenceClass(i)))
                got.append(key)
                cnt[key[1]] += 1
                c.eq(len(set(ints(T))), 1, 'stratified split/one class per sequence')
        for cl in range(k):
            c.eq(cnt[cl], exp_n[cl][pi], 'stratified split/share of class')
    exp = sorted((tuple(tuple(s[0]) for s in q), q[-1][1]) for q in seqs)
    c.eq(sorted(got), exp, 'stratified split/every sequence once')
    c.eq(len(parts), 3 if any(v[2] for v in exp_n.values()) else 2, 'stratified split/parts')
    seqsame(c, ds, seqs, 'stratified split/source')
    c.ev('seqsplit')
    if len(seqs) > 3:
        c.sig(tuple(last), tf, vf)
    c.sample({'classes': last, 'testfrac': tf, 'evalfrac': vf})


KINDS = [('convert', k_convert, 400, 6000), ('select', k_select, 300, 5000), ('add', k_add, 120, 2500),
         ('libsvm', k_libsvm, 100, 1500), ('sequences', k_seq, 250, 4000), ('seqsplit', k_seqsplit, 250, 4000), ('seqarrays', k_seqarrays, 200, 3000)]
