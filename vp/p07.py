"""P07: a dataset's observable content equals that of a list-of-samples model after any history."""
import os, pickle, io, copy, tempfile
import numpy as np
from pybrain.datasets import (SupervisedDataSet, SequentialDataSet, ImportanceDataSet,
                              ReinforcementDataSet, UnsupervisedDataSet)
from pybrain.datasets.dataset import DataSet, OutOfSyncError, NoLinkedFieldsError, VectorFormatError
from pybrain.datasets.sequential import EmptySequenceError
from vp.core import rnd_vec

RULE = ('a case is one random history of 5-60 public operations on one dataset (class, field sizes and '
        'operation mix drawn at random), mirrored in a list model and compared after every operation; '
        'a case counts as non-trivial when its history changed the content at least 3 times; cases are '
        'distinct by their operation sequence')
EXPECT = ['op:sequence from the end', 'op:bare arrays', 'op:from the end', 'op:add', 'op:newSequence', 'op:removeSequence', 'op:clear', 'op:copy', 'op:pickle', 'op:file',
          'compare:full', 'compare:sequence', 'op:rejectAppend', 'op:emptySequence', 'op:setField', 'op:convert',
          'op:random access', 'op:iterate', 'op:endOfSequence', 'op:vectorformat', 'op:nans', 'op:unlinked', 'op:new dimension']
ASSUMPTIONS = ['the list model is the specification; NaN inputs are only used for the replacement operation']


def flat(x):
    return [float(v) for v in np.ravel(x)]


def rows(ds, label):
    return [flat(r) for r in ds.getField(label)]


class Model:
    """Samples as tuples of lists; sequences as lists of samples."""
    def __init__(self, labels):
        self.labels = labels
        self.seqs = [[]]

    def all(self):
        return [s for q in self.seqs for s in q]

    def clone(self):
        m = Model(self.labels)
        m.seqs = copy.deepcopy(self.seqs)
        return m


def compare(c, ds, m, seq, tag):
    allv = m.all()
    c.ev('compare:full')
    c.eq(len(ds), len(allv), 'length', tag)
    for i, l in enumerate(m.labels):
        c.eq(rows(ds, l), [s[i] for s in allv], 'content', '%s field %s' % (tag, l))
        c.eq(ds.getDimension(l), len(allv[0][i]) if allv else ds.getDimension(l), 'dimension', tag)
    if not seq:
        return
    c.eq(int(ds.getNumSequences()), len(m.seqs), 'sequences/number', tag)
    for k, q in enumerate(m.seqs):
        c.ev('compare:sequence')
        c.eq(ds.getSequenceLength(k), len(q), 'sequences/length', '%s seq %d' % (tag, k))
        got = ds.getSequence(k)
        for i, l in enumerate(m.labels):
            c.eq([flat(r) for r in got[i]], [s[i] for s in q], 'sequences/content', '%s seq %d %s' % (tag, k, l))
        it = [tuple(flat(x) for x in s) for s in ds.getSequenceIterator(k)]
        c.eq(it, [tuple(s) for s in q], 'sequences/iterator', tag)
    its = [[tuple(flat(x) for x in s) for s in q] for q in ds]
    c.eq(its, [[tuple(s) for s in q] for q in m.seqs], 'sequences/iteration', tag)
    for bad in (len(m.seqs), len(m.seqs) + 2):
        c.raises(IndexError, lambda: ds.getSequence(bad), 'sequences/bounds', tag)
        c.raises(IndexError, lambda: ds.getSequenceLength(bad), 'sequences/bounds', tag)
        c.raises(IndexError, lambda: ds.removeSequence(bad), 'sequences/bounds', tag)
        c.raises(IndexError, lambda: ds.endOfSequence(bad), 'sequences/bounds', tag)
        c.raises(IndexError, lambda: ds.gotoSequence(bad), 'sequences/bounds', tag)
        c.raises(IndexError, lambda: list(ds.getSequenceIterator(bad)), 'sequences/bounds', tag)


def history(c, cls):
    r = c.r
    seq = issubclass(cls, SequentialDataSet)
    d1, d2 = r.randint(1, 4), r.randint(1, 3)
    if cls is UnsupervisedDataSet:
        ds, labels, dims = cls(d1), ['sample'], [d1]
    elif cls is ReinforcementDataSet:
        ds, labels, dims = cls(d1, d2), ['state', 'action', 'reward'], [d1, d2, 1]
    elif cls is ImportanceDataSet:
        ds, labels, dims = cls(d1, d2), ['input', 'target', 'importance'], [d1, d2, d2]
    else:
        ds, labels, dims = cls(d1, d2), ['input', 'target'], [d1, d2]
    m = Model(labels)
    log, changes = [], 0
    frozen_copies = []
    nops = r.randint(5, 60)
    for step in range(nops):
        op = r.choice(['add'] * 8 + ['new'] * 4 + ['remove'] * 3 + ['access'] * 2 +
                      ['clear', 'copy', 'pickle', 'file', 'reject', 'iterate', 'marker', 'vectorformat', 'setField'])
        tag = '%s step %d %s' % (cls.__name__, step, op)
        if op == 'add':
            for _ in range(r.choice([1, 1, 2, 5])):
                s = [[float(r.randint(-9, 9)) + r.random() for _ in range(d)] for d in dims]
                arg = [list(x) if r.random() < .5 else np.array(x) for x in s]
                if cls is ImportanceDataSet and r.random() < .4:
                    s[2] = [1.0] * d2
                    arg = arg[:2]
                if r.random() < .3:
                    ds.appendLinked(*(arg if len(arg) == len(dims) else arg + [np.ones(d2)]))
                else:
                    ds.addSample(*arg)
                for a in arg:            # later changes of the caller's data must not matter
                    a[0] = 12345.0
                m.seqs[-1].append(s)
                c.ev('op:add')
            changes += 1
        elif op == 'new':
            if not seq:
                continue
            if not m.all():
                ds.newSequence()         # documented: no effect at the very start
            elif not m.seqs[-1]:
                c.raises(EmptySequenceError, ds.newSequence, 'sequences/empty', tag)
                c.ev('op:emptySequence')
            else:
                ds.newSequence()
                m.seqs.append([])
                changes += 1
            c.ev('op:newSequence')
        elif op == 'remove':
            if not seq or not m.all():
                continue
            n = len(m.seqs)
            k = r.randrange(n)
            for f in (ds.getSequence, ds.getSequenceLength, ds.removeSequence, ds.endOfSequence, ds.gotoSequence):
                c.raises(IndexError, lambda: f(r.choice([-n - 1, -n - 3, n, n + 2])), 'sequences/bounds', '%s %s of %d' % (tag, f.__name__, n))
            # negative numbers count from the last sequence, if they are taken at all
            try:
                got = [[flat(x) for x in row] for row in zip(*ds.getSequence(k - n))]
                c.eq(got, m.seqs[k], 'sequences/from the end', '%s: number %d' % (tag, k - n))
                c.eq(ds.getSequenceLength(k - n), len(m.seqs[k]), 'sequences/from the end', '%s: length of number %d' % (tag, k - n))
                c.ev('op:sequence from the end')
                ds.removeSequence(r.choice([k, k, k - n]))
            except IndexError:
                ds.removeSequence(k)
            del m.seqs[k]
            if k == len(m.seqs):
                idx = len(m.all())
            else:
                idx = sum(len(q) for q in m.seqs[:k])
            if not m.all():
                m.seqs = [[]]
                idx = 0
            if not m.seqs:
                m.seqs = [[]]
            c.eq(ds.index, idx, 'sequences/marker after removal', tag)
            c.ev('op:removeSequence')
            changes += 1
        elif op == 'clear':
            if r.random() < .6:
                continue
            ds.clear()
            m.seqs = [[]]
            c.eq(ds.endOfData(), True, 'clear', tag)
            c.ev('op:clear')
        elif op in ('copy', 'pickle', 'file'):
            if op == 'copy':
                other = ds.copy()
            elif op == 'pickle':
                other = pickle.loads(pickle.dumps(ds, r.choice([0, 1, 2])))
            else:
                fn = os.path.join(os.environ.get('TMPDIR', '/tmp'), 'ds-%d-%s.pickle' % (os.getpid(), c.idx))
                if r.random() < .5:
                    ds.saveToFile(fn, compact=r.random() < .5)
                    other = cls.loadFromFile(fn)
                else:
                    b = io.BytesIO()
                    ds.saveToFileLike(b)
                    b.seek(0)
                    other = cls.loadFromFileLike(b)
                if os.path.exists(fn):
                    os.unlink(fn)
            c.eq(type(other), type(ds), 'copies/type', tag)
            for a in ('indim', 'outdim', 'statedim', 'actiondim', 'dim'):
                if hasattr(ds, a):
                    c.eq(getattr(other, a, None), getattr(ds, a), 'copies/dimensions', tag + ' ' + a)
            c.eq(other.vectorformat, ds.vectorformat, 'copies/vector format', tag)
            compare(c, other, m, seq, tag + ' (copy)')
            # either of the two may go on; the other one must stay as it is now
            frozen_copies.append((ds if r.random() < .5 else other, m.clone(), step))
            if frozen_copies[-1][0] is ds:
                ds = other
            c.ev('op:' + op)
            changes += 1
        elif op == 'reject':
            c.raises(OutOfSyncError, lambda: ds.append(labels[0], [0.] * dims[0]), 'links/append to linked', tag)
            c.raises(VectorFormatError, lambda: ds.setVectorFormat('nonsense'), 'vector format', tag)
            c.ev('op:rejectAppend')
        elif op == 'access':
            n = len(m.all())
            if not n:
                continue
            i = r.randrange(n)
            get = ds.getSample if hasattr(ds, 'getSample') else ds.getLinked
            got = [flat(x) for x in get(i)]
            c.eq(got, m.all()[i], 'access/by index', tag)
            if i + 1 < n:
                got = [flat(x) for x in ds.getLinked()]
                c.eq(got, m.all()[i + 1], 'access/marker', tag)
            else:
                c.eq(bool(ds.endOfData()), True, 'access/end', tag)
            c.raises(IndexError, lambda: get(n), 'access/bounds', tag)
            # negative indices count from the end of the data, if they are taken at all; there is nothing before the first row
            back = r.randint(1, n)
            try:
                got = [flat(x) for x in get(-back)]
            except IndexError:
                got = m.all()[n - back]
            c.eq(got, m.all()[n - back], 'access/from the end', '%s -%d of %d' % (tag, back, n))
            c.raises(IndexError, lambda: get(-n - r.randint(1, 5)), 'access/bounds', tag)
            c.ev('op:from the end')
            ds.reset()
            c.ev('op:random access')
        elif op == 'iterate':
            if not seq:
                got = [[flat(x) for x in s] for s in ds]
                c.eq(got, m.all(), 'iteration', tag)
            ds.reset()
            got = []
            while not ds.endOfData():
                got.append([flat(x) for x in ds.getLinked()])
            c.eq(got, m.all(), 'iteration/marker', tag)
            ds.reset()
            c.ev('op:iterate')
        elif op == 'marker':
            if not seq or not m.all():
                continue
            nonempty = [k for k in range(len(m.seqs)) if m.seqs[k]]
            k = r.choice(nonempty)
            ds.gotoSequence(k)
            start = sum(len(q) for q in m.seqs[:k])
            c.eq(ds.index, start, 'sequences/goto', tag)
            c.eq(int(ds.getCurrentSequence()), k, 'sequences/current', tag)
            got = []
            while not ds.endOfSequence(k):
                got.append([flat(x) for x in ds.getLinked()])
                if len(got) > len(m.seqs[k]):
                    break
            c.eq(got, m.seqs[k], 'sequences/endOfSequence', tag)
            ds.reset()
            c.ev('op:endOfSequence')
        elif op == 'vectorformat':
            vf = r.choice(['none', '1d', '2d', 'list'])
            ds.vectorformat = vf
            c.eq(ds.vectorformat, vf, 'vector format', tag)
            if m.all():
                x = ds.getLinked(0)[0]
                shape = {'none': (dims[0],), '1d': (dims[0],), '2d': (1, dims[0]), 'list': (dims[0],)}[vf]
                c.eq(np.asarray(x).shape, shape, 'vector format/shape', tag)
                c.eq(isinstance(x, list), vf == 'list', 'vector format/type', tag)
                ds.reset()
            c.ev('op:vectorformat')
        elif op == 'setField':
            if cls is ReinforcementDataSet or not m.all():
                continue
            l = r.randrange(len(labels))
            if r.random() < .3 and labels[l] in ('input', 'target', 'sample') and cls is not ImportanceDataSet:
                dims[l] = r.randint(1, 4)       # also of another dimension
                c.ev('op:new dimension')
            new = [[float(r.randint(-9, 9)) for _ in range(dims[l])] for _ in m.all()]
            ds.setField(labels[l], np.array(new))
            k = 0
            for q in m.seqs:
                for s in q:
                    s[l] = new[k]
                    k += 1
            c.ev('op:setField')
            changes += 1
        log.append(op)
        if cls is not UnsupervisedDataSet:
            c.eq((ds.indim, ds.outdim), tuple(dims[:2]), 'dimensions', tag)
        if len(m.all()) < 60 or step % 5 == 0:
            compare(c, ds, m, seq, tag)
    compare(c, ds, m, seq, 'end')
    for other, om, st in frozen_copies:
        compare(c, other, om, seq, 'copy of step %d at the end' % st)
    ds.vectorformat = 'none'
    if cls is ReinforcementDataSet and all(m.seqs):
        for i, l in enumerate(labels):
            c.close(ds.getSumOverSequences(l), [np.sum([s[i] for s in q], 0) for q in m.seqs],
                    'sequences/sums', 1e-12, 'sum over sequences of ' + l)
    if changes >= 3:
        c.sig(cls.__name__, d1, d2, tuple(log))
    c.sample({'class': cls.__name__, 'dims': dims, 'ops': log[:20], 'samples at end': len(m.all()),
              'sequences at end': len(m.seqs)})


def k_sup(c): history(c, SupervisedDataSet)
def k_seq(c): history(c, SequentialDataSet)
def k_imp(c): history(c, ImportanceDataSet)
def k_rl(c): history(c, ReinforcementDataSet)
def k_uns(c): history(c, UnsupervisedDataSet)


def k_fields(c):
    """The generic dataset: fields, links, unlinked growth, conversion, nan replacement."""
    r = c.r
    ds = DataSet()
    model, links = {}, []
    dims = {}
    c.eq(len(ds), 0, 'fields/empty', 'empty dataset')
    c.raises(NoLinkedFieldsError, lambda: ds.getLinked(0), 'links/none', 'no links')
    log = []
    for step in range(r.randint(8, 50)):
        op = r.choice(['field', 'append', 'append', 'append', 'linked', 'linked', 'link', 'unlink', 'set', 'convert',
                       'clear', 'copy', 'nans'])
        tag = 'step %d %s' % (step, op)
        names = sorted(model)
        if op == 'field' and len(names) < 5:
            l = r.choice(['a', 'b', 'zz', 'm', 'x1'])
            if l in model:
                continue
            dims[l] = r.randint(1, 3)
            ds.addField(l, dims[l])
            model[l] = []
        elif op == 'append' and names:
            l = r.choice(names)
            row = [float(r.randint(-5, 5)) for _ in range(dims[l])]
            if l in links:
                c.raises(OutOfSyncError, lambda: ds.append(l, row), 'links/append to linked', tag)
            else:
                ds.append(l, row)
                model[l].append(row)
                c.ev('op:unlinked')
        elif op == 'linked' and links:
            rws = [[float(r.randint(-5, 5)) for _ in range(dims[l])] for l in links]
            ds.appendLinked(*rws)
            for l, w in zip(links, rws):
                model[l].append(w)
        elif op == 'link' and names:
            new = r.sample(names, r.randint(1, len(names)))
            if r.random() < .4:
                ds.clear(True)
                model = {l: [] for l in model}
            if len({len(model[l]) for l in new}) > 1:
                c.raises(OutOfSyncError, lambda: ds.linkFields(list(new)), 'links/unequal', tag)
            else:
                ds.linkFields(list(new))
                links = list(new)
        elif op == 'unlink':
            if r.random() < .3:
                ds.unlinkFields()
                links = []
            elif names:
                u = r.sample(names, r.choice([r.randint(1, len(names)), len(names)]))
                ds.unlinkFields(u)
                links = [l for l in links if l not in u]
        elif op == 'set' and names:
            l = r.choice(names)
            if l in links:
                continue
            n = r.randint(0, 5)
            model[l] = [[float(r.randint(-5, 5)) for _ in range(dims[l])] for _ in range(n)]
            ds.setField(l, np.array(model[l]).reshape(n, dims[l]))
            c.ev('op:setField')
        elif op == 'convert' and names:
            l = r.choice(names)
            ds.convertField(l, r.choice([float, int]) if all(v == int(v) for w in model[l] for v in w) else float)
            c.ev('op:convert')
            c.raises(KeyError, lambda: ds.convertField('absent', int), 'fields/absent', tag)
        elif op == 'clear':
            if r.random() < .7:
                continue
            both = r.random() < .5
            ds.clear(both)
            for l in (links if links and not both else names):
                model[l] = []
            c.ev('op:clear')
        elif op == 'copy':
            old, ds = ds, (ds.copy() if r.random() < .5 else pickle.loads(pickle.dumps(ds)))
            for l in names:
                old.data[l][...] = 777
            c.ev('op:copy')
        elif op == 'nans' and names:
            l = r.choice(names)
            if l in links or not model[l]:
                continue
            arr = np.array(model[l], dtype=float)
            for j in range(dims[l]):
                for i in range(len(arr)):
                    if r.random() < .3:
                        arr[i, j] = np.nan
            exp = arr.copy()
            for j in range(dims[l]):
                good = [v for v in arr[:, j] if v == v]
                if not good:
                    arr[0, j] = exp[0, j] = 2.
                    good = [2.]
                for i in range(len(arr)):
                    if exp[i, j] != exp[i, j]:
                        exp[i, j] = sum(good) / len(good)
            for k in names:          # other fields: floats, so that the replacement may look at them
                ds.convertField(k, float)
            k = r.randint(0, len(arr))
            ds.setField(l, arr[:k].copy())
            for row in arr[k:]:
                ds.append(l, row)
            ds.replaceNansByMeans()
            model[l] = [list(w) for w in exp]
            c.close(ds[l], exp, 'nans', 1e-9, tag)
            model[l] = [flat(w) for w in ds[l]]
            c.ev('op:nans')
        log.append(op)
        if links and model[links[0]]:
            got = ds.getLinked(len(model[links[0]]) - 1)
            c.eq([flat(x) for x in got], [model[l][-1] for l in links], 'links/last sample', '%s %s' % (tag, links))
        for l in model:
            c.eq(rows(ds, l), model[l], 'fields/content', '%s %s (log %s)' % (tag, l, log))
            c.eq(ds.hasField(l), True, 'fields/has', tag)
            c.eq(ds.getDimension(l), dims[l], 'fields/dimension', tag)
        c.eq(sorted(ds.getFieldNames()), sorted(model), 'fields/names', tag)
        c.eq(list(ds.link), links, 'links', tag)
        exp = len(model[links[0]]) if links else max([len(v) for v in model.values()] or [0])
        c.eq(len(ds), exp, 'fields/length', tag)
        if links and exp:
            i = r.randrange(exp)
            c.eq([flat(x) for x in ds.getLinked(i)], [model[l][i] for l in links], 'links/row', tag)
        c.ev('compare:full')
    c.raises(KeyError, lambda: ds.getDimension('absent'), 'fields/absent', 'dimension')
    if model and r.random() < .5:
        # files that hold the bare arrays
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'arrays')
            with open(f, 'wb') as o:
                pickle.dump({l: np.array(ds[l]) for l in model}, o)
            cls = r.choice([SupervisedDataSet, SequentialDataSet, ImportanceDataSet])
            new = cls.reconstruct(f)
            c.eq(type(new), cls, 'fields/bare arrays', 'class')
            for l in model:
                c.eq(rows(new, l), model[l], 'fields/bare arrays', l)
            c.ev('op:bare arrays')
    c.sig(tuple(log))
    c.sample({'ops': log, 'fields': {l: len(v) for l, v in model.items()}, 'links': links})


KINDS = [('supervised', k_sup, 60, 1500), ('sequential', k_seq, 160, 4000), ('importance', k_imp, 60, 1500),
         ('reinforcement', k_rl, 60, 1500), ('unsupervised', k_uns, 40, 800), ('fields', k_fields, 600, 6000)]
