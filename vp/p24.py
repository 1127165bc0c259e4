"""P24: shared utilities and mathematical functions."""
import math, random, itertools, threading, os, io, contextlib
import numpy as np
from pybrain import utilities as u
from pybrain.tools import functions as F
from pybrain.tools.kwargsprocessor import KWArgsProcessor
from pybrain.structure.parametercontainer import ParameterContainer
from vp.p12 import seed

RULE = ('a case calls one group of utilities on one random input; non-trivial when the input has at least two entries; distinct by function, size and kind of input')
EXPECT = ['draw', 'tolerant', 'refused', 'gibbs', 'gibbs greedy', 'gray', 'binary', 'one of n', 'combinations', 'cross product', 'decrement', 'reachable', 'start reached',
          'blocked', 'flood', 'relevant', 'no full set', 'permute', 'blocks 2d', 'blocks 3d', 'triangular', 'block diagonal', 'block matrix', 'found after', 'median', 'not found',
          'matching', 'sub dictionary', 'dictionary combinations', 'argmax', 'tied argmax', 'orthogonal', 'sparse orthogonal', 'unique arrays', 'binary array',
          'memoize', 'multi evaluate', 'store results', 'threaded', 'names', 'set arguments', 'weighted test', 'linear scale', 'percent error', 'format',
          'semilinear', 'expln', 'sigmoid', 'ranking', 'normal density', 'cauchy', 'square root', 'chi', 'derivative', 'keyword arguments', 'mandatory missing',
          'two dimensions', 'seeds', 'list text', 'import', 'trace', 'many values']
ASSUMPTIONS = ['frequencies are compared within six standard deviations (and a slack) under fixed seeds']


def freq(c, cnt, p, n, key, msg):
    p = np.asarray(p, float)
    c.ok((abs(cnt - n * p) <= 6 * np.sqrt(n * p * (1 - p)) + 3 * (p > 0)).all(), key, lambda: '%s: drawn %s times of %d, expected %s' % (msg, cnt, n, n * p))


def k_draw(c):
    seed(c.seed)
    n = c.r.randint(1, 7)
    w = np.array([c.r.choice([0., 1., c.r.random(), 10.]) for _ in range(n)])
    if w.sum() == 0:
        w[c.r.randrange(n)] = 1.
    p = w / w.sum()
    N = 400
    for tol in (False, True):
        given = (w if tol else p).copy()
        given = c.r.choice([list, np.array])(given)
        keep = list(given)
        cnt = np.zeros(n)
        for _ in range(N):
            i = u.drawIndex(given, tolerant=True) if tol else u.drawIndex(given)
            cnt[i] += 1
        freq(c, cnt, p, N, 'draw', 'tolerant' if tol else 'probabilities')
        c.ok((cnt[p == 0] <= 0).all(), 'draw', 'drew an index of probability zero')
        c.ok(list(given) == keep, 'input', 'probabilities were modified')
        c.ev('tolerant' if tol else 'draw')
    bad = p * c.r.choice([.5, 2., 1.01])
    with contextlib.redirect_stdout(io.StringIO()):
        c.raises(ValueError, lambda: u.drawIndex(bad), 'refused', 'probabilities do not sum to one')
    c.ev('refused')
    v = np.array([c.r.choice([0., 1., c.r.gauss(0, 2), c.r.gauss(0, 2)]) for _ in range(n)])
    t = c.r.choice([0, .5, 1., 3.])
    keep = v.copy()
    cnt = np.zeros(n)
    for _ in range(N):
        cnt[u.drawGibbs(v, t) if t != 1 else u.drawGibbs(v)] += 1
    if t == 0:
        g = (v == v.max()) * 1.
        c.ev('gibbs greedy')
    else:
        g = np.exp((v - v.max()) / t)
        c.ev('gibbs')
    freq(c, cnt, g / g.sum(), N, 'gibbs', 'values %s at temperature %s' % (v, t))
    c.ok((v == keep).all(), 'input', 'values were modified')
    for _ in range(20):
        i, b = u.r_argmax(list(v)), u.all_argmax(list(v))
        c.ok(v[i] == v.max(), 'argmax', 'index %d of %s' % (i, v))
        c.eq(list(b), [j for j in range(n) if v[j] == v.max()], 'argmax', 'values %s' % v)
    c.ev('argmax')
    if len(b) > 1:
        cnt = np.zeros(n)
        for _ in range(N):
            cnt[u.r_argmax(v)] += 1
        freq(c, cnt, (v == v.max()) / float(len(b)), N, 'argmax', 'ties of %s' % v)
        c.ev('tied argmax')
    if n > 1:
        c.sig(n, t, len(b))


def k_codes(c):
    for _ in range(20):
        size = c.r.randint(1, 70)
        i = c.r.choice([c.r.randrange(2 ** size), 0, 2 ** size - 1, 1])
        i = min(i, 2 ** size - 1)
        g = u.int2gray(i)
        c.ok(0 <= g < 2 ** size, 'gray', 'code of %d: %d' % (i, g))
        c.eq(u.gray2int(g, size), i, 'gray', 'back from the code %d of size %d' % (g, size))
        if i:
            c.eq(bin(g ^ u.int2gray(i - 1)).count('1'), 1, 'gray', 'neighbors %d, %d' % (i - 1, i))
        c.eq(u.asBinary(i), bin(i)[2:], 'binary', '%d' % i)
        c.sig('gray', size)
    c.ev('gray')
    c.ev('binary')
    n = c.r.randint(1, 9)
    for k in range(n):
        a = u.one_to_n(k, n)
        c.eq(list(a), [1. * (j == k) for j in range(n)], 'one of n')
        c.eq(int(u.n_to_one(a)), k, 'one of n', 'back')
    c.ev('one of n')
    m = 8 * c.r.randint(1, 12) if c.r.random() < .5 else c.r.randint(1, 90)
    bits = np.array([c.r.randint(0, 1) for _ in range(m)])
    c.eq(int(u.binArr2int(bits)), int(''.join(map(str, bits)), 2), 'binary array', 'bits %s' % bits)
    c.ev('binary array')
    arrs = [np.array([c.r.randint(0, 2) for _ in range(3)]) for _ in range(c.r.randint(1, 12))]
    got = u.uniqueArrays(arrs)
    c.eq(sorted(map(tuple, got)), sorted(set(map(tuple, arrs))), 'unique arrays')
    c.ev('unique arrays')
    tup = tuple(c.r.randint(0, 4) for _ in range(c.r.randint(1, 4)))
    c.eq(sorted(u.iterCombinations(tup)), sorted(itertools.product(*[range(t) for t in tup])), 'combinations', '%s' % (tup,))
    c.ev('combinations')
    sets = [[c.r.randint(0, 9) for _ in range(c.r.randint(1, 3))] for _ in range(c.r.randint(1, 4))]
    c.eq([tuple(x) for x in u.crossproduct(sets)], list(itertools.product(*sets)), 'cross product', '%s' % sets)
    c.ev('cross product')
    c.eq(sorted(u.decrementAny(tup)), sorted(tup[:i] + (tup[i] - 1,) + tup[i + 1:] for i in range(len(tup)) if tup[i] > 0), 'decrement')
    c.ev('decrement')
    i = c.r.randrange(len(tup))
    c.eq(u.tupleRemoveItem(tup, i), tup[:i] + tup[i + 1:], 'tuple')
    c.sig('tuples', len(tup), len(sets), m)


def k_graphs(c):
    n = c.r.randint(2, 12)
    nb = {i: [c.r.randrange(n) for _ in range(c.r.choice([0, 1, 1, 2, 2, 3]))] for i in range(n)}
    step = lambda x: nb[x]
    start = c.r.sample(range(n), c.r.randint(0, min(4, n)))
    dest = c.r.sample(range(n), c.r.randint(0, n))
    # breadth first; a destination is not walked through
    dist, front, k = {s: 0 for s in start}, [s for s in start if s not in dest], 0
    while front:
        k += 1
        nxt = []
        for s in front:
            for t in nb[s]:
                if t not in dist:
                    dist[t] = k
                    if t in dest:
                        c.ev('blocked')
                    else:
                        nxt.append(t)
        front = nxt
    exp = {t: d for t, d in dist.items() if t in dest}
    form = c.r.choice([list, set, list])
    s_, d_ = form(start), list(dest)
    got = u.reachable(step, s_, d_)
    c.eq(dict(got), exp, 'reachable', 'from %s to %s in %s' % (start, dest, nb))
    c.ok(sorted(s_) == sorted(start) and d_ == dest, 'input', 'start or destinations were modified: %s, was %s' % (s_, start))
    c.ev('reachable')
    if any(v == 0 for v in exp.values()):
        c.ev('start reached')
    # flooding
    full = c.r.sample(range(n), c.r.randint(1, n))
    init = c.r.sample(range(n + 2), c.r.randint(0, 3))
    seen = set(init) & set(full)
    todo = list(seen)
    while todo:
        for t in nb[todo.pop()]:
            if t in full and t not in seen:
                seen.add(t)
                todo.append(t)
    got = u.flood(step, full, init)
    c.eq(len(got), len(set(got)), 'flood', 'twice the same element')
    c.eq(set(got), seen, 'flood', 'from %s within %s' % (init, full))
    c.ev('flood')
    rel = c.r.sample(full, c.r.randint(0, len(full)))
    got = set(u.flood(step, full, init, relevant=rel))
    c.ok(got <= seen and set(rel) & seen <= got, 'flood', 'relevant %s: found %s of %s' % (rel, got, seen))
    c.ev('relevant')
    init = [i for i in init if i < n]
    allseen, todo = set(init), list(init)
    while todo:
        for t in nb[todo.pop()]:
            if t not in allseen:
                allseen.add(t)
                todo.append(t)
    c.eq(set(u.flood(step, None, init)), allseen, 'flood', 'without a full set')
    c.ev('no full set')
    c.sig(n, len(start), len(dest), len(full))


def k_arrays(c):
    bh, bw, bd = c.r.randint(1, 3), c.r.randint(1, 3), c.r.randint(1, 3)
    H, W, D = bh * c.r.randint(1, 4), bw * c.r.randint(1, 4), bd * c.r.randint(1, 3)
    a = np.array([float(c.r.randint(0, 99)) for _ in range(H * W)]).reshape(H, W)
    exp = [a[i + y, j + x] for i in range(0, H, bh) for j in range(0, W, bw) for y in range(bh) for x in range(bw)]
    keep = a.copy()
    c.eq(list(u.permuteToBlocks(a, (bh, bw))), exp, 'blocks 2d', '%s in %s' % (a.shape, (bh, bw)))
    c.ok((a == keep).all(), 'input', 'array was modified')
    c.ev('blocks 2d')
    b = np.array([float(c.r.randint(0, 99)) for _ in range(D * H * W)]).reshape(D, H, W)
    got = u.permuteToBlocks(b, (bd, bh, bw))
    c.eq(sorted(got), sorted(b.flatten()), 'blocks 3d', 'not a permutation')
    exp = [b[k + z, i + y, j + x] for k in range(0, D, bd) for i in range(0, H, bh) for j in range(0, W, bw) for z in range(bd) for y in range(bh) for x in range(bw)]
    c.eq(list(got), exp, 'blocks 3d', '%s in %s' % (b.shape, (bd, bh, bw)))
    c.ev('blocks 3d')
    perm = [c.r.randrange(H) for _ in range(c.r.randint(1, 5))]
    c.close(u.permute(a, perm), a[perm], 'permute', 0)
    c.ev('permute')
    n = c.r.randint(1, 6)
    m = np.triu(np.array([c.r.gauss(0, 1) for _ in range(n * n)]).reshape(n, n))
    f = u.triu2flat(m)
    c.close(f, [m[i, j] for i in range(n) for j in range(i, n)], 'triangular', 0)
    c.close(u.flat2triu(f, n), m, 'triangular', 0, 'back')
    c.ev('triangular')
    ms = [np.array([c.r.gauss(0, 1) for _ in range(k * k)]).reshape(k, k) for k in [c.r.randint(1, 3) for _ in range(c.r.randint(1, 4))]]
    s = sum(len(x) for x in ms)
    e = np.zeros((s, s))
    i = 0
    for x in ms:
        e[i:i + len(x), i:i + len(x)] = x
        i += len(x)
    c.close(u.blockList2Matrix(ms), e, 'block diagonal', 0)
    c.ev('block diagonal')
    hs, ws = [c.r.randint(1, 3) for _ in range(c.r.randint(1, 3))], [c.r.randint(1, 3) for _ in range(c.r.randint(1, 3))]
    grid = [[np.array([c.r.gauss(0, 1) for _ in range(h * w)]).reshape(h, w) for w in ws] for h in hs]
    c.close(np.asarray(u.blockCombine(grid)), np.block(grid), 'block matrix', 0)
    c.ev('block matrix')
    seed(c.seed)
    d = c.r.randint(2, 8)
    for q, name in ((np.asarray(u.dense_orth(d)), 'orthogonal'), (np.asarray(u.sparse_orth(d).todense()), 'sparse orthogonal')):
        c.must(q.shape == (d, d), name, 'shape %s' % (q.shape,))
        c.close(q.dot(q.T), np.eye(d), name, 1e-7)
        c.ev(name)
    v = np.array([c.r.gauss(0, 3) for _ in range(c.r.randint(2, 9))])
    lo, hi = c.r.uniform(-5, 5), c.r.uniform(-5, 5)
    keep = v.copy()
    got = u.linscale(v, (lo, hi))
    c.close(got, lo + (hi - lo) * (v - v.min()) / (v.max() - v.min()), 'linear scale', 1e-9, 'to %s' % ((lo, hi),))
    c.ok((v == keep).all(), 'input', 'array was modified')
    c.close(u.linscale(np.full(3, 2.5), (lo, hi)), [lo] * 3, 'linear scale of equal values', 1e-12)
    c.ev('linear scale')
    k = c.r.randint(1, 12)
    x, y = [c.r.randint(0, 2) for _ in range(k)], [c.r.randint(0, 2) for _ in range(k)]
    shape = c.r.choice([list, np.array, lambda t: np.array(t)[:, None]])
    c.close(u.percentError(shape(x), y), 100. * sum(p != q for p, q in zip(x, y)) / k, 'percent error', 1e-12)
    c.ev('percent error')
    if H * W > 1:
        c.sig((H, W, D), (bh, bw, bd), n)


def k_dicts(c):
    # first encounters
    L = [[float(c.r.randint(-3, 12)) for _ in range(c.r.randint(1, 9))] for _ in range(c.r.randint(1, 5))]
    T = sorted([c.r.randint(-4, 12) for _ in range(c.r.randint(1, 6))], reverse=True)
    longest = max(map(len, L))
    tab = []
    for t in T:
        row = []
        for l in L:
            hit = [i for i, v in enumerate(l) if v <= t]
            row.append(hit[0] if hit else longest)
            if not hit:
                c.ev('not found')
        tab.append(row)
    bs, med = c.r.choice([1, 1, 5]), c.r.random() < .4
    got = u.avgFoundAfter(T, L, batchSize=bs, useMedian=med)
    c.close(got, bs * (np.median if med else np.mean)(np.array(tab, float), axis=1), 'found after', 1e-9, 'targets %s in %s' % (T, L))
    c.ev('median' if med else 'found after')
    d = {k: c.r.randint(0, 3) for k in 'abcd' if c.r.random() < .7}
    sel = {k: c.r.choice([0, 1, [0, 1], [2], []]) for k in 'abcde' if c.r.random() < .5}
    req = c.r.random() < .4
    exp = all((d[k] in v if isinstance(v, list) else d[k] == v) if k in d else not req for k, v in sel.items())
    c.eq(u.matchingDict(d, sel, req), exp, 'matching', '%s against %s' % (d, sel))
    c.ev('matching')
    keys, flip = [k for k in 'abcdef' if c.r.random() < .5], c.r.random() < .5
    c.eq(u.subDict(d, keys, flip), {k: v for k, v in d.items() if (k in keys) != flip}, 'sub dictionary')
    c.ev('sub dictionary')
    ld = {k: c.r.choice([1, [1, 2], [2, 2, 3], (5, 4), 'x']) for k in 'abc' if c.r.random() < .7}
    keep = dict(ld)
    got = list(u.dictCombinations(ld))
    opts = [sorted(set(v)) if isinstance(v, (list, tuple)) else [v] for v in ld.values()]
    exp = [dict(zip(ld.keys(), o)) for o in itertools.product(*opts)]
    key = lambda x: sorted(map(repr, x.items()))
    c.eq(sorted(got, key=key), sorted(exp, key=key), 'dictionary combinations', '%s' % ld)
    c.eq(ld, keep, 'input', 'dictionary was modified')
    c.ev('dictionary combinations')
    c.sig(len(L), len(T), len(d), len(ld))


def k_calls(c):
    calls = []

    @u.memoize
    def f(x, y=2, *more):
        calls.append((x, y) + more)
        return len(calls)
    seen = {}
    for _ in range(30):
        a = tuple(c.r.randint(0, 2) for _ in range(c.r.randint(1, 4)))
        kw = {'y': c.r.randint(0, 2)} if len(a) == 1 and c.r.random() < .5 else {}
        n = len(calls)
        r = f(*a, **kw)
        k = (a, tuple(kw.items()))
        if k in seen:
            c.ok(r == seen[k] and len(calls) == n, 'memoize', 'computed again for %s' % (k,))
        else:
            c.ok(len(calls) == n + 1, 'memoize', 'not computed for %s' % (k,))
            seen[k] = r
    c.ev('memoize')
    n = c.r.randint(1, 6)
    vals = [c.r.gauss(0, 1) for _ in range(n)]
    args = []

    @u.multiEvaluate(n)
    def g(*a, **k):
        args.append((a, k))
        return vals[len(args) - 1]
    c.close(g(3, z=4), sum(vals) / n, 'multi evaluate', 1e-9)
    c.eq(args, [((3,), {'z': 4})] * n, 'multi evaluate', 'calls')
    c.ev('multi evaluate')

    class Obj(object):
        def __call__(self, x):
            return x * 2
    o = Obj()
    res = u.storeCallResults(o)
    xs = [c.r.randint(0, 9) for _ in range(5)]
    c.eq([o(x) for x in xs], [2 * x for x in xs], 'store results', 'returned')
    c.eq(res, [2 * x for x in xs], 'store results', 'stored')
    c.ev('store results')
    out, lock = [], threading.Event()

    def back(r):
        out.append((r, threading.current_thread() is threading.main_thread()))
        lock.set()

    @u.threaded(back)
    def h(a, b=1):
        return a + b
    h(4, b=7)
    c.ok(lock.wait(30), 'threaded', 'never called back')
    c.eq(out, [(11, False)], 'threaded', 'result, in the main thread')
    c.ev('threaded')
    c.eq(u.garbagecollect(lambda a, k=0: (a, k))(1, k=2), (1, 2), 'garbage collected')
    # names
    objs = [ParameterContainer(1) for _ in range(c.r.randint(2, 20))]
    names = [x.name for x in objs]
    c.eq(len(set(names)), len(names), 'names', 'not unique: %s' % names)
    c.eq([x.name for x in objs], names, 'names', 'not stable')
    objs[0].name = 'mine'
    c.eq(objs[0].name, 'mine', 'names')
    c.ev('names')
    p = ParameterContainer(2)
    with contextlib.redirect_stdout(io.StringIO()) as s:
        p.setArgs(mutationStd=c.r.random(), notThere=3)
    c.ok(not hasattr(p, 'notThere') and 'notThere' in s.getvalue(), 'set arguments', 'unknown arguments are reported, not set')
    c.eq(p.argdict.get('mutationStd'), p.mutationStd, 'set arguments', 'remembered')
    c.ev('set arguments')
    for ext, fmt in (('pkl', 'pickle'), ('mat', 'matlab'), ('txt', 'ascii'), ('svm', 'libsvm'), ('nc', 'netcdf'), ('', None), ('zip', None)):
        c.eq(u.formatFromExtension(c.r.choice(['/a/b.c/d', 'x', './f']) + ('.' + ext if ext else '')), fmt, 'format', ext)
    c.ev('format')
    s = c.r.randint(0, 10 ** 6)
    u.seedit(s)
    a = (random.random(), np.random.rand(), random.gauss(0, 1), np.random.randn())
    u.seedit(s)
    c.eq((random.random(), np.random.rand(), random.gauss(0, 1), np.random.randn()), a, 'seeds', 'seed %d' % s)
    c.ev('seeds')

    # keyword arguments
    class Target(object):
        pass
    t, kw = Target(), {k: c.r.randint(10, 99) for k in 'abmp' if c.r.random() < .6}
    kp = KWArgsProcessor(t, kw)
    kp.add('a')
    kp.add('b', default=5)
    kp.add('p', private=True, default=6)
    kp.add('q', private=True, default=None)
    kp.add('z', default=0)
    if 'm' in kw:
        kp.add('m', mandatory=True)
        c.eq(t.m, kw['m'], 'keyword arguments')
    else:
        c.raises(KeyError, lambda: kp.add('m', mandatory=True), 'keyword arguments', 'mandatory argument missing')
        c.ev('mandatory missing')
    c.eq((getattr(t, '_q', 1), getattr(t, 'z', 1)), (None, 0), 'keyword arguments', 'empty defaults')
    c.eq((hasattr(t, 'a'), t.b, t._p), ('a' in kw, kw.get('b', 5), kw.get('p', 6)), 'keyword arguments')
    if 'a' in kw:
        c.eq(t.a, kw['a'], 'keyword arguments')
    c.ev('keyword arguments')
    c.sig(n, sorted(kw), len(objs))


def k_misc(c):
    # lists as text: each number to the given number of digits
    p = c.r.choice([3, 3, 1, 2])
    xs = [c.r.choice([c.r.uniform(-99, 99), float(c.r.randint(-200, 200)), c.r.uniform(-1, 1), 0.]) for _ in range(c.r.randint(0, 6))]
    t = u.fListToString(xs, p) if p != 3 else u.fListToString(xs)
    c.ok(t[0] == '[' and t[-1] == ']', 'list text', t)
    got = [float(v) for v in t[1:-1].split(',')] if xs else []
    c.close(got, [round(v, p) for v in xs], 'list text', 1e-9, '%r of %s' % (t, xs))
    c.eq([len(v) for v in t[1:-1].split(', ')] if xs else [], [max(p + 3, len('%g' % round(v, p))) for v in xs], 'list text', 'width of %r' % t)
    c.ev('list text')
    # tuples
    tup = tuple(c.r.randint(0, 3) for _ in range(c.r.randint(1, 7)))
    for i in range(len(tup)):
        c.eq(u.tupleRemoveItem(tup, i), tup[:i] + tup[i + 1:], 'tuple', '%d of %s' % (i, tup))
    # names of classes, modules
    from pybrain.structure import LinearLayer, FeedForwardNetwork
    for o in (LinearLayer(1), FeedForwardNetwork(), 3, 'x'):
        c.eq(u.canonicClassString(o), (o.__class__.__module__ + '.' if o.__class__.__module__ != 'builtins' else '') + o.__class__.__name__, 'class name')
    name = c.r.choice(['pybrain.structure.modules', 'pybrain.utilities', 'pybrain', 'os.path'])
    import importlib
    c.ok(u._import(name) is importlib.import_module(name), 'import', name)
    c.raises(ImportError, lambda: u._import('pybrain.nothing%d' % c.r.randint(0, 9)), 'import', 'a module that is not there')
    c.raises(NotImplementedError, u.abstractMethod, 'abstract')
    c.ev('import')

    @u.trace
    def f(a, b=1):
        return a - b
    with contextlib.redirect_stdout(io.StringIO()) as s:
        c.eq(f(5, b=2), 3, 'trace')
    c.ok('f' in s.getvalue() and '5' in s.getvalue() and '2' in s.getvalue(), 'trace', s.getvalue())
    c.ev('trace')
    # hashes tell arrays apart
    a = np.array([c.r.randint(0, 3) for _ in range(4)])
    b = a.copy()
    c.eq(u.xhash(a), u.xhash(b), 'hash')
    b[c.r.randrange(4)] += 1
    c.ok(u.xhash(a) != u.xhash(b), 'hash', 'of %s and %s' % (a, b))
    # many values of a distribution: the frequencies of the clipped exponentials
    seed(c.seed)
    n, N = c.r.randint(8, 20), 600
    v = np.array([c.r.choice([0., 1., 1.]) for _ in range(n)])
    cnt = np.zeros(n)
    for _ in range(N):
        cnt[u.drawGibbs(v, 0)] += 1
    best = v == v.max()
    freq(c, cnt, best / float(best.sum()), N, 'gibbs', 'greedy among %s' % v)
    v = np.array([c.r.choice([0., -30., -900., c.r.gauss(0, 1)]) for _ in range(n)]) + c.r.choice([0., -500., 500.])
    g = np.exp(v - v.max())
    cnt = np.zeros(n)
    for _ in range(N):
        cnt[u.drawGibbs(v)] += 1
    freq(c, cnt, g / g.sum(), N, 'gibbs', 'values %s' % v)
    w = np.array([c.r.random() for _ in range(n)]) * 10. ** c.r.choice([-6, -3, 0, 5])
    cnt = np.zeros(n)
    for _ in range(N):
        cnt[u.drawIndex(w, tolerant=True)] += 1
    freq(c, cnt, w / w.sum(), N, 'draw', 'weights %s' % w)
    c.ev('many values')
    c.sig(len(xs), p, len(tup), n)


def k_utest(c):
    a, b = [float(c.r.randint(0, 6)) for _ in range(c.r.randint(1, 6))], [float(c.r.randint(0, 6)) for _ in range(c.r.randint(1, 6))]
    wa, wb = [c.r.randint(1, 3) for _ in a], [c.r.randint(1, 3) for _ in b]
    one = u.weightedUtest(a, wa, b, wb)
    A, B = [x for x, w in zip(a, wa) for _ in range(w)], [x for x, w in zip(b, wb) for _ in range(w)]
    c.close(u.weightedUtest(A, [1] * len(A), B, [1] * len(B)), one, 'weighted test', 1e-9, 'weights as repetitions')
    c.close(u.weightedUtest(b, wb, a, wa), 1 - one, 'weighted test', 1e-9, 'groups exchanged')
    U = sum((x > y) + .5 * (x == y) for x in A for y in B)
    n, m = len(A), len(B)
    z = (U - n * m / 2.) / math.sqrt(n * m * (n + m + 1) / 12.)
    c.close(one, .5 * math.erfc(-z / math.sqrt(2)), 'weighted test', 1e-7)
    c.ev('weighted test')
    sd, k = abs(c.r.gauss(0, 2)), c.r.randint(1, 50)
    c.close(u.confidenceIntervalSize(sd, k), 3.96 * sd / math.sqrt(k), 'confidence', 1e-12)
    if n > 1:
        c.sig(len(a), len(b))


def k_functions(c):
    seed(c.seed)
    shape = c.r.choice([(c.r.randint(1, 6),), (c.r.randint(1, 3), c.r.randint(1, 4))])
    x = np.array([c.r.choice([c.r.gauss(0, 2), 0., c.r.gauss(0, 100), -1., 10 ** c.r.uniform(2, 8)]) for _ in range(int(np.prod(shape)))]).reshape(shape)
    keep = x.copy()
    semi = lambda v: math.exp(v) if v < 0 else v + 1
    el = lambda v: math.exp(v) if v < 0 else math.log(v + 1) + 1
    each = lambda f: np.array([f(v) for v in x.flatten()]).reshape(shape)
    if len(shape) > 1:
        c.ev('two dimensions')
    c.close(F.semilinear(x), each(semi), 'semilinear', 1e-9)
    c.close(F.semilinearPrime(x), each(lambda v: math.exp(v) if v < 0 else 1.), 'semilinear', 1e-9, 'derivative')
    if len(shape) == 1:
        c.close(F.semilinear(list(x)), each(semi)[None, :], 'semilinear', 1e-9, 'list')
        c.close(F.expln(x), each(el), 'expln', 1e-9)
        c.close(F.explnPrime(x), each(lambda v: math.exp(v) if v < 0 else 1 / (v + 1)), 'expln', 1e-9, 'derivative')
        c.close(F.expln(float(x[0])), el(x[0]), 'expln', 1e-9, 'number')
        c.ev('expln')
    c.ev('semilinear')
    sg = lambda v: 1 / (1 + math.exp(-v)) if v > 0 else math.exp(v) / (1 + math.exp(v))
    c.close(F.sigmoid(x), each(sg), 'sigmoid', 1e-9)
    c.close(F.sigmoidPrime(x), each(lambda v: sg(v) * (1 - sg(v))), 'sigmoid', 1e-9, 'derivative')
    c.close(F.tanhPrime(x), each(lambda v: 1 - math.tanh(v) ** 2), 'tanh', 1e-9)
    big = np.array([c.r.choice([1e3, -1e3, 1e300, -1e300, 5.])])
    c.ok(np.isfinite(F.safeExp(big)).all() and np.isfinite(F.sigmoid(big)).all(), 'bounded', 'of %s' % big)
    c.close(F.safeExp(x), np.exp(np.clip(x, -500, 500)), 'safe exponential', 1e-9)
    y = c.r.uniform(-450, 450)
    c.close(F.safeExp(np.array([y])) / math.exp(y), [1.], 'safe exponential', 1e-9, 'of %s' % y)
    c.ev('sigmoid')
    # derivatives are derivatives
    v = c.r.gauss(0, 2)
    if abs(v) > .01:
        h = 1e-6
        for f, d in ((F.sigmoid, F.sigmoidPrime), (np.tanh, F.tanhPrime), (F.semilinear, F.semilinearPrime), (F.expln, F.explnPrime)):
            a = np.array([v])
            c.close((f(a + h) - f(a - h)) / (2 * h), d(a), 'derivative', 1e-4, f.__name__)
        c.ev('derivative')
    c.ok((x == keep).all(), 'input', 'modified')
    r = [float(c.r.gauss(0, 5)) for _ in range(c.r.choice([c.r.randint(1, 9), c.r.randint(1, 9), 150]))]
    if c.r.random() < .3:
        r[c.r.randrange(len(r))] = r[0]
    got = F.ranking(r)
    c.eq(sorted(got), list(range(len(r))), 'ranking', 'ranks of %s' % r)
    c.ok(all(r[i] < r[j] or r[i] == r[j] for i in range(len(r)) for j in range(len(r)) if got[i] < got[j]), 'ranking', '%s for %s' % (got, r))
    c.ev('ranking')
    d = c.r.randint(1, 4)
    A = np.array([c.r.gauss(0, 1) for _ in range(d * d)]).reshape(d, d)
    S = A.dot(A.T) + .3 * np.eye(d)
    z, m = rnd(c, d), rnd(c, d)
    q = (z - m).dot(np.linalg.solve(S, z - m))
    ref = math.exp(-.5 * q) / math.sqrt((2 * math.pi) ** d * np.linalg.det(S))
    c.close(F.multivariateNormalPdf(z, m, S), ref, 'normal density', 1e-7)
    L = np.linalg.cholesky(S)
    c.close(F.simpleMultivariateNormalPdf(np.linalg.solve(L, z - m), np.linalg.det(L)), ref, 'normal density', 1e-7, 'transformed')
    c.ev('normal density')
    R = F.sqrtm(S)
    c.close(R.dot(R), S, 'square root', 1e-6)
    c.close(R, R.T, 'square root', 1e-9, 'symmetric')
    c.ok(np.linalg.eigvalsh(R).min() > 0, 'square root', 'not positive')
    c.ev('square root')
    # a Cauchy variable is within its scale half of the time
    N, D = 300, np.diag([c.r.uniform(.1, 5) for _ in range(d)])
    hits = sum(abs(F.multivariateCauchy(m, D) - m) < np.diag(D) for _ in range(N))
    c.ok((abs(hits - N / 2.) < 6 * math.sqrt(N) / 2 + 3).all(), 'cauchy', '%s of %d within the scale' % (hits, N))
    t = F.multivariateCauchy(m, S, onlyDiagonal=False)
    c.ok(t.shape == (d,) and np.isfinite(t).all(), 'cauchy', 'sample %s' % t)
    c.ev('cauchy')
    k = c.r.randint(1, 60)
    true = math.sqrt(2) * math.exp(math.lgamma((k + 1) / 2.) - math.lgamma(k / 2.))
    c.close(F.approxChiFunction(k), true, 'chi', .006 if k < 3 else 1e-3)
    c.ev('chi')
    c.sig(shape, d, len(r))


def rnd(c, d):
    return np.array([c.r.gauss(0, 1) for _ in range(d)])


KINDS = [('draw', k_draw, 60, 3000), ('codes', k_codes, 60, 4000), ('graphs', k_graphs, 300, 30000), ('arrays', k_arrays, 80, 6000), ('dicts', k_dicts, 200, 20000),
         ('calls', k_calls, 40, 2000), ('misc', k_misc, 60, 4000), ('utest', k_utest, 60, 5000), ('functions', k_functions, 80, 6000)]
