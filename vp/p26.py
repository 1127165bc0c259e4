"""P26: principal components, Gaussian processes, clustering, neighbor hashing and other statistical helpers."""
import math, random, itertools
import numpy as np
import scipy.linalg
from collections import Counter
from pybrain.auxiliary import pca as pcamod
from pybrain.auxiliary.gaussprocess import GaussianProcess
from pybrain.auxiliary.kmeans import kinit, kmeanspp
from pybrain.tools.ibp import generateIBP, leftordered
from pybrain.tools.fisher import calcFisherInformation, calcInvFisher
from pybrain.tools.aptativeresampling import AdaptiveResampler
from pybrain.tools.mixtures.mixtureofgaussian import MixtureOfGaussians
from pybrain.tools.mixtures import mogpuremax
from pybrain.supervised.knn.lsh.minhash import MinHash, jacardCoefficient, arrayPermutation
from pybrain.supervised.knn.lsh.nearoptimal import MultiDimHash
from pybrain.datasets import SupervisedDataSet
from vp.core import frozen, rnd_vec
from vp.p12 import seed

RULE = ('a case runs one helper (components, process, clustering, hash, buffet process, Fisher information, resampling, mixture) on random data; non-trivial with at least '
        'three points and two dimensions or settings; distinct by helper, sizes and settings')
EXPECT = ['pca', 'ppca', 'reduced', 'predictions', 'covariances', 'samples added one by one', 'datasets added', 'retrained', 'reset', 'grid', 'drawn', 'seeds', 'clusters',
          'minhash', 'own item', 'multidimhash', 'own point', 'within the ball', 'buffet', 'left ordered', 'fisher', 'inverse fisher', 'given inverse', 'resampled', 'more samples',
          'fewer samples', 'capped', 'mixture', 'mixture samples', 'negative factor', 'noise from the disagreement of neighbours']
ASSUMPTIONS = ['hashing structures may miss neighbors; what they return is judged, and how often an identical point is found',
               'probabilistic principal components are judged on data with a clear gap in the spectrum']


def angle(A, B):
    """largest principal angle between row spaces"""
    return float(np.max(scipy.linalg.subspace_angles(np.asarray(A).T, np.asarray(B).T)))


def k_pca(c):
    seed(c.seed)
    d = c.r.randint(2, 6)
    n = c.r.randint(d + 4, 40)
    k = c.r.randint(1, d)
    Q, _ = np.linalg.qr(c.np.randn(d, d))
    sc = np.array([4. ** -i for i in range(d)]) * c.r.choice([1, 10])
    c.np.shuffle(sc)
    X = frozen((c.np.randn(n, d) * sc).dot(Q) + rnd_vec(c, d, 5))
    what = '%d points of %d dimensions, %d components' % (n, d, k)
    cen = X - X.mean(0)
    w, V = np.linalg.eigh(cen.T.dot(cen) / (n - 1))
    top = V[:, ::-1][:, :k].T
    c.close(pcamod.makeCentered(X), cen, 'centered', 1e-10, what)
    P = np.asarray(pcamod.pca(X, k))
    if c.must(P.shape == (k, d), 'pca: shape', '%s: %s' % (what, P.shape)) is None:
        pass
    c.ok(not np.iscomplexobj(P), 'pca: complex')
    c.close(P.dot(P.T), np.eye(k), 'pca: orthonormal components', 1e-7, what)
    c.ok(angle(P, top) < 1e-5, 'pca: not the space of largest variance', lambda: '%s: angle %g' % (what, angle(P, top)))
    # every row is one principal direction
    C = np.cov(X.T)
    for row in P:
        lam = row.dot(C).dot(row)
        c.close(C.dot(row), lam * row, 'pca: principal direction', 1e-6, what)
    c.ev('pca')
    R = np.asarray(pcamod.reduceDim(X, k))
    c.close(R, cen.dot(P.T), 'reduced data', 1e-8, what)
    c.ok(abs(R.var(0, ddof=1).sum() - np.sort(w)[::-1][:k].sum()) < 1e-6 * (1 + w.sum()), 'reduced data: variance kept', what)
    c.ev('reduced')
    if k < d:
        W = np.asarray(pcamod.pPca(X, k))
        c.eq(W.shape, (k, d), 'ppca: shape', what)
        # the iteration stops at a step below 0.001
        c.ok(angle(W, top) < .1, 'ppca: not the space of largest variance', lambda: '%s: angle %g' % (what, angle(W, top)))
        R = np.asarray(pcamod.reduceDim(X, k, 'pPca'))
        c.eq(R.shape, (n, k), 'reduced data', what)
        c.ev('ppca')
    c.raises(ValueError, lambda: pcamod.reduceDim(X, k, 'unknown'), 'unknown function accepted')
    c.sig(d, n, k)
    c.sample(what)


def gp_ref(gp, X, y, T, mean):
    l, sf, _ = gp.hyper
    k = lambda A, B: sf ** 2 * np.exp(-((A[:, None, :] - B[None]) ** 2).sum(2) / (2. * l ** 2))
    if not len(X):
        return None
    K = k(X, X) + .001 * np.eye(len(X))
    if gp.autonoise:
        # the noise of a sample grows with the disagreement among those closer than neighbours are on average
        x = np.ravel(X)
        gap = (x.max() - x.min()) / max(len(x) - 1, 1)
        D, E = abs(x[:, None] - x), abs(y[:, None] - y)
        if np.any(abs(D - gap)[~np.eye(len(x), dtype=bool)] < 1e-9):
            return None
        K += np.diag(np.where(D <= gap, E * np.exp(-D), 0).sum(1))
    s = k(T, X)
    m = mean + s.dot(np.linalg.solve(K, y - mean))
    C = k(T, T) - s.dot(np.linalg.solve(K, s.T))
    return m, C


def k_gp(c):
    seed(c.seed)
    r = c.r
    d = r.choice([1, 1, 2, 3])
    if r.random() < .5:
        start, stop, step = -1, 2, {1: .25, 2: 1, 3: 1}[d]
        axes = [np.arange(start, stop, step)] * d
    else:
        start = tuple(r.choice([-1, 0, .5]) for _ in range(d))
        stop = tuple(s + r.choice([1, 1.5]) for s in start)
        step = tuple(r.choice([.5, .6]) for _ in range(d))
        axes = [np.arange(a, b, s) for a, b, s in zip(start, stop, step)]
    gp = GaussianProcess(d, start=start, stop=stop, step=step)
    grid = np.array(list(itertools.product(*axes)), float).reshape(-1, d)
    what = 'Gaussian process of %d dimensions on %s..%s' % (d, start, stop)
    c.close(gp.testx, grid, 'grid', 1e-12, what)
    c.ev('grid')
    if r.random() < .5:
        gp.hyper = (r.uniform(.4, 1.5), r.uniform(.5, 2), .1)
    gp.mean = r.choice([0, 0, 1.5, -2])
    if d == 1 and r.random() < .4:
        gp.autonoise = True
    X, y = np.zeros((0, d)), np.zeros(0)
    T = grid
    for _ in range(r.choice([2, 3, 4, 5, 6, 10])):
        op = r.choice(['sample', 'sample', 'add', 'train', 'reset', 'test', 'test', 'draw'])
        if op == 'sample':
            x, t = rnd_vec(c, d), r.gauss(0, 2)
            gp.addSample(x if r.random() < .5 else list(x), r.choice([t, [t], np.array([t])]))
            X, y = np.vstack([X, x]), np.append(y, t)
            c.ev('samples added one by one')
        elif op in ('add', 'train'):
            ds = SupervisedDataSet(d, 1)
            n = r.randint(1, 5)
            xs, ts = c.np.randn(n, d), c.np.randn(n)
            for a, b in zip(xs, ts):
                ds.addSample(a, [b])
            if op == 'add':
                gp.addDataset(ds)
                X, y = np.vstack([X, xs]), np.append(y, ts)
                c.ev('datasets added')
            else:
                gp.trainOnDataset(ds)
                X, y = xs, ts
                c.ev('retrained')
            if r.random() < .5:
                # the process is not affected by later changes of the dataset
                ds.addSample(rnd_vec(c, d), [1])
                ds.clear()
        elif op == 'reset':
            gp.reset()
            X, y = np.zeros((0, d)), np.zeros(0)
            c.ev('reset')
        else:
            if not len(X):
                continue
            if op == 'test':
                T = c.np.randn(r.randint(1, 6), d)
            ref = gp_ref(gp, X, y, T, gp.mean)
            if ref is None:
                c.ev('neighbours at exactly the average distance left out')
                return
            m, C = ref
            if gp.autonoise:
                c.ev('noise from the disagreement of neighbours')
            if op == 'test':
                c.close(gp.testOnArray(frozen(T)), m, 'predictive mean', 1e-6, what)
                c.ev('predictions')
            else:
                s = np.random.get_state()
                gp.draw()
                c.close(gp.pred_mean, m, 'predictive mean', 1e-6, what + ' after a draw')
                # the same random numbers give the same sample of the true distribution
                if len(T) <= 6:
                    np.random.seed(7)
                    S = np.array([gp.draw() for _ in range(400)])
                    sd = np.sqrt(np.maximum(np.diag(C), 0) / 400)
                    c.ok(np.all(abs(S.mean(0) - m) < 5.5 * sd + 1e-4), 'drawn functions: mean', lambda: '%s: %s, expected %s' % (what, S.mean(0), m))
                    c.ok(np.all(abs(S.var(0) - np.diag(C)) < 5.5 * np.diag(C) * math.sqrt(2. / 400) + 1e-4), 'drawn functions: variance',
                         lambda: '%s: %s, expected %s' % (what, S.var(0), np.diag(C)))
                    c.ev('drawn')
                np.random.set_state(s)
            c.close(gp.pred_cov, C, 'predictive covariance', 1e-6, what)
            c.ev('covariances')
    c.close(gp.trainx, X, 'training inputs kept', 1e-12, what)
    c.close(gp.trainy, y, 'training targets kept', 1e-12, what)
    c.sig(d, len(X), len(T), str(start))


def k_kmeans(c):
    seed(c.seed)
    r = c.r
    d, k = r.randint(1, 4), r.randint(1, 5)
    X = np.array([[r.gauss(0, 1) for _ in range(d)] for _ in range(r.randint(k + 1, 25))])
    X.setflags(write=False)
    S = kinit(X, k)
    what = '%d centers of %s' % (k, X.shape)
    c.eq(S.shape, (k, d), 'number of seeds', what)
    for s in S:
        c.ok(any((s == x).all() for x in X), 'seed that is not a point', what)
    # every further seed is the one that reduces the distances most
    for j in range(1, k):
        D = np.min([((X - s) ** 2).sum(1) for s in S[:j]], 0)
        pot = [np.minimum(D, ((X - x) ** 2).sum(1)).sum() for x in X]
        got = np.minimum(D, ((X - S[j]) ** 2).sum(1)).sum()
        c.ok(got <= min(pot) * (1 + 1e-9) + 1e-12, 'seed does not reduce the distances most', lambda: '%s: seed %d leaves %g, best %g' % (what, j, got, min(pot)))
    c.ev('seeds')
    # clearly separated clusters are found whatever the first seed
    cent = [np.array([40. * (i + 1) * (1 if a == i % d else 0) for a in range(d)]) for i in range(k)]
    lab = [i for i in range(k) for _ in range(r.randint(3, 8))]
    r.shuffle(lab)
    Y = np.array([cent[i] + np.array([r.uniform(-1, 1) for _ in range(d)]) for i in lab])
    Y.setflags(write=False)
    C, got = kmeanspp(Y, k)
    c.eq(len(got), len(Y), 'labels', what)
    for i in range(k):
        ids = {g for g, l in zip(got, lab) if l == i}
        c.ok(len(ids) == 1, 'separated cluster torn apart', lambda: '%s: labels %s, clusters %s' % (what, list(got), lab))
        m = Y[np.array(lab) == i].mean(0)
        c.ok(len(ids) == 1 and np.allclose(C[list(ids)[0]], m), 'cluster center is not the mean', what)
    c.eq(len(set(got)), k, 'separated clusters merged', what)
    c.ev('clusters')
    c.sig(d, k, len(X))
    c.sample(what)


def k_minhash(c):
    seed(c.seed)
    r = c.r
    d, np_ = r.randint(2, 8), r.randint(1, 4)
    h = MinHash(d, np_)
    c.eq(h.permutations.shape, (np_, d), 'permutations')
    for p in h.permutations:
        c.eq(sorted(p), list(range(d)), 'permutation')
    items = []
    cast = lambda: r.choice([int, bool, float])

    def hashed(x):
        return tuple(([i for i, j in enumerate(p) if x[j] == 1] + [d])[0] for p in h.permutations)
    for i in range(r.randint(3, 25)):
        x = np.array([r.random() < .5 for _ in range(d)])
        if items and r.random() < .2:
            x = items[r.randrange(len(items))][0]
        h.put(x.astype(cast()), i)
        items.append((x, i))
        c.eq(sum(len(b) for b in h.buckets.values()), len(items), 'items stored')
    for _ in range(6):
        q = r.choice(items)[0] if r.random() < .5 else np.array([r.random() < .5 for _ in range(d)])
        k = r.randint(1, 6)
        res = h.knn(q.astype(cast()), k)
        cand = [(x, i) for x, i in items if hashed(x) == hashed(q)]
        c.eq(len(res), min(k, len(cand)), 'number of neighbors', 'of %d candidates' % len(cand))
        sims = [int((x == q).sum()) for x, i in cand]
        c.eq([int((x == q).sum()) for x, i in res], sorted(sims, reverse=True)[:len(res)], 'nearest of the bucket')
        c.eq(len({i for x, i in res}), len(res), 'neighbor returned twice')
        for x, i in res:
            c.ok((items[i][0] == x).all() and hashed(items[i][0]) == hashed(q), 'satellite of another item', i)
            c.close(jacardCoefficient(x, q), (x == q).mean(), 'coefficient', 1e-12)
        if any((x == q).all() for x, i in items):
            c.ok(len(res) and (res[0][0] == q).all(), 'identical item not found first', '%s: %s' % (q, res))
            c.ev('own item')
    c.raises(ValueError, lambda: h.put(np.zeros(d + 1), 0), 'item of wrong size accepted')
    c.raises(ValueError, lambda: h.knn(np.zeros((d, 1)), 1), 'item of wrong size accepted')
    c.raises(ValueError, lambda: jacardCoefficient(np.zeros(d), np.zeros(d + 1)), 'coefficient of different sizes')
    p = c.np.permutation(d)
    a = rnd_vec(c, d)
    c.close(arrayPermutation(p)(a), a[p], 'permuted array', 0)
    c.ev('minhash')
    c.sig(d, np_, len(items))


def k_multidim(c):
    seed(c.seed)
    r = c.r
    d = r.choice([1, 2, 2, 3, 3])
    h = MultiDimHash(d, omega=r.choice([4, 4, 3]), prob=r.choice([.8, .8, .5]))
    rad = math.sqrt(math.sqrt(d))
    c.close(h.radius, rad, 'radius', 1e-12)
    side = h.omega * rad
    pts = []
    for i in range(r.randint(5, 40)):
        x = rnd_vec(c, d, r.choice([1, 4, 20]))
        if pts and r.random() < .4:
            x = r.choice(pts) + rnd_vec(c, d, .1)
        pts.append(x)
        h.insert(frozen(x), i)
        c.eq(sum(len(b) for b in h.balls.values()), len(pts), 'points stored')
    for _ in range(6):
        q = r.choice(pts) if r.random() < .6 else rnd_vec(c, d, 4)
        cube, ball = h.findBall(q)
        c.eq(tuple(cube), tuple(int(math.floor(v / side)) for v in q), 'hypercube')
        rel = q - np.array(cube) * side
        inside = [i for i, b in enumerate(h.gridBalls) if ((rel - b) ** 2).sum() <= rad ** 2]
        c.eq(ball, inside[0] if inside else None, 'first ball that contains the point')
        k = r.randint(1, 5)
        res = h.knn(frozen(q), k)
        cand = sorted((((q - p) ** 2).sum(), i) for i, p in enumerate(pts) if h.findBall(p) == (cube, ball))
        c.eq(len(res), min(k, len(cand)), 'number of neighbors')
        c.close([((q - p) ** 2).sum() for p, s in res], [v for v, i in cand[:k]], 'nearest of the ball', 1e-12)
        c.eq(len({s for p, s in res}), len(res), 'neighbor returned twice')
        for p, s in res:
            c.ok((pts[s] == p).all(), 'satellite of another point', s)
            if ball is not None:
                c.ok(((p - q) ** 2).sum() <= 4 * rad ** 2 * (1 + 1e-9), 'neighbor further than the ball allows', lambda: '%s of %s' % (p, q))
                c.ev('within the ball')
        if any((p == q).all() for p in pts):
            c.ok(len(res) and (res[0][0] == q).all(), 'identical point not found first', '%s: %s' % (q, res))
            c.ev('own point')
    # points are in some ball about as often as asked for
    if d > 1:
        n = 300
        hit = sum(h._findLocalBall(np.array([r.uniform(0, side) for _ in range(d)])) is not None for _ in range(n))
        c.ok(hit / float(n) > h.prob - 5 * math.sqrt(.25 / n), 'balls do not cover the space', '%d of %d' % (hit, n))
    c.ev('multidimhash')
    c.sig(d, h.omega, h.prob, len(pts))


def k_ibp(c):
    seed(c.seed)
    r = c.r
    n, alpha, red = r.randint(2, 12), r.choice([1, 3, 10]), r.choice([1., 1., .5, .2])
    K = int(alpha * sum(1. / i for i in range(1, n + 1)) + math.sqrt(alpha * sum(1. / i for i in range(1, n + 1))) * 2) + 1
    a = alpha / red
    rows, pairs, reps = 0, 0, 200
    for _ in range(reps):
        M = generateIBP(n, alpha, red) if red < 1 or r.random() < .5 else generateIBP(n, alpha)
        c.ok(M.shape[0] == n and M.shape[1] <= K, 'shape', '%s' % (M.shape,))
        if M.size:
            c.ok(M.any(0).all(), 'dish nobody took')
        rows += M.sum() / float(n)
        if M.shape[1] > 1 and r.random() < .2:
            L = leftordered(M)
            c.eq(Counter(map(tuple, L.T)), Counter(map(tuple, M.T)), 'left-ordered form has other columns')
            codes = [tuple(col) for col in L.T]
            c.ok(all(p >= q for p, q in zip(codes, codes[1:])), 'not left-ordered', lambda: L.astype(int))
            c.ok((leftordered(L) == L).all(), 'left-ordered form changes again')
            c.ev('left ordered')
    # dishes of one customer: sum over sticks of the expected stick length
    q = a / (a + 1.)
    want = red * sum(q ** k for k in range(1, K + 1))
    # (the number of dishes of a customer varies at most about like alpha; sticks are shared between customers)
    got = rows / reps
    c.ok(abs(got - want) < 5.5 * math.sqrt((want + red ** 2 * a) / reps) + 1e-9, 'dishes per customer', '%g, expected %g for %d customers, %g, %g' % (got, want, n, alpha, red))
    c.ev('buffet')
    c.sig(n, alpha, red)


def k_fisher(c):
    seed(c.seed)
    r = c.r
    d = r.randint(1, 5)
    B = c.np.randn(d, d)
    S = frozen(B.dot(B.T) + .3 * np.eye(d))
    A = scipy.linalg.cholesky(S)
    inv = np.linalg.inv(S)
    how = r.choice(['', 'inv', 'fac', 'both'])
    kw = {}
    if how in ('inv', 'both'):
        kw['invSigma'] = frozen(inv)
        c.ev('given inverse')
    if how in ('fac', 'both'):
        kw['factorSigma'] = frozen(A)
    F = calcFisherInformation(S, **kw)
    G = calcInvFisher(S, **kw)
    what = '%d dimensions, given %s' % (d, how)
    c.eq((len(F), len(G)), (d + 1, d + 1), 'number of blocks', what)
    c.close(F[0], inv, 'information on the mean', 1e-8, what)
    c.close(G[0], S, 'inverse information on the mean', 1e-8, what)
    # sigma = A'A, A upper triangular: F_ij = tr(S^-1 dS/da_i S^-1 dS/da_j)/2; different rows of A are independent
    par = [(k, j) for k in range(d) for j in range(k, d)]
    dS = []
    for k, j in par:
        E = np.zeros((d, d))
        E[k, j] = 1
        dS.append(inv.dot(E.T.dot(A) + A.T.dot(E)))
    full = np.array([[.5 * np.trace(x.dot(y)) for x in dS] for y in dS])
    for a, (k, j) in enumerate(par):
        for b, (l, m) in enumerate(par):
            got = np.asarray(F[k + 1])[j - k, m - k] if k == l else 0.
            c.ok(abs(got - full[a, b]) < 1e-7 * (1 + abs(full).max()), 'information on the factor', lambda: '%s: %s, expected %s' % (what, got, full[a, b]))
    for k in range(d):
        c.close(np.asarray(G[k + 1]).dot(np.asarray(F[k + 1])), np.eye(d - k), 'inverse information on the factor', 1e-6, what)
    c.ev('fisher')
    c.ev('inverse fisher')
    c.sig(d, how)


def k_resample(c):
    seed(c.seed)
    r = c.r
    bs = r.randint(2, 6)
    uf, th = r.choice([1.5, 2.]), r.choice([.2, .5])
    mx = r.choice([None, None, 3, 5])
    noise = r.choice([0, .5, 5])
    log = []

    def f(x):
        v = x + r.gauss(0, noise)
        log.append(v)
        return v
    R = AdaptiveResampler(f, bs, uf, th, mx) if r.random() < .7 else AdaptiveResampler(f, batchsize=bs, update_factor=uf, threshold=th, max_resampling=mx)
    over, rec, n = 1, [None] * bs, 0
    for _ in range(40):
        x = r.gauss(0, 1)
        del log[:]
        y = R(x)
        k = int(over)
        second = n > 0 and n % bs == 0
        if not c.eq(len(log), k * (2 if second else 1), 'number of samples', 'evaluation %d, resampling %s' % (n, over)):
            return
        res = np.median(log[:k])
        if second:
            alt = np.median(log[k:])
            rc = sum((v - res) * (v - alt) < 0 for v in rec[1:])
            old = over
            if rc >= th * (bs - 1):
                over *= uf
                if mx is not None and over > mx:
                    over = mx
                    c.ev('capped')
                c.ev('more samples')
            elif rc == 0:
                over = max(over / uf, 1)
                if over < old:
                    c.ev('fewer samples')
            res = .5 * res + .5 * alt
        rec[n % bs] = res
        n += 1
        c.close(y, res, 'resampled value', 1e-12)
        c.close(R.resample_over, over, 'number of samples to come', 1e-12)
    c.ev('resampled')
    c.sig(bs, uf, th, mx, noise)


def k_mixture(c):
    seed(c.seed)
    r = c.r
    n = r.randint(2, 12)
    kw = dict(numOGaus=n, alphaA=r.choice([.02, .1]), alphaM=r.choice([.02, .1]), alphaS=r.choice([.02, .1]))
    pure = r.random() < .5
    m = mogpuremax.MixtureOfGaussians(**kw) if pure else MixtureOfGaussians('rastrigin', **kw)
    sgm = lambda a: 1 / (1 + np.exp(-a))
    c.close(sgm(m.alpha), np.ones(n) / n, 'initial weights', 1e-9)
    c.close(m.mue, np.linspace(-20, 20, n), 'initial centers', 1e-9)
    c.close(m.sigma, np.ones(n) * 40 / (math.sqrt(2) * (n - 1)), 'initial widths', 1e-9)
    x, mu, s = r.gauss(0, 2), r.gauss(0, 1), r.uniform(.3, 2)
    z = (x - mu) / s
    want = math.exp(-.5 * z * z) / math.sqrt(2 * math.pi) / s if abs(z) < 4 else 0
    c.ok(abs(m.getStND(x, mu, s) - want) < .004 / s + .002 * want, 'density', '%g: %g, expected %g' % (z, m.getStND(x, mu, s), want))
    base, best = 0., 1e-6
    for _ in range(r.randint(1, 30)):
        a, mue, sig = sgm(m.alpha), np.array(m.mue), np.array(m.sigma)
        x, y = r.uniform(-20, 20), r.gauss(.5, .5)
        ph = np.array([m.getStND(x, u, v) for u, v in zip(mue, sig)])
        over = (a * ph).sum()
        c.close(m.getGaus(m.alpha, m.mue, m.sigma, x), over, 'mixture density', 1e-10)
        norm = ph / over
        base = .99 * base + .01 * y
        best = max(best, y)
        fk = max((y - base) / (best - base), -1.)
        m.learn(x, y)
        if fk < 0:
            c.ev('negative factor')
        la = -np.log(1 / a - 1) + kw['alphaA'] / n * a * (1 - a) * fk * norm
        na = sgm(la)
        na = na / na.sum()
        c.close(sgm(m.alpha), na, 'weights after learning', 1e-7)
        c.close(m.mue, mue + kw['alphaM'] * fk * (x - mue) * na * norm, 'centers after learning', 1e-7)
        if fk > 0:
            sig = sig + kw['alphaS'] * fk * ((x - m.mue) ** 2 - sig ** 2) / sig * na * norm
        c.close(m.sigma, sig, 'widths after learning', 1e-7)
        if (np.array(m.sigma) < .05).any() or not np.isfinite(m.mue).all() or abs(m.mue).max() > 1e3:
            return
    # samples follow the mixture
    a = sgm(m.alpha)
    N = 600
    S = np.array([m.getSample() for _ in range(N)])
    mean = (a * m.mue).sum()
    var = (a * (m.sigma ** 2 + m.mue ** 2)).sum() - mean ** 2
    c.ok(abs(S.mean() - mean) < 5.5 * math.sqrt(var / N), 'mean of the samples', '%g, expected %g' % (S.mean(), mean))
    k4 = (a * (3 * m.sigma ** 4 + 6 * m.sigma ** 2 * (m.mue - mean) ** 2 + (m.mue - mean) ** 4)).sum()
    c.ok(abs(S.var() - var) < 6 * math.sqrt(max(k4 - var ** 2, 0) / N) + .02 * var, 'variance of the samples', '%g, expected %g' % (S.var(), var))
    c.ev('mixture samples')
    c.ev('mixture')
    c.sig(pure, n, kw['alphaA'], kw['alphaM'])


KINDS = [('pca', k_pca, 80, 3000), ('gp', k_gp, 100, 3000), ('kmeans', k_kmeans, 50, 1500), ('minhash', k_minhash, 60, 2500), ('multidim', k_multidim, 16, 400),
         ('ibp', k_ibp, 16, 300), ('fisher', k_fisher, 50, 1500), ('resample', k_resample, 80, 3000), ('mixture', k_mixture, 40, 1000)]
