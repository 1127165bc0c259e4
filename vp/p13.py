"""P13: what each optimizer does with the evaluations: selection, recombination and distribution updates."""
import random, sys
import numpy as np
import numpy.random
from pybrain.auxiliary import importancemixing
from scipy.linalg import expm, pinv, sqrtm
from pybrain.optimization import (HillClimber, StochasticHillClimber, RandomSearch, ES, GA, ParticleSwarmOptimizer,
                                  FiniteDifferences, SimpleSPSA, PGPE, CMAES, SNES, XNES, FEM, ExactNES, OriginalNES,
                                  VanillaGradientEvolutionStrategies, NelderMead)
from pybrain.optimization.distributionbased.rank1 import Rank1NES
from pybrain.optimization.populationbased.pso import fullyConnected, ring
from pybrain.structure.evolvables.evolvable import Evolvable
from vp.core import rnd_vec
from vp.p12 import seed, objective, Rec

RULE = ('a case records the points one optimizer evaluates and recomputes every step from the recorded evaluations; '
        'non-trivial when at least two steps were recomputed; distinct by settings, dimension and objective')
EXPECT = ['ga recombination', 'pgpe rprop', 'CMA-ES converged', 'SNES converged', 'not converged', 'hill climber step', 'stochastic step', 'worse accepted', 'worse rejected', 'random step', 'es generation',
          'es elitist', 'es comma', 'ga generation', 'ga child checked', 'ga elite', 'ga bounded', 'pso move', 'pso ring',
          'pso full', 'fd step', 'spsa step', 'pgpe step', 'pgpe sigma', 'cma step', 'snes step', 'xnes step', 'rank1 step', 'mixed step', 'reused points', 'stored distributions', 'ga generations', 'rank1 settings', 'online step', 'elitist ves', 'noisy climb',
          'fem step', 'fem shift', 'fem one-fifth', 'fem adaptiveShaping', 'fem diagonalOnly', 'fem doMadnessUpdate', 'fem sampleElitism', 'fem elitism', 'nes step', 'ves step', 'exact step', 'original step', 'monotone run', 'shift run', 'scale run',
          'spread']
ASSUMPTIONS = ['the state of a search distribution is read from the attributes center/stepSize/C, _center/_sigmas/_A, x/sigma, '
               'mus/sigmas, current and sigList; a state that is not readable is only checked through the points it produces']


def state(opt, c, *names):
    for n in names:
        if hasattr(opt, n):
            return np.array(getattr(opt, n), dtype=float)
    c.ev('unreadable state')
    return None


def hansen(f):
    n = len(f)
    r = np.empty(n)
    for i, j in enumerate(sorted(range(n), key=lambda j: (f[j], j))):
        r[j] = i
    return np.maximum(0, np.log(n / 2. + 1) - np.log(n - r))


def toplin(f, frac):
    n = len(f)
    r = np.empty(n)
    for i, j in enumerate(sorted(range(n), key=lambda j: (f[j], j))):
        r[j] = i
    w = np.where(r >= n * (1. - frac), r - n * (1. - frac), 0.)
    return w / max(w)


class Lin(Evolvable):
    """an evolvable that remembers of whom it is a mutant"""
    count = 0

    def __init__(self, r):
        Lin.count = 0
        self.id, self.parent, self.r, self.how = 0, None, r, 'init'

    def copy(self):
        e = object.__new__(Lin)
        e.id, e.parent, e.r, e.how = self.id, self.parent, self.r, self.how
        return e

    def _new(self, how):
        Lin.count += 1
        self.parent, self.id, self.how = self.id, Lin.count, how

    def mutate(self):
        self._new('mutate')

    def randomize(self):
        self._new('random')


def lineage(c, cls, minimize, values, **st):
    log = []
    val = {}

    def f(e):
        v = val.setdefault(e.id, values(e.id))
        log.append((e.id, e.parent, e.how, v if not minimize else -v))
        return v if not minimize else v
    e0 = Lin(c.r)
    seed(c.seed)
    opt = cls(f, e0, minimize=minimize, **st)
    return opt, log


def k_climb(c):
    minimize = c.r.random() < .5
    rr = random.Random(c.seed)
    levels = c.r.choice([0, 3])
    vals = (lambda i: rr.gauss(0, 1)) if not levels else (lambda i: float(rr.randint(0, levels)))
    which = c.r.choice(['hc', 'rs'])
    opt, log = lineage(c, HillClimber if which == 'hc' else RandomSearch, minimize, vals)
    n = c.r.randint(5, 40)
    opt.learn(n)
    c.eq(len(log), n + 1, 'evaluations', which)
    cur = log[0]
    for e in log[1:]:
        if which == 'hc':
            c.ok(e[2] == 'mutate' and e[1] == cur[0], 'parent', lambda: 'challenger %s is no mutant of the best so far %s' % (e, cur))
            if e[3] >= cur[3]:
                cur = e
            c.ev('hill climber step')
        else:
            c.ok(e[2] == 'random', 'random', 'not randomized: %s' % (e,))
            c.ev('random step')
    c.sig(which, minimize, levels, n)


def k_noisy_climb(c):
    """with noisy evaluations the present point is evaluated again before each challenger"""
    minimize = c.r.random() < .5
    sg = -1 if minimize else 1
    rr = random.Random(c.seed)
    n = c.r.randint(1, 4)
    which = c.r.choice(['hc', 'stochastic'])
    calls = []

    def f(x):
        v = -float(np.sum(np.square(x))) + rr.gauss(0, c.r.choice([.1, 1.]))
        calls.append((np.array(x), v))
        return sg * v
    seed(c.seed)
    st = {'minimize': minimize, 'evaluatorIsNoisy': True, 'maxEvaluations': c.r.randint(4, 60)}
    if which == 'stochastic':
        st['temperature'] = c.r.choice([.3, 1.])
    opt = (HillClimber if which == 'hc' else StochasticHillClimber)(f, rnd_vec(c, n), **st)
    out = opt.learn()
    M = st['maxEvaluations']
    c.ok(M - 1 <= len(calls) <= M and len(calls) % 2 == 1, 'noisy budget', '%d evaluations with a budget of %d (%s)' % (len(calls), M, which))
    cur = calls[0][0]
    mean = var = acc = 0.
    for i in range(1, len(calls) - 1, 2):
        (a, va), (b, vb) = calls[i], calls[i + 1]
        if not c.ok(np.array_equal(a, cur), 'noisy current', '%s: step %d evaluated %s again, the present point is %s' % (which, i // 2, a, cur)):
            return
        c.ok(not np.array_equal(b, a), 'noisy challenger', 'the challenger is the present point')
        nxt = calls[i + 2][0] if i + 2 < len(calls) else out[0] if which == 'hc' else None
        if vb >= va:
            cur = b
        elif which == 'stochastic' and nxt is not None:
            p = np.exp((vb - va) / st['temperature'])
            taken = np.array_equal(nxt, b)
            mean, var, acc = mean + p, var + p * (1 - p), acc + taken
            if taken:
                cur = b
        if which == 'hc':
            last = max(va, vb) if i + 3 >= len(calls) else None
        c.ev('noisy climb')
    if which == 'hc' and len(calls) > 2:
        c.close(out[1], sg * last, 'noisy result', 1e-12, 'the evaluation returned')
        c.ok(np.array_equal(out[0], cur), 'noisy result', 'the point returned')
    c.ok(abs(acc - mean) <= 6 * np.sqrt(var) + 3, 'noisy acceptance', '%d worse challengers taken, expected %.1f' % (acc, mean))
    c.sig(which, minimize, n, len(calls))


def k_stochastic(c):
    minimize = c.r.random() < .5
    T = c.r.choice([.3, 1., 3.])
    rr = random.Random(c.seed)
    opt, log = lineage(c, StochasticHillClimber, minimize, lambda i: rr.gauss(0, 1), temperature=T)
    n = 400
    opt.learn(n)
    cur = log[0]
    mean = var = acc = 0.
    for a, b in zip(log[1:], log[2:]):
        c.ok(a[1] == cur[0] and a[2] == 'mutate', 'parent', lambda: 'challenger %s is no mutant of the current %s' % (a, cur))
        taken = b[1] == a[0]
        if a[3] >= cur[3]:
            c.ok(taken, 'better taken', lambda: 'the better %s was not taken over %s' % (a, cur))
        else:
            p = np.exp((a[3] - cur[3]) / T)
            mean, var, acc = mean + p, var + p * (1 - p), acc + taken
            c.ev('worse accepted' if taken else 'worse rejected')
        if taken:
            cur = a
        c.ev('stochastic step')
    c.ok(abs(acc - mean) <= 6 * np.sqrt(var) + 3, 'acceptance', 'temperature %s: %d worse challengers accepted, expected %.1f '
         '+- %.1f' % (T, acc, mean, np.sqrt(var)))
    c.sig(minimize, T)


def k_es(c):
    minimize = c.r.random() < .5
    mu = c.r.randint(1, 4)
    lam = mu * c.r.randint(1, 4)
    el = c.r.random() < .5
    rr = random.Random(c.seed)
    opt, log = lineage(c, ES, minimize, lambda i: rr.gauss(0, 1), mu=mu, lambada=lam, elitism=el)
    pop = mu + lam if el else lam
    c.eq(len(log), pop, 'first population', 'ES(%d%s%d)' % (mu, '+' if el else ',', lam))
    c.ok(all(e[1] == 0 for e in log[1:]), 'first population', 'the first population are mutants of the initial point')
    alive = list(log)
    for g in range(c.r.randint(2, 6)):
        k = len(log)
        opt.learn(1)
        kids = log[k:]
        c.eq(len(kids), lam, 'offspring', 'evaluations in generation')
        parents = sorted(alive, key=lambda e: -e[3])[:mu]
        want = {p[0]: lam // mu for p in parents}
        got = {}
        for e in kids:
            got[e[1]] = got.get(e[1], 0) + 1
        c.ok(got == want, 'selection', lambda: 'ES(%d%s%d) generation %d: offspring per parent %s, expected %s (population %s)'
             % (mu, '+' if el else ',', lam, g, got, want, alive))
        alive = (parents if el else []) + list(kids)
        c.ev('es generation')
        c.ev('es elitist' if el else 'es comma')
        best = max(alive, key=lambda e: e[3])[3]
        c.ok(dict((e[0], e[3]) for e in log)[opt.hallOfFame[-1].id] == best, 'hall of fame', 'the entry of generation %d is not its best' % g)
    hof = [e.id for e in opt.hallOfFame]
    c.ok(len(hof) == g + 2, 'hall of fame', 'one entry per generation')
    val = dict((e[0], e[3]) for e in log)
    c.ok(val[hof[0]] == max(e[3] for e in log[:pop]), 'hall of fame', 'the first entry is not the best of the first population')
    c.sig(mu, lam, el, minimize)


def k_es_noisy(c):
    """noisy ES: the parents are evaluated again and selected by the new values"""
    mu, k = c.r.randint(1, 3), c.r.randint(1, 3)
    lam, el = mu * k, c.r.random() < .5
    rr = random.Random(c.seed)
    log = []

    def f(e):
        log.append((e.id, e.parent, rr.gauss(0, 1)))
        return log[-1][2]
    seed(c.seed)
    opt = ES(f, Lin(c.r), mu=mu, lambada=lam, elitism=el, evaluatorIsNoisy=True)
    pop = {e[0]: e[2] for e in log}
    for g in range(4):
        a = len(log)
        opt.learn(1)
        new = log[a:]
        c.eq(len(new), mu + lam, 'noisy evaluations', 'per step')
        best = sorted(pop, key=lambda i: -pop[i])[:mu]
        c.ok(sorted(e[0] for e in new[:mu]) == sorted(best), 'noisy reevaluation', 'the re-evaluated are not the %d best' % mu)
        pop.update({e[0]: e[2] for e in new[:mu]})
        par = sorted(pop, key=lambda i: -pop[i])[:mu]
        got = sorted(e[1] for e in new[mu:])
        c.ok(got == sorted(par * k), 'noisy selection', 'noisy ES: parents of the offspring %s, expected %s' % (got, sorted(par * k)))
        pop = {i: pop[i] for i in par} if el else {}
        pop.update({e[0]: e[2] for e in new[mu:]})
        c.ev('es generation')
    c.sig(mu, lam, el)


def opposite_rec(c, f, minimize):
    """-> recorder, better-first sign"""
    return Rec(f), (-1 if minimize else 1)


def k_ga(c):
    n = c.r.randint(2, 5)
    k, f = objective(c, n)
    minimize = c.r.random() < .5
    rec, sg = opposite_rec(c, f, minimize)
    N = c.r.choice([6, 8, 11])
    top = c.r.choice([.4, .5, .8, 1.])
    el = c.r.random() < .6
    mp = c.r.choice([0., 0., .3])
    st = dict(populationSize=N, topProportion=top, elitism=el, mutationProb=mp, minimize=minimize, storeAllPopulations=True)
    if el and c.r.random() < .3:
        st['_eliteSize'] = c.r.randint(0, N - 1)
    bound = None
    if c.r.random() < .5:
        bound = [(c.r.uniform(-6, -2), c.r.uniform(2, 6)) for _ in range(n)]
        st['xBound'] = bound
        st['mutationStdDev'] = c.r.choice([.5, 20.])
    seed(c.seed)
    x0 = np.array([c.r.uniform(-2, 2) for _ in range(n)])
    opt = GA(rec, x0.copy(), **st)
    sel = int(N * top)
    es = 0 if not el else st.get('_eliteSize', int(N * .5))
    es = min(es, sel)
    old = None
    for g in range(c.r.randint(2, 5)):
        a = len(rec.calls)
        opt.learn(1)
        pop = rec.calls[a:]
        c.eq(len(pop), N, 'population size', 'GA generation %d' % g)
        if bound:
            for x, _ in pop:
                c.ok(all(lo - 1e-12 <= v <= hi + 1e-12 for v, (lo, hi) in zip(x, bound)), 'bounds',
                     lambda: 'individual %s outside the bounds %s' % (x, bound))
            c.ev('ga bounded')
        if old is None:
            c.ok(np.array_equal(pop[0][0], x0), 'first individual', 'the initial point is part of the first population')
        else:
            ranked = sorted(old, key=lambda e: -sg * e[1])
            cut = sg * ranked[sel - 1][1]
            parents = [x for x, v in old if sg * v >= cut]
            for i in range(es):
                c.ok(any(np.array_equal(pop[i][0], x) and v == ranked[i][1] for x, v in old), 'elite',
                     lambda: 'the individual ranked %d did not survive unchanged (elite of %d)' % (i, es))
                c.ev('ga elite')
            if mp == 0:
                for x, _ in pop[es:]:
                    good = any(np.array_equal(x[:p], a_[:p]) and np.array_equal(x[p:], b_[p:])
                               for a_ in parents for b_ in parents for p in range(1, n))
                    c.ok(good, 'crossover', lambda: 'child %s is no one-point crossover of two selected parents' % x)
                    c.ev('ga child checked')
            else:
                # unmutated genes come from selected parents, about a fraction mp does not
                genes = sum(not any(x[i] == p[i] for p in parents) for x, _ in pop[es:] for i in range(n))
                tot = n * (N - es)
                c.ok(abs(genes - tot * mp) <= 6 * np.sqrt(tot * mp * (1 - mp)) + 1, 'mutation rate',
                     '%d of %d genes mutated with probability %s' % (genes, tot, mp))
        old = pop
        c.ev('ga generation')
    for i, (pop, fits) in enumerate(getattr(opt, '_allGenerations', [])):
        want = rec.calls[i * N:(i + 1) * N]
        c.eq(len(pop), N, 'stored generation', 'individuals of generation %d' % i)
        c.eq([sg * v for v in fits], [v for _, v in want], 'stored generation', 'fitnesses of generation %d' % i)
        c.ok(all(np.array_equal(x, w[0]) for x, w in zip(pop, want)), 'stored generation', 'individuals of generation %d' % i)
        c.ev('ga generations')
    # recombination alone: distinct genes, every child has two parents, and an even number of parents passes all genes on
    P = c.r.randint(2, 9)
    par = [np.arange(n) * 100. + i for i in range(P)]
    for want in (P, c.r.randint(1, 2 * P)):
        kids = opt.crossOver([p.copy() for p in par], want)
        c.eq(len(kids), want, 'children')
        who = np.array([np.array(x) - np.arange(n) * 100. for x in kids])
        for w in who:
            c.ok(len(set(w)) == 2 and sum(a != b for a, b in zip(w, w[1:])) == 1, 'recombination', lambda: 'genes of a child come from %s' % w)
        if want == P and P % 2 == 0:
            for i in range(n):
                c.eq(sorted(who[:, i]), list(range(P)), 'genes passed on', 'position %d' % i)
        c.ev('ga recombination')
    c.sig(n, k, N, top, el, mp, bool(bound), minimize)


def k_pso(c):
    n = c.r.randint(3, 5)
    k, f = objective(c, n)
    minimize = c.r.random() < .5
    rec, sg = opposite_rec(c, f, minimize)
    N = c.r.randint(3, 7)
    nb = c.r.choice(['full', 'ring'])
    mem, soc, ine = c.r.uniform(.2, 2), c.r.uniform(.2, 2), c.r.uniform(.3, 1)
    bnd = [(c.r.uniform(-6, -2), c.r.uniform(2, 6)) for _ in range(n)]
    seed(c.seed)
    given = c.r.random() < .8
    opt = ParticleSwarmOptimizer(rec, numParameters=n, minimize=minimize, size=N, memory=mem, sociality=soc, inertia=ine,
                                 boundaries=bnd if given else None,
                                 neighbourfunction=ring if nb == 'ring' else c.r.choice([None, fullyConnected]))
    G = c.r.randint(3, 6)
    opt.learn(G)
    c.eq(len(rec.calls), N * G, 'swarm evaluations', 'PSO')
    gens = [rec.calls[i * N:(i + 1) * N] for i in range(G)]
    for x, _ in gens[0]:
        c.ok(all(lo <= v <= hi for v, (lo, hi) in zip(x, bnd if given else [(-10, 10)] * n)), 'start bounds',
             'a particle starts outside the boundaries')
    best = [None] * N
    for t in range(G - 1):
        for i in range(N):
            x, v = gens[t][i]
            if best[i] is None or sg * v > sg * best[i][1]:
                best[i] = (x, v)
        for i in range(N):
            x = gens[t][i][0]
            vel = x - gens[t - 1][i][0] if t else np.zeros(n)
            neigh = range(N) if nb == 'full' else [(i + 1) % N, (i - 1) % N]
            j = max(neigh, key=lambda j: sg * gens[t][j][1])
            res = gens[t + 1][i][0] - x - ine * vel
            # (particles move one after the other: an earlier best neighbour has moved already)
            S, M = soc * (gens[t + (j < i)][j][0] - x), mem * (best[i][0] - x)
            cols = [v for v in (S, M) if np.linalg.norm(v) > 1e-9]
            if cols:
                A = np.array(cols).T
                co = np.linalg.lstsq(A, res, rcond=None)[0]
                err = np.linalg.norm(A.dot(co) - res)
                well = np.linalg.matrix_rank(A, tol=1e-6) == len(cols)
                c.ok(err <= 1e-7 * (1 + np.linalg.norm(res)) and (not well or np.all((co > -1e-6) & (co < 1 + 1e-6))), 'velocity',
                     lambda: 'particle %d of %d at step %d: velocity change %s is no combination of the pulls %s and %s '
                     '(coefficients %s)' % (i, N, t, res, S, M, co))
            else:
                c.ok(np.linalg.norm(res) < 1e-8, 'velocity', 'a particle at the best position is pulled somewhere')
            c.ev('pso move')
    c.ev('pso %s' % nb)
    c.sig(n, k, N, nb, minimize)


def k_fd(c):
    n = c.r.randint(2, 4)
    k, f = objective(c, n)
    minimize = c.r.random() < .5
    rec, sg = opposite_rec(c, f, minimize)
    B, lr, mom = c.r.choice([c.r.randint(n, 8), 14]), c.r.uniform(.01, .2), c.r.choice([0., .6])
    eps, gam = c.r.uniform(.3, 1.5), c.r.choice([1., .99, .9])
    dec = c.r.choice([None, .8])
    rp = c.r.random() < .25
    x0 = rnd_vec(c, n, c.r.choice([1, 1, 1e-4]))
    seed(c.seed)
    opt = FiniteDifferences(rec, x0.copy(), minimize=minimize, batchSize=B, learningRate=lr, momentum=mom, epsilon=eps,
                            gamma=gam, learningRateDecay=dec, rprop=rp)
    cur, v, e = x0, np.zeros(n), eps
    for g in range(c.r.randint(2, 4)):
        a = len(rec.calls)
        opt.learn(1)
        pts = rec.calls[a:]
        c.eq(len(pts), B, 'batch', 'finite differences')
        if np.max(abs(cur)) > 1e6:
            break               # diverged: the perturbations drown in rounding
        D = np.array([x - cur for x, _ in pts])
        for d in D:
            c.ok(np.all(abs(d) <= e * (1 + 1e-9) + 1e-12), 'epsilon', lambda: 'perturbation %s exceeds epsilon %s' % (d, e))
            e *= gam
        grad = pinv(D).dot([sg * w for _, w in pts])
        if rp:
            # the first rprop step is 0.1 along the sign of the gradient
            if g == 0:
                cur = cur + .1 * np.sign(grad)
            else:
                break
        else:
            v = mom * v + lr * grad
            lr *= dec or 1.
            cur = cur + v
        got = state(opt, c, 'current')
        if got is not None:
            c.close(got, cur, 'fd step', 1e-7, 'finite differences: current point')
            cur = got.copy()
        c.ev('fd step')
    c.sig(n, k, B, minimize, mom, dec, rp)


def k_spsa(c):
    n = c.r.randint(2, 5)
    k, f = objective(c, n)
    minimize = c.r.random() < .5
    rec, sg = opposite_rec(c, f, minimize)
    eps, gam, lr = c.r.uniform(.3, 2), c.r.choice([1., .95]), c.r.uniform(.01, .3)
    x0 = rnd_vec(c, n)
    seed(c.seed)
    opt = SimpleSPSA(rec, x0.copy(), minimize=minimize, epsilon=eps, gamma=gam, learningRate=lr)
    steps = c.r.randint(3, 8)
    opt.learn(steps)
    c.eq(len(rec.calls), 2 * steps, 'pairs', 'SPSA evaluations')
    cur, best = x0, None
    for t in range(steps):
        (xp, a), (xm, b) = rec.calls[2 * t:2 * t + 2]
        a, b = sg * a, sg * b
        c.close((xp + xm) / 2, cur, 'spsa point', 1e-8, 'SPSA step %d: centre of the symmetric pair' % t)
        d = (xp - xm) / 2
        c.close(abs(d), np.ones(n) * eps, 'spsa perturbation', 1e-8, 'SPSA step %d: size of the perturbation' % t)
        eps *= gam
        best = max([a, b] + ([best] if best is not None else []))
        if t and a != b:
            cur = cur + lr * (a - b) / (2 * best - a - b) * eps ** 2 / d
        c.ev('spsa step')
    c.sig(n, k, minimize, gam)


def k_pgpe(c):
    n = c.r.randint(2, 5)
    k, f = objective(c, n)
    minimize = c.r.random() < .5
    rec, sg = opposite_rec(c, f, minimize)
    ex = c.r.choice(['local', 'global'])
    eps, lr, sl, wd = c.r.uniform(.5, 2), c.r.uniform(.05, .3), c.r.uniform(.02, .2), c.r.choice([0., .01])
    x0 = rnd_vec(c, n)
    seed(c.seed)
    rp = c.r.random() < .2
    opt = PGPE(rec, x0.copy(), minimize=minimize, exploration=ex, rprop=rp, epsilon=eps, learningRate=lr, sigmaLearningRate=sl, wDecay=wd)
    cur, best, base, sig = x0, None, None, np.ones(n) * eps
    for t in range(c.r.randint(4, 9)):
        if min(sig) < 0:
            # no deviation can be drawn any more: the run ends as diverged
            break
        opt.learn(1)
        if not c.eq(len(rec.calls), 2 * t + 2, 'pairs', 'PGPE evaluations'):
            return
        (xp, a), (xm, b) = rec.calls[-2:]
        a, b = sg * a, sg * b
        if rp:
            cur = (xp + xm) / 2
        c.close((xp + xm) / 2, cur, 'pgpe point', 1e-8, 'PGPE step %d: centre of the symmetric pair' % t)
        d = (xp - xm) / 2
        best = max([a, b] + ([best] if best is not None else []))
        m = (a + b) / 2
        f1 = f2 = 0.
        if base is None:
            base = m
        else:
            f1 = (a - b) / (2 * best - a - b) if a != b else 0.
            f2 = (m - base) / (best - base) if best != base else 0.
        base = .9 * base + .1 * m
        cur = cur + lr * (f1 * d - cur * sig * wd)
        if rp:
            # (its steps are those of the rule, checked in P10; the directions are these)
            got = state(opt, c, 'sigList')
            up = (d ** 2).sum() - (sig ** 2).sum() * np.ones(n) if ex == 'global' else d ** 2 - sig ** 2
            if got is not None:
                c.ok(f2 > 0 or np.array_equal(got, sig), 'pgpe sigma, rprop', 'changed without a positive gradient')
                c.ok(np.all((got - sig) * up > -1e-12), 'pgpe sigma, rprop', lambda: 'moved by %s, gradient %s' % (got - sig, up))
                sig = got
            c.ev('pgpe rprop')
            continue
        if f2 > 0:
            if ex == 'global':
                sig = sig + sl * f2 * ((d ** 2).sum() - (sig ** 2).sum()) / (sig * n)
            else:
                sig = sig + sl * f2 * (d ** 2 - sig ** 2) / sig
            c.ev('pgpe sigma')
        got = state(opt, c, 'sigList')
        if got is not None:
            c.close(got, sig, 'pgpe sigma', 1e-8, 'PGPE (%s exploration) step %d: standard deviations' % (ex, t))
        c.ev('pgpe step')
    c.sig(n, k, minimize, ex, wd)


def k_cma(c):
    n = c.r.randint(2, 6)
    k, f = objective(c, n)
    minimize = c.r.random() < .5
    rec, sg = opposite_rec(c, f, minimize)
    s0 = c.r.uniform(.2, 3)
    x0 = rnd_vec(c, n)
    seed(c.seed)
    opt = CMAES(rec, x0.copy(), minimize=minimize, initStepSize=s0, stopPrecision=0.)
    lam = 4 + int(np.floor(3 * np.log(n)))
    mu = lam // 2
    w = np.log(mu + 1) - np.log(np.arange(1, mu + 1))
    w /= w.sum()
    me = 1 / np.sum(w ** 2)
    cc, cs = 4. / (n + 4), (me + 2) / (n + me + 3)
    ccov = 1 / me * 2 / (n + 1.4) ** 2 + (1 - 1 / me) * (2 * me - 1) / ((n + 2) ** 2 + 2 * me)
    damps = 1 + 2 * max(0, np.sqrt((me - 1) / (n + 1)) - 1) + cs
    chi = n ** .5 * (1 - 1 / (4. * n) + 1 / (21. * n ** 2))
    m, s, C, pc, ps = x0, s0, np.eye(n), np.zeros(n), np.zeros(n)
    zs = []
    G = c.r.randint(4, 12)
    for g in range(G):
        a = len(rec.calls)
        opt.learn(1)
        pts = rec.calls[a:]
        if not pts:
            break
        c.eq(len(pts), lam, 'batch', 'CMA-ES')
        Y = np.array([(x - m) / s for x, _ in pts])
        E, U = np.linalg.eigh(C)
        inv = (U / np.sqrt(E)).dot(U.T)
        zs += list(Y.dot(inv).ravel())
        order = sorted(range(lam), key=lambda i: (-sg * pts[i][1], i))[:mu]
        if len(set(v for _, v in pts)) < lam:
            break               # ties: any order among them is legitimate
        Y = Y[order]
        y = w.dot(Y)
        m = m + s * y
        ps = (1 - cs) * ps + np.sqrt(cs * (2 - cs) * me) * inv.dot(y)
        h = np.linalg.norm(ps) / np.sqrt(1 - (1 - cs) ** (2. * (g + 1))) / chi < 1.4 + 2. / (n + 1)
        pc = (1 - cc) * pc + h * np.sqrt(cc * (2 - cc) * me) * y
        C = (1 - ccov) * C + ccov / me * (np.outer(pc, pc) + (1 - h) * cc * (2 - cc) * C) \
            + ccov * (1 - 1 / me) * (Y.T * w).dot(Y)
        C = (C + C.T) / 2
        s = s * np.exp(cs / damps * (np.linalg.norm(ps) / chi - 1))
        for nm, want in (('center', m), ('stepSize', s), ('C', C)):
            got = state(opt, c, nm)
            if got is not None:
                if not c.close(got, want, 'cma ' + nm, 1e-6, 'CMA-ES step %d (dim %d): %s' % (g, n, nm)):
                    return
        c.ev('cma step')
    zs = np.array(zs)
    c.ok(abs(zs.mean()) < 7 / np.sqrt(len(zs)) and abs((zs ** 2).mean() - 1) < 7 * np.sqrt(2. / len(zs)), 'cma samples',
         'CMA-ES: the samples do not follow the distribution: standardized mean %.2f variance %.2f'
         % (zs.mean(), (zs ** 2).mean()))
    c.ev('spread')
    c.sig(n, k, minimize, lam)


def k_selfstop(c):
    """an optimizer stops by itself exactly when it has converged"""
    n = c.r.randint(2, 4)
    k, f = objective(c, n)
    minimize = c.r.random() < .5
    rec, sg = opposite_rec(c, f, minimize)
    x0 = rnd_vec(c, n)
    seed(c.seed)
    if c.r.random() < .7:
        prec = c.r.choice([1e-6, 1e-3, 1e-2])
        opt = CMAES(rec, x0.copy(), minimize=minimize, stopPrecision=prec, initStepSize=c.r.choice([.1, .5, 3.]))

        def done(vals):
            lo, hi = min(vals), max(vals)
            return lo == hi or (hi - lo) <= prec * (abs(lo) + abs(hi))
        what = 'CMA-ES'
    else:
        cut = c.r.choice([.05, .3])
        opt = SNES(rec, x0.copy(), minimize=minimize, varianceCutoff=cut)
        what = 'SNES'
    marks = []
    opt.listener = lambda e, v: marks.append((len(rec.calls), None if what == 'SNES' else np.linalg.eigvalsh(opt.C) if hasattr(opt, 'C') else [1, 1],
                                              np.array(opt._sigmas) if what == 'SNES' else None))
    opt.learn(150)
    flags, a = [], 0
    for b, E, sigmas in marks:
        new = [v for _, v in rec.calls[a:b]]
        a = b
        if max(map(abs, new)) > 1e12 or E is not None and (not np.all(np.isfinite(E)) or max(E) > 1e4 or min(E) < 1e-12):
            return
        flags.append(done(new) if what == 'CMA-ES' else max(abs(sigmas)) < cut)
    c.eq(len(rec.calls), a, 'unfinished step')
    c.ok(not any(flags[:-1]), 'stopped late', lambda: '%s went on for %d steps after it had converged' % (what, len(flags) - flags.index(True) - 1))
    c.ok(len(flags) == 150 or flags[-1], 'stopped early', lambda: '%s stopped after %d steps, last values %s' % (what, len(flags), new))
    c.ev('%s converged' % what if flags[-1] else 'not converged')
    c.sig(what, n, k, len(marks))


def k_nes_family(c):
    """SNES and xNES from the recorded points alone"""
    which = c.r.choice(['snes', 'xnes'])
    n = c.r.randint(2, 6)
    k, f = objective(c, n)
    minimize = c.r.random() < .5
    rec, sg = opposite_rec(c, f, minimize)
    x0 = rnd_vec(c, n)
    ub = c.r.random() < .6
    st = dict(minimize=minimize, uniformBaseline=ub)
    if which == 'xnes':
        st['storeAllDistributions'] = c.r.random() < .5
    lc = c.r.choice([1., .6, 1.4])
    st['centerLearningRate'] = lc
    B = 4 + int(np.floor(3 * np.log(n)))
    if c.r.random() < .4:
        B = st['batchSize'] = c.r.randint(5, 14)
    if which == 'snes':
        ls = .6 * (3 + np.log(n)) / 3 / np.sqrt(n)
    else:
        ls = .6 * (3 + np.log(n)) / n / np.sqrt(n)
    lv = ls
    if c.r.random() < .4:
        ls = lv = st['covLearningRate'] = c.r.uniform(.05, .4)
    if which == 'xnes' and c.r.random() < .4:
        lv = st['scaleLearningRate'] = c.r.uniform(.05, .4)
    iv = 1.
    if which == 'snes' and c.r.random() < .4:
        iv = st['initVariance'] = c.r.uniform(.3, 2)
    seed(c.seed)
    opt = (SNES if which == 'snes' else XNES)(rec, x0.copy(), **st)
    m, sig, A = x0, np.ones(n) * iv, np.eye(n)
    trail = [(m, A)]
    zs = []
    for g in range(c.r.randint(4, 10)):
        a = len(rec.calls)
        opt.learn(1)
        pts = rec.calls[a:]
        if not pts:
            break
        c.eq(len(pts), B, 'batch', which)
        X = np.array([x for x, _ in pts])
        F = [sg * v for _, v in pts]
        if len(set(F)) < B:
            break
        u = hansen(F)
        u /= u.sum()
        if ub:
            u = u - 1. / B
        if which == 'snes':
            S = (X - m) / sig
            m = m + lc * sig * u.dot(S)
            sig = sig * np.exp(.5 * ls * u.dot(S ** 2 - 1))
            checks = [(('_center', 'center'), m), (('_sigmas', 'sigmas'), sig)]
        else:
            S = np.linalg.solve(A, (X - m).T).T
            G = (S.T * u).dot(S) - u.sum() * np.eye(n)
            tr = np.trace(G)
            dA = .5 * (lv * tr / n * np.eye(n) + ls * (G - tr / n * np.eye(n)))
            m = m + lc * A.dot(u.dot(S))
            A = A.dot(expm(dA))
            checks = [(('_center', 'center'), m), (('_A', 'A'), A)]
        zs += list(S.ravel())
        for nm, want in checks:
            got = state(opt, c, *nm)
            if got is not None and not c.close(got, want, '%s %s' % (which, nm[0]), 1e-6, '%s step %d (dim %d): %s' %
                                               (which, g, n, nm[0])):
                return
        trail.append((m, A))
        c.ev('%s step' % which)
    if st.get('storeAllDistributions') and hasattr(opt, '_allDistributions'):
        got = opt._allDistributions
        if c.ok(len(got) >= len(trail), 'stored distributions', lambda: '%d distributions stored in %d steps' % (len(got), len(trail) - 1)):
            for i, (a, b) in enumerate(zip(got, trail)):
                c.close(a[0], b[0], 'stored distributions', 1e-6, 'centre of distribution %d' % i)
                c.close(a[1], b[1], 'stored distributions', 1e-6, 'factor of distribution %d' % i)
            c.ev('stored distributions')
    zs = np.array(zs)
    if len(zs) > 60:
        c.ok(abs(zs.mean()) < 7 / np.sqrt(len(zs)) and abs((zs ** 2).mean() - 1) < 7 * np.sqrt(2. / len(zs)), '%s samples' % which,
             '%s: standardized samples have mean %.2f variance %.2f' % (which, zs.mean(), (zs ** 2).mean()))
        c.ev('spread')
    c.sig(which, n, k, minimize, ub, B)


class Mixing(object):
    """while active, every importance mixing asked for is recorded: density ratios at the old points and at the chosen new ones"""

    def __enter__(self):
        self.calls, self.where = [], []
        real = importancemixing.importanceMixing

        def spy(oldpoints, oldpdf, newpdf, newdistr, *a, **kw):
            old = [newpdf(p) / oldpdf(p) for p in oldpoints]
            idx, fresh = real(oldpoints, oldpdf, newpdf, newdistr, *a, **kw)
            self.calls.append((old, [newpdf(p) / oldpdf(p) for p in fresh], a[0] if a else kw.get('forcedRefresh', .01)))
            return idx, fresh
        for name, mod in list(sys.modules.items()):
            if name.startswith('pybrain') and getattr(mod, 'importanceMixing', None) is real:
                self.where.append((mod, real))
                mod.importanceMixing = spy
        return self

    def __exit__(self, *a):
        for mod, real in self.where:
            mod.importanceMixing = real


def k_reuse(c):
    with Mixing() as spy:
        reuse(c, spy)


def reuse(c, spy):
    """xNES with importance mixing: each step updates from the mixed batch, and old points are kept with the ratio of the densities"""
    n = c.r.randint(2, 4)
    k, f = objective(c, n)
    minimize = c.r.random() < .5
    rec, sg = opposite_rec(c, f, minimize)
    x0 = rnd_vec(c, n)
    B = c.r.choice([None, 20, 35])
    alpha = c.r.choice([.01, .01, .1, .3])
    ls, lv = c.r.uniform(.05, .4), c.r.uniform(.05, .4)
    st = dict(minimize=minimize, importanceMixing=True, forcedRefresh=alpha, covLearningRate=ls, scaleLearningRate=lv)
    if B is not None:
        st['batchSize'] = B
    B = B or 10 * n
    seed(c.seed)
    opt = XNES(rec, x0.copy(), **st)
    m, A = x0, np.eye(n)
    om = oA = batch = None
    rng = np.random.RandomState(c.seed % 2 ** 32)
    d1 = v1 = d2 = v2 = 0.

    def dens(X, m, A):
        z = np.linalg.solve(A, (X - m).T).T
        return -.5 * (z ** 2).sum(1) - np.linalg.slogdet(A)[1]

    def squash(t):
        return 1 / (1 + np.exp(-np.clip(t, -50, 50)))
    for g in range(c.r.randint(4, 9)):
        a = len(rec.calls)
        opt.learn(1)
        fresh = rec.calls[a:]
        asked, spy.calls = spy.calls, []
        if not fresh:
            break
        P = getattr(opt, '_pointers', None)
        if P is None:
            c.ev('unreadable state')
            return
        P = list(P)
        c.eq(len(P), B, 'mixed batch', 'size of the batch of step %d' % g)
        c.eq(len(set(P)), B, 'mixed batch', 'a point is twice in the batch')
        kept = [i for i in P if i < a]
        c.eq(sorted(i for i in P if i >= a), list(range(a, len(rec.calls))), 'mixed batch', 'the new points of step %d' % g)
        if g:
            c.ok(all(i in batch for i in kept), 'mixed batch', 'a reused point is not of the previous batch')
            old = np.array([rec.calls[i][0] for i in batch])
            ratio = np.exp(dens(old, m, A) - dens(old, om, oA))
            p = np.minimum(1, (1 - alpha) * ratio)
            if len(asked) == 1:
                X = np.array([x for x, _ in fresh])
                c.close(sorted(asked[0][0]), sorted(ratio), 'density ratio', 1e-5, 'new density over old at the points of the batch, step %d' % g)
                c.close(sorted(asked[0][1]), sorted(np.exp(dens(X, m, A) - dens(X, om, oA))), 'density ratio', 1e-5,
                        'new density over old at the new points, step %d' % g)
                c.eq(asked[0][2], alpha, 'refresh rate', 'forced refresh rate of the mixing')
                c.ev('density ratios')
            last = len(batch) if B - len(kept) > max(1, B * alpha) else 1 + max([batch.index(i) for i in kept] or [len(batch) - 1])
            d1 += len(kept) - p[:last].sum()
            v1 += (p * (1 - p))[:last].sum()
            # the new points, against the density that is left for them
            Y = rng.randn(1500, n).dot(A.T) + m
            t = dens(Y, m, A) - dens(Y, om, oA)
            w = np.maximum(alpha, 1 - np.exp(-t))
            h = squash(t)
            mu = (w * h).sum() / w.sum()
            X = np.array([x for x, _ in fresh])
            d2 += (squash(dens(X, m, A) - dens(X, om, oA)) - mu).sum()
            v = (w * (h - mu) ** 2).sum() / w.sum()
            v2 += v * len(X) + v * len(X) ** 2 * w.var() / w.mean() ** 2 / 1500 + v * len(X) ** 2 / 1500
            c.ev('mixed step')
            if kept:
                c.ev('reused points')
        batch = P
        X = np.array([rec.calls[i][0] for i in P])
        F = [sg * rec.calls[i][1] for i in P]
        if len(set(F)) < B:
            break
        u = hansen(F)
        u = u / u.sum() - 1. / B
        S = np.linalg.solve(A, (X - m).T).T
        G = (S.T * u).dot(S) - u.sum() * np.eye(n)
        tr = np.trace(G)
        om, oA = m, A
        dA = .5 * (lv * tr / n * np.eye(n) + ls * (G - tr / n * np.eye(n)))
        m, A = m + A.dot(u.dot(S)), A.dot(expm(dA))
        for nm, want in ((('_center', 'center'), m), (('_A', 'A'), A)):
            got = state(opt, c, *nm)
            if got is not None and not c.close(got, want, 'mixed step', 1e-6, 'step %d (dim %d): %s' % (g, n, nm[0])):
                return
    c.ok(abs(d1) <= 6 * np.sqrt(v1) + 1, 'reuse probability', 'points reused minus the sum of their probabilities: %.1f (std %.1f)' % (d1, np.sqrt(v1)))
    c.ok(abs(d2) <= 6 * np.sqrt(v2) + 1, 'new points', 'new points are not where the new density exceeds the old: %.2f (std %.2f)' % (d2, np.sqrt(v2)))
    c.sig('xnes mixing', n, k, minimize, B, alpha)


def k_rank1(c):
    n = c.r.randint(2, 6)
    k, f = objective(c, n)
    minimize = c.r.random() < .5
    rec, sg = opposite_rec(c, f, minimize)
    x0 = rnd_vec(c, n)
    seed(c.seed)
    st, cr, ec, es, ub, B = {}, 1., .1, .1, False, int(max(5, max(4 * np.log2(n), .2 * n)))
    if c.r.random() < .6:
        cr, ec, es, ub, B = c.r.choice([1., .6]), c.r.choice([.1, .05, .5]), c.r.choice([.1, .3]), c.r.random() < .5, c.r.randint(4, 12)
        st = dict(centerLearningRate=cr, covLearningRate=ec, scaleLearningRate=es, uniformBaseline=ub, batchSize=B)
        c.ev('rank1 settings')
    opt = Rank1NES(rec, x0.copy(), minimize=minimize, **st)
    m = x0
    for g in range(c.r.randint(2, 6)):
        u0, a0 = state(opt, c, '_principalVector'), state(opt, c, '_logDetA')
        q = len(rec.calls)
        opt.learn(1)
        pts = rec.calls[q:]
        F = [sg * v for _, v in pts]
        if not pts or len(set(F)) < len(F):
            break
        U = hansen(F)
        U /= U.sum()
        c.eq(len(pts), B, 'rank1 batch', 'Rank1NES evaluations of a step (settings %s)' % st)
        if ub:
            U -= 1. / B
        X = np.array([x for x, _ in pts])
        d = X - m
        m2 = m + cr * U.dot(d)
        got = state(opt, c, '_center', 'center')
        if got is not None:
            c.close(got, m2, 'rank1 center', 1e-7, 'Rank1NES centre')
        if u0 is not None and a0 is not None:
            W = d / np.exp(a0)
            r = np.linalg.norm(u0)
            v = u0 / r
            ww, wv = (W ** 2).sum(1), W.dot(v)
            da = U.dot((ww - n) - (wv ** 2 - 1)) / (2. * (n - 1))
            du = U.dot((r ** 2 - n + 2) * wv ** 2 - (r ** 2 + 1) * ww) / (2 * r * (n - 1.)) * v + (U * wv / r).dot(W)
            e = min(ec, 2 * np.sqrt(r ** 2 / du.dot(du)))
            dc = du.dot(v) / r
            if dc > 0:
                u1 = u0 + e * du
            else:
                dv = du / r - dc * v
                v1 = v + e * dv
                u1 = np.exp(np.log(r) + e * dc) * v1 / np.linalg.norm(v1)
            c.close(opt._principalVector, u1, 'rank1 vector', 1e-7, 'Rank1NES principal vector')
            c.close(opt._logDetA, a0 + es * da, 'rank1 scale', 1e-7, 'Rank1NES scale (settings %s)' % st)
        m = m2
        c.ev('rank1 step')
    c.sig(n, k, minimize, g, B, ec, es)


def gauss(x, m, S):
    d = x - m
    return np.exp(-.5 * d.dot(np.linalg.solve(S, d))) / np.sqrt(np.linalg.det(2 * np.pi * S))


def k_fem(c):
    n = c.r.randint(2, 4)
    k, f = objective(c, n)
    minimize = c.r.random() < .5
    rec, sg = opposite_rec(c, f, minimize)
    x0 = rnd_vec(c, n)
    W = c.r.choice([6, 10, 20])
    forget, mm, mut = c.r.uniform(.05, .3), c.r.choice([1., .7]), c.r.random() < .3
    st = {}
    if c.r.random() < .7:
        for o, p in (('diagonalOnly', .3), ('useAnticipatedMeanShift', .3), ('doMadnessUpdate', .25), ('oneFifthRule', .3), ('sampleElitism', .3),
                     ('elitism', .25), ('adaptiveShaping', .25)):
            if c.r.random() < p:
                if o == 'adaptiveShaping' and 'diagonalOnly' in st:
                    continue
                st[o] = True
                c.ev('fem ' + o)
    on = lambda o: o in st
    seed(c.seed)
    before = FEM.shapingFunction.topFraction
    opt = FEM(rec, x0.copy(), minimize=minimize, windowSize=W, forgetFactor=forget, muMultiplier=mm, mutative=mut, batchSize=1, **st)
    c.eq(len(rec.calls), 1, 'fem init', 'FEM evaluates the initial point')
    mu, S = state(opt, c, 'mus'), state(opt, c, 'sigmas')
    if mu is None or S is None:
        return
    mu, S = mu[0].copy(), S[0].copy()
    F, X, sizes = [], [], []
    shift = np.zeros(n)
    frac = before
    tag = ' (%s, window %d%s)' % ('+'.join(sorted(st)), W, ', mutative' if mut else '')
    import contextlib, io
    for t in range(W + c.r.randint(3, 15) if not on('oneFifthRule') and not on('doMadnessUpdate') else 3 * W + 15):
        with contextlib.redirect_stdout(io.StringIO()):
            opt.learn(1)
        best = max(sg * v for _, v in rec.calls[:-1])
        x, v = rec.calls[-1]
        if on('sampleElitism') and len(F) > W and len(F) % W == 0:
            top = [p for p, w in rec.calls[:-1] if sg * w == best]
            c.ok(any(np.array_equal(x, p) for p in top), 'fem sample elitism', 'sample %d is not the best point so far%s' % (len(F), tag))
        F.append(sg * v)
        X.append(np.array(x))
        if len(F) >= W:
            win = F[-W:]
            if len(set(win)) < W:
                return
            u = toplin(win, frac)
            u = u[-1] / max(u) * forget
            sizes.append(u)
            spread = lambda m: (u * (m - x) ** 2 if on('diagonalOnly') else u * 1.2 * np.outer(m - x, m - x))
            if u > 0:
                if mut:
                    S = (1 - u) * S + spread(mu)
                old = mu
                mu = (1 - mm * u) * mu + mm * u * x
                if on('useAnticipatedMeanShift') and len(F) % W == 1:
                    shift = (1 - forget) * shift + mu - old
                    c.ev('fem shift')
                if on('doMadnessUpdate') and len(F) > 2 * W:
                    mu = sum(s * p for s, p in zip(sizes[-W:], X[-W:])) / sum(sizes[-W:])
                if on('elitism'):
                    ev = [sg * w for _, w in rec.calls]
                    tops = [np.array(p) for (p, _), w in zip(rec.calls, ev) if w == max(ev)]
                    if len(tops) > 1 and any(not np.array_equal(tops[0], p) for p in tops):
                        return
                    mu = tops[0]
                if not mut:
                    S = (1 - u) * S + spread(mu)
            if on('adaptiveShaping'):
                order = list(range(len(F)))[-W:]
                # the window is a ring in the order of arrival
                pdf = [gauss(X[i], mu, np.diag(S) if S.ndim == 1 else S) for i in order]
                best = []
                ps = np.arange(2. / W, 1 + 1. / W, 1. / W)
                for p in ps:
                    y = toplin(win, p)
                    pos = [j for j in range(W) if y[j] > 0]
                    best.append(sum(pdf[j] * np.log(y[j]) for j in pos) / sum(pdf[j] for j in pos))
                gap = sorted(best)[-1] - sorted(best)[-2]
                frac = ps[int(np.argmax(best))]
                if not gap > 1e-9 or not np.isfinite(gap):
                    frac = opt.shapingFunction.topFraction
                elif not c.close(opt.shapingFunction.topFraction, frac, 'fem shaping', 1e-9, 'FEM fraction after %d samples%s' % (len(F), tag)):
                    return
            if on('oneFifthRule') and len(F) % 10 == 0 and len(F) > 2 * W:
                i = int(W * .8)
                S = S * (1.2 if sorted(F[-W:])[i] >= sorted(F[-2 * W:-W])[i] else .5)
                c.ev('fem one-fifth')
        if not np.all(np.isfinite(S)) or np.min(np.abs(np.diag(S) if S.ndim > 1 else S)) < 1e-14:
            return
        if not c.close(opt.mus[0], mu, 'fem mean', 1e-7, 'FEM mean after %d samples%s' % (len(F), tag)):
            return
        if not c.close(opt.sigmas[0], S, 'fem covariance', 1e-7, 'FEM covariance after %d samples%s' % (len(F), tag)):
            return
        if on('useAnticipatedMeanShift') and hasattr(opt, 'meanShifts'):
            c.close(opt.meanShifts[0], shift, 'fem mean shift', 1e-7, 'FEM anticipated mean shift%s' % tag)
        c.ev('fem step')
    c.eq(FEM.shapingFunction.topFraction, before, 'fem leak', 'shaping fraction of other FEM optimizers')
    c.sig(n, k, W, minimize, mut, tuple(sorted(st)))


def triu(M):
    return np.concatenate([M[i, i:] for i in range(len(M))])


def k_ves_online(c):
    """vanilla gradients one sample at a time: fitnesses and squared derivatives of the last batch"""
    n = c.r.randint(2, 3)
    k, f = objective(c, n)
    minimize = c.r.random() < .5
    rec, sg = opposite_rec(c, f, minimize)
    B = c.r.randint(5, 14)
    lr, lrs = c.r.uniform(.005, .03), c.r.uniform(.002, .01)
    mom = c.r.choice([None, .4])
    scale = c.r.random() < .3
    P = n + n * (n + 1) // 2
    seed(c.seed)
    opt = VanillaGradientEvolutionStrategies(rec, rnd_vec(c, n), online=True, minimize=minimize, batchSize=B, learningRate=lr, learningRateSigma=lrs,
                                             momentum=mom, vanillaScale=scale)
    x, A = state(opt, c, 'x'), state(opt, c, 'factorSigma')
    if x is None or A is None:
        return
    mv, sq = np.zeros(P), []
    b0 = len(rec.calls)
    for t in range(2 * B + c.r.randint(1, 6)):
        q = len(rec.calls)
        opt.learn(1)
        c.eq(len(rec.calls), q + 1, 'online step', 'evaluations of an online step')
        if len(rec.calls) - b0 <= B:
            c.close(state(opt, c, 'x'), x, 'online early', 1e-12, 'online VES moved before its first batch was full')
            continue
        F = [sg * v for _, v in rec.calls[b0:]][-B:]
        if len(set(F)) < B:
            return
        y = rec.calls[-1][0] - x
        iS = np.linalg.inv(A.T.dot(A))
        L = .5 * (iS.dot(np.outer(y, y)).dot(iS) - iS)
        if scale:
            L = L * np.outer(np.abs(np.diag(A)), np.abs(np.diag(A)))
        phi = np.hstack([iS.dot(y), triu(A.dot(L + L.T))])
        sq.append(phi ** 2)
        fit = toplin(F, .5)
        last = sq[-B:]
        base = sum(w * z for w, z in zip(fit[-len(last):], last)) / sum(last)
        g = (fit[-1] - base) * phi
        if mom is not None:
            mv = mom * mv + g
            g = mv
        x = x + lr * g[:n]
        dA = np.zeros((n, n))
        z = n
        for i in range(n):
            dA[i, i:] = g[z:z + n - i]
            z += n - i
        A = A + lrs * dA
        if not np.all(np.isfinite(A)) or np.linalg.cond(A) > 1e5:
            return
        what = 'online VES (dim %d, batch %d, sample %d)' % (n, B, t)
        if not c.close(state(opt, c, 'x'), x, 'online center', 1e-6, what) or \
                not c.close(state(opt, c, 'factorSigma'), A, 'online factor', 1e-6, what):
            return
        c.ev('online step')
    c.sig(n, k, B, mom, scale, minimize)


def k_gnes(c):
    with Mixing() as spy:
        gnes(c, spy)


def gnes(c, spy):
    """vanilla, exact and original NES: (natural) gradients from the recorded batch"""
    which = c.r.choice(['ves', 'exact', 'original'])
    n = c.r.randint(2, 4)
    k, f = objective(c, n)
    minimize = c.r.random() < .5
    rec, sg = opposite_rec(c, f, minimize)
    P = n + n * (n + 1) // 2
    B = c.r.randint(2 * P, 3 * P)
    lr = c.r.uniform(.05, .4) if which != 'ves' else .002
    lrs = lr if c.r.random() < .5 else lr * .5
    bt = c.r.randint(0, 3)
    R = rnd_vec(c, n * n, .3).reshape(n, n)
    S0 = R.dot(R.T) + np.eye(n)
    mom = c.r.choice([None, .4]) if which == 'ves' else None
    st = dict(minimize=minimize, batchSize=B, learningRate=lr, learningRateSigma=lrs, importanceMixing=c.r.random() < .4,
              initCovariances=S0.copy(), momentum=mom)
    if c.r.random() < .4:
        st['forcedRefresh'] = c.r.choice([.05, .2])
    if which == 'exact':
        st['baselineType'] = bt
    elite = c.r.random() < .25
    if elite:
        st['elitism'] = True
    seed(c.seed)
    cls = {'ves': VanillaGradientEvolutionStrategies, 'exact': ExactNES, 'original': OriginalNES}[which]
    opt = cls(rec, rnd_vec(c, n), **st)
    x, A = state(opt, c, 'x'), state(opt, c, 'factorSigma')
    if x is None or A is None:
        return
    c.close(A.T.dot(A), S0, 'initial covariance', 1e-9, which)
    mv = np.zeros(P)
    calls = {}
    om = oA = oldZ = None

    def dens(X, m, A):
        z = np.linalg.solve(A.T, (X - m).T).T
        return -.5 * (z ** 2).sum(1) - np.linalg.slogdet(A)[1]
    for g in range(c.r.randint(2, 4)):
        done = len(rec.calls)
        opt.learn(1)
        for y, v in rec.calls:
            calls[tuple(y)] = v
        asked, spy.calls = spy.calls, []
        if len(asked) == 1 and oldZ is not None:
            X = np.array([y for y, _ in rec.calls[done:]])
            c.close(sorted(asked[0][0]), sorted(np.exp(dens(oldZ, x, A) - dens(oldZ, om, oA))), 'density ratio', 1e-5,
                    '%s: new density over old at the points of the batch, step %d' % (which, g))
            c.close(sorted(asked[0][1]), sorted(np.exp(dens(X, x, A) - dens(X, om, oA))), 'density ratio', 1e-5,
                    '%s: new density over old at the new points, step %d' % (which, g))
            c.eq(asked[0][2], st.get('forcedRefresh', .01), 'refresh rate', 'forced refresh rate of the mixing')
            c.ev('gradient density ratios')
        om, oA = x, A
        Z = oldZ = np.array(opt.allSamples[-B:])
        c.ok(all(calls.get(tuple(z)) is not None for z in Z), 'nes population', 'a point of the population was never evaluated')
        F = [sg * calls[tuple(z)] for z in Z]
        if len(set(F)) < B:
            break
        fit = toplin(F, .5)
        S = A.T.dot(A)
        iS, iA = np.linalg.inv(S), np.linalg.inv(A)
        Y = Z - x
        gx = Y.dot(iS)
        gA = np.array([triu(A.dot(iS.dot(np.outer(y, y)).dot(iS) - iS)) for y in Y])
        phi = np.hstack([gx, gA])
        if which == 'ves':
            sq = phi ** 2
            grad = np.sum(phi * (fit[:, None] - fit.dot(sq) / sq.sum(0)), 0)
        elif which == 'original':
            grad = np.linalg.pinv(np.hstack([phi, np.ones((B, 1))])).dot(fit)[:-1]
        else:
            # exact Fisher information of the Gaussian in these parameters
            D = []
            for i in range(n):
                for j in range(i, n):
                    E = np.zeros((n, n))
                    E[i, j] = 1
                    D.append(iS.dot(E.T.dot(A) + A.T.dot(E)))
            Fi = np.array([[.5 * np.trace(a.dot(b)) for b in D] for a in D])
            V = np.vstack([Y.T, np.linalg.solve(Fi, gA.T)])
            if bt == 0:
                grad = V.dot(fit)
            elif bt == 1:
                u, v = V.dot(fit), V.sum(1)
                grad = u - v.dot(u) / v.dot(v) * v
            elif bt == 2:
                b = (V ** 2).dot(fit) / (V ** 2).sum(1)
                grad = np.sum(V * (fit[None, :] - b[:, None]), 1)
            else:
                grad = np.zeros(P)
                ends = [(0, n)]
                q = n
                for i in range(n):
                    ends.append((q, q + n - i))
                    q += n - i
                for lo, hi in ends:
                    s2 = (V[lo:hi] ** 2).sum(0)
                    grad[lo:hi] = V[lo:hi].dot(fit - s2.dot(fit) / s2.sum())
            grad = grad / B
        if mom is not None:
            mv = mom * mv + grad
            grad = mv
        x = x + lr * grad[:n]
        if elite:
            # the mean is the best point so far
            x = np.array(max(rec.calls, key=lambda q: sg * q[1])[0])
            c.ev('elitist ves')
        dA = np.zeros((n, n))
        q = n
        for i in range(n):
            dA[i, i:] = grad[q:q + n - i]
            q += n - i
        A = A + lrs * dA
        if not c.close(state(opt, c, 'x'), x, '%s center' % which, 1e-6, '%s step %d (dim %d, baseline %d): centre'
                       % (which, g, n, bt)):
            return
        if not c.close(state(opt, c, 'factorSigma'), A, '%s covariance' % which, 1e-6, '%s step %d (dim %d, baseline %d): factor'
                       % (which, g, n, bt)):
            return
        c.close(opt.sigma, A.T.dot(A), '%s sigma' % which, 1e-6, 'covariance')
        c.ev('%s step' % which)
        c.ev('nes step')
    c.sig(which, n, k, B, bt, minimize)


ALGOS = {'CMAES': (CMAES, {'stopPrecision': 0.}), 'SNES': (SNES, {}), 'XNES': (XNES, {}), 'Rank1NES': (Rank1NES, {}),
         'ES': (ES, {'mu': 2, 'lambada': 4}), 'GA': (GA, {'populationSize': 8}), 'PSO': (ParticleSwarmOptimizer, {'size': 5}),
         'FEM': (FEM, {'windowSize': 6, 'batchSize': 1}), 'HillClimber': (HillClimber, {}), 'RandomSearch': (RandomSearch, {}),
         'ExactNES': (ExactNES, {'batchSize': 20, 'learningRate': .1}), 'OriginalNES': (OriginalNES, {'batchSize': 20, 'learningRate': .1}),
         'VES': (VanillaGradientEvolutionStrategies, {'batchSize': 20})}


def points(c, cls, st, f, x0, steps):
    rec = Rec(f)
    seed(c.seed)
    cls(rec, x0.copy(), **st).learn(steps)
    return rec.calls


def k_invariance(c):
    """what only depends on the order of the evaluations does not change under a monotone transformation; search
    distributions move and scale along with the problem"""
    n = c.r.randint(2, 5)
    x0, o = rnd_vec(c, n, 2), rnd_vec(c, n)
    a = np.array([c.r.uniform(.5, 3) for _ in range(n)])
    f = lambda x: float(np.dot(a, (x - o) ** 2))
    name = c.r.choice(list(ALGOS))
    cls, st = ALGOS[name]
    minimize = c.r.random() < .5
    st = dict(st, minimize=minimize)
    steps = c.r.randint(2, 6)
    base = points(c, cls, st, f, x0, steps)
    h = c.r.choice([lambda y: y ** 3 - 7, lambda y: 4 * y + 100, lambda y: np.log(1 + y), lambda y: -1 / (1 + y)])
    mono = points(c, cls, st, lambda x: float(h(f(x))), x0, steps)
    c.ok(len(base) == len(mono) and all(np.array_equal(p[0], q[0]) for p, q in zip(base, mono)), 'monotone',
         lambda: '%s: a strictly increasing transformation of the objective changes the run' % name)
    c.ev('monotone run')
    if name in ('SNES', 'XNES', 'Rank1NES', 'ES', 'HillClimber', 'GA'):
        t = rnd_vec(c, n, 3)
        sh = points(c, cls, st, lambda x: f(x - t), x0 + t, steps)
        c.ok(len(sh) == len(base) and np.allclose([q[0] - t for q in sh], [p[0] for p in base], rtol=1e-6, atol=1e-6), 'shift',
             lambda: '%s: the run does not move along with the problem' % name)
        c.ev('shift run')
    if name in ('CMAES', 'SNES', 'GA'):
        s = c.r.choice([.25, .5, 2., 4., 8.])        # (exact in floating point)
        key, b = {'CMAES': ('initStepSize', .5), 'SNES': ('initVariance', 1.), 'GA': ('mutationStdDev', .5)}[name]
        p = points(c, cls, dict(st, **{key: b}), f, x0, steps)
        q = points(c, cls, dict(st, **{key: b * s}), lambda x: f(x / s), x0 * s, steps)
        c.ok(len(p) == len(q) and np.allclose([e[0] / s for e in q], [e[0] for e in p], rtol=1e-5, atol=1e-5), 'scale',
             lambda: '%s: the run does not scale along with the problem' % name)
        c.ev('scale run')
    c.sig(name, n, minimize, steps, len(base))


KINDS = [('climb', k_climb, 30, 400), ('stochastic', k_stochastic, 10, 60), ('noisy_climb', k_noisy_climb, 40, 500), ('es', k_es, 60, 800), ('es_noisy', k_es_noisy, 15, 200),
         ('ga', k_ga, 80, 1200), ('pso', k_pso, 50, 800), ('fd', k_fd, 40, 600), ('spsa', k_spsa, 40, 600),
         ('pgpe', k_pgpe, 50, 700), ('cma', k_cma, 40, 600), ('selfstop', k_selfstop, 60, 800), ('nes_family', k_nes_family, 80, 1200), ('reuse', k_reuse, 40, 600), ('rank1', k_rank1, 60, 800), ('ves_online', k_ves_online, 50, 600),
         ('fem', k_fem, 120, 1500), ('gnes', k_gnes, 70, 1000), ('invariance', k_invariance, 120, 2000)]
