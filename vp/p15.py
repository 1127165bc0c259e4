"""P15: fitness rankings, importance mixing, populations and their random variates."""
import math, random
import numpy as np
from pybrain.tools.rankingfunctions import (rankedFitness, normalizedFitness, RankingFunction, TournamentSelection,
                                            SmoothGiniRanking, ExponentialRanking, HansenRanking, TopSelection,
                                            TopLinearRanking, BilinearRanking)
from pybrain.auxiliary.importancemixing import importanceMixing
from pybrain.supervised.evolino.gpopulation import SimplePopulation
from pybrain.supervised.evolino.gfilter import SimpleMutation, Randomization
from pybrain.supervised.evolino.variate import UniformVariate, CauchyVariate, GaussianVariate
from vp.core import rnd_vec
from vp.p12 import seed

RULE = ('a case ranks one random fitness vector with every ranking function, mixes one pair of distributions, or drives one population '
        'history; non-trivial when there are at least three different values; distinct by sizes and settings')
EXPECT = ['ranks', 'ties', 'integer', 'list', 'tournament', 'gini', 'exponential', 'hansen', 'top', 'toplinear', 'bilinear', 'monotone',
          'order free', 'mixing', 'mixing disjoint', 'mixing close', 'mixing frequency', 'no refresh', 'population', 'remove worst', 'remove none',
          'randomization', 'mutation', 'nested genome', 'variates', 'possible parameters']
ASSUMPTIONS = ['random draws are reproducible from the seeded generators; frequencies are compared within five standard deviations']


def ref_rank(R):
    order = sorted(range(len(R)), key=lambda i: (R[i], i))
    out = [0] * len(R)
    for k, i in enumerate(order):
        out[i] = k
    return out


def ref_utility(kind, a, n, k):
    """utility of rank k (0 worst) of n, before scaling"""
    if kind == 'plain':
        return float(k)
    if kind == 'gini':
        return k * a['linearComponent'] + (k / (n - 1.)) ** (2 / a['gini'] - 1) * (1 - a['linearComponent'])
    if kind == 'exp':
        return math.exp(k / (n - 1.) * a['temperature'])
    if kind == 'hansen':
        return max(0., math.log(n / 2. + 1) - math.log(n - k))
    if kind == 'top':
        return 1. if k >= n * (1. - a['topFraction']) else 0.
    if kind == 'toplinear':
        return max(0., k - n * (1. - a['topFraction']))
    t = 4 * n / 5.
    return k if k < t else k + (k - t) * a['bilinearFactor']


def k_ranking(c):
    n = c.r.choice([2, 3, c.r.randint(4, 12), c.r.randint(10, 60), c.r.randint(90, 130)])
    how = c.r.choice(['float', 'float', 'float', 'int', 'list', 'ties'])
    if how == 'int':
        R = np.array([c.r.randint(-20, 20) for _ in range(n)])
        c.ev('integer')
    elif how == 'ties':
        R = np.array([float(c.r.randint(0, 3)) for _ in range(n)])
        c.ev('ties')
    else:
        R = rnd_vec(c, n, c.r.choice([1e-3, 1., 1e6]))
    if how == 'list':
        R = [float(x) for x in R]
        c.ev('list')
    keep = list(R)
    ranks = [int(x) for x in rankedFitness(R)]
    c.eq(ranks, ref_rank(list(R)), 'ranks', 'ranks of %s' % (list(R),))
    c.ev('ranks')
    if len(set(keep)) > 1 and how != 'list':
        z = normalizedFitness(R)
        c.close([z.mean(), (z ** 2).mean()], [0, 1], 'normalized', 1e-8, 'normalized fitness of %s' % (keep,))
        c.ok(np.allclose(np.argsort(np.argsort(z, kind='stable'), kind='stable'), ranks) or len(set(keep)) < n, 'normalized', 'order changed')
    frac = c.r.choice([1., .5, .25, round(c.r.uniform(1.01 / n, 1), 3)])
    frac = max(frac, 1.0 / n + 1e-6)
    specs = [('plain', RankingFunction, {}, True),
             ('gini', SmoothGiniRanking, dict(gini=c.r.choice([.1, .5, 1.]), linearComponent=c.r.choice([0., .3, 1.])), True),
             ('exp', ExponentialRanking, dict(temperature=c.r.choice([.5, 10.])), False),
             ('hansen', HansenRanking, {}, False), ('top', TopSelection, dict(topFraction=frac), False),
             ('toplinear', TopLinearRanking, dict(topFraction=frac), True),
             ('bilinear', BilinearRanking, dict(bilinearFactor=c.r.choice([1, 20])), True)]
    for kind, cls, a, scaled in specs:
        f = cls(**a)
        got = np.array(f(R), dtype=float)
        want = np.array([ref_utility(kind, a, n, k) for k in ranks])
        if kind in ('top', 'toplinear') and abs(n * (1 - frac) - round(n * (1 - frac))) < 1e-9 and n * (1 - frac) != round(n * (1 - frac)):
            continue
        if scaled:
            if max(want) == 0:
                continue
            want = want / max(want)
        c.close(got, want, 'ranking ' + kind, 1e-9, '%s%s of ranks %s' % (cls.__name__, a, ranks))
        c.ok(list(R) == keep, 'ranking input', '%s changes its input' % cls.__name__)
        c.ev({'plain': 'ranks', 'exp': 'exponential'}.get(kind, kind))
        if how in ('float', 'list') and len(set(keep)) == n:
            order = sorted(range(n), key=lambda i: keep[i])
            c.ok(all(got[i] <= got[j] + 1e-12 for i, j in zip(order, order[1:])), 'monotone', '%s prefers a worse fitness' % cls.__name__)
            c.ev('monotone')
            p = list(range(n))
            c.r.shuffle(p)
            c.close(np.array(f(np.array(keep)[p]), dtype=float), got[p], 'order free', 1e-12, '%s depends on the order of the samples' % cls.__name__)
            g = np.array(f(np.arctan(np.array(keep) / max(abs(x) for x in keep)) * 3 - 7), dtype=float)
            c.close(g, got, 'rank based', 1e-12, '%s is not rank based' % cls.__name__)
            c.ev('order free')
    # tournaments
    if n >= 3:
        size = c.r.choice([2, 2, 3])
        seed(c.seed)
        tot = np.zeros(n)
        T = 40
        for _ in range(T):
            w = TournamentSelection(tournamentSize=size)(np.array(keep, dtype=float))
            c.eq(sum(w), n, 'tournament total', 'number of tournaments won')
            c.ok(all(x == int(x) and x >= 0 for x in w), 'tournament', 'not a number of tournaments')
            if len(set(keep)) == n:
                i = int(np.argmin(keep))
                c.eq(w[i], 0, 'tournament worst', 'the worst sample won a tournament (everyone else being better)')
                j = int(np.argmax(keep))
                c.ok(w[j] >= 1, 'tournament best', 'the best sample lost its own tournament')
            tot += w
        if len(set(keep)) == n:
            # a tournament of each sample with others, each of them drawn on its own
            m = size - 1
            for i in range(n):
                k = ranks[i]
                p = [(k / (n - 1.)) ** m] + [((float(k) ** m - float(k - 1) ** m) / (n - 1.) ** m)] * k
                mean, var = T * sum(p), T * sum(x * (1 - x) for x in p)
                c.ok(abs(tot[i] - mean) <= 6 * math.sqrt(var) + 2, 'tournament rate',
                     'rank %d of %d won %d times in %d rounds, expected %.1f' % (k, n, tot[i], T, mean))
        c.ev('tournament')
        for x in TopLinearRanking().getPossibleParameters(n):
            w = np.array(TopLinearRanking(topFraction=min(x, 1.))(R), dtype=float)
            c.ok(np.isfinite(w).all() and w.max() == 1 and w.min() == 0, 'possible parameters', 'fraction %s of %d gives %s' % (x, n, w))
        c.ev('possible parameters')
    if len(set(keep)) > 2:
        c.sig(n, how, frac)


def k_mixing(c):
    n = c.r.choice([1, 2, 5, c.r.randint(6, 60), 400])
    m = c.r.randint(2, 5)
    how = c.r.choice(['any', 'any', 'disjoint', 'close', 'same'])

    def dist():
        w = np.array([c.r.random() + .05 for _ in range(m)])
        return w / w.sum()
    old, new = dist(), dist()
    if how == 'disjoint':
        new[0] = 0.
        old[-1] = 0.
        old, new = old / old.sum(), new / new.sum()
    if how in ('close', 'same'):
        new = old * (1 + (.02 if how == 'close' else 0) * np.array([c.r.uniform(-1, 1) for _ in range(m)]))
        new = new / new.sum()
    alpha = c.r.choice([0.01, 0.1, 0.5, 1.])
    if how == 'any' and c.r.random() < .3:
        alpha = 0.
        c.ev('no refresh')
    c.ev({'disjoint': 'mixing disjoint', 'close': 'mixing close'}.get(how, 'mixing'))
    seed(c.seed)
    rs = np.random.RandomState(c.seed % 2 ** 31)

    class P(float):
        pass
    reps = 1 if n > 100 else c.r.choice([1, 40])
    count, total = np.zeros(m), 0
    for rep in range(reps):
        pts = [P(x) for x in rs.choice(m, size=n, p=old)]
        made = []

        def draw():
            x = P(rs.choice(m, p=new))
            made.append(x)
            return x
        reuse, fresh = importanceMixing(pts, lambda x: old[int(x)], lambda x: new[int(x)], draw, alpha)
        c.eq(len(reuse) + len(fresh), n, 'batch', 'points reused plus new')
        c.ok(list(reuse) == sorted(set(reuse)) and all(0 <= i < n for i in reuse), 'reused', 'reused indices %s' % (reuse,))
        ids = [id(x) for x in made]
        pos = [ids.index(id(x)) for x in fresh if id(x) in ids]
        c.ok(len(pos) == len(fresh) and pos == sorted(set(pos)), 'new points', 'a new point that was not drawn, or twice')
        c.ok(len(fresh) >= 1 or n == 1, 'only old', 'only old samples')
        c.ok(len(fresh) >= min(n, int(n * alpha)), 'refresh', '%d new of %d with a forced refresh of %s' % (len(fresh), n, alpha))
        for i in reuse:
            c.ok(new[int(pts[i])] > 0 and alpha < 1, 'impossible', 'a point that the new distribution never produces is kept')
        full = n - len(reuse) > max(1, n * alpha)
        if full:
            for i in range(n):
                if (1 - alpha) * new[int(pts[i])] >= old[int(pts[i])]:
                    c.ok(i in reuse, 'certain reuse', 'a point with ratio %s was not kept' % (new[int(pts[i])] / old[int(pts[i])]))
        if alpha in (0., 1.) or how == 'disjoint':
            # draws that have to be accepted
            for k, x in enumerate(made):
                if pos and k < pos[-1] and (old[int(x)] == 0 or alpha == 1):
                    c.ok(k in pos, 'certain new', 'a new point where the old density is zero was rejected')
        if alpha == 0:
            c.ok(all(old[int(x)] < new[int(x)] for x in fresh), 'useless new', 'a new point was accepted where the old density was higher')
        for x in [pts[i] for i in reuse] + list(fresh):
            count[int(x)] += 1
        total += n
    if total >= 300 and how in ('any', 'disjoint') and n >= 30 and alpha <= .1:
        for k in range(m):
            # (the last draws depend on the number already reused: a small allowance)
            sd = math.sqrt(total * new[k] * (1 - new[k]))
            c.ok(abs(count[k] - total * new[k]) <= 5 * sd + 2 * reps, 'frequency', 'state %d: %d of %d, expected %.1f (old %s, new %s, refresh %s)'
                 % (k, count[k], total, total * new[k], old, new, alpha))
        c.ev('mixing frequency')
    c.sig(n, m, how, alpha, reps)


class Ind(object):
    def __init__(self, g):
        self.g = g

    def getGenome(self):
        return self.g


def genome(c, depth=0):
    out = []
    for _ in range(c.r.randint(0 if depth else 1, 4)):
        if depth < 3 and c.r.random() < .35:
            out.append(genome(c, depth + 1))
            c.ev('nested genome')
        else:
            out.append(c.r.gauss(0, 1))
    return out


def leaves(g):
    return [x for v in g for x in (leaves(v) if isinstance(v, list) else [v])]


def shape(g):
    return [shape(v) if isinstance(v, list) else 0 for v in g]


def k_population(c):
    seed(c.seed)
    pop = SimplePopulation()
    model = {}
    log = []
    for step in range(c.r.randint(3, 25)):
        op = c.r.choice(['add', 'add', 'adds', 'remove', 'fit', 'fit', 'fit', 'clear', 'worst', 'none', 'read'])
        log.append(op)
        if op == 'add':
            i = Ind(genome(c))
            pop.addIndividual(i)
            model[i] = -np.inf
        elif op == 'adds':
            l = [Ind(genome(c)) for _ in range(c.r.randint(0, 4))]
            pop.addIndividuals(c.r.choice([list, set])(l))
            model.update((i, -np.inf) for i in l)
        elif op == 'remove' and model:
            l = c.r.sample(list(model), c.r.randint(1, min(2, len(model))))
            if len(l) == 1:
                pop.removeIndividual(l[0])
            else:
                pop.removeIndividuals(l)
            for i in l:
                del model[i]
        elif op == 'fit':
            every = c.r.random() < .4
            for i in list(model):
                if every or c.r.random() < .7:
                    model[i] = c.r.choice([c.r.gauss(0, 1), float(c.r.randint(0, 2))])
                    pop.setIndividualFitness(i, model[i])
        elif op == 'clear':
            pop.clearFitness()
            for i in model:
                model[i] = -np.inf
        elif op in ('worst', 'none'):
            n = 0 if op == 'none' else c.r.randint(0, len(model) + 1)
            gone = pop.getWorstIndividuals(n)
            c.eq(len(gone), min(n, len(model)), 'worst count', 'worst %d of %d' % (n, len(model)))
            before = dict(model)
            pop.removeWorstIndividuals(n)
            left = pop.getIndividuals()
            c.eq(len(left), max(0, len(model) - n), 'removal count', 'left after removing the %d worst of %d' % (n, len(model)))
            model = {i: f for i, f in model.items() if i in left}
            dead = [f for i, f in before.items() if i not in left]
            if dead and model:
                c.ok(max(dead) <= min(model.values()), 'removal', 'an individual with fitness %s was removed, one with %s kept' % (max(dead), min(model.values())))
            c.ev('remove none' if n == 0 else 'remove worst')
        c.eq(set(pop.getIndividuals()), set(model), 'members', 'members after %s' % log)
        c.eq(pop.getIndividualsN(), len(model), 'number', 'after %s' % log)
        c.eq(pop.getFitnessMap(), model, 'fitness', 'after %s' % log)
        pop.getIndividuals().clear()
        pop.getFitnessMap().clear()
        if model:
            c.eq(pop.getMaxFitness(), max(model.values()), 'max fitness', 'maximal fitness')
            if all(np.isfinite(v) for v in model.values()):
                c.close(pop.getAverageFitness(), sum(model.values()) / len(model), 'average', 1e-9, 'average fitness')
            fs = [model[i] for i in pop.getSortedIndividualList()]
            c.eq(fs, sorted(model.values(), reverse=True), 'sorted', 'sorted by fitness')
            n = c.r.randint(0, len(model) + 1)
            best = pop.getBestIndividuals(n)
            c.eq(sorted(model[i] for i in best), sorted(sorted(model.values(), reverse=True)[:n]), 'best', 'best %d' % n)
    c.ev('population')
    # genomes
    lo, hi = sorted([c.r.gauss(0, 1), c.r.gauss(0, 1)])
    before = {i: (shape(i.g), leaves(i.g)) for i in model}
    Randomization(lo, hi).apply(pop)
    for i in model:
        c.eq(shape(i.g), before[i][0], 'genome shape', 'randomized genome')
        c.ok(all(lo <= x <= hi for x in leaves(i.g)), 'randomization', 'a gene outside [%s, %s]: %s' % (lo, hi, i.g))
        c.ok(len(set(leaves(i.g))) == len(leaves(i.g)), 'randomization', 'genes are equal: %s' % (i.g,))
    c.ev('randomization')
    mut = SimpleMutation()
    mut.mutationVariate.alpha = .1
    before = {i: (shape(i.g), leaves(i.g)) for i in model}
    mut.apply(pop)
    for i in model:
        c.eq(shape(i.g), before[i][0], 'genome shape', 'mutated genome')
        c.ok(all(0 < abs(x - y) < .8 for x, y in zip(leaves(i.g), before[i][1])), 'mutation', 'mutated by %s'
             % [x - y for x, y in zip(leaves(i.g), before[i][1])])
    c.ev('mutation')
    c.sig(tuple(log))


def k_variates(c):
    seed(c.seed)
    n = 12000
    x0, a = c.r.choice([c.r.gauss(0, 3), 0.]), c.r.choice([.01, .5, 2.])
    sd = 5 * math.sqrt(.25 / n)
    over = c.r.random() < .5
    for cls in (CauchyVariate, GaussianVariate):
        v = cls(*(c.r.choice([(0, 1), (7., 3.)]) if over else (x0, a)))
        c.eq(v.getSample(x0, 0.), x0, 'no spread', '%s with scale 0' % cls.__name__)
        got = [v.getSample(x0, a) if over else v.getSample() for _ in range(n)]
        q = 1.0 if cls is CauchyVariate else .67448975
        c.ok(abs(np.mean([g < x0 for g in got]) - .5) < sd, 'median', '%s: median' % cls.__name__)
        c.ok(abs(np.mean([abs(g - x0) < q * a for g in got]) - .5) < sd, 'scale', '%s: half of the samples within %s of %s' % (cls.__name__, q * a, x0))
        if cls is CauchyVariate:
            c.ok(abs(np.mean([abs(g - x0) < 3 * a for g in got]) - 2 / math.pi * math.atan(3)) < sd, 'tail', 'tail of the Cauchy variate')
        else:
            c.ok(abs(np.mean([abs(g - x0) < 2 * a for g in got]) - .9545) < sd, 'tail', 'tail of the Gaussian variate')
    lo = c.r.gauss(0, 1)
    if c.r.random() < .3:
        lo = c.r.choice([0., -a])
    u = UniformVariate(lo, lo + a) if not over else UniformVariate(*c.r.choice([(), (7., 9.)]))
    got = np.array([u.getSample() if not over else u.getSample(lo, lo + a) for _ in range(n)])
    c.ok(got.min() >= lo and got.max() <= lo + a, 'uniform', 'bounds')
    c.ok(abs(np.mean(got < lo + a / 4) - .25) < sd, 'uniform', 'quarter')
    c.ev('variates')
    c.sig(round(x0, 3), a, over)


KINDS = [('ranking', k_ranking, 160, 3000), ('mixing', k_mixing, 160, 3000), ('population', k_population, 120, 2500),
         ('variates', k_variates, 12, 150)]
