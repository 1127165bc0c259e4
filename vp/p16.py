"""P16: Evolino - the network, its evaluation by linear regression, and the evolution of its subpopulations."""
import math, random
import numpy as np
from pybrain.structure.modules.evolinonetwork import EvolinoNetwork
from pybrain.supervised.trainers.evolino import EvolinoTrainer
from pybrain.supervised.evolino.filter import EvolinoEvaluation, EvolinoSelection, EvolinoReproduction, EvolinoBurstMutation
from pybrain.supervised.evolino.population import EvolinoPopulation, EvolinoSubPopulation
from pybrain.supervised.evolino.individual import EvolinoIndividual, EvolinoSubIndividual
from pybrain.supervised.evolino.gfilter import Randomization
from pybrain.datasets import SequentialDataSet
from pybrain.structure import LSTMLayer
from vp.core import rnd_vec
from vp.p12 import seed

RULE = ('a case drives one evolino network with one random weight set, evaluates one population on one set of sequences, or follows one '
        'evolution; non-trivial when there are at least two cells or sequences; distinct by sizes and settings')
EXPECT = ['washout', 'generate', 'extrapolate', 'continued', 'genome', 'chromosome is a cell', 'evaluation', 'regression optimal', 'fitness',
          'scalar ratio', 'best kept', 'epochs', 'selection', 'default parents', 'reproduction', 'burst', 'combinations', 'gain', 'no gain',
          'own evaluation function', 'data set afterwards']
ASSUMPTIONS = ['regressions with a condition number above 1e7 are not recomputed']


def sg(x):
    return 1 / (1 + np.exp(-x))


class Ref(object):
    """The recurrent network with teacher forcing, as documented; weights are read from the connections of the network."""

    def __init__(self, net):
        n = net._network
        self.h = [m for m in n.modules if isinstance(m, LSTMLayer)][0]
        self.o = list(n.outmodules)[0]
        self.i = list(n.inmodules)[0]
        self.d, self.k = self.h.outdim, self.o.indim
        W = {}
        for m, cs in n.connections.items():
            for c in cs:
                W[(c.inmod, c.outmod)] = np.array(c.params, dtype=float).reshape(c.outdim, c.indim)
        self.Wi = W[(self.i, self.h)]
        self.Wo = W[(self.h, self.o)]
        self.Wb = [w for (a, b), w in W.items() if b is self.h and a is not self.i][0][:, 0]
        c = n.recurrentConns[0]
        self.Wr = np.array(c.params, dtype=float).reshape(c.outdim, c.indim)
        self.f = net.backprojectionFactor
        self.reset()

    def reset(self):
        self.last, self.hid, self.state = np.zeros(self.k), np.zeros(self.d), np.zeros(self.d)

    def step(self):
        a = self.Wi.dot(self.f * self.last) + self.Wb + self.Wr.dot(self.hid)
        d = self.d
        self.state = sg(a[:d]) * np.tanh(a[2 * d:3 * d]) + sg(a[d:2 * d]) * self.state
        self.hid = sg(a[3 * d:]) * np.tanh(self.state)
        self.last = self.Wo.dot(self.hid)
        return self.last

    def washout(self, seq):
        out = []
        for v in seq:
            self.step()
            out.append(self.hid.copy())
            self.last = np.array(v, dtype=float)
        return np.array(out)

    def generate(self, n):
        return np.array([self.step().copy() for _ in range(n)])


def network(c, dim=None):
    k, d = dim or c.r.randint(1, 3), c.r.choice([1, 2, 2, 3, 3, 4, 5, 7])
    net = EvolinoNetwork(k, d)
    net._network.params[:] = rnd_vec(c, net._network.paramdim, c.r.choice([.5, 1.5]))
    net.backprojectionFactor = c.r.choice([0.01, .3, 1., 0.])
    return net, k, d


def k_network(c):
    net, k, d = network(c)
    ref = Ref(net)
    log = []
    for _ in range(c.r.randint(2, 8)):
        op = c.r.choice(['reset', 'washout', 'washout', 'generate', 'extrapolate'])
        n = c.r.randint(1, 7)
        seq = [rnd_vec(c, k) for _ in range(n)]
        if c.r.random() < .3:
            seq = np.array(seq)
        keep = np.array(seq)
        if op == 'reset':
            net.reset()
            ref.reset()
        elif op == 'washout':
            c.close(net.washout(seq), ref.washout(keep), 'washout', 1e-9, 'hidden outputs, after %s' % log)
        elif op == 'generate':
            c.close(net.generate(n), ref.generate(n), 'generate', 1e-9, 'generated sequence, after %s' % log)
            if log and log[-1] == 'generate':
                c.ev('continued')
        else:
            m = c.r.randint(1, 6)
            ref.reset()
            ref.washout(keep)
            c.close(net.extrapolate(seq, m), ref.generate(m), 'extrapolate', 1e-9, 'extrapolated sequence, after %s' % log)
        c.close(np.array(seq), keep, 'input', 0, 'the given sequence was changed')
        if op != 'reset':
            c.ev(op)
        log.append(op)
    c.sig(k, d, net.backprojectionFactor, tuple(log))
    # genomes
    n = net._network
    h = ref.h
    conns = [x for x in list(n.recurrentConns) + sum(n.connections.values(), []) if x.outmod is h]
    total = sum(x.paramdim for x in conns)
    g = net.getGenome()
    c.eq(len(g), d, 'genome', 'one chromosome per cell')
    c.eq(sorted(x for ch in g for x in ch), sorted(x for q in conns for x in q.params), 'genome', 'the genome holds every input weight of the cells')
    W = np.array(net.getOutputWeightMatrix())
    new = [[float(1000 * i + j) for j in range(total // d)] for i in range(d)]
    keep = [list(x) for x in new]
    net.setGenome(new)
    c.eq(new, keep, 'genome input', 'setGenome changed its argument')
    c.eq([[float(x) for x in ch] for ch in net.getGenome()], keep, 'genome round trip', 'genome')
    for q in conns:
        M = np.array(q.params).reshape(4, d, q.indim)
        for i in range(d):
            c.ok(all(x // 1000 == i for x in M[:, i].flatten()), 'chromosome', 'chromosome %d is not the weights of cell %d in %s' % (i, i, q))
    c.eq(sorted(x for q in conns for x in q.params), sorted(x for ch in keep for x in ch), 'genome', 'every weight set once')
    c.close(net.getOutputWeightMatrix(), W, 'output weights', 0, 'output weights changed with the genome')
    c.ev('genome')
    c.ev('chromosome is a cell')
    W = np.array([rnd_vec(c, d) for _ in range(k)])
    net.setOutputWeightMatrix(W)
    c.close(net.getOutputWeightMatrix(), W, 'output weights', 0, 'output weight matrix')
    c.eq([[float(x) for x in ch] for ch in net.getGenome()], keep, 'genome', 'genome changed with the output weights')
    net.setGenome([[x / 4000. - .1 for x in ch] for ch in keep])
    ref = Ref(net)
    c.close(ref.Wo, W, 'output weights', 0, 'weights of the output connection')
    seq = [rnd_vec(c, k) for _ in range(4)]
    ref.washout(seq)
    c.close(net.extrapolate(seq, 5), ref.generate(5), 'extrapolate', 1e-9, 'extrapolation with new weights')


def dataset(c, k):
    ds = SequentialDataSet(0, k)
    for _ in range(c.r.randint(1, 4)):
        ds.newSequence()
        ph, w = c.r.uniform(0, 6), c.r.uniform(.2, 1)
        for t in range(c.r.randint(8, 25)):
            ds.addSample([], [math.sin(w * t + ph + j) + .1 * c.r.gauss(0, 1) for j in range(k)])
    return ds


def reference_eval(net, ds, ratio, evalfunc):
    """(fitness, weights, conditioning) of the genome that is loaded"""
    if not np.isscalar(ratio):
        ratio = ratio[0] / float(sum(ratio))
    ref = Ref(net)
    seqs = [np.array(ds.getSequence(i)[1]) for i in range(ds.getNumSequences())]
    cut = [int(ratio * len(s)) for s in seqs]
    phis = []
    for s, n in zip(seqs, cut):
        ref.reset()
        ref.washout(s[:n])
        phis.append(ref.washout(s[n:]))
    PHI, T = np.concatenate(phis), np.concatenate([s[n:] for s, n in zip(seqs, cut)])
    sv = np.linalg.svd(PHI, compute_uv=False)
    cond = sv[0] / sv[-1] if len(PHI) >= PHI.shape[1] and sv[-1] > 0 else np.inf
    W = np.linalg.lstsq(PHI, T, rcond=None)[0].T
    ref.Wo = W
    outs = []
    for s, n in zip(seqs, cut):
        ref.reset()
        ref.washout(s[:n])
        outs.append(ref.generate(len(s) - n))
    return evalfunc(np.concatenate(outs), T), W, cond


def mse(o, t):
    return -np.mean((np.array(o) - np.array(t)) ** 2)


def mae(o, t):
    return -np.mean(abs(np.array(o) - np.array(t)))


def spy_population(c, net, n, comb, rng):
    class Spy(EvolinoPopulation):
        given = []

        def setIndividualFitness(self, ind, fitness):
            self.given.append((ind, fitness))
            EvolinoPopulation.setIndividualFitness(self, ind, fitness)
    p = Spy(EvolinoSubIndividual(net.getGenome()), n, comb, Randomization(-rng, rng))
    p.given = []
    return p


def k_eval(c):
    seed(c.seed)
    net, k, d = network(c)
    ds = dataset(c, k)
    kw = {}
    ratio = (1, 2)
    f = mse
    if c.r.random() < .7:
        ratio = c.r.choice([(1, 2), (1, 3), [2, 1], np.array([1., 1.]), .4, .25])
        kw['wtRatio'] = ratio
        if np.isscalar(ratio):
            c.ev('scalar ratio')
    if c.r.random() < .3:
        f = kw['evalfunc'] = mae
        c.ev('own evaluation function')
    ev = EvolinoEvaluation(net, ds, **kw)
    n, comb = c.r.randint(2, 5), c.r.randint(1, 3)
    pop = spy_population(c, net, n, comb, 1.5)
    subs = pop.getSubPopulations()
    c.eq(len(subs), d, 'subpopulations', 'one subpopulation per cell')
    for s in subs:
        c.eq(s.getIndividualsN(), n, 'size', 'size of a subpopulation')
        for i in s.getIndividuals():
            c.ok(all(-1.5 <= x <= 1.5 for x in i.getGenome()), 'initialization', 'gene outside the range')
    mem = [s.getIndividuals() for s in subs]
    genes = {i: list(i.getGenome()) for s in mem for i in s}
    for rnd in range(2):
        pop.given = []
        ev.apply(pop)
        given = list(pop.given)
        c.eq(len(given), n * comb, 'combinations', 'individuals evaluated')
        for j in range(d):
            use = [ind.getSubIndividuals()[j] for ind, _ in given]
            c.ok(set(use) == mem[j] and all(use.count(x) == comb for x in mem[j]), 'combinations', 'use of the members of subpopulation %d' % j)
        c.ev('combinations')
        c.eq({i: list(i.getGenome()) for s in mem for i in s}, genes, 'genomes', 'the evaluation changed genomes')
        gnow, wnow = net.getGenome(), np.array(net.getOutputWeightMatrix())
        # the best network stays
        best = max(x for _, x in given)
        c.close(ev.max_fitness, best, 'max fitness', 1e-12, 'maximal fitness of the evaluation')
        match = [ind for ind, x in given if x == best and np.allclose(ind.getGenome(), gnow, atol=0)]
        c.ok(bool(match), 'best kept', 'the network does not hold the genome of the best individual')
        c.ev('best kept')
        for s, m in zip(subs, range(d)):
            for i in mem[m]:
                want = max(x for ind, x in given if ind.getSubIndividuals()[m] is i)
                c.close(s.getIndividualFitness(i), want, 'sub fitness', 1e-12, 'fitness of a member: the best combination')
        bestW = None
        for ind, x in given:
            net.setGenome(ind.getGenome())
            want, W, cond = reference_eval(net, ds, ratio, f)
            if cond < 1e7:
                c.close(x, want, 'fitness', 1e-5, 'fitness of a combination with ratio %s' % (ratio,))
                c.ev('fitness')
                if ind in match:
                    bestW = W
            else:
                c.ev('ill conditioned')
        if bestW is not None and len(match) == 1:
            c.close(wnow, bestW, 'regression', 1e-5 * max(1, abs(bestW).max()), 'output weights left in the network')
            c.ev('regression optimal')
        net.setGenome(gnow)
        net.setOutputWeightMatrix(wnow)
        c.ev('evaluation')
    if d > 1:
        c.sig(k, d, n, comb, str(ratio), f.__name__)


class Tick(object):
    """a variate that leaves a mark of its parent"""
    x0, alpha = 0., 0.

    def __init__(self, r):
        self.r = r
        self.origin = {}

    def getSample(self, x0=None, alpha=None):
        x0 = self.x0 if x0 is None else x0
        v = x0 + self.r.uniform(1e-3, 2e-3)
        self.origin[v] = x0
        return v

    def parents(self, genome):
        return [self.origin.get(v) for v in genome]


def snap(pop):
    return [{i: (list(i.getGenome()), s.getIndividualFitness(i)) for i in s.getIndividuals()} for s in pop.getSubPopulations()]


def check_children(c, before, after, size, var):
    for b, a in zip(before, after):
        c.eq(len(a), size, 'reproduction', 'size of a subpopulation after reproduction')
        c.ok(set(b) <= set(a) and all(a[i][0] == b[i][0] for i in b), 'reproduction', 'a parent was lost or changed')
        free = size - len(b)
        par = sorted(b, key=lambda i: -b[i][1])[:free]
        use = {i: 0 for i in b}
        for x in a:
            if x in b:
                continue
            own = [i for i in b if b[i][0] == var.parents(a[x][0])]
            if c.ok(len(own) == 1, 'reproduction', 'a child is no mutated copy of a parent'):
                use[own[0]] += 1
        if len(set(b[i][1] for i in b)) < len(b):
            continue
        for r, i in enumerate(par):
            want = free // len(par) + (1 if r < free % len(par) else 0)
            c.eq(use[i], want, 'reproduction', 'children of the parent of rank %d of %d, %d free places' % (r, len(par), free))
        c.ok(all(use[i] == 0 for i in b if i not in par), 'reproduction', 'children of a worse parent')


def k_evolve(c):
    seed(c.seed)
    net, k, d = network(c)
    ds = dataset(c, k)
    size = c.r.randint(2, 9)
    npar = c.r.choice([None, None, c.r.randint(1, size)])
    log = []

    class Sel(EvolinoSelection):
        def apply(self, pop):
            b = snap(pop)
            EvolinoSelection.apply(self, pop)
            a = snap(pop)
            keep = npar if npar is not None else max(1, size // 4)
            for x, y in zip(b, a):
                c.eq(len(y), keep, 'selection', 'parents kept of %d with nParents=%s' % (size, npar))
                gone = [x[i][1] for i in x if i not in y]
                c.ok(all(i in x and x[i][0] == y[i][0] for i in y), 'selection', 'a new or changed member after selection')
                if gone:
                    c.ok(max(gone) <= min(y[i][1] for i in y), 'selection', 'a better member was removed')
            c.ev('selection')
            if npar is None:
                c.ev('default parents')
            log.append('s')

    class Rep(EvolinoReproduction):
        def apply(self, pop):
            b = snap(pop)
            EvolinoReproduction.apply(self, pop)
            check_children(c, b, snap(pop), size, var)
            c.ev('reproduction')
            log.append('r')

    class Burst(EvolinoBurstMutation):
        def apply(self, pop):
            b = snap(pop)
            EvolinoBurstMutation.apply(self, pop)
            a = snap(pop)
            for x, y in zip(b, a):
                left = [i for i in x if i in y]
                c.eq(len(left), 1, 'burst', 'members kept by the burst')
                c.eq(x[left[0]][1], max(f for _, f in x.values()), 'burst', 'the member kept is the best')
                c.eq(len(y), size, 'burst', 'size after the burst')
                c.ok(y[left[0]][0] == x[left[0]][0], 'burst', 'the member kept was changed')
                for i in y:
                    if i not in left:
                        c.eq(var.parents(y[i][0]), x[left[0]][0], 'burst', 'a new member is no mutation of the best')
            c.ev('burst')
            log.append('b')
    var = Tick(c.r)
    kw = dict(subPopulationSize=size, nParents=npar, nCombinations=c.r.randint(1, 2), selection=Sel(), reproduction=Rep(mutationVariate=var),
              burstMutation=Burst(mutationVariate=var), weightInitializer=Randomization(-1., 1.))
    if c.r.random() < .5:
        kw['nBurstMutationEpochs'] = c.r.randint(1, 2)
    if c.r.random() < .5:
        kw['wtRatio'] = c.r.choice([(1, 3), [1, 1], .3])
    if c.r.random() < .4:
        kw['backprojectionFactor'] = .2
    if c.r.random() < .3:
        # built on other data, then given these
        tr = EvolinoTrainer(net, dataset(c, k), **kw)
        tr.setDataset(ds)
        c.ev('data set afterwards')
    else:
        tr = EvolinoTrainer(net, ds, **kw)
    if 'backprojectionFactor' in kw:
        c.eq(net.backprojectionFactor, .2, 'settings', 'backprojection factor')
    best, since = -np.inf, 0
    pop = tr._population
    for epoch in range(1, c.r.randint(2, 6)):
        del log[:]
        burst = epoch - since >= kw.get('nBurstMutationEpochs', np.inf)
        if burst:
            since = epoch
        tr.train()
        c.eq(''.join(log), ('b' if burst else '') + 'sr', 'epoch', 'steps of epoch %d (last gain %d, %s)' % (epoch, since, kw.get('nBurstMutationEpochs')))
        c.eq(tr.totalepochs, epoch, 'epoch', 'epochs counted')
        now = tr.evaluation.max_fitness
        # the network left in place has the fitness that is reported
        want, W, cond = reference_eval(net, ds, kw.get('wtRatio', (1, 2)), mse)
        if cond < 1e7:
            c.close(now, want, 'network', 1e-5, 'fitness of the network left in place')
            c.close(net.getOutputWeightMatrix(), W, 'network', 1e-5 * max(1, abs(W).max()), 'its output weights')
        if now > best:
            best, since = now, epoch
            c.ev('gain')
        else:
            c.ev('no gain')
        c.ev('epochs')
    c.sig(k, d, size, npar, sorted((a, str(b)) for a, b in kw.items() if a in ('nBurstMutationEpochs', 'wtRatio', 'nCombinations')))


KINDS = [('network', k_network, 60, 1500), ('eval', k_eval, 25, 500), ('evolve', k_evolve, 30, 600)]
