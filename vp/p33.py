"""P33: coevolution - populations that are evaluated by playing against each other."""
import math
import numpy as np
from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
from pybrain.optimization.populationbased.coevolution.competitivecoevolution import CompetitiveCoevolution
from pybrain.optimization.populationbased.coevolution.multipopulationcoevolution import MultiPopulationCoevolution
from pybrain.structure.evolvables.evolvable import Evolvable
from pybrain.structure.parametercontainer import ParameterContainer
from vp.p12 import seed

RULE = ('a case runs one coevolutionary algorithm on a random game for some generations while the evaluator records every game and the individuals their descent; non-trivial with '
        'at least two generations; distinct by algorithm, settings and games')
EXPECT = ['Coevolution', 'CompetitiveCoevolution', 'MultiPopulationCoevolution', 'generation', 'games', 'fitness', 'hall of fame', 'survivors', 'children', 'averaged children',
          'shared sampling', 'hall of fame games', 'absolute fitness', 'budget', 'sharing', 'learned', 'seeds', 'books', 'randomized seeds', 'elite in the hall']
ASSUMPTIONS = ['which opponents an individual meets is random; how many, and that they are different, is not', 'ties may be broken either way',
               'the sample of opponents relative to which the competitive algorithm samples is not judged']


class Ind(Evolvable):
    parent = None

    def __init__(self, params, mother=None):
        self.params = np.array(params, float)
        self.mother, self.mutations, self.start = mother, 0, np.array(params, float)

    def _setParameters(self, p):
        self.params = np.array(p, float)

    def copy(self):
        i = Ind(self.params, self)
        i.parent = self.parent
        return i

    def mutate(self):
        self.mutations += 1
        self.params = self.params + np.random.normal(0, .3, len(self.params))
        self.mutated = np.array(self.params)

    def randomize(self):
        self.params = np.random.normal(0, 1, len(self.params))


class Cont(ParameterContainer):
    """A real container as an individual."""
    parent = None
    mother = None
    mutations = 0

    def __init__(self, params, mother=None):
        ParameterContainer.__init__(self, len(params))
        self._setParameters(np.array(params, float))
        self.mother = mother

    def copy(self):
        i = Cont(self.params, self)
        i.parent = self.parent
        return i

    def mutate(self):
        self.mutations += 1
        ParameterContainer.mutate(self)
        self.mutated = np.array(self.params)


class Game:
    def __init__(self, c, kind):
        self.kind, self.log, self.c = kind, [], c
        self.first = {}
        self.totals = {}
        self.a = c.r.uniform(0, .5)
        self.rr = c.r

    def score(self, p, q):
        k = self.kind
        x, y = p.params, q.params
        if k == 'transitive':
            return float(np.tanh(np.sum(x) - np.sum(y)))
        if k == 'win or lose':
            return 1. if np.sum(x) > np.sum(y) else -1.
        if k == 'circle':
            return float(np.sin(x[0] - y[0]))
        if k == 'draws':
            return float(np.sign(round(x[0]) - round(y[0])))
        if k == 'first':
            return float(np.sum(x) - np.sum(y) + self.a)
        return self.rr.uniform(-1, 1)

    def __call__(self, p, q):
        s = self.score(p, q)
        self.log.append((p, q, s))
        t = self.totals.setdefault((id(p), id(q)), [0, 0.])
        t[0] += 1
        t[1] += s
        return s

    def beats(self, p, q):
        if (id(p), id(q)) not in self.totals:
            return 0
        a, b = self.totals[id(p), id(q)], self.totals[id(q), id(p)]
        return (a[1] - b[1]) / float(a[0] + b[0])

    def globalscore(self, p, keep):
        s = n = 0
        for (i, j), (k, v) in self.totals.items():
            if i == id(p):
                s, n = s + v, n + k
            elif j == id(p):
                s, n = s - v, n + k
        return s / (n + .01) if n else 0.


def snapshot(pop):
    return [(p, np.array(p.params)) for p in pop]


def make(c, cls, more=None):
    r = c.r
    n = r.choice([2, 3, 4, 6, 9])
    dim = r.randint(1, 3)
    T = r.choice([Ind, Ind, Cont])
    seeds = [T(c.np.normal(0, 1, dim)) for _ in range(r.randint(1, min(n, 3)))]
    kw = dict(populationSize=n, selectionProportion=r.choice([.5, .5, .7, 1. / n + 1e-9]), elitism=r.random() < .5)
    if r.random() < .5:
        kw['tournamentSize'] = r.randint(1, n)
    if r.random() < .35:
        kw['parentChildAverage'] = r.choice([.5, .3, .9])
    if cls is MultiPopulationCoevolution:
        kw['numPops'] = r.choice([2, 3, 4])
    elif r.random() < .3:
        kw['hallOfFameEvaluation'] = r.choice([.3, .5, 1.])
    if cls is not MultiPopulationCoevolution and r.random() < .3 and not kw.get('hallOfFameEvaluation'):
        kw['useSharedSampling'] = True
    absf = None
    if cls is not CompetitiveCoevolution and r.random() < .3:
        absf = lambda p: float(np.sum(p.params) * 3)
        kw.update(absEvaluator=absf, absEvalProportion=r.choice([.2, .5, 1.]))
    kw.update(more or {})
    game = Game(c, r.choice(['transitive', 'win or lose', 'circle', 'draws', 'first', 'random']))
    given = list(seeds)
    a = cls(game, seeds, **kw)
    c.ok(len(seeds) == len(given) and all(x is y for x, y in zip(seeds, given)), 'seeds given were changed')
    c.ev('seeds')
    return a, game, seeds, kw


def sharing(game, hosts, parasites, keep):
    if not len(parasites):
        return [0.] * len(hosts)
    beaten = {}
    for p in parasites:
        beaten[id(p)] = sum(game.beats(h, p) > 0 for h in hosts)
    res = []
    for h in hosts:
        v = sum(1. / beaten[id(p)] for p in parasites if game.beats(h, p) > 0)
        met = sum(game.beats(h, p) != 0 for p in parasites)
        if met:
            v /= float(met)
        res.append(v + 1e-5 * game.globalscore(h, keep))
    return res


def games_of(c, game, frm, pop):
    """The games of this generation by individual: both directions, nobody against itself."""
    new = game.log[frm:]
    first, second = {}, {}
    for p, q, s in new:
        c.ok(p is not q, 'game against itself')
    c.eq(len(new) % 2, 0, 'games in one direction only')
    by = {}
    for (p, q, s), (q2, p2, s2) in zip(new[::2], new[1::2]):
        c.ok(p is p2 and q is q2, 'games not played in both directions')
        by.setdefault(id(p), []).append(q)
    c.ev('games', len(new))
    return by


def greedy(game, S, frm, rel, keep, budget):
    """Is S what greedy sampling of len(S) out of frm relative to rel can give (ties either way)?"""
    if not S:
        return True
    budget[0] -= 1
    if budget[0] < 0:
        return True
    key = {id(p): (sum(game.beats(p, o) > 0 for o in rel), round(game.globalscore(p, keep), 12)) for p in frm}
    top = max(key.values())
    for p in frm:
        if key[id(p)] == top and any(p is q for q in S):
            if greedy(game, [q for q in S if q is not p], [q for q in frm if q is not p], [o for o in rel if not game.beats(p, o) > 0], keep, budget):
                return True
    return False


def k_run(c):
    seed(c.seed)
    r = c.r
    cls = {'coevolution': Coevolution, 'competitive': CompetitiveCoevolution, 'multi': MultiPopulationCoevolution}[c.kind]
    a, game, seeds, kw = make(c, cls)
    n = kw['populationSize']
    T = kw.get('tournamentSize', n)
    nsel = int(n * kw['selectionProportion'])
    if nsel < 1:
        return
    elit, avg = kw['elitism'], kw.get('parentChildAverage', 1.)
    hofe, shared = kw.get('hallOfFameEvaluation', 0), kw.get('useSharedSampling', False)
    groups = lambda: [a.pop] if cls is Coevolution else [a.pop, a.parasitePop] if cls is CompetitiveCoevolution else a.pops
    first = [i for g in groups() for i in g]
    c.eq([len(g) for g in groups()], [n] * (1 if cls is Coevolution else 2 if cls is CompetitiveCoevolution else kw['numPops']), 'sizes of the populations')
    c.eq(len(set(map(id, first))), len(first), 'individuals in two populations')
    for s in seeds:
        if cls is not MultiPopulationCoevolution or True:
            c.eq(sum(i is s for i in first), 1, 'seeds in the populations')
    for i in first:
        m = i
        while m.mother is not None:
            m = m.mother
        c.ok(any(m is s for s in seeds), 'individuals that do not descend from the seeds')
        if not any(i is s for s in seeds):
            c.ok(i.mutations == 1 or i.mutations == 0 and cls is not Coevolution, 'mutations of the first individuals', lambda: '%d' % i.mutations)
    if cls is not Coevolution and len(seeds) < 2:
        # nobody given to the other populations: they start elsewhere
        for g in groups()[1:]:
            c.ok(not any(np.array_equal(g[0].params, p.params) for p in groups()[0]), 'populations without a seed start at that of another')
        c.ev('randomized seeds')
    keep = first[:]
    gens = r.randint(2, 6)
    hall = []
    for g in range(1, gens + 1):
        c.ev('generation')
        pop = list(a.pop)
        before = snapshot(keep)
        others = [list(x) for x in groups()]
        par = list(a.parasitePop) if cls is CompetitiveCoevolution else None
        beats_before = dict((k, list(v)) for k, v in game.totals.items())
        frm = len(game.log)
        a.maxGenerations = g
        out = a.learn()
        c.eq(a.generation, g, 'generations')
        c.eq(a.steps, len(game.log), 'evaluations counted')
        c.ok(out is a.hallOfFame[-1] and len(a.hallOfFame) == g, 'individual returned')
        by = games_of(c, game, frm, pop)
        c.ok(set(by) <= set(map(id, pop)), 'games of individuals that are not evaluated')
        for p, x in before:
            c.ok(np.array_equal(p.params, x), 'individuals of earlier populations were changed')
        # who met whom
        h = min(g, int(T * hofe))
        oldhall = []
        for p in hall:
            if cls is CompetitiveCoevolution or not any(p is q for q in oldhall):
                oldhall.append(p)
        t = T - h
        sampled = None
        if cls is not MultiPopulationCoevolution:
            if shared and cls is Coevolution or shared and g > 2:
                sampled = []
                for p in pop:
                    for q in by.get(id(p), []):
                        if not any(q is z for z in sampled):
                            sampled.append(q)
                src = pop if cls is Coevolution else par
                c.ev('shared sampling')
                c.ok(all(any(q is z for z in src) for q in sampled), 'sampled opponents are not of the population')
                if len(pop) > 1 and not (cls is Coevolution and t == 1):
                    c.eq(len(sampled), min(t, len(src)), 'size of the sample of opponents')
                if cls is Coevolution:
                    class Old(Game):
                        def __init__(self):
                            self.totals = beats_before
                    if len(sampled) == t:
                        c.ok(greedy(Old(), sampled, pop, pop, keep, [400]), 'sample of opponents is not what beats most')
                opps = sampled
            else:
                opps = pop if cls is Coevolution else par
            for p in pop:
                met = by.get(id(p), [])
                pool = [q for q in opps if q is not p]
                n1 = min(t, len(opps), len(pool))
                pool2 = [q for q in oldhall if q is not p]
                n2 = min(h, len(pool2)) if h > 0 else 0
                c.eq(len(met), n1 + n2, 'games of an individual', '%s: %d against the population and %d against the hall of fame' % (cls.__name__, n1, n2))
                m1, m2 = met[:n1], met[n1:]
                if n2:
                    # the games against the hall of fame come after those of the whole population
                    c.ev('hall of fame games', n2)
                    c.ok(all(any(q is z for z in pool2) for q in m2), 'opponents from the hall of fame')
                    # an elite may have entered the hall of the competitive algorithm more than once
                c.ok(all(sum(q is z for z in m2) <= sum(q is z for z in pool2) for q in m2), 'same opponent twice')
                if len(set(map(id, pool2))) < len(pool2):
                    c.ev('elite in the hall')
                c.ok(all(any(q is z for z in pool) for q in m1), 'opponents from the population')
                c.eq(len(set(map(id, m1))), len(m1), 'same opponent twice')
        else:
            rest = [x for x in others if not (len(x) == len(pop) and all(y is z for y, z in zip(x, pop)))]
            c.eq(len(rest), kw['numPops'] - 1, 'other populations')
            half = max(1, n // 2)
            for p in pop:
                met = by.get(id(p), [])
                for x in rest:
                    mine = [q for q in met if any(q is z for z in x)]
                    c.eq(len(mine), min(T, half), 'games of an individual', 'against another population')
                    c.ok(len(set(map(id, mine))) == len(mine) and all(any(q is z for z in x[:half]) for q in mine), 'opponents from the other population')
                c.eq(len(met), min(T, half) * len(rest), 'games of an individual', 'in all')
        # fitness
        if cls is CompetitiveCoevolution:
            fit = sharing(game, pop, par, keep)
            if h > 0:
                fh = sharing(game, pop, hall, keep)
                tt = min(t, len(opps))
                fit = [tt * x + h * y for x, y in zip(fit, fh)]
            c.ev('sharing')
        else:
            opp = (opps + (oldhall if h > 0 else [])) if cls is Coevolution else [q for x in rest for q in x]
            fit = [sum(game.beats(p, q) for q in opp) for p in pop]
            if kw.get('absEvaluator'):
                w = kw['absEvalProportion']
                fit = [(1 - w) * f + w * kw['absEvaluator'](p) for f, p in zip(fit, pop)]
                c.ev('absolute fitness')
        c.ev('fitness', len(fit))
        c.close(a.hallOfFitnesses[-1], sorted(fit)[::-1][:nsel], 'fitnesses of the selected', 1e-7, cls.__name__)
        best = a.hallOfFame[-1]
        c.ok(any(best is p for p in pop) and fit[[i for i, p in enumerate(pop) if p is best][0]] >= max(fit) - 1e-9, 'best of the generation')
        c.ok(len(a.hallOfFame) == len(hall) + 1 and all(x is y for x, y in zip(a.hallOfFame, hall)), 'hall of fame changed')
        hall.append(best)
        c.ev('hall of fame')
        c.ok(len(a.oldPops) == g and len(a.oldPops[-1]) == len(pop) and all(x is y for x, y in zip(a.oldPops[-1], pop)), 'record of the populations')
        # the next population
        if cls is Coevolution:
            new = a.pop
            stay = []
        elif cls is CompetitiveCoevolution:
            new = a.parasitePop
            c.ok(len(a.pop) == n and all(x is y for x, y in zip(a.pop, par)), 'roles of the two populations')
        else:
            k = (g - 1) % kw['numPops']
            new = a.pops[k]
            for i, x in enumerate(others):
                if i != k:
                    c.ok(len(x) == len(a.pops[i]) and all(y is z for y, z in zip(x, a.pops[i])), 'populations that did not play were changed')
            c.ok(a.pop is a.pops[g % kw['numPops']], 'turn of the populations')
        c.eq(len(new), n, 'size of the next population')
        c.eq(len(set(map(id, new))), len(new), 'individuals twice in a population')
        cut = sorted(fit)[::-1][nsel - 1]
        fitof = {id(p): f for p, f in zip(pop, fit)}
        surv = [p for p in new if id(p) in fitof]
        c.eq(len(surv), nsel if elit else 0, 'survivors')
        c.ok(all(fitof[id(p)] >= cut - 1e-7 for p in surv), 'survivors are not the fittest')
        c.ev('survivors', len(surv))
        parents = set()
        for p in new:
            if id(p) in fitof:
                continue
            # an averaged child is a copy of the mutated copy of its parent
            kid = p
            if avg < 1:
                kid = p.mother
            par_ = kid.mother if kid is not None else None
            if not c.ok(par_ is not None and id(par_) in fitof, 'children without a parent in the population', cls.__name__):
                continue
            c.ok(fitof[id(par_)] >= cut - 1e-7, 'parents were not selected')
            c.eq(kid.mutations, 1, 'mutations of a child')
            parents.add(id(par_))
            want = kid.mutated
            if avg < 1:
                want = avg * kid.mutated + (1 - avg) * par_.params
                c.ev('averaged children')
            c.close(p.params, want, 'parameters of a child', 1e-12)
            c.ok(np.abs(kid.mutated - par_.params).sum() > 0, 'children that are not mutated')
            c.ev('children')
        c.ok(len(parents) + 0 <= nsel or len(set(round(f, 7) for f in fit)) < n, 'more parents than selected')
        if elit and len(set(np.round(fit, 7))) == n:
            c.ok(parents <= set(map(id, surv)), 'parents are not the survivors')
        keep += list(new)
    # the books: games won, games, score and scores of each pair, in this order of play
    books = {}
    for p, q, s in game.log:
        b = books.setdefault((id(p), id(q)), [0, 0, 0., []])
        b[0] += s > 0
        b[1] += 1
        b[2] += s
        b[3].append(s)
    got = {(id(p), id(q)): v for (p, q), v in a.allResults.items()}
    c.eq(set(got), set(books), 'pairs in the books')
    for k, b in books.items():
        if k in got:
            c.eq((got[k][0], got[k][1], list(got[k][3])), (b[0], b[1], b[3]), 'results in the books')
            c.close(got[k][2], b[2], 'results in the books', 1e-9)
    met = {}
    for p, q, s in game.log:
        met.setdefault(id(p), []).append(id(q))
    c.eq({id(p): [id(q) for q in v] for p, v in a.allOpponents.items()}, met, 'opponents in the books')
    c.ev('books')
    c.ev(cls.__name__)
    c.sig(cls.__name__, sorted((k, v) for k, v in kw.items() if k != 'absEvaluator'), game.kind, len(game.log))


def k_budget(c):
    seed(c.seed)
    r = c.r
    cls = r.choice([Coevolution, CompetitiveCoevolution, MultiPopulationCoevolution])
    a, game, seeds, kw = make(c, cls, dict(selectionProportion=.5))
    n = kw['populationSize']
    T = kw.get('tournamentSize', n)
    # no generation can need more games than every individual playing its tournament in both directions
    P = kw.get('numPops', 2) - 1
    most = 2 * n * T * P
    for _ in range(r.randint(1, 3)):
        B = most * r.randint(1, 4) + r.choice([0, 0, 1, -1, 3])
        mode = r.choice(['maxSteps', 'maxEvaluations', 'both'])
        if B < most:
            B = most
        before = len(game.log)
        a.maxEvaluations = None
        if mode == 'maxEvaluations':
            a.maxEvaluations = before + B
        elif mode == 'both':
            a.maxEvaluations = before + 10 * B
        out = a.learn(*([B] if mode != 'maxEvaluations' else []))
        used = len(game.log) - before
        c.ok(used <= B, 'more evaluations than allowed', '%s %s: %d of %d' % (cls.__name__, mode, used, B))
        c.ok(B - used < most, 'stopped although a whole generation was left', '%s %s: %d of %d used, a generation needs at most %d' % (cls.__name__, mode, used, B, most))
        c.ok(out is a.hallOfFame[-1], 'individual returned')
        c.eq(a.steps, len(game.log), 'evaluations counted')
        c.ev('budget')
    c.sig(cls.__name__, n, T, len(game.log))


def k_learn(c):
    """On a game that the larger sum wins, the sum grows."""
    seed(c.seed)
    # (the other two can stall when one population gets far ahead)
    cls = Coevolution
    game = Game(c, c.r.choice(['transitive', 'win or lose']))
    kw = dict(populationSize=12, elitism=c.r.random() < .5, maxGenerations=30)
    if cls is MultiPopulationCoevolution:
        kw.update(numPops=3)
    # every population starts from the same place
    a = cls(game, [Ind(np.zeros(2)) for _ in range(1 if cls is Coevolution else kw.get('numPops', 2))], **kw)
    a.learn()
    end = float(np.sum(a.hallOfFame[-1].params))
    # each population is selected at least 10 times, and one step of the best of 6 mutations gains about .5
    c.ok(end > 1.2, 'the best did not improve', lambda: '%s %s %s: from 0 to %.2f' % (cls.__name__, game.kind, kw, end))
    c.ev('learned')
    c.sig(cls.__name__, kw['elitism'], round(end, 6))


KINDS = [('coevolution', k_run, 200, 4000), ('competitive', k_run, 240, 4000), ('multi', k_run, 100, 2000), ('budget', k_budget, 40, 800), ('learn', k_learn, 16, 160)]
