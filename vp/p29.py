"""P29: value learning with linear function approximation, and its agent."""
import math, random
import numpy as np
from pybrain.rl.learners.valuebased.linearfa import (Q_LinFA, QLambda_LinFA, SARSALambda_LinFA, LSTDQLambda, LSPILambda, LSPI, GQLambda, LinearFALearner)
from pybrain.rl.agents.linearfa import LinearFA_Agent
from pybrain.rl.experiments import EpisodicExperiment
from pybrain.rl.environments import Environment, EpisodicTask
from vp.core import rnd_vec, frozen
from vp.p12 import seed

RULE = ('a case drives one learner directly, or by its agent over several episodes (online or in a batch), and recomputes its weights after every step; '
        'non-trivial with at least two transitions; distinct by learner, sizes, settings and episodes')
CLASSES = {'Q': Q_LinFA, 'QLambda': QLambda_LinFA, 'SARSALambda': SARSALambda_LinFA, 'LSTDQ': LSTDQLambda, 'LSPILambda': LSPILambda, 'LSPI': LSPI, 'GQ': GQLambda}
EXPECT = (['direct ' + k for k in CLASSES] + ['online ' + k for k in CLASSES] + ['batch ' + k for k in CLASSES] +
          ['several episodes', 'one step episode', 'given policies', 'outcome reward', 'lazy inversions', 'exploring', 'rate decay', 'reset', 'not learning',
           'greedy policy', 'broken off', 'tie', 'boltzmann', 'zero temperature', 'epsilon greedy', 'drawn', 'learned', 'terminal reward', 'history', 'logging off', 'decay'])
ASSUMPTIONS = ['the last step of an episode is learned as one after which nothing is to be gained', 'learning rates decay with every new episode and reset, as the code counts them',
               'solutions of systems too near to singular are not compared', 'frequencies are compared within five standard deviations under fixed seeds']


class Ref:
    """the algorithms, on matrices of actions by features"""

    def __init__(self, kind, l):
        self.k, self.l = kind, l
        self.na, self.nf = l.num_actions, l.num_features
        self.T = np.array([l._qValues(e) for e in np.eye(self.nf)]).T
        self.g = l.rewardDiscount
        self.lam = getattr(l, '_lambda', None)
        self.lr = None
        self.W = np.zeros((self.na, self.nf))
        n = self.na * self.nf
        self.A = np.array(l._A) if kind == 'LSPI' else np.zeros((n, n))
        self.b = np.array(l._b) if kind == 'LSPI' else np.zeros(n)
        self.fresh = np.ones(n, dtype=bool)
        self.n = 0
        self.singular = False
        self.new()

    def new(self):
        self.E = np.zeros((self.na, self.nf))

    def phi(self, s, a):
        p = np.zeros((self.na, self.nf))
        p[a] = s
        return p

    queue = ()

    def watch(self):
        """note the greedy choices of the learner, for those between equal values are random"""
        self.queue = []
        f = self.l._greedyPolicy

        def spy(s):
            p = f(s)
            self.queue.append((np.array(s), np.array(p)))
            return p
        self.l._greedyPolicy = spy

    def greedy(self, s):
        q = self.T.dot(s)
        for i, (s_, p) in enumerate(self.queue):
            if np.array_equal(s, s_):
                del self.queue[:i + 1]
                if p.sum() == 1 and p.max() == 1 and q[p.argmax()] >= q.max() - 1e-9 * (1 + abs(q).max()):
                    return p
                break
        p = np.zeros(self.na)
        p[int(np.argmax(q))] = 1
        return p

    def solve(self, b):
        u, s, v = np.linalg.svd(self.A)
        if s[0] == 0:
            return np.zeros(len(b))
        if ((s > 1e-16 * s[0]) & (s < 1e-6 * s[0])).any():
            # rank by the tolerance of the code; compare only when there is a clear gap
            if ((s > 2e-15 * s[0]) & (s < 1e-6 * s[0])).any():
                self.singular = True
        keep = s >= 1e-6 * s[0]
        if not keep.all():
            self.rankdef = True
        return v[keep].T.dot(u[:, keep].T.dot(b) / s[keep])

    def update(self, lr, s, a, r, s2, a2=None, learned=None, behavior=None, outcome=None):
        k, g = self.k, self.g
        q, p = self.T[a].dot(s), self.phi(s, a)
        if k == 'Q':
            self.T[a] += lr * (r + g * self.T.dot(s2).max() - q) * s
        elif k in ('QLambda', 'SARSALambda'):
            self.E = self.E * g * self.lam + p
            nxt = self.T.dot(s2).max() if k == 'QLambda' else self.T[a2].dot(s2)
            self.T = self.T + lr * (r + g * nxt - q) * self.E
        elif k in ('LSTDQ', 'LSPILambda'):
            self.E = self.E * g * self.lam + p
            pn = np.outer((learned or self.greedy)(s2), s2)
            self.A = self.A + np.outer(self.E.ravel(), (p - g * pn).ravel())
            self.b = self.b + r * self.E.ravel()
            self.T = self.solve(self.b).reshape(self.na, self.nf)
        elif k == 'LSPI':
            self.A = self.A + np.outer(p.ravel(), (p - g * self.phi(s2, a2)).ravel())
            self.b = self.b + r * p.ravel()
            if self.l.lazyInversions is None or self.n % self.l.lazyInversions == 0:
                if self.l.exploring:
                    self.fresh &= p.ravel() == 0
                    x = self.solve(self.b + self.l.explorationReward * self.fresh)
                else:
                    x = self.solve(self.b)
                self.T = x.reshape(self.na, self.nf)
            self.n += 1
        else:
            rho = (learned or self.greedy)(s)[a] / behavior(s)[a]
            self.E = self.E * g * self.lam * rho + p
            pb = np.outer((learned or self.greedy)(s2), s2)
            d = r + g * (self.T * pb).sum() - q
            if outcome is not None:
                d += (1 - g) * outcome
            wE, wp = (self.W * self.E).sum(), (self.W * p).sum()
            self.T = self.T + lr * (d * self.E - g * (1 - self.lam) * wE * pb)
            self.W = self.W + lr * self.l.sec_learningRate * (d * self.E - wp * p)


def weights(l):
    return np.array([l._qValues(e) for e in np.eye(l.num_features)]).T


def learner(c, kind, **extra):
    na, nf = c.r.randint(1, 4), c.r.randint(1, 4)
    kw = dict(extra)
    kw['rewardDiscount'] = c.r.choice([.99, .5, 0., .9])
    if c.r.random() < .5:
        kw['learningRateDecay'] = c.r.choice([5, 100, 1000])
    kw['learningRate'] = c.r.choice([.5, .1, .02])
    if kind == 'LSPI':
        kw['lazyInversions'] = c.r.choice([None, 1, 3, 20])
        if kw['lazyInversions'] in (3, 20):
            c.ev('lazy inversions')
        if c.r.random() < .4:
            kw['exploring'], kw['explorationReward'] = True, c.r.choice([1., 3.])
            c.ev('exploring')
        kw['randomInit'] = c.r.random() < .6
    if kind == 'GQ':
        kw['sec_learningRate'] = c.r.choice([1., .3])
    l = CLASSES[kind](na, nf, **kw)
    if kind not in ('Q', 'LSPI'):
        l._lambda = c.r.choice([.9, .5, 0., 1.])
    for k, v in kw.items():
        if k != 'learningRate':
            c.eq(getattr(l, k), v, 'setting ' + k)
    return l, na, nf


def feats(c, nf):
    if nf > 1 and c.r.random() < .4:
        return np.eye(nf)[c.r.randrange(nf)]
    return rnd_vec(c, nf)


def compare(c, l, ref, kind, what):
    if ref.singular:
        c.ev('singular')
        return False
    return c.close(weights(l), ref.T, 'weights: ' + kind, 1e-5, what)


def k_direct(c):
    """updates as a user would do them"""
    seed(c.seed)
    kind = list(CLASSES)[c.idx % len(CLASSES)]
    l, na, nf = learner(c, kind)
    ref = Ref(kind, l)
    ref.watch()
    lr = l.learningRate
    what = '%s, %d actions, %d features, discount %s' % (kind, na, nf, l.rewardDiscount)
    n = c.r.randint(2, 40)
    given = kind in ('LSTDQ', 'GQ', 'LSPILambda') and c.r.random() < .5
    P = rnd_vec(c, na * nf).reshape(na, nf)

    def soft(temp):
        def p(s):
            e = np.exp(P.dot(s) / temp - (P.dot(s) / temp).max())
            return e / e.sum()
        return p
    pol, beh = soft(1.), soft(3.)
    for i in range(n):
        s, s2 = frozen(feats(c, nf)), frozen(feats(c, nf))
        a, a2, r = c.r.randrange(na), c.r.randrange(na), c.r.gauss(0, 1)
        if c.r.random() < .15:
            l.newEpisode()
            ref.new()
            lr = l.learningRate
        kw, rkw = {}, {}
        if given:
            kw = dict(learned_policy=pol)
            rkw = dict(learned=pol)
            c.ev('given policies')
        if kind == 'GQ':
            kw['behavior_policy'] = rkw['behavior'] = beh
            if c.r.random() < .3:
                kw['outcome_reward'] = rkw['outcome'] = c.r.gauss(0, 1)
                c.ev('outcome reward')
        del ref.queue[:]
        if l.passNextAction:
            l._updateWeights(s, a, r, s2, a2)
            ref.update(lr, s, a, r, s2, a2)
        else:
            l._updateWeights(s, a, r, s2, **kw)
            ref.update(lr, s, a, r, s2, **rkw)
        if np.abs(ref.T).max() > 1e6:
            return
        if not compare(c, l, ref, kind, '%s, step %d' % (what, i)):
            return
        q = l._qValues(s)
        c.close(q, ref.T.dot(s), 'values', 1e-5, what)
        if na == 1 or np.sort(q)[-1] - np.sort(q)[-2] > 1e-9:
            c.eq(int(l._greedyAction(s)), int(np.argmax(q)), 'greedy action', what)
    c.ev('direct ' + kind)
    c.sig(kind, na, nf, l.rewardDiscount, n, given)
    c.sample('%s, %d steps' % (what, n))


def k_agent(c):
    """the agent, step by step"""
    seed(c.seed)
    kind = list(CLASSES)[c.idx % len(CLASSES)]
    batch = (c.idx // len(CLASSES)) % 2 == 1
    l, na, nf = learner(c, kind, batchMode=batch)
    logging = batch or c.r.random() < .6
    a = LinearFA_Agent(l)
    a.logging = logging
    eps = c.r.random() < .4
    a.epsilonGreedy = eps
    if c.r.random() < .3 and kind != 'GQ':
        a.greedy = True
    ref = Ref(kind, l)
    ref.watch()
    what = '%s %s, %d actions, %d features' % ('batch' if batch else 'online', kind, na, nf)
    E = []
    lr = l.learningRate
    temp = a._temperature
    expl = a._expl_proportion

    def probs(s, T):
        q = T.dot(s)
        g = np.zeros(na)
        g[int(np.argmax(q))] = 1
        if a.greedy:
            return g
        if eps:
            return g * (1 - expl) + expl / na
        e = np.exp(np.clip(q / temp - (q / temp).max(), -20, 0))
        return e / e.sum()

    def beh(s):
        return probs(s, ref.T)

    def upd(s, x, r, s2, x2):
        ref.update(l.learningRate, s, x, r, s2, x2, behavior=beh)

    off = not batch and c.r.random() < .2
    if off:
        a.learning = False
        c.ev('not learning')
    neps = c.r.randint(1, 4)
    for e in range(neps):
        n = c.r.choice([1, 2, 5, 9])
        if n == 1:
            c.ev('one step episode')
        rate = l.learningRate
        del ref.queue[:]
        a.newEpisode()
        if E and not batch and not off:
            # what was left of the last episode
            s, x, r = E[-1][-1]
            ref.update(rate, s, x, r, np.zeros(nf), x, behavior=beh)
            if not compare(c, l, ref, kind, '%s, end of episode %d' % (what, e - 1)):
                return
            c.ev('terminal reward')
        c.ok(l.learningRate < rate, 'rate decay', 'the learning rate did not decrease: %s to %s' % (rate, l.learningRate))
        c.ev('rate decay')
        temp, expl = a._temperature, a._expl_proportion
        ref.new()
        ep = []
        E.append(ep)
        for t in range(n):
            s = feats(c, nf)
            T = weights(l)
            del ref.queue[:]
            a.integrateObservation(frozen(s))
            if ep and not batch and not off and not l.passNextAction:
                upd(ep[-1][0], ep[-1][1], ep[-1][2], s, None)
                if not compare(c, l, ref, kind, '%s, step %d of episode %d' % (what, t, e)):
                    return
            # the action is drawn from the policy
            q = weights(l).dot(s)
            p = probs(s, weights(l))
            if na == 1 or np.sort(q)[-1] - np.sort(q)[-2] > 1e-9:
                c.close(a._actionProbs(s), p, 'probabilities of the agent', 1e-6, what)
            else:
                p = p + 1
            act = a.getAction()
            x = int(act[0])
            c.ok(act.shape == (1,) and 0 <= x < na and p[x] > 0, 'action', lambda: '%s: %s drawn from %s' % (what, act, p))
            if ep and not batch and not off and l.passNextAction:
                upd(ep[-1][0], ep[-1][1], ep[-1][2], s, x)
                if not compare(c, l, ref, kind, '%s, step %d of episode %d' % (what, t, e)):
                    return
            r = c.r.choice([c.r.gauss(0, 1), 0., 1.])
            a.giveReward(r)
            ep.append((s, x, r))
            if batch or off:
                c.close(weights(l), T, 'learned too early', 0, what)
            if np.abs(ref.T).max() > 1e4:
                return
    if logging:
        h = a.history
        c.eq(h.getNumSequences(), len(E), 'history: episodes', what)
        for i, ep in enumerate(E):
            o, x, r = h.getSequence(i)
            c.close(o, [q[0] for q in ep], 'history: observations', 1e-12, what)
            c.close(np.ravel(x), [q[1] for q in ep], 'history: actions', 0, what)
            c.close(np.ravel(r), [q[2] for q in ep], 'history: rewards', 0, what)
        c.ev('history')
    else:
        c.eq(len(a.history), 0, 'history: logging off', what)
        c.ev('logging off')
    if batch:
        for _ in range(c.r.randint(1, 2)):
            ref.new()
            rates = [l.learningRate]
            cc = l._callcount
            for i in range(len(E)):
                rates.append(rates[-1] * (l.learningRateDecay + cc + i + 1) / (l.learningRateDecay + cc + i + 2.))
            del ref.queue[:]
            a.learn()
            for ep, rate in zip(E, rates):
                for i, (s, x, r) in enumerate(ep):
                    s2, x2 = ep[i + 1][:2] if i + 1 < len(ep) else (np.zeros(nf), x)
                    ref.update(rate, s, x, r, s2, x2, behavior=beh)
                    if np.abs(ref.T).max() > 1e4:
                        return
                ref.new()
            if not compare(c, l, ref, kind, '%s, episodes of %s steps' % (what, [len(ep) for ep in E])):
                return
            c.close(l.learningRate, rates[-1], 'rate after learning', 1e-9, what)
            c.ev('terminal reward')
        c.ev('batch ' + kind)
    elif not off:
        T = weights(l)
        a.learn()
        c.close(weights(l), T, 'learned again', 0, what)
        c.ev('online ' + kind)
    if neps > 1:
        c.ev('several episodes')
    if not batch and not logging:
        # an episode broken off between an observation and its action: the next one does not follow on it
        a.newEpisode()
        for _ in range(2):
            a.integrateObservation(feats(c, nf))
            a.getAction()
            a.giveReward(1.)
        a.integrateObservation(feats(c, nf))
        a.newEpisode()
        T = weights(l)
        a.integrateObservation(feats(c, nf))
        a.getAction()
        c.close(weights(l), T, 'learned across episodes', 0, what)
        c.ev('broken off')
    T = weights(l)
    a.reset()
    c.close(weights(l), T, 'reset changed the weights', 0, what)
    c.eq(len(a.history), 0, 'reset keeps the history', what)
    c.ok(a.lastobs is None and a.lastaction is None, 'reset keeps the last step', what)
    a.newEpisode()
    a.integrateObservation(feats(c, nf))
    c.close(weights(l), T, 'learned from before the reset', 0, what)
    c.ev('reset')
    c.sig(kind, batch, na, nf, eps, a.greedy, off, [len(e) for e in E])
    c.sample('%s, episodes of %s steps' % (what, [len(e) for e in E]))


def k_policy(c):
    seed(c.seed)
    na, nf = c.r.randint(2, 4), c.r.randint(1, 3)
    l = Q_LinFA(na, nf, randomInit=c.r.random() < .7)
    a = LinearFA_Agent(l)
    s = feats(c, nf)
    if c.r.random() < .5:
        l._theta[:] = rnd_vec(c, na * nf).reshape(na, nf)
    q = l._qValues(s)
    best = set(np.flatnonzero(q == q.max()))
    got = {int(l._greedyAction(s)) for _ in range(60)}
    c.ok(got <= best and (len(best) == 1 or len(got) > 1), 'greedy action', lambda: 'of values %s: %s' % (q, got))
    if len(best) > 1:
        c.ev('tie')
    g = l._greedyPolicy(s)
    c.ok(g.sum() == 1 and g.max() == 1 and int(g.argmax()) in best, 'greedy policy', lambda: 'of values %s: %s' % (q, g))
    c.ev('greedy policy')
    for t in (1., .1, 10., c.r.uniform(.05, 3)):
        p = l._boltzmannPolicy(s, t)
        e = np.exp(np.clip((q - q.max()) / t, -20, 0))
        c.close(p, e / e.sum(), 'boltzmann policy', 1e-9, 'values %s, temperature %s' % (q, t))
        c.close(l._boltzmannProbs(frozen(q), t), p, 'boltzmann probabilities', 1e-12)
    c.close(l._qValues(s), q, 'values changed by the policy', 0)
    z = l._boltzmannPolicy(s, 0)
    c.ok(z.sum() == 1 and z.max() == 1 and int(z.argmax()) in best, 'zero temperature', lambda: 'of values %s: %s' % (q, z))
    c.ev('zero temperature')
    c.ev('boltzmann')
    a.logging = False
    a.learning = False
    mode = c.r.choice(['greedy', 'eps', 'boltzmann'])
    a.greedy, a.epsilonGreedy = mode == 'greedy', mode == 'eps'
    if mode == 'eps':
        a._expl_proportion = c.r.choice([.1, .5, 1.])
        c.ev('epsilon greedy')
    if mode == 'boltzmann':
        a._temperature = c.r.choice([.3, 1.])
    if len(best) > 1:
        l._theta[0] += s
        q = l._qValues(s)
    p = a._actionProbs(s)
    gr = np.zeros(na)
    gr[q.argmax()] = 1
    e = np.exp(np.clip((q - q.max()) / a._temperature, -20, 0))
    want = gr if mode == 'greedy' else e / e.sum() if mode == 'boltzmann' else gr * (1 - a._expl_proportion) + a._expl_proportion / na
    c.close(p, want, 'probabilities: ' + mode, 1e-9)
    N = 400
    cnt = np.zeros(na)
    for _ in range(N):
        a.integrateObservation(s)
        cnt[int(a.getAction()[0])] += 1
    for k in range(na):
        c.ok(abs(cnt[k] - N * want[k]) <= 5 * math.sqrt(N * want[k] * (1 - want[k])) + 4 * (want[k] > 1e-7), 'drawn: ' + mode, lambda: '%s of %d for probabilities %s' % (cnt, N, want))
    c.ev('drawn')
    # exploration of an agent that does not learn online decays with the episodes
    b = LinearFA_Agent(Q_LinFA(na, nf, batchMode=True))
    t0, e0 = b._temperature, b._expl_proportion
    for i in range(3):
        b.newEpisode()
    c.close([b._temperature, b._expl_proportion], [t0 * .99 ** 3, e0 * .99 ** 3], 'decay of the exploration', 1e-9)
    b.reset()
    c.close([b._temperature, b._expl_proportion], [t0, e0], 'exploration after a reset', 1e-9)
    c.ev('decay')
    c.sig(mode, na, nf, tuple(np.round(q, 3)))


class Corridor(Environment):
    """the reward comes with the last step only, and only at the right end"""

    def __init__(self, n, start):
        self.n, self.start = n, start
        self.indim, self.outdim = 1, n

    def reset(self):
        self.at = self.start(self)

    def getSensors(self):
        o = np.zeros(self.n)
        o[self.at] = 1
        return o

    def performAction(self, a):
        self.at += 1 if int(a[0]) == 1 else -1


class Walk(EpisodicTask):
    def isFinished(self):
        return not 0 <= self.env.at < self.env.n or self.samples > 60

    def getReward(self):
        return 1. if self.env.at >= self.env.n else 0.

    def getObservation(self):
        return self.env.getSensors()


def k_learn(c):
    seed(c.seed)
    kind = list(CLASSES)[c.idx % len(CLASSES)]
    n = c.r.randint(2, 4)
    env = Corridor(n, lambda e: c.r.randrange(n))
    task = Walk(env)
    env.reset()
    batch = kind != 'GQ' and c.r.random() < .4
    kw = dict(rewardDiscount=.8, learningRate=.3, learningRateDecay=1000, batchMode=batch, randomInit=kind not in ('Q', 'LSPI'))
    if kind == 'LSPI':
        kw['lazyInversions'] = 5
    if kind == 'GQ':
        kw['learningRate'], kw['sec_learningRate'] = .1, .1
    l = CLASSES[kind](2, n, **kw)
    if hasattr(l, '_lambda'):
        l._lambda = .5
    a = LinearFA_Agent(l)
    a.temperature_decay = 1.
    a.init_temperature = 2.
    a.reset()
    x = EpisodicExperiment(task, a)
    if batch:
        x.doEpisodes(150)
        for _ in range({'Q': 3, 'QLambda': 3, 'SARSALambda': 3}.get(kind, 1)):
            a.learn()
    else:
        x.doEpisodes(300)
        a.newEpisode()
    T = weights(l)
    c.ok(bool(np.all(np.isfinite(T))), 'learned: not finite', kind)
    # going right must be better everywhere
    right = T[1] > T[0]
    c.ok(bool(right.all()), 'learned: ' + kind, lambda: '%s%s: values of left %s and right %s' % (kind, ' in batch' if batch else '', T[0], T[1]))
    if kind in ('Q', 'QLambda', 'LSTDQ'):
        # and the last step is worth its reward
        c.ok(abs(T[1, n - 1] - 1) < .15, 'value of the last step: ' + kind, lambda: 'right at the last place is worth %s' % T[1, n - 1])
    c.ev('learned')
    c.sig(kind, n, batch)


KINDS = [
    ('updates', k_direct, 140, 3000),
    ('agents', k_agent, 140, 3000),
    ('policies', k_policy, 30, 600),
    ('corridors', k_learn, 14, 140),
]
