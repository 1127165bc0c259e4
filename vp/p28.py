"""P28: policy-gradient learners (REINFORCE, episodic natural actor-critic) and reward-weighted regression."""
import math, random
import numpy as np
from pybrain.rl.learners import Reinforce, ENAC
from pybrain.rl.learners.directsearch.rwr import RWR
from pybrain.rl.agents import LearningAgent
from pybrain.rl.explorers import NormalExplorer
from pybrain.rl.explorers.continuous.sde import StateDependentExplorer
from pybrain.structure import TanhLayer, SigmoidLayer, LinearLayer, SoftmaxLayer, GaussianLayer, StateDependentLayer, FeedForwardNetwork, FullConnection
from pybrain.tools.shortcuts import buildNetwork
from vp.core import rnd_vec
from vp.p12 import seed

RULE = ('a case runs one agent with a policy-gradient learner over episodes of random lengths and rewards, watching every logged likelihood and learning step, or one '
        'batch of reward-weighted regression over a recording task; non-trivial with at least two steps; distinct by learner, network, explorer and episodes')
EXPECT = ['logged', 'step REINFORCE', 'step ENAC', 'several steps', 'no reset between', 'parameters set between', 'momentum', 'rate decay', 'scaled gradient', 'single episode',
          'one step episode', 'explorer replaced', 'state-dependent', 'reached REINFORCE', 'reached ENAC', 'rwr batch', 'rwr weights', 'rwr greedy',
          'rwr reset', 'rwr value network', 'rwr drawn', 'rwr learned', 'rwr tau', 'no exploration', 'gaussian layer', 'state-dependent layer', 'separate sigmas', 'scaled by the variance', 'layer disabled',
          'gradients accumulated', 'layer in a network', 'layer frequencies']
ASSUMPTIONS = ['derivatives of the policy are central differences', 'reward-weighted regression acts by a recurrent softmax network', 'frequencies are compared within five '
               'standard deviations under fixed seeds']


def expln(x):
    return np.where(x < 0, np.exp(x), 1 + np.log(np.maximum(x, 0) + 1))


def explnPrime(x):
    return np.where(x < 0, np.exp(x), 1 / (np.maximum(x, 0) + 1))


def policy(c, ind, outd):
    kind = c.r.choice(['linear', 'linear nobias', 'tanh', 'sigmoid'])
    if kind == 'linear':
        n = buildNetwork(ind, outd)
    elif kind == 'linear nobias':
        n = buildNetwork(ind, outd, bias=False)
    else:
        n = buildNetwork(ind, c.r.randint(1, 3), outd, hiddenclass={'tanh': TanhLayer, 'sigmoid': SigmoidLayer}[kind],
                         outclass=c.r.choice([LinearLayer, TanhLayer]), bias=c.r.random() < .6)
    n.params[:] = rnd_vec(c, n.paramdim)
    return kind, n


def jac(n, x):
    """derivatives of the output with respect to the parameters, on a copy"""
    n = n.copy()
    p = np.array(n.params)
    J = np.zeros((n.outdim, len(p)))
    for i in range(len(p)):
        v = []
        for h in (1e-5, -1e-5):
            n.params[i] = p[i] + h
            n.reset()
            v.append(np.array(n.activate(x)))
        n.params[i] = p[i]
        J[:, i] = (v[0] - v[1]) / 2e-5
    return J


class Run:
    """drives an agent, and notes what every step should have logged"""

    def __init__(self, c, kind=None):
        self.c = c
        self.kind = kind or c.r.choice(['REINFORCE', 'ENAC'])
        self.ind, self.outd = c.r.randint(1, 3), c.r.randint(1, 2)
        self.net, self.n = policy(c, self.ind, self.outd)
        self.l = {'REINFORCE': Reinforce, 'ENAC': ENAC}[self.kind]()
        self.a = LearningAgent(self.n, self.l)
        self.sde = False
        if c.r.random() < .5:
            c.ev('explorer replaced')
            self.sde = c.r.random() < .5
            if self.sde:
                self.l.explorer = StateDependentExplorer(self.ind, self.outd, c.r.choice([-2., 0., .5]))
                c.ev('state-dependent')
            else:
                self.l.explorer = NormalExplorer(self.outd, c.r.choice([-1.5, .5, 2.]))
        self.e = self.l.explorer
        if c.r.random() < .7:
            self.e.sigma = rnd_vec(c, self.outd)
        self.rows, self.R, self.eps = [], [], []

    def params(self):
        return np.concatenate([self.n.params, self.e.params])

    def episode(self, T):
        c, a = self.c, self.a
        a.newEpisode()
        R, rows = [], []
        for t in range(T):
            x = rnd_vec(c, self.ind)
            a.integrateObservation(x)
            act = np.array(a.getAction(), dtype=float)
            m = self.n.copy()
            m.reset()
            mu = np.array(m.activate(x))
            d = act - mu
            sp = np.array(self.e.params)
            s, sq = expln(sp), 1.
            if self.sde:
                sq = x.dot(x)
                g = (d ** 2 - sq * s ** 2) / (s ** 2) * s * explnPrime(sp)
                c.close(d, x.dot(self.e.explmatrix), 'exploration', 1e-7, 'state-dependent exploration')
            else:
                g = (d ** 2 - s ** 2) / s * explnPrime(sp)
            row = np.concatenate([jac(self.n, x).T.dot(d), g])
            rows.append(row)
            r = c.r.choice([c.r.gauss(0, 1), float(c.r.randint(-2, 3)), c.r.gauss(0, 1)])
            a.giveReward(r)
            R.append(r)
            got = np.array(self.l.loglh['loglh'])
            want = np.array(self.all_rows() + rows)
            if not c.ok(got.shape == want.shape, 'log likelihoods: number', lambda: '%s logged, expected %s' % (got.shape, want.shape)):
                return
            c.close(got[-1], row, 'log likelihood', 1e-6, '%s %s, action %s for mean %s' % (self.net, 'sde' if self.sde else 'normal', act, mu))
            c.ev('logged')
        self.rows.append(rows)
        self.R.append(sum(R))
        if T == 1:
            c.ev('one step episode')

    def all_rows(self):
        return [r for e in self.rows for r in e]

    def gradient(self):
        # the logged likelihoods, which were compared one by one, have no noise of differences
        logged = np.array(self.l.loglh['loglh'])
        L, i = [], 0
        for e in self.rows:
            L.append(logged[i:i + len(e)].sum(0))
            i += len(e)
        L = np.array(L)
        R = np.array(self.R)
        if self.kind == 'REINFORCE':
            g = np.zeros(L.shape[1])
            for k in range(L.shape[1]):
                q = L[:, k] ** 2
                b = (q * R).mean() / q.mean() if q.mean() else 0.
                g[k] = (L[:, k] * (R - b)).mean()
            return g
        X = np.column_stack([L, np.ones(len(L))])
        u, s, v = np.linalg.svd(X, full_matrices=False)
        if ((s > 1e-14 * s[0]) & (s < 1e-6 * s[0])).any():
            return None  # too near to singular to compare
        keep = s >= 1e-6 * s[0]
        return v[keep].T.dot(u[:, keep].T.dot(R) / s[keep])[:-1]


def k_step(c):
    seed(c.seed)
    q = Run(c)
    l = q.l
    if c.r.random() < .3:
        l.gd.momentum = .5
        c.ev('momentum')
    if c.r.random() < .3:
        l.gd.alphadecay = .5
        c.ev('rate decay')
    alpha = c.r.choice([.1, .01, .5])
    l.learningRate = alpha
    c.eq(l.learningRate, alpha, 'learning rate')
    vel = np.zeros(len(q.params()))
    steps = c.r.randint(1, 4)
    for k in range(steps):
        neps = c.r.choice([1, 2, 3, 5])
        if np.abs(q.params()).max() > 50 or np.min(q.e.params) < -5:
            return  # diverged, or without exploration
        for _ in range(neps):
            q.episode(c.r.choice([1, 1, 2, 4]))
        if c.violations:
            return
        if len(q.R) == 1:
            c.ev('single episode')
        if k and c.r.random() < .4:
            q.n.params[:] = q.n.params + rnd_vec(c, q.n.paramdim, .1)
            c.ev('parameters set between')
        if c.r.random() < .15:
            # rewards so large that the gradient is scaled
            f = c.r.choice([1e4, 1e6])
            h = q.a.history
            h['reward'][:] = h['reward'] * f
            q.R = [x * f for x in q.R]
        before = q.params()
        g = q.gradient()
        q.a.learn()
        if g is None:
            c.ev('singular')
            return
        if g.max() > 1000:
            g = g / g.max() * 1000
            c.ev('scaled gradient')
        vel = vel * l.gd.momentum + alpha * g
        alpha *= l.gd.alphadecay
        what = '%s, %s policy, %s, episodes of %s steps' % (q.kind, q.net, 'sde' if q.sde else 'normal', [len(e) for e in q.rows])
        c.close(q.params(), before + vel, 'step: ' + q.kind, 1e-4, what)
        if c.violations:
            return
        c.ev('step ' + q.kind)
        # what moved is the agent's policy itself
        c.ok(q.a.module is q.n and l.module is q.n, 'module replaced')
        x = rnd_vec(c, q.ind)
        m = q.n.copy()
        m.reset()
        q.n.reset()
        c.close(q.n.activate(x), m.activate(x), 'policy after the step', 1e-10)
        # the difference equations of the oracle start from where the learner ended
        c.eq(len(l.loglh['loglh']), len(q.all_rows()), 'log likelihoods after the step')
        if c.r.random() < .7:
            q.a.reset()
            q.rows, q.R = [], []
            c.eq((len(l.loglh['loglh']), len(q.a.history)), (0, 0), 'reset')
        else:
            c.ev('no reset between')
    if steps > 1:
        c.ev('several steps')
    # without learning, the agent acts by its policy and logs no likelihoods
    n = len(l.loglh['loglh'])
    q.a.learning = False
    q.a.newEpisode()
    x = rnd_vec(c, q.ind)
    q.a.integrateObservation(x)
    m = q.n.copy()
    m.reset()
    c.close(q.a.getAction(), m.activate(x), 'action without exploration', 1e-9)
    c.eq(len(l.loglh['loglh']), n, 'logged without exploration')
    c.ev('no exploration')
    c.sig(q.kind, q.net, q.ind, q.outd, q.sde, steps, l.gd.momentum, l.gd.alphadecay)
    c.sample('%s, %s policy of %d parameters, %d steps' % (q.kind, q.net, q.n.paramdim, steps))


def k_reach(c):
    """a linear policy of a known quadratic reward"""
    seed(c.seed)
    kind = ['REINFORCE', 'ENAC'][c.idx % 2]
    d = c.r.randint(1, 2)
    tgt = np.array([c.r.choice([-2., 2., 1.5]) for _ in range(d)])
    n = buildNetwork(1, d, bias=False)
    n.params[:] = 0
    l = {'REINFORCE': Reinforce, 'ENAC': ENAC}[kind]()
    a = LearningAgent(n, l)
    l.learningRate = .02 if kind == 'REINFORCE' else .05
    T = 2
    x = np.array([c.r.choice([1., -1.])])
    vals = []
    rounds = 120
    for _ in range(rounds):
        tot = 0
        for _ in range(15):
            a.newEpisode()
            for _ in range(T):
                a.integrateObservation(x)
                act = np.array(a.getAction())
                r = -((act - tgt) ** 2).sum()
                a.giveReward(r)
                tot += r
        vals.append(tot / 15)
        a.learn()
        a.reset()
    n.reset()
    got = n.activate(x)
    ok = np.abs(got - tgt).max() < .8 and np.mean(vals[-10:]) > np.mean(vals[:5])
    c.ok(ok, 'reached: ' + kind, lambda: '%s: mean action %s for best %s, returns %.3g to %.3g' % (kind, got, tgt, np.mean(vals[:5]), np.mean(vals[-10:])))
    c.ev('reached ' + kind)
    c.sig(kind, tuple(tgt), x[0], d)


class Chain:
    """ends after a number of steps of its own; the reward is what a table says of state and action"""

    def __init__(self, c, ns, na):
        self.outdim, self.indim, self.c = ns, na, c
        self.discount = c.r.choice([1., .9, .5, 0.])
        self.table = np.array([[c.r.choice([0., 1., c.r.random()]) for _ in range(na)] for _ in range(ns)]) + .2
        self.minReward = c.r.choice([0., -1., 0])
        self.eps = []
        self.T = c.r.choice([2, 3, 5])

    def reset(self):
        self.t, self.n = 0, self.c.r.randint(1, self.T)
        self.eps.append([])

    def isFinished(self):
        return self.t >= self.n

    def getObservation(self):
        self.s = self.c.r.randrange(self.outdim)
        o = np.zeros(self.outdim)
        o[self.s] = 1
        self.o = o
        return o.copy()

    def performAction(self, a):
        self.t += 1
        self.act = int(a)

    def getReward(self):
        r = self.table[self.s, self.act]
        self.eps[-1].append((self.o.copy(), self.act, r))
        return r


def k_rwr(c):
    seed(c.seed)
    ns, na = c.r.randint(1, 3), c.r.randint(2, 3)
    t = Chain(c, ns, na)
    net = buildNetwork(ns, c.r.randint(1, 3), na, outclass=SoftmaxLayer, recurrent=True)
    vnet = None
    args = dict(verbose=False, batchSize=c.r.choice([4, 5, 8]), greedyRuns=c.r.randint(1, 3), maxEpochs=c.r.choice([2, 3]),
                learningRate=c.r.choice([.005, .05]), momentum=c.r.choice([0., .9]), continueEpochs=1)
    if c.r.random() < .4:
        vnet = buildNetwork(ns, 2, 1)
        args['resetAllWeights'] = c.r.random() < .5
        c.ev('rwr value network')
    l = RWR(net, t, valueNetwork=vnet, **args)
    for k, v in args.items():
        c.eq(getattr(l, k), v, 'rwr: setting ' + k)
    probs = []
    act0 = net.activate

    def spy(x):
        p = act0(x)
        probs.append((np.array(x, dtype=float), np.array(p)))
        return p
    net.activate = spy
    trained, order = [], []
    tu0 = l.bp.trainUntilConvergence

    def tu(*a, **k):
        trained.append((a, k))
        order.append('train')
        ds = l.weightedDs
        mine.update(weighted=[[np.array(f, dtype=float) for f in ds.getSequence(i)] for i in range(ds.getNumSequences())],
                    raw=[[np.array(f, dtype=float) for f in l.rawDs.getSequence(i)] for i in range(l.rawDs.getNumSequences())],
                    value=[[np.array(f, dtype=float) for f in l.valueDs.getSequence(i)] for i in range(l.valueDs.getNumSequences())],
                    eps=list(t.eps), probs=list(probs), before=np.array(net.params), tau=l.tau, data=l.bp.ds is l.weightedDs,
                    mom=np.array(l.bp.descent.momentumvector))
        r = tu0(*a, **k)
        mine['after'] = np.array(net.params)
        return r
    l.bp.trainUntilConvergence = tu
    mine = {}
    tau = 1.
    total = 0
    z, var = 0., 0.
    for b in range(c.r.randint(1, 3)):
        t.eps[:] = []
        del probs[:]
        l.batchSize = args['batchSize']
        l.learn(1)
        B = args['batchSize']
        eps = mine['eps']
        what = 'batch %d: %d episodes of %s steps, discount %s, minimal reward %s' % (b, B, [len(e) for e in eps], t.discount, t.minReward)
        if c.must(len(eps) == B, 'rwr: number of episodes', what):
            pass
        c.eq(len(trained), b + 1, 'rwr: times trained', what)
        c.ok(mine['data'], 'rwr: trained on other data')
        k = trained[-1][1]
        c.eq((k.get('maxEpochs'), k.get('validationProportion'), k.get('continueEpochs')), (args['maxEpochs'], .33, 1), 'rwr: training settings', what)
        rets = []
        for e in eps:
            ret, cur = [], 0.
            for _, _, r in reversed(e):
                cur = r + t.discount * cur
                ret.append(cur)
            rets.append(ret[::-1])
        R0 = np.array([r[0] for r in rets])
        U = np.exp(tau * R0)
        W = U / U.max()
        for name, ds, cols in (('raw', mine['raw'], 3), ('weighted', mine['weighted'], 3), ('value', mine['value'], 2)):
            if not c.eq([len(s[0]) for s in ds], [len(e) for e in eps], 'rwr: sequences of the %s data' % name, what):
                return
            for i, s in enumerate(ds):
                c.close(s[0], [o for o, _, _ in eps[i]], 'rwr: observations of the %s data' % name, 1e-12, what)
                if name != 'value':
                    c.close(s[1], [np.eye(na)[x] for _, x, _ in eps[i]], 'rwr: actions of the %s data' % name, 1e-12, what)
                last = s[-1].ravel()
                want = rets[i] if name != 'weighted' else [W[i]] * len(eps[i])
                # the weighted data have one importance per output value
                if name == 'weighted':
                    want = np.array([[W[i]] * (s[-1].size // len(eps[i]))] * len(eps[i])).ravel()
                c.close(last, want, 'rwr: ' + {'raw': 'returns', 'value': 'values', 'weighted': 'weights'}[name], 1e-9, '%s (tau %s)' % (what, tau))
        c.ev('rwr weights')
        tau = U.sum() / ((R0 - t.minReward) * U).sum()
        c.close(mine['tau'], tau, 'rwr: tau', 1e-9, what)
        c.ev('rwr tau')
        # what the network said and what was drawn
        acts = [(o, x) for e in eps for (o, x, _) in e]
        n = len(acts)
        c.ok(len(mine['probs']) == n, 'rwr: activations', what)
        for (o, x), (xo, p) in zip(acts, mine['probs']):
            c.close(xo, o, 'rwr: network input', 1e-12, what)
            c.close(p.sum(), 1, 'rwr: probabilities', 1e-9)
            c.ok(p[x] > 0, 'rwr: impossible action drawn')
            z += p[x] - (p ** 2).sum()
            var += (p ** 3).sum() - (p ** 2).sum() ** 2
        c.close(l.rewardAvg[-1], np.mean([np.mean([r for _, _, r in e]) for e in eps]), 'rwr: average reward', 1e-9, what)
        c.close(l.lengthAvg[-1], n / float(B), 'rwr: average length', 1e-9, what)
        c.close(l.initr0Avg[-1], R0.mean(), 'rwr: average return', 1e-9, what)
        total += n
        c.eq((l.totalSteps, l.totalEpisodes), (total, (b + 1) * B), 'rwr: totals', what)
        c.close(mine['mom'], np.zeros(net.paramdim), 'rwr: momentum at the start of training', 0, what)
        # greedy runs
        ge = t.eps[B:]
        c.eq(len(ge), args['greedyRuns'], 'rwr: greedy runs', what)
        g = [p for _, p in probs[-sum(len(e) for e in ge):]]
        for (o, x, _), p in zip([s for e in ge for s in e], g):
            c.ok(p[x] == p.max(), 'rwr: greedy action', what)
        c.close(l.greedyAvg[-1], np.mean([np.mean([r for _, _, r in e]) for e in ge]), 'rwr: greedy average', 1e-9, what)
        c.ev('rwr greedy')
        c.ev('rwr batch')
    c.ok(abs(z) <= 5 * math.sqrt(var) + 1e-9, 'rwr: drawn as the network says', lambda: 'deviation %g of %g' % (z, math.sqrt(var)))
    # a reset empties the data and the momentum
    l.bp.descent.momentumvector[:] = 1
    vp = None if vnet is None else np.array(vnet.params)
    net_before = np.array(net.params)
    if vnet is not None:
        l.vbp.descent.momentumvector[:] = 1
    l.reset()
    c.eq((len(l.rawDs), len(l.weightedDs), len(l.valueDs)), (0, 0, 0), 'rwr: reset keeps data')
    c.ok(not np.any(l.bp.descent.momentumvector), 'rwr: reset keeps momentum')
    c.close(net.params, net_before, 'rwr: reset changes the policy', 0)
    if vnet is not None:
        c.ok(not np.any(l.vbp.descent.momentumvector), 'rwr: reset keeps momentum of the values')
        c.eq(bool(np.all(vp == vnet.params)), not args['resetAllWeights'], 'rwr: reset of the value network')
    c.ev('rwr reset')
    c.sig(ns, na, t.discount, t.minReward, args['batchSize'], vnet is None)
    c.sample('%d states, %d actions, batches of %d' % (ns, na, args['batchSize']))


def k_drawn(c):
    """actions follow the probabilities of the network"""
    seed(c.seed)
    na = c.r.randint(2, 4)
    t = Chain(c, 1, na)
    net = buildNetwork(1, 2, na, outclass=SoftmaxLayer, recurrent=True)
    net.params[:] = rnd_vec(c, net.paramdim)
    l = RWR(net, t, verbose=False, batchSize=150, maxEpochs=1)
    l.bp.trainUntilConvergence = lambda *a, **k: ([], [])
    ps = []
    act0 = net.activate

    def spy(x):
        ps.append(np.array(act0(x)))
        return ps[-1]
    net.activate = spy
    l.greedyAvg, l.rewardAvg, l.lengthAvg, l.initr0Avg = [], [], [], []
    l.reset()
    l.learnOneBatch()
    P = np.array(ps)
    acts = [a for e in t.eps for _, a, _ in e]
    for k in range(na):
        n = sum(a == k for a in acts)
        e, v = P[:, k].sum(), (P[:, k] * (1 - P[:, k])).sum()
        c.ok(abs(n - e) <= 5 * math.sqrt(v) + 1e-9, 'rwr: drawn as the network says', lambda: 'action %d %d times of %d, expected %g' % (k, n, len(acts), e))
    # each episode starts from the reset network
    i = 0
    first = None
    for e in t.eps:
        if first is None:
            first = ps[i]
        c.close(ps[i], first, 'rwr: network not reset between episodes', 1e-12)
        i += len(e)
    c.ev('rwr drawn')
    c.sig(na, t.discount, len(t.eps))


def k_rwr_learn(c):
    """the better of two actions becomes likelier"""
    seed(c.seed)
    t = Chain(c, 1, 2)
    good = c.r.randrange(2)
    t.table[:] = 1.
    t.table[0, good] = 6.
    t.T, t.minReward = 1, 0.
    net = buildNetwork(1, 2, 2, outclass=SoftmaxLayer, recurrent=True)
    net.params[:] = rnd_vec(c, net.paramdim, .1)
    l = RWR(net, t, verbose=False, batchSize=30, learningRate=.05, momentum=.9, maxEpochs=20, greedyRuns=1)
    p = []
    for _ in range(2):
        net.reset()
        p.append(net.activate([1.])[good])
        if len(p) == 1:
            l.learn(4)
    c.ok(p[1] > p[0] + .1, 'rwr: did not learn', lambda: 'probability of the better action %s' % p)
    c.ev('rwr learned')
    c.sig(good)


def k_layer(c):
    """layers that explore by themselves"""
    seed(c.seed)
    d = c.r.randint(1, 3)
    auto = c.r.random() < .4
    kind = c.r.choice(['gauss', 'gauss', 'one', 'separate'])
    sd = c.r.randint(1, 3)
    if kind == 'gauss':
        l = GaussianLayer(d)
        c.close(l.params, np.zeros(d), 'layer: sigmas at the start', 0)
    else:
        # the exploration is a linear function of the state
        net = buildNetwork(sd, d, bias=False)
        l = StateDependentLayer(d, net, onesigma=kind == 'one')
        c.eq(l.paramdim, 1 if kind == 'one' else sd * d, 'layer: number of sigmas')
    l.autoalpha = auto
    sig = np.array([c.r.choice([-1., -.3, 0., .5, 2.]) for _ in range(l.paramdim)])
    if kind == 'gauss' and c.r.random() < .5:
        l.setSigma(sig)
    else:
        l.params[:] = sig
    W = None
    if kind != 'gauss':
        l.drawRandomWeights()
        W = np.array(net.params).reshape(d, sd)
    what = '%s layer of %d, sigmas %s%s' % (kind, d, sig, ', autoalpha' if auto else '')

    def var(p, s):
        """variance of each action"""
        if kind == 'gauss':
            return expln(p) ** 2
        e = expln(p)
        return np.ones(d) * e[0] ** 2 * s.dot(s) if kind == 'one' else (e.reshape(d, sd) ** 2).dot(s ** 2)
    total = np.zeros(l.paramdim)
    l.resetDerivatives()
    for i in range(c.r.randint(1, 4)):
        x, s = rnd_vec(c, d), rnd_vec(c, sd) + .1
        if kind != 'gauss':
            l.setState(s)
        y = np.array(l.activate(x))
        if kind != 'gauss':
            c.close(y, x + W.dot(s), 'layer: exploration', 1e-9, what)
            c.close(l.activate(x), x, 'layer: exploration used twice', 1e-12, what)
            l.setState(s)
            l.activate(x)
        else:
            c.ok((y != x).all(), 'layer: no exploration', what)
        v = var(sig, s)
        logp = lambda p: (-.5 * (y - x) ** 2 / var(p, s) - .5 * np.log(var(p, s)))
        err = np.array(l.backActivate(np.zeros(d)))
        c.close(err, (y - x) if auto else (y - x) / v, 'layer: error', 1e-9, what)
        g = np.zeros(l.paramdim)
        for j in range(l.paramdim):
            h = 1e-6 * np.eye(l.paramdim)[j]
            lo, hi = sig - h, sig + h
            if sig[j] == 0:
                lo = sig
            z = (logp(hi) - logp(lo)) / (hi[j] - lo[j])
            g[j] = (z * v).sum() if auto else z.sum()
        total += g
        if not c.close(l.derivs, total, 'layer: gradient', 1e-4, '%s, pass %d' % (what, i + 1)):
            return
        if i:
            c.ev('gradients accumulated')
        if auto:
            c.ev('scaled by the variance')
    # disabled, nothing is explored
    l.enabled = False
    x = rnd_vec(c, d)
    if kind != 'gauss':
        l.setState(rnd_vec(c, sd))
    c.close(l.activate(x), x, 'layer: disabled', 0)
    c.ev('layer disabled')
    l.enabled = True
    if kind == 'gauss':
        n = FeedForwardNetwork()
        a = LinearLayer(2)
        n.addInputModule(a), n.addOutputModule(l)
        con = FullConnection(a, l)
        n.addConnection(con)
        n.sortModules()
        n.resetDerivatives()
        x = rnd_vec(c, 2)
        T, U = np.zeros((d, 2)), np.zeros(d)
        for _ in range(2):
            y = np.array(n.activate(x))
            m = con.params.reshape(d, 2).dot(x)
            n.backActivate(np.zeros(d))
            e, s = expln(sig), explnPrime(sig)
            U += ((y - m) ** 2 - e ** 2) / e * s / (1 if auto else e ** 2)
            T += np.outer((y - m) / (1 if auto else e ** 2), x)
            c.close(con.derivs, T.flatten(), 'layer: gradient below it', 1e-7, what)
            c.close(l.derivs, U, 'layer: gradient in a network', 1e-7, what)
        c.ev('layer in a network')
        c.ev('gaussian layer')
    else:
        c.ev('state-dependent layer')
        if kind == 'separate':
            c.ev('separate sigmas')
    if c.idx % 10 == 0:
        N = 1200
        if kind == 'gauss':
            A = np.array([l.activate(np.zeros(d)) for _ in range(N)])
            e = expln(sig)
        else:
            A = []
            for _ in range(N):
                l.drawRandomWeights()
                A.append(np.array(net.params))
            A, e = np.array(A), expln(sig)
        c.ok((np.abs(A.mean(0)) < 5 * e / math.sqrt(N)).all() and (np.abs(A.std(0) / e - 1) < 5 / math.sqrt(2 * N)).all(), 'layer: deviations', lambda: '%s: %s of %s' % (what, A.std(0), e))
        c.ev('layer frequencies')
    c.sig(kind, d, sd, tuple(sig), auto)
    c.sample(what)


KINDS = [
    ('exploring layers', k_layer, 60, 1200),
    ('policy gradient steps', k_step, 60, 1200),
    ('known best action', k_reach, 4, 40),
    ('reward-weighted regression', k_rwr, 25, 400),
    ('drawn actions', k_drawn, 6, 60),
    ('learning by regression', k_rwr_learn, 2, 12),
]
