"""P17: value-based reinforcement learning - tables, Q, SARSA, Q(lambda), NFQ and the explorers."""
import math, random
import numpy as np
from pybrain.rl.learners.valuebased import ActionValueTable, ActionValueNetwork, Q, SARSA, QLambda, NFQ
from pybrain.rl.explorers import EpsilonGreedyExplorer, BoltzmannExplorer, DiscreteStateDependentExplorer, NormalExplorer
from pybrain.rl.explorers.continuous.sde import StateDependentExplorer
from pybrain.rl.agents import LearningAgent
from pybrain.supervised.trainers import BackpropTrainer
from pybrain.datasets import ReinforcementDataSet
from pybrain.tools.functions import expln
from vp.core import rnd_vec
from vp.p12 import seed

RULE = ('a case learns from one random history (several episodes), runs one agent step by step, or drives one explorer; non-trivial when '
        'there is at least one transition; distinct by learner, sizes and settings')
EXPECT = ['table', 'tie', 'batch Q', 'batch SARSA', 'batch QLambda', 'online Q', 'online SARSA', 'episode boundary', 'short episode', 'trace cut off',
          'several learning steps', 'converges', 'nfq', 'nfq targets', 'value network', 'egreedy', 'boltzmann', 'decay', 'discrete sde', 'normal',
          'normal gradient', 'sde', 'sde gradient', 'new episode', 'connected']
ASSUMPTIONS = ['frequencies are compared within five standard deviations under fixed seeds']


def history(c, ns, na, episodes=None, ds=None):
    """[[(s, a, r), ...], ...] and the dataset that holds it"""
    ds = ReinforcementDataSet(1, 1) if ds is None else ds
    eps = []
    for _ in range(episodes or c.r.randint(1, 5)):
        n = c.r.choice([1, 1, c.r.randint(2, 12)]) if c.r.random() < .4 else c.r.randint(2, 12)
        if n <= 1:
            c.ev('short episode')
        ep = [(c.r.randrange(ns), c.r.randrange(na), c.r.choice([c.r.gauss(0, 1), float(c.r.randint(-1, 1)), .5])) for _ in range(n)]
        ds.newSequence()
        for s, a, r in ep:
            ds.addSample([s], [a], [r])
        eps.append(ep)
    return eps, ds


def table(c, ns, na):
    t = ActionValueTable(ns, na)
    T = np.array([rnd_vec(c, na) for _ in range(ns)])
    if c.r.random() < .3:
        v = c.r.choice([0., 1., -2.5])
        t.initialize(v)
        T[:] = v
    else:
        for s in range(ns):
            for a in range(na):
                t.updateValue(s, a, T[s, a])
    return t, T


def same(c, t, T, key, msg=''):
    c.close(np.array(t.params).reshape(T.shape), T, key, 1e-9, msg)


def k_table(c):
    ns, na = c.r.randint(1, 6), c.r.randint(1, 4)
    seed(c.seed)
    t, T = table(c, ns, na)
    same(c, t, T, 'table', 'table')
    c.eq(t.numActions, na, 'table', 'number of actions')
    for _ in range(10):
        s, a = c.r.randrange(ns), c.r.randrange(na)
        how = c.r.choice(['update', 'tie', 'tie', 'read'])
        if how == 'update':
            T[s, a] = c.r.gauss(0, 1)
            t.updateValue(s, a, T[s, a])
        elif how == 'tie':
            T[s, :] = [c.r.choice([0., 1.]) for _ in range(na)]
            for b in range(na):
                t.updateValue(s, b, T[s, b])
        same(c, t, T, 'table', 'after ' + how)
        c.close(t.getValue(s, a), T[s, a], 'value', 0, 'value')
        for st in (s, float(s), np.array([float(s)])):
            v = t.getActionValues(st)
            c.close(v, T[s], 'action values', 0, 'values of state %s' % s)
            v[:] = 99.
            same(c, t, T, 'table', 'values are a copy')
            best = set(np.flatnonzero(T[s] == T[s].max()))
            n = 40 if how == 'tie' else 1
            got = [int(t.getMaxAction(st)) for _ in range(n)]
            c.ok(set(got) <= best, 'max action', 'state %s with values %s: actions %s' % (s, T[s], set(got)))
            if how == 'tie' and len(best) > 1:
                c.ok(len(set(got)) > 1, 'tie', 'the same of several best actions was chosen %d times' % n)
                c.ev('tie')
        c.ok(int(t.activate([s])[0]) in best, 'greedy', 'activation of the table is not a best action')
    c.ev('table')
    c.sig(ns, na)


def ref_learn(kind, T, eps, alpha, gamma, lam=None):
    if kind == 'QLambda':
        flat = [(s, a, r, k) for k, e in enumerate(eps) for (s, a, r) in e]
        for i in range(len(flat) - 1, 0, -1):
            l = lam ** (len(flat) - 1 - i)
            if l < 0.0001:
                return 'cut'
            if flat[i][3] != flat[i - 1][3]:
                continue
            s, a, r = flat[i - 1][:3]
            T[s, a] += alpha * l * (r + gamma * T[flat[i][0]].max() - T[s, a])
        return
    for e in eps:
        for (s, a, r), (s2, a2, _) in zip(e, e[1:]):
            nxt = T[s2].max() if kind == 'Q' else T[s2, a2]
            T[s, a] += alpha * (r + gamma * nxt - T[s, a])


def k_batch(c):
    ns, na = c.r.randint(1, 5), c.r.randint(1, 4)
    seed(c.seed)
    t, T = table(c, ns, na)
    kind = c.r.choice(['Q', 'SARSA', 'QLambda'])
    a, g, lam = c.r.choice([.5, .1, 1.]), c.r.choice([.99, .5, 0., 1.]), c.r.choice([.9, .3, 0., 1.])
    if c.r.random() < .2:
        a, g, lam, l = .5, .99, .9, {'Q': Q, 'SARSA': SARSA, 'QLambda': QLambda}[kind]()
    else:
        l = Q(a, g) if kind == 'Q' else SARSA(a, g) if kind == 'SARSA' else QLambda(a, g, lam)
    eps, ds = history(c, ns, na)
    l.module = t
    l.dataset = ds
    keep = {k: np.array(ds[k]) for k in ('state', 'action', 'reward', 'sequence_index')}
    for rnd in range(c.r.randint(1, 3)):
        n = c.r.choice([1, 1, 2, 3])
        if n > 1:
            c.ev('several learning steps')
        (l.learnEpisodes(n) if c.r.random() < .7 else l.learnOnDataset(ds, n))
        for _ in range(n):
            if ref_learn(kind, T, eps, a, g, lam) == 'cut':
                c.ev('trace cut off')
        same(c, t, T, 'batch ' + kind, '%s(%s, %s, %s) after %d learning steps on %s' % (kind, a, g, lam, n, eps))
        for k in keep:
            c.close(np.array(ds[k]), keep[k], 'dataset', 0, 'the dataset was changed: ' + k)
        if c.r.random() < .4:
            more, _ = history(c, ns, na, 1, ds)
            eps += more
            keep = {k: np.array(ds[k]) for k in keep}
        elif c.r.random() < .3:
            l.newEpisode()
            l.reset()
    c.ev('batch ' + kind)
    if len([e for e in eps if e]) > 1:
        c.ev('episode boundary')
    if any(len(e) > 1 for e in eps):
        c.sig(kind, ns, na, a, g, lam, [len(e) for e in eps])


def k_online(c):
    """an agent that learns after every step"""
    ns, na = c.r.randint(2, 5), c.r.randint(2, 3)
    seed(c.seed)
    t, T = table(c, ns, na)
    kind = c.r.choice(['Q', 'SARSA'])
    a, g = c.r.choice([.5, .1, 1.]), c.r.choice([.99, .5, 0.])
    l = (Q if kind == 'Q' else SARSA)(a, g)
    l.batchMode = False
    l.explorer.epsilon = c.r.choice([.3, 1.])
    ag = LearningAgent(t, l)
    n = 0
    for ep in range(c.r.randint(1, 4)):
        ag.newEpisode()
        last = None
        for _ in range(c.r.choice([1, 2, 6, 10])):
            s, r = c.r.randrange(ns), c.r.gauss(0, 1)
            ag.integrateObservation(np.array([float(s)]))
            act = int(ag.getAction()[0])
            ag.giveReward(r)
            ag.learn()
            if last is not None:
                s0, a0, r0 = last
                nxt = T[s].max() if kind == 'Q' else T[s, act]
                T[s0, a0] += a * (r0 + g * nxt - T[s0, a0])
                n += 1
            last = (s, act, r)
            same(c, t, T, 'online ' + kind, '%s(%s, %s), not in batch mode' % (kind, a, g))
        if c.r.random() < .3:
            ag.reset()
    c.ev('online ' + kind)
    if n:
        c.sig(kind, ns, na, a, g, n)


def k_converge(c):
    """Q learning on a deterministic decision process reaches its optimal values"""
    ns, na, g = c.r.randint(2, 5), c.r.randint(2, 3), c.r.choice([.3, .6, .8])
    seed(c.seed)
    nxt = [[c.r.randrange(ns) for _ in range(na)] for _ in range(ns)]
    rew = [[c.r.gauss(0, 1) for _ in range(na)] for _ in range(ns)]
    V = np.zeros((ns, na))
    for _ in range(400):
        V = np.array([[rew[s][a] + g * V[nxt[s][a]].max() for a in range(na)] for s in range(ns)])
    ds = ReinforcementDataSet(1, 1)
    for s0 in range(ns):
        for a0 in range(na):
            ds.newSequence()
            s, a = s0, a0
            for _ in range(3):
                ds.addSample([s], [a], [rew[s][a]])
                s, a = nxt[s][a], c.r.randrange(na)
    t = ActionValueTable(ns, na)
    t.initialize(c.r.choice([0., 1.]))
    l = Q(c.r.choice([.5, 1.]), g)
    l.module, l.dataset = t, ds
    l.learnEpisodes(150)
    c.close(np.array(t.params).reshape(ns, na), V, 'converges', 1e-4, 'optimal values of a deterministic process, discount %s' % g)
    for s in range(ns):
        v = sorted(V[s])
        if v[-1] - v[-2] > 1e-3:
            c.eq(int(t.getMaxAction(s)), int(V[s].argmax()), 'optimal', 'greedy action of state %d' % s)
    c.ev('converges')
    c.sig(ns, na, g)


def k_nfq(c):
    ds_, na = c.r.randint(1, 3), c.r.randint(2, 3)
    seed(c.seed)
    m = ActionValueNetwork(ds_, na)
    net = m.network

    def val(s, a):
        net.reset()
        return float(net.activate(np.concatenate([s, [1. if i == a else 0. for i in range(na)]]))[0])
    for _ in range(4):
        s = rnd_vec(c, ds_)
        v = [val(s, a) for a in range(na)]
        c.close(np.array(m.getActionValues(s)).flatten(), v, 'network values', 1e-10, 'action values')
        c.eq(int(m.getMaxAction(s)), int(np.argmax(v)), 'network action', 'best action')
        c.eq(int(m.activate(s)[0]), int(np.argmax(v)), 'network action', 'activation')
        a = c.r.randrange(na)
        c.close(np.array(m.getValue(s, a)).flatten(), [v[a]], 'network value', 1e-10, 'value')
    c.ev('value network')
    ds = ReinforcementDataSet(ds_, 1)
    eps = []
    for _ in range(c.r.randint(2, 4)):
        ds.newSequence()
        ep = [(rnd_vec(c, ds_) * (c.r.random() < .8), c.r.randrange(na), c.r.gauss(0, 1) * (c.r.random() < .8)) for _ in range(c.r.choice([1, 4, 7]))]
        for s, a, r in ep:
            ds.addSample(s, [a], [r])
        eps.append(ep)
    if sum(len(e) - 1 for e in eps) < 4:
        return
    l = NFQ(c.r.choice([1, 2]))
    l.module, l.dataset = m, ds
    if c.r.random() < .5:
        l.gamma = c.r.choice([0., .5])
    want = []
    for ep in eps:
        for (s, a, r), (s2, _, _) in zip(ep, ep[1:]):
            q = val(s, a)
            want.append((list(s) + [1. if i == a else 0. for i in range(na)], [q + .5 * (r + l.gamma * max(val(s2, b) for b in range(na)) - q)]))
    seen = []
    orig = BackpropTrainer.trainUntilConvergence

    def spy(self, *args, **kw):
        d = kw.get('dataset') or (args[0] if args else None) or self.ds
        seen.append((self.module, [(list(x), list(y)) for x, y in d], kw.get('maxEpochs'), np.array(self.module.params)))
        return orig(self, *args, **kw)
    before = np.array(net.params)
    BackpropTrainer.trainUntilConvergence = spy
    try:
        l.learn()
    finally:
        BackpropTrainer.trainUntilConvergence = orig
    if c.eq(len(seen), 1, 'nfq', 'trainings of one learning step'):
        mod, got, epochs, p = seen[0]
        c.ok(mod is net, 'nfq', 'another network was trained')
        c.close(p, before, 'nfq', 0, 'the network was changed before the targets were complete')
        if c.eq(len(got), len(want), 'nfq targets', 'number of training patterns of %s' % [len(e) for e in eps]):
            c.close([x for x, _ in got], [x for x, _ in want], 'nfq targets', 1e-10, 'training inputs')
            c.close([y for _, y in got], [y for _, y in want], 'nfq targets', 1e-9, 'training targets')
            c.ev('nfq targets')
        c.eq(epochs, l.maxEpochs, 'nfq', 'epochs')
    c.ev('nfq')
    c.sig(ds_, na, [len(e) for e in eps], l.gamma)


def k_discrete(c):
    na, ns = c.r.randint(2, 4), c.r.randint(1, 4)
    seed(c.seed)
    t, T = table(c, ns, na)
    which = c.r.choice(['egreedy', 'boltzmann', 'discrete sde'])
    n = 600
    s = c.r.randrange(ns)
    obs = c.r.choice([np.array([s]), np.array([float(s)])])
    if which == 'egreedy':
        eps, dec = c.r.choice([0., .1, .5, 1.]), c.r.choice([1., 1., .5])
        e = EpsilonGreedyExplorer(eps, dec)
        e.module = t
        act = c.r.randrange(na)
        cur, p, got, var = eps, 0., 0, 0.
        for k in range(n):
            out = e.activate(obs, [act])
            c.ok(len(out) == 1 and out[0] == int(out[0]) and 0 <= out[0] < na, 'action', 'no action: %s' % out)
            if cur == 0:
                c.eq(int(out[0]), act, 'egreedy', 'explored with epsilon 0')
            q = 1 - cur + cur / na
            p, var, got = p + q, var + q * (1 - q), got + (out[0] == act)
            cur *= dec
            c.close(e.epsilon, cur, 'decay', 1e-9, 'epsilon after %d steps' % (k + 1))
        c.ok(abs(got - p) <= 6 * math.sqrt(var) + (3 if var else 1e-6), 'egreedy', 'epsilon %s decaying with %s: greedy %d times, expected %.1f' % (eps, dec, got, p))
        c.sig(which, na, eps, dec)
    elif which == 'boltzmann':
        tau, dec = c.r.choice([.5, 2., 10.]), c.r.choice([1., .999])
        e = BoltzmannExplorer(tau, dec)
        e.module = t
        cnt, exp, var, cur = np.zeros(na), np.zeros(na), np.zeros(na), tau
        mixed = c.r.random() < .5
        for k in range(n):
            if mixed:
                # the state of this very step counts
                s = c.r.randrange(ns)
                obs = np.array([float(s)])
            out = e.activate(obs, [0])
            cnt[int(out[0])] += 1
            w = np.exp((T[s] - T[s].max()) / cur)
            w = w / w.sum()
            exp, var = exp + w, var + w * (1 - w)
            cur *= dec
            c.close(e.tau, cur, 'decay', 1e-9, 'temperature after %d steps' % (k + 1))
        c.ok(all(abs(cnt - exp) <= 6 * np.sqrt(var) + 4), 'boltzmann', 'actions %s, expected %s for values %s' % (cnt, exp, T[s]))
        c.sig(which, na, tau, dec)
    else:
        e = DiscreteStateDependentExplorer()
        e.module = t
        for _ in range(3):
            e.newEpisode()
            took = {}
            for k in range(100):
                s = c.r.randrange(ns)
                out = int(e.activate([float(s)], [c.r.randrange(na)])[0])
                c.ok(0 <= out < na, 'action', 'no action: %s' % out)
                took.setdefault(s, []).append(out)
            # one step in a thousand is taken at random
            bad = sum(T[k, o] < T[k].max() - .15 for k, os_ in took.items() for o in os_)
            c.ok(bad <= 4, 'discrete sde', '%d of 100 actions are far from the best of the current values %s: %s' % (bad, T.tolist(), took))
            odd = sum(len(os_) - max(os_.count(a) for a in os_) for os_ in took.values())
            c.ok(odd <= 4, 'discrete sde', 'the action of a state changed %d of 100 times in an episode' % odd)
            same(c, t, T, 'discrete sde', 'the table of the agent was changed by the exploration')
            for k in range(ns):
                T[k] = rnd_vec(c, na)
                for a in range(na):
                    t.updateValue(k, a, T[k, a])
        c.sig(which, na, ns)
    c.ev(which)
    c.ev('decay')
    same(c, t, T, 'table', 'table after exploration')
    # explorers of a learner look at the values of its module, whichever is set first or later
    l, t1, t2 = c.r.choice([Q, SARSA])(), ActionValueTable(ns, na), ActionValueTable(ns, na)
    e1 = c.r.choice([EpsilonGreedyExplorer, BoltzmannExplorer, DiscreteStateDependentExplorer])()
    if c.r.random() < .5:
        e1.module = t1
    order = c.r.sample(['module', 'explorer', 'other module'], 3)
    for o in order:
        if o == 'explorer':
            l.explorer = e1
        else:
            l.module = t1 if o == 'module' else t2
    last = [o for o in order if o != 'explorer'][-1]
    want = t1 if last == 'module' else t2
    c.ok(l.explorer is e1 and l.module is want, 'connected', 'learner after setting %s' % order)
    c.ok(e1.module is want, 'connected', 'module of the explorer after setting %s' % order)
    c.ev('connected')


def lnpdf(a, mu, sd):
    return np.sum(-.5 * ((a - mu) / sd) ** 2 - np.log(sd))


def k_continuous(c):
    d = c.r.randint(1, 3)
    seed(c.seed)
    n = 400
    sig = [c.r.choice([-3., -.5, 0., .7, 2.]) for _ in range(d)]
    std = np.array([math.exp(x) if x < 0 else math.log(x + 1) + 1 for x in sig])
    c.close(expln(np.array(sig)), std, 'expln', 1e-12, 'expln')
    act = rnd_vec(c, d)
    if c.r.random() < .5:
        e = NormalExplorer(d)
        if c.r.random() < .3:
            sig = [sig[0]] * d
            std = np.array([std[0]] * d)
            e = NormalExplorer(d, sig[0])
        else:
            e.sigma = sig
        c.close(np.array(e.params), sig, 'sigma', 0, 'parameters of the explorer')
        c.close(np.array(e.sigma), sig, 'sigma', 0, 'sigma')
        x = np.array([e.activate(None, act) for _ in range(n)])
        c.ok(np.all(abs(x.mean(0) - act) < 5 * std / math.sqrt(n)), 'normal', 'mean %s, expected %s' % (x.mean(0), act))
        c.ok(np.all(abs(x.std(0) / std - 1) < 5 / math.sqrt(2 * n)), 'normal', 'deviations %s, expected %s' % (x.std(0), std))
        if d > 1:
            c.ok(np.all(abs(np.corrcoef(x.T) - np.eye(d)) < 5 / math.sqrt(n)), 'normal', 'correlated noise')
        # gradient of the log likelihood of the action last taken, scaled with the variance
        e.resetDerivatives()
        out = np.array(e.activate(None, act))
        err = np.array(e.backActivate(np.zeros(d)))
        h = 1e-6
        for j in range(d):
            def f(z):
                return -.5 * ((out[j] - act[j]) / z) ** 2 - math.log(z)
            sj = lambda v: math.exp(v) if v < 0 else math.log(v + 1) + 1
            side = [sig[j] + h, sig[j] - h] if sig[j] != 0 else [h, 0.]
            num = (f(sj(side[0])) - f(sj(side[1]))) / (side[0] - side[1])
            c.close(e.derivs[j], num * std[j] ** 2, 'normal gradient', 1e-4, 'derivative of sigma %s' % sig[j])
        c.close(err, out - act, 'normal gradient', 1e-9, 'error of the action')
        first = np.array(e.derivs)
        e.backActivate(np.zeros(d))
        c.close(np.array(e.derivs), 2 * first, 'normal gradient', 1e-9, 'derivatives accumulate')
        c.ev('normal')
        c.ev('normal gradient')
        c.sig('normal', d, tuple(sig))
        return
    sd = c.r.randint(1, 3)
    e = StateDependentExplorer(sd, d)
    e.sigma = sig
    mats = []
    for ep in range(n if c.r.random() < .3 else 3):
        e.newEpisode()
        s1 = np.eye(sd)
        M = np.array([e.activate(s, act) - act for s in s1])
        mats.append(M)
        if ep < 3:
            for _ in range(4):
                s, a = rnd_vec(c, sd), rnd_vec(c, d)
                c.close(e.activate(s, a), a + s.dot(M), 'sde', 1e-9, 'exploration is no fixed linear function of the state in the episode')
            s = rnd_vec(c, sd)
            e.resetDerivatives()
            out = np.array(e.activate(s, act))
            err = np.array(e.backActivate(np.zeros(d)))
            ss = math.sqrt(s.dot(s))
            for j in range(d):
                sj = lambda v: ss * (math.exp(v) if v < 0 else math.log(v + 1) + 1)

                def f(z):
                    return -.5 * ((out[j] - act[j]) / z) ** 2 - math.log(z)
                side = [sig[j] + 1e-6, sig[j] - 1e-6] if sig[j] != 0 else [1e-6, 0.]
                num = (f(sj(side[0])) - f(sj(side[1]))) / (side[0] - side[1])
                c.close(e.derivs[j], num * sj(sig[j]) ** 2, 'sde gradient', 1e-4, 'derivative of sigma %s in state %s' % (sig[j], s))
            c.close(err, out - act, 'sde gradient', 1e-9, 'error of the action')
            c.ev('sde gradient')
            c.ev('new episode')
    c.ok(not np.allclose(mats[0], mats[1]), 'sde', 'the same exploration in two episodes')
    if len(mats) == n:
        A = np.array(mats)
        for i in range(sd):
            c.ok(np.all(abs(A[:, i].mean(0)) < 5 * std / math.sqrt(n)), 'sde', 'mean of the exploration')
            c.ok(np.all(abs(A[:, i].std(0) / std - 1) < 5 / math.sqrt(2 * n)), 'sde', 'deviation %s, expected %s' % (A[:, i].std(0), std))
    c.ev('sde')
    c.sig('sde', d, sd, tuple(sig), len(mats))


KINDS = [('table', k_table, 60, 800), ('batch', k_batch, 200, 4000), ('online', k_online, 80, 1500), ('converge', k_converge, 10, 150),
         ('nfq', k_nfq, 12, 200), ('discrete', k_discrete, 40, 600), ('continuous', k_continuous, 60, 900)]
