"""P18: experiments, agents, histories, episodic tasks and their scaling."""
import numpy as np
from pybrain.rl.environments import Environment, Task, EpisodicTask
from pybrain.rl.environments.simple import SimpleEnvironment, MinimizeTask
from pybrain.rl.experiments import Experiment, EpisodicExperiment, ContinuousExperiment
from pybrain.rl.experiments.queued import QueuedExperiment
from pybrain.rl.agents import LearningAgent, OptimizationAgent
from pybrain.rl.agents.agent import Agent
from pybrain.rl.learners.learner import Learner, ExploringLearner, EpisodicLearner, DataSetLearner
from pybrain.structure.modules.module import Module
from pybrain.tools.shortcuts import buildNetwork
from pybrain.optimization import HillClimber, RandomSearch, CMAES, ES, StochasticHillClimber, SimpleSPSA
from pybrain.datasets.sequential import EmptySequenceError
from vp.core import rnd_vec
from vp.p12 import seed

RULE = ('a case runs one experiment (interactions, episodes, continuous learning, a queue or an optimization) over an environment that logs every '
        'call, or scales random sensors and actions; non-trivial when at least one interaction happened; distinct by kind, dimensions, episode lengths')
EXPECT = ['interaction', 'episode', 'empty episode', 'history', 'logging off', 'learning off', 'explored', 'no explorer', 'no learner', 'agent reset',
          'protocol', 'continuous', 'queue', 'queue learn', 'optimization', 'optimization again', 'task f module', 'task f agent', 'discount', 'batch',
          'normalize', 'denormalize', 'clipped', 'unclipped', 'unscaled component', 'simple', 'observed twice', 'minimize task', 'total reward',
          'custom task', 'idle episode']
ASSUMPTIONS = ['the discount of the k-th reward of an episode is discount**k, counting from one, as the code has it']


class Env(Environment):
    """Logs every call; its observations tell the step, the episode and nothing else."""

    def __init__(self, c, indim, outdim):
        self.c, self.indim, self.outdim = c, indim, outdim
        self.log, self.episode, self.step = [], 0, 0

    def getSensors(self):
        o = np.array([self.c.r.gauss(0, 1) for _ in range(self.outdim)])
        self.log.append(('sense', o.copy()))
        return o

    def performAction(self, action):
        self.step += 1
        self.log.append(('act', np.array(action, dtype=float)))

    def reset(self):
        self.episode += 1
        self.step = 0
        self.log.append(('reset',))


class T(Task):
    def getReward(self):
        r = self.env.c.r.gauss(0, 1)
        self.env.log.append(('reward', r))
        return r


class ET(EpisodicTask):
    """episode lengths as listed, then by chance; the reward is the one of the step, however often it is asked for"""
    def __init__(self, env, lengths):
        EpisodicTask.__init__(self, env)
        self.lengths, self.n, self.k, self.r, self.all = lengths, None, 0, 0., []

    def reset(self):
        EpisodicTask.reset(self)
        self.n = self.lengths[self.k % len(self.lengths)]
        self.k += 1
        self.all.append([])

    def isFinished(self):
        return self.env.step >= self.n

    def performAction(self, action):
        self.r = self.env.c.r.gauss(0, 1)
        self.all[-1].append(self.r)
        EpisodicTask.performAction(self, action)

    def getReward(self):
        self.env.log.append(('reward', self.r))
        return self.r


class Mod(Module):
    """logs what it is activated with"""
    def __init__(self, c, indim, outdim, log):
        Module.__init__(self, indim, outdim)
        self.W, self.log = np.array([rnd_vec(c, indim) for _ in range(outdim)]), log

    def _forwardImplementation(self, i, o):
        o[:] = self.W.dot(i)
        self.log.append(('module', np.array(i), np.array(o)))

    def reset(self):
        Module.reset(self)
        self.log.append(('module reset',))


class Expl(Module):
    def __init__(self, dim, log, c):
        Module.__init__(self, dim, dim)
        self.log, self.c = log, c

    def activate(self, state, action):
        a = np.array(action) + np.array([self.c.r.gauss(0, 1) for _ in range(len(action))])
        self.log.append(('explore', np.array(state), np.array(action), a.copy()))
        return a

    def newEpisode(self):
        self.log.append(('explorer episode',))


class Learn(DataSetLearner, ExploringLearner):
    def __init__(self, log):
        self.log, self.seen = log, []

    def learn(self):
        self.log.append(('learn',))
        self.seen.append([[tuple(np.concatenate([np.ravel(x) for x in s])) for s in seq] for seq in self.dataset])

    def reset(self):
        self.log.append(('learner reset',))


def parts(c, episodic, lengths=None, explorer=True, learner=True):
    i, o = c.r.randint(1, 3), c.r.randint(1, 3)
    env = Env(c, i, o)
    task = ET(env, lengths) if episodic else T(env)
    mod = Mod(c, o, i, env.log)
    l = None
    if learner:
        l = Learn(env.log)
        if explorer:
            l.explorer = Expl(i, env.log, c)
    return env, task, mod, l, LearningAgent(mod, l)


def triples(c, log, key, explorer, indim):
    """Check the order and the wiring of every interaction in the log; the samples [(obs, action, reward)]"""
    out, want = [], None
    j = 0
    while j < len(log):
        e = log[j]
        if e[0] == 'sense':
            c.must(len(log) > j + 1 and log[j + 1][0] == 'module', key, 'after sensing: %r' % (log[j:j + 3],))
            c.close(log[j + 1][1], e[1], key, 0, 'the module gets the observation')
            act = log[j + 1][2]
            j += 2
            if explorer:
                c.must(log[j][0] == 'explore', key, 'no exploration: %r' % (log[j],))
                c.close(log[j][1], e[1], key, 0, 'state given to the explorer')
                c.close(log[j][2], act, key, 0, 'action given to the explorer')
                act = log[j][3]
                j += 1
                c.ev('explored')
            c.must(log[j][0] == 'act', key, 'no action performed: %r' % (log[j],))
            c.close(log[j][1], act, key, 0, 'action performed')
            j += 1
            c.must(log[j][0] == 'reward', key, 'no reward asked for: %r' % (log[j],))
            r = log[j][1]
            while j < len(log) and log[j][0] == 'reward':
                j += 1
            out.append((e[1], act, r))
            c.ev('interaction')
        else:
            c.must(e[0] not in ('act', 'module', 'explore', 'reward'), key, 'unexpected %r' % (e,))
            j += 1
    return out


def hist(c, ds):
    return [[tuple(np.concatenate([np.ravel(x) for x in s])) for s in seq] for seq in ds] if len(ds) else []


def flat(samples):
    return [tuple(np.concatenate([np.ravel(x) for x in s])) for s in samples]


def k_steps(c):
    expl, learner = c.r.random() < .7, c.r.random() < .85
    expl = expl and learner
    env, task, mod, l, agent = parts(c, False, explorer=expl, learner=learner)
    if not learner:
        c.ev('no learner')
        c.eq(agent.learning, False, 'learning', 'an agent without a learner is not learning')
    elif not expl:
        c.ev('no explorer')
    if learner and c.r.random() < .3:
        agent.learning = False
        expl = False
        c.ev('learning off')
    continuous = c.r.random() < .4
    e = (ContinuousExperiment if continuous else Experiment)(task, agent)
    total = 0
    for _ in range(c.r.randint(1, 3)):
        n = c.r.randint(0, 6)
        total += n
        if continuous and c.r.random() < .7:
            c.ev('continuous')
            before = sum(1 for x in env.log if x[0] == 'learn')
            c.eq(e.doInteractionsAndLearn(n), total, 'count', 'interactions done')
            c.eq(sum(1 for x in env.log if x[0] == 'learn') - before, n if agent.learning else 0, 'learns', 'learning steps')
        else:
            c.eq(e.doInteractions(n), total, 'count', 'interactions done')
    s = triples(c, env.log, 'order', expl, env.indim)
    c.eq(len(s), total, 'count', 'interactions')
    c.eq(hist(c, agent.history), [flat(s)] if s else [], 'history', 'history')
    if l is not None:
        for k, seen in enumerate(l.seen):
            c.ok([x for q in seen for x in q] == flat(s)[:len([x for q in seen for x in q])], 'learns', 'what the learner saw')
    if total:
        c.ev('history')
        c.sig('steps', total, env.indim, env.outdim, continuous, expl)


def k_learn_now(c):
    """continuous learning: the k-th learning step sees exactly the first k interactions"""
    env, task, mod, l, agent = parts(c, False)
    e = ContinuousExperiment(task, agent)
    n = c.r.randint(1, 6)
    e.doInteractionsAndLearn(n)
    s = flat(triples(c, env.log, 'order', True, env.indim))
    c.eq([[x for q in seen for x in q] for seen in l.seen], [s[:k + 1] for k in range(n)], 'learns', 'data of each learning step')
    m = c.r.randint(0, 3)
    l.seen[:] = []
    agent.learn(m)
    c.eq(len(l.seen), m, 'learns', 'learning steps of learn(%d)' % m)
    c.ev('continuous')
    c.sig('now', n, m)


def k_episodes(c):
    lengths = [c.r.choice([1, 2, 3, 5, 9]) for _ in range(c.r.randint(1, 4))]
    expl = c.r.random() < .7
    env, task, mod, l, agent = parts(c, True, lengths, explorer=expl)
    if c.r.random() < .2:
        agent.learning, expl = False, False
        c.ev('learning off')
    e = EpisodicExperiment(task, agent)
    want, got = [], []
    for _ in range(c.r.randint(1, 3)):
        n = c.r.randint(1, 3)
        log = c.r.random() > .2
        agent.logging = log
        before, mark = len(task.all), len(env.log)
        res = e.doEpisodes(n)
        mine = task.all[before:]
        c.eq(len(mine), n, 'episodes', 'episodes started')
        c.eq([len(x) for x in mine], [lengths[(before + k) % len(lengths)] for k in range(n)], 'episodes', 'lengths')
        c.eq([list(map(float, x)) for x in res], mine, 'rewards', 'rewards returned')
        c.close(task.getTotalReward(), sum(mine[-1]), 'total', 1e-9, 'cumulated reward')
        c.eq(task.samples, len(mine[-1]), 'total', 'samples of the episode')
        c.eq(e.stepid, len(mine[-1]), 'count', 'steps of the last episode')
        part = env.log[mark:]
        s = triples(c, part, 'order', expl, env.indim)
        c.eq(len(s), sum(map(len, mine)), 'count', 'interactions')
        # the resets: module, explorer, environment once per episode, before its first interaction
        marks = [x[0] for x in part if x[0] in ('reset', 'module reset', 'explorer episode', 'sense')]
        c.eq(marks.count('reset'), n, 'resets', 'environment resets')
        c.eq(marks.count('module reset'), n, 'resets', 'module resets')
        c.eq(marks.count('explorer episode'), n if expl else 0, 'resets', 'episodes of the explorer')
        seg, segs = [], []
        for x in marks:
            if x == 'sense':
                seg.append(x)
            else:
                if seg:
                    segs.append(len(seg))
                    seg = []
        if seg:
            segs.append(len(seg))
        c.eq(segs, [len(x) for x in mine], 'resets', 'interactions between resets')
        off = 0
        for ep in mine:
            if log:
                want.append(flat(s)[off:off + len(ep)])
            off += len(ep)
        if not log:
            c.ev('logging off')
        c.ev('episode', n)
        # with logging off the next logged samples start a new episode too
        c.eq(hist(c, agent.history), want, 'history', 'history by episode')
        if c.r.random() < .2:
            agent.reset()
            want = []
            c.ev('agent reset')
            c.eq(len(agent.history), 0, 'agent reset', 'history after a reset')
            if agent.learning:
                c.eq(env.log[-1], ('learner reset',), 'agent reset', 'the learner is reset')
    c.ev('history')
    c.sig('episodes', tuple(lengths), env.indim, env.outdim, expl)


def k_protocol(c):
    """observation, action, reward: anything else is refused and recorded nowhere"""
    env, task, mod, l, agent = parts(c, False, explorer=False)
    if c.r.random() < .3:
        agent.learning = False
    resets = [0]
    old = mod.reset

    def counted():
        resets[0] += 1
        old()
    mod.reset = counted
    model, want, have = None, [], 0
    for _ in range(c.r.randint(3, 30)):
        op = c.r.choice(['obs', 'act', 'reward'] * 4 + ['episode'] * 3 + ['reset'])
        if op == 'obs':
            o = rnd_vec(c, env.outdim)
            agent.integrateObservation(o)
            model = [o]
        elif op == 'act':
            if model is not None and len(model) == 1:
                a = agent.getAction()
                c.close(a, mod.W.dot(model[0]), 'protocol', 1e-9, 'action')
                model.append(np.array(a))
            else:
                c.raises(AssertionError, agent.getAction, 'protocol', 'getAction out of order')
                c.ev('protocol')
        elif op == 'reward':
            r = c.r.gauss(0, 1)
            if model is not None and len(model) == 2:
                agent.giveReward(r)
                model.append(r)
                if not want:
                    want.append([])
                want[-1].append(tuple(np.concatenate([np.ravel(x) for x in model])))
            else:
                c.raises(AssertionError, lambda: agent.giveReward(r), 'protocol', 'giveReward out of order')
                c.ev('protocol')
        elif op == 'episode':
            if want and not want[-1]:
                # documented: empty sequences are not allowed
                c.raises(EmptySequenceError, agent.newEpisode, 'protocol', 'an empty episode')
                c.ev('empty episode')
            else:
                agent.newEpisode()
                if want:
                    want.append([])
        else:
            n = resets[0]
            agent.reset()
            model, want = None, []
            c.eq(resets[0] - n, 1, 'reset', 'resets of the module')
        c.eq([h for h in hist(c, agent.history) if h], [w for w in want if w], 'history', 'history after ' + op)
    c.sig('protocol', len(want), env.indim, env.outdim)


def k_queue(c):
    lengths = [c.r.randint(1, 4) for _ in range(c.r.randint(1, 5))]
    env, task, mod, l, agent = parts(c, True, lengths)
    if c.r.random() < .5:
        # something old in the agent
        EpisodicExperiment(task, agent).doEpisodes(c.r.randint(1, 2))
    start = len(task.all)
    mark = len(env.log)
    e = QueuedExperiment(task, agent)
    n, cycles = c.r.randint(1, 4), c.r.randint(0, 6)
    e.run(n, cycles)
    s = flat(triples(c, env.log[mark:], 'order', True, env.indim))
    eps, off = [], 0
    for ep in task.all[start:]:
        eps.append(s[off:off + len(ep)])
        off += len(ep)
    c.eq(len(eps), n + cycles, 'queue', 'episodes run')
    c.eq(len(l.seen), cycles, 'queue', 'learning steps')
    for k, seen in enumerate(l.seen):
        c.eq([q for q in seen if q], eps[k:k + n], 'queue', 'queue at learning step %d' % k)
        c.ev('queue learn')
    c.eq(hist(c, agent.history), eps[cycles:cycles + n], 'queue', 'queue at the end')
    c.ev('queue')
    c.sig('queue', n, cycles, tuple(lengths))


class Policy(ET):
    """the reward prefers small actions; counts the episodes"""
    def performAction(self, action):
        self.r = -float(np.sum(np.asarray(action) ** 2))
        self.all[-1].append(self.r)
        EpisodicTask.performAction(self, action)


def k_optimization(c):
    seed(c.seed)
    env = Env(c, c.r.randint(1, 2), c.r.randint(1, 2))
    task = Policy(env, [c.r.randint(1, 3)])
    net = buildNetwork(env.outdim, env.indim, bias=False)
    cls = c.r.choice([HillClimber, StochasticHillClimber, RandomSearch])
    l = cls(storeAllEvaluations=True)
    init = net.params.copy()
    e = EpisodicExperiment(task, OptimizationAgent(net, l))
    c.raises(Exception, lambda: e._oneInteraction(), 'single', 'single interactions of an optimization')
    start = len(task.all)
    for k in range(c.r.randint(1, 3)):
        n = c.r.randint(1, 12)
        before = len(task.all)
        e.doEpisodes(n)
        c.eq(len(task.all) - before, n, 'optimization', 'episodes of call %d with %s' % (k, cls.__name__))
        if k:
            c.ev('optimization again')
        c.ev('optimization')
    tot = [sum(x) for x in task.all]
    c.close(l.bestEvaluation, max(tot), 'optimization', 1e-9, 'best evaluation of %s' % cls.__name__)
    c.close([float(x) for x in l._allEvaluations[-(len(tot) - start):]], tot[start:], 'optimization', 1e-9, 'evaluations')
    c.sig('opt', cls.__name__, len(tot))


def k_taskf(c):
    lengths = [c.r.randint(1, 5) for _ in range(c.r.randint(1, 4))]
    # an episode may be over before it began; agents do not like those
    idle = c.r.random() < .3
    if idle:
        lengths[c.r.randrange(len(lengths))] = 0
        c.ev('idle episode')
    env, task, mod, l, agent = parts(c, True, lengths)
    task.batchSize = c.r.choice([1, 1, 2, 4])
    task.discount = c.r.choice([None, None, .5, .9, 1.])
    for _ in range(c.r.randint(1, 3)):
        before, mark = len(task.all), len(env.log)
        if idle or c.r.random() < .5:
            v = task.f(mod) if c.r.random() < .5 else task(mod)
            c.ev('task f module')
            part = env.log[mark:]
            c.eq(sum(1 for x in part if x[0] == 'module reset'), task.batchSize, 'resets', 'module resets')
        else:
            v = task(agent)
            c.ev('task f agent')
        mine = task.all[before:]
        c.eq(len(mine), task.batchSize, 'batch', 'episodes of an evaluation')
        if task.batchSize > 1:
            c.ev('batch')
        d = task.discount or 1.
        if task.discount:
            c.ev('discount')
        tot = [sum(r * d ** (k + 1 if task.discount else 1) for k, r in enumerate(ep)) for ep in mine]
        c.close(v, sum(tot) / len(tot), 'fitness', 1e-9, 'fitness (discount %s)' % task.discount)
        c.close(task.getTotalReward(), tot[-1], 'total', 1e-9, 'total of the last episode')
        c.ev('total reward')
        c.eq([len(m) for m in mine], [lengths[(before + k) % len(lengths)] for k in range(len(mine))], 'episodes', 'lengths')
    c.raises(ValueError, lambda: task.f([1., 2.]), 'fitness', 'fitness of a list')
    c.sig('f', tuple(lengths), task.batchSize, task.discount)


def k_scaling(c):
    class E(Environment):
        def getSensors(self):
            return self.s

        def performAction(self, a):
            self.a = a
    env = E()
    env.indim, env.outdim = c.r.randint(1, 4), c.r.randint(1, 4)
    t = c.r.choice([Task, EpisodicTask])(env)
    if isinstance(t, EpisodicTask):
        t.getReward = lambda: 0.
        c.ev('custom task')
    c.eq((t.indim, t.outdim), (env.indim, env.outdim), 'dims', 'dimensions')

    def limits(n):
        out = []
        for _ in range(n):
            lo = c.r.choice([-1., 0., -3.14, c.r.gauss(0, 5), 2])
            out.append((lo, lo + c.r.choice([1., 2, .001, abs(c.r.gauss(0, 3)) + .1])))
        for k in range(n):
            if c.r.random() < .15:
                out[k] = None
                c.ev('unscaled component')
        return out
    sl = limits(env.outdim) if c.r.random() < .8 else None
    al = limits(env.indim) if c.r.random() < .8 else None
    t.setScaling(sl, al)
    t.clipping = c.r.random() < .6
    for _ in range(6):
        s = np.array([c.r.gauss(0, 2) if not sl or not sl[k] else c.r.choice([sl[k][0], sl[k][1], sl[k][0] + (sl[k][1] - sl[k][0]) * c.r.uniform(-.5, 1.5)])
                      for k in range(env.outdim)], dtype=float)
        a = np.array([c.r.choice([-1., 1., 0., c.r.uniform(-1.8, 1.8)]) for _ in range(env.indim)])
        env.s, keep, akeep = s, s.copy(), a.copy()
        o = t.getObservation()
        t.performAction(a)
        c.close(s, keep, 'input kept', 0, 'sensors after scaling')
        c.close(a, akeep, 'input kept', 0, 'action after scaling')
        want = s.copy()
        for k in range(env.outdim):
            if sl and sl[k]:
                w = 2 * (s[k] - sl[k][0]) / (sl[k][1] - sl[k][0]) - 1
                c.ev('normalize')
                if abs(w) > 1 + 1e-9:
                    c.ev('clipped' if t.clipping else 'unclipped')
                    if t.clipping:
                        w = np.sign(w)
                want[k] = w
        c.close(o, want, 'normalize', 1e-7, 'observation, clipping %s, limits %s' % (t.clipping, sl))
        aw = a.copy()
        for k in range(env.indim):
            if al and al[k]:
                lo, hi = al[k]
                x = min(max(a[k], -1), 1) if t.clipping else a[k]
                aw[k] = (lo + hi) / 2. + x * (hi - lo) / 2.
                c.ev('denormalize')
        c.close(np.array(env.a, dtype=float), aw, 'denormalize', 1e-7, 'action, clipping %s, limits %s' % (t.clipping, al))
        if t.clipping and al:
            for k, l in enumerate(al):
                if l:
                    c.ok(l[0] <= env.a[k] <= l[1], 'denormalize', 'action outside its limits')
    # inverses of each other
    if sl:
        t.setScaling(sl, sl)
        t.clipping = False
        s = rnd_vec(c, env.outdim, 3.)
        c.close(np.array(t.denormalize(t.normalize(s)), dtype=float), s, 'inverse', 1e-6, 'denormalize after normalize')
    c.sig('scaling', env.indim, env.outdim, t.clipping, str(sl), str(al))


def k_simple(c):
    seed(c.seed)
    d = c.r.randint(1, 3)
    env = SimpleEnvironment(d)
    state = np.array([2.] * d)
    c.close(env.getSensors(), state, 'simple', 1e-12, 'initial state')
    for _ in range(c.r.randint(1, 6)):
        if c.r.random() < .2:
            env.reset()
            state = np.array([2.] * d)
        else:
            a = rnd_vec(c, d)
            env.performAction(a)
            state = state + .1 * a
        for _ in range(c.r.choice([1, 1, 2, 3])):
            c.close(env.getSensors(), state, 'simple', 1e-9, 'state after the action, however often it is observed')
            c.ev('observed twice')
    c.ev('simple')
    # the task: fifteen steps, the negative sum of squares of the state after the action
    env = SimpleEnvironment(d)
    t = MinimizeTask(env)
    mod = Mod(c, d, d, [])
    W = mod.W * .2
    mod.W = W
    for _ in range(2):
        v = t.f(mod)
        s, tot = np.array([2.] * d), 0.
        for _ in range(15):
            s = s + .1 * W.dot(s)
            tot -= float(np.sum(s ** 2))
        c.close(v, tot, 'minimize task', 1e-9, 'fitness of a linear policy')
        c.eq(t.samples, 15, 'minimize task', 'steps')
        c.ev('minimize task')
    c.sig('simple', d, repr(W))


KINDS = [('steps', k_steps, 60, 1500), ('learn now', k_learn_now, 25, 500), ('episodes', k_episodes, 80, 2500),
         ('protocol', k_protocol, 60, 1500), ('queue', k_queue, 50, 1500), ('optimization', k_optimization, 40, 600),
         ('task f', k_taskf, 60, 1500), ('scaling', k_scaling, 80, 2500), ('simple', k_simple, 25, 400)]
