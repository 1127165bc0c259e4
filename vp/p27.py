"""P27: control environments - cart poles, the ship, the flexible cube and their tasks."""
import math, random
import numpy as np
from pybrain.rl.environments.cartpole import (CartPoleEnvironment, CartPoleLinEnvironment, DoublePoleEnvironment, NonMarkovPoleEnvironment, NonMarkovDoublePoleEnvironment,
                                              BalanceTask, EasyBalanceTask, JustBalanceTask, DiscreteBalanceTask, DiscreteNoHelpTask, DiscretePOMDPTask, LinearizedBalanceTask)
from pybrain.rl.environments.cartpole.balancetask import DiscreteBalanceTaskRBF, DiscreteDoubleBalanceTaskRBF
from pybrain.rl.environments.shipsteer import ShipSteeringEnvironment
from pybrain.rl.environments.shipsteer.northwardtask import GoNorthwardTask
from pybrain.rl.environments.flexcube.environment import FlexCubeEnvironment
from pybrain.rl.environments.flexcube import tasks as ftasks, sensors as fsensors
from pybrain.rl.experiments import EpisodicExperiment
from pybrain.rl.agents.agent import Agent
from vp.core import rnd_vec
from vp.p12 import seed

RULE = ('a case drives one environment or task with random, extreme or no actions for up to some hundred steps, over several episodes; non-trivial with at least two steps; '
        'distinct by class, parameters and lengths')
TASKS = [BalanceTask, EasyBalanceTask, JustBalanceTask, DiscreteBalanceTask, DiscreteNoHelpTask, DiscretePOMDPTask, DiscreteBalanceTaskRBF, DiscreteDoubleBalanceTaskRBF,
         LinearizedBalanceTask]
FTASKS = ['NoRewardTask', 'GrowTask', 'WalkTask', 'RollingUpTask', 'WalkDirectionTask', 'TargetTask', 'JumpTask']
EXPECT = (['energy', 'work', 'momentum', 'swung through', 'fixed start', 'pole length', 'linearized', 'double', 'without velocities', 'time over', 'fell', 'left the track', 'northward reward',
           'ship', 'ship clipped', 'heading wrapped', 'northward', 'cube', 'floor', 'free fall', 'cube at rest', 'clipped edges', 'sensors', 'reset', 'cube pain', 'more actions', 'limit changed'] +
          ['task ' + t.__name__ for t in TASKS] + ['cube ' + t for t in FTASKS])
ASSUMPTIONS = ['Runge-Kutta steps are judged by an own integration and by conserved quantities', 'the poles of a double pole move on carts of their own, as the code has it',
               'rewards of the cube belong to the observation before the action', 'noise is judged within five standard deviations under fixed seeds']


def deriv(x, F, l, mp, mc, g=9.81):
    th, w, s, v = x
    # mass matrix of cart and uniform rod of half length l
    M = np.array([[mc + mp, mp * l * math.cos(th)], [mp * l * math.cos(th), 4. / 3 * mp * l * l]])
    f = np.array([F + mp * l * w * w * math.sin(th), mp * g * l * math.sin(th)])
    a = np.linalg.solve(M, f)
    return np.array([w, a[1], v, a[0]])


def step(x, F, l, mp, mc, dt):
    k1 = deriv(x, F, l, mp, mc)
    k2 = deriv(x + dt / 2 * k1, F, l, mp, mc)
    k3 = deriv(x + dt / 2 * k2, F, l, mp, mc)
    k4 = deriv(x + dt * k3, F, l, mp, mc)
    return x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)


def energy(x, l, mp, mc, g=9.81):
    th, w, s, v = x
    return .5 * (mc + mp) * v * v + mp * l * v * w * math.cos(th) + 2. / 3 * mp * l * l * w * w + mp * g * l * math.cos(th)


def pole(c):
    L = None
    if c.r.random() < .4:
        L = c.r.choice([.1, .25, 1.])
        c.ev('pole length')
    e = CartPoleEnvironment(L)
    L = .5 if L is None else L
    c.eq(e.l, L, 'pole length')
    return e, L


def k_pole(c):
    seed(c.seed)
    e, l = pole(c)
    if c.r.random() < .3:
        e.mc, e.mp = c.r.uniform(.5, 2), c.r.uniform(.02, .4)
    if c.r.random() < .3:
        e.randomInitialization = False
        e.reset()
        c.close(e.getSensors(), [-.2, 0, .2, 0], 'fixed start', 1e-12)
        c.ev('fixed start')
    mp, mc, dt = e.mp, e.mc, e.dt
    mode = c.r.choice(['free', 'constant', 'random'])
    n = c.r.randint(20, 150)
    x = np.array(e.getSensors(), dtype=float)
    c.ok(abs(x[0]) <= .2 and abs(x[2]) <= .5 and x[1] == 0 == x[3], 'start', lambda: str(x))
    F0 = c.r.uniform(-10, 10)
    what = '%s force, length %s, masses %.3g and %.3g' % (mode, l, mc, mp)
    E0 = E = energy(x, l, mp, mc)
    W = 0
    for i in range(n):
        F = {'free': 0., 'constant': F0, 'random': c.r.uniform(-10, 10)}[mode]
        e.performAction(c.r.choice([F, np.array([F]), [F]]))
        y = np.array(e.getSensors(), dtype=float)
        if not c.close(y, step(x, F, l, mp, mc, dt), 'motion', 1e-7, '%s, step %d' % (what, i)):
            return
        W += F * (y[2] - x[2])
        c.close([e.getCartPosition()] + list(e.getPoleAngles()), [y[2], y[0]], 'auxiliary access', 0)
        # the work of the force is the change of energy
        if np.abs(y).max() < 6:
            d = energy(y, l, mp, mc) - E0 - W
            # of a pole this light or short the steps are too wide
            c.ok(abs(d) < 2e-3 * (1 + abs(W) + abs(E0)) * (i + 1) if l >= .5 else True, 'energy', lambda: '%s: energy %g, work %g, at the start %g' % (what, energy(y, l, mp, mc), W, E0))
            c.ev('work' if F else 'energy')
        if abs(y[0]) > math.pi / 2:
            c.ev('swung through')
        # total momentum changes by the force
        P = lambda z: (mc + mp) * z[3] + mp * l * z[1] * math.cos(z[0])
        if np.abs(y).max() < 6 and l >= .5:
            c.ok(abs(P(y) - P(x) - F * dt) < 1e-3, 'momentum', lambda: '%s: %g to %g by %g' % (what, P(x), P(y), F * dt))
            c.ev('momentum')
        x = y
    e.reset()
    z = np.array(e.getSensors(), dtype=float)
    c.ok(z[1] == 0 == z[3] and abs(z[0]) <= .2 and abs(z[2]) <= .5, 'reset', lambda: str(z))
    c.ev('reset')
    c.sig(mode, l, round(mc, 3), n)
    c.sample(what)


def k_double(c):
    seed(c.seed)
    hidden = c.r.random() < .4
    e = (NonMarkovDoublePoleEnvironment if hidden else DoublePoleEnvironment)()
    for _ in range(2):
        e.reset()
        d = DoublePoleEnvironment.getSensors(e)
        c.close(e.p1.getSensors()[2:], e.p2.getSensors()[2:], 'double: carts apart at the start', 0)
        X = [np.array(p.getSensors(), dtype=float) for p in (e.p1, e.p2)]
        for i in range(c.r.randint(2, 40)):
            F = c.r.uniform(-10, 10)
            e.performAction([F])
            X = [step(x, F, p.l, p.mp, p.mc, p.dt) for x, p in zip(X, (e.p1, e.p2))]
            want = np.array([X[0][0], X[0][1], X[1][0], X[1][1], X[1][2], X[1][3]])
            got = e.getSensors()
            if np.abs(want).max() > 100:
                break
            c.close(got, want[[0, 2, 4]] if hidden else want, 'double: motion', 1e-6, 'step %d' % i)
            c.close(list(e.getPoleAngles()) + [e.getCartPosition()], want[[0, 2, 4]], 'double: auxiliary access', 1e-6)
            if c.violations:
                return
        c.eq(len(e.getSensors()), e.outdim, 'double: number of sensors')
    c.eq((e.p1.l, e.p1.mp, e.p2.l, e.p2.mp), (.5, .1, .05, .01), 'double: poles')
    c.ev('double')
    if hidden:
        c.ev('without velocities')
    m = NonMarkovPoleEnvironment()
    x = np.array(CartPoleEnvironment.getSensors(m), dtype=float)
    for i in range(5):
        F = c.r.uniform(-10, 10)
        m.performAction([F])
        x = step(x, F, m.l, m.mp, m.mc, m.dt)
        c.close(m.getSensors(), x[[0, 2]], 'without velocities', 1e-7)
    c.eq(m.outdim, 2, 'without velocities: dimensions')
    c.sig(hidden)


def k_linear(c):
    seed(c.seed)
    e = CartPoleLinEnvironment()
    nu, tau = 13.2, 1. / 60
    Z = []
    for ep in range(12):
        e.reset()
        x = np.array(e.getSensors())
        Z.append(x / .1)
        if ep == 0:
            res = []
        for i in range(40):
            F = c.r.uniform(-5, 5)
            e.performAction([F])
            y = np.array(e.getSensors())
            c.eq(y.shape, (4,), 'linearized: shape')
            want = [x[0] + tau * x[1], x[1] + nu * tau * x[0] + nu * tau / 9.80665 * F, x[2] + tau * x[3], x[3] + tau * F]
            res.append((y - want) / .001)
            c.close([e.getCartPosition()] + list(e.getPoleAngles()), [y[2], y[0]], 'linearized: auxiliary access', 0)
            x = y
    for name, A in (('noise', np.array(res)), ('start', np.array(Z))):
        n = len(A)
        c.ok(np.abs(A.mean(0)).max() < 5 / math.sqrt(n) and np.abs(A.var(0) - 1).max() < 5 * math.sqrt(2. / n) + (.6 if name == 'start' else 0) and np.abs(A).max() < 7,
             'linearized: ' + name, lambda: '%s: means %s, variances %s' % (name, A.mean(0), A.var(0)))
    c.ev('linearized')
    c.sig(c.seed % 1000)


def bal_reward(T, ang, s, N, t):
    lo, hi, s = min(map(abs, ang)), max(map(abs, ang)), abs(s)
    bad = hi > .7 or s > 2.4
    if T in (BalanceTask, EasyBalanceTask):
        return 0 if lo < .05 and s < .05 else -2 * (N - t) if bad else -1 if T is BalanceTask else -s / 2.
    if T is JustBalanceTask:
        return 0 if lo < .05 else -2 * (N - t) if bad else -1
    if T in (DiscreteBalanceTask, DiscretePOMDPTask):
        return 1 if lo < .05 else -(N - t) if bad else 0
    if T is DiscreteNoHelpTask:
        return -(N - t) if bad else 0
    return -1 if hi > 1.6 else 0


def k_task(c):
    seed(c.seed)
    T = TASKS[c.idx % len(TASKS)]
    N = c.r.choice([5, 30, 100])
    env = None
    if T is LinearizedBalanceTask:
        env = CartPoleLinEnvironment()
    elif T in (BalanceTask, EasyBalanceTask, JustBalanceTask) and c.r.random() < .6:
        env = c.r.choice([NonMarkovPoleEnvironment, DoublePoleEnvironment, NonMarkovDoublePoleEnvironment])()
    discrete = T.__name__.startswith('Discrete')
    t = T(env, N)
    if env is not None:
        c.ok(t.env is env, 'task: other environment')
    env = t.env
    if c.r.random() < .3:
        N = c.r.choice([3, 50])
        t.setMaxLength(N)
    what = '%s of %s, %d steps' % (T.__name__, type(env).__name__, N)
    mode = c.r.choice(['random', 'left', 'right', 'still', 'balance'])
    na = 3
    if T in (DiscreteBalanceTask, DiscreteNoHelpTask, DiscretePOMDPTask) and c.r.random() < .4:
        na = t.numActions = c.r.choice([5, 7])
        c.ev('more actions')
    for ep in range(c.r.randint(1, 3)):
        t.reset()
        change = c.r.randint(0, 6) if c.r.random() < .3 else None
        if mode == 'balance' and hasattr(env, 'sensors') and type(env) is CartPoleEnvironment:
            env.sensors = (c.r.uniform(-.06, .06), 0., c.r.choice([0., .04, 1.]), 0.)
        elif type(env) is CartPoleEnvironment and c.r.random() < .3:
            env.sensors = (0., 0., c.r.choice([-2.3, 2.3, 1.45]), c.r.uniform(-4, 4))
        total, i = 0., 0
        while True:
            if i == change:
                # the limit holds from now on
                N = c.r.choice([max(i - 1, 0), i, i + 1, i + 20])
                t.setMaxLength(N)
                c.ev('limit changed')
            ang, s = list(env.getPoleAngles()), env.getCartPosition()
            rbf = T in (DiscreteBalanceTaskRBF, DiscreteDoubleBalanceTaskRBF)
            fell = max(map(abs, ang)) > (1.6 if rbf else .5235988 if T is LinearizedBalanceTask else .7)
            out = not rbf and abs(s) > (1.5 if T is LinearizedBalanceTask else 2.4)
            done = fell or out or i >= N
            if not c.eq(bool(t.isFinished()), done, 'task: finished', '%s: step %d, angles %s, position %s' % (what, i, ang, s)):
                return
            if done:
                c.ev('fell' if fell else 'left the track' if out else 'time over')
                break
            o = np.asarray(t.getObservation(), dtype=float)
            c.eq(o.shape, (t.outdim,), 'task: size of the observation', what)
            S = np.asarray(env.getSensors(), dtype=float)
            if rbf:
                g = np.array([-math.pi / 4, 0, math.pi / 4])
                ax = [g, np.array([1, 0, -1])] * len(ang)
                grid = np.array(np.meshgrid(*ax, indexing='ij')).reshape(len(ax), -1).T
                want = np.r_[1, np.exp(-((grid - S[:-2]) ** 2).sum(1) / 2)]
            elif T is DiscretePOMDPTask:
                want = S[[0, 2]]
            elif discrete:
                want = S
            else:
                want = []
                for k, x in enumerate(S):
                    if k == 0:
                        want.append(np.clip(x / 3, -1, 1))
                    elif isinstance(env, NonMarkovPoleEnvironment) and k % 2 == 0:
                        want.append(x)
                    else:
                        want.append(np.clip(x / math.pi, -1, 1))
            c.close(o, want, 'task: observation', 1e-9, what)
            if discrete:
                m = (na - 1) // 2
                a = {'random': c.r.randrange(na), 'left': 0, 'right': na - 1, 'still': m}.get(mode, m)
                F = float(np.clip(a - m, -1, 1)) * 50.
            else:
                a = {'random': c.r.uniform(-1.5, 1.5), 'left': -1., 'right': 1., 'still': 0.}.get(mode, 0.)
                F = float(np.clip(a, -1, 1)) * 50
            X = None if type(env) not in (CartPoleEnvironment, NonMarkovPoleEnvironment) else np.array(CartPoleEnvironment.getSensors(env), dtype=float)
            t.performAction(np.array([a]))
            i += 1
            if X is not None:
                c.close(CartPoleEnvironment.getSensors(env), step(X, F, env.l, env.mp, env.mc, env.dt), 'task: action', 1e-6, '%s: %s' % (what, a))
            r = t.getReward()
            if T is LinearizedBalanceTask:
                x = np.asarray(env.getSensors())
                want = (x ** 2).dot([12., .25, 1.25, 1.]) + F ** 2 * .01
            else:
                want = bal_reward(T, env.getPoleAngles(), env.getCartPosition(), N, i)
            if not c.close(r, want, 'task: reward', 1e-9, '%s: step %d, angles %s, position %s' % (what, i, env.getPoleAngles(), env.getCartPosition())):
                return
            total += want
            c.close(t.getTotalReward(), total, 'task: total reward', 1e-7, what)
    c.ev('task ' + T.__name__)
    c.sig(T.__name__, type(env).__name__, N, mode)
    c.sample(what)


def k_ship(c):
    seed(c.seed)
    e = ShipSteeringEnvironment(render=False)
    n0, n2 = [], []
    c.eq((e.indim, e.outdim), (2, 3), 'ship: dimensions')
    mode = c.r.choice(['random', 'full', 'circle', 'extreme'])
    for ep in range(3):
        e.reset()
        h, w, v = e.getSensors()
        c.ok(abs(h) <= 30 and w == 0 == v, 'ship: start')
        if ep:
            h, w, v = e.sensors = [c.r.uniform(-179, 179), c.r.choice([0., c.r.uniform(-30, 30), -179.9, 179.9]), c.r.choice([0., -9.99, 39.99, 39.99, c.r.uniform(-10, 40)])]
        for i in range(c.r.randint(20, 120)):
            th, ru = {'random': (c.r.uniform(-1, 2), c.r.uniform(-90, 90)), 'full': (2., 0.), 'circle': (2., 90.), 'extreme': (c.r.choice([-50, 50]), c.r.choice([-500, 500]))}[mode]
            e.performAction(np.array([th, ru]))
            th, ru = min(max(th, -1), 2), min(max(ru, -90), 90)
            H, W, V = e.getSensors()
            c.ok(-180 <= H <= 180 and -180 <= W <= 180 and -10 <= V <= 40, 'ship: out of bounds', lambda: '%s %s %s' % (H, W, V))
            dv = 4. / 1000 * (30 * th - 2 * v - .02 * v * (5 * h + ru ** 2))
            sd = 4. / 1000 * math.hypot(3, .02 * v)
            if -10 < V < 40:
                n0.append((V - v - dv) / sd)
            else:
                c.ev('ship clipped')
            if abs(W) < 180 and abs(V) > 1e-3:
                n2.append(((W - w) * 1000 / -V - (ru + h + w)) / 10)
            turn = h + (w + W) / 2
            d = (H - turn) / 360
            c.ok(abs(d - round(d)) < 1e-9 and abs(round(d)) <= 1, 'ship: heading', lambda: '%s to %s at %s, %s' % (h, H, w, W))
            if round(d):
                c.ev('heading wrapped')
            c.eq((e.getHeading(), e.getSpeed()), (H, V), 'ship: auxiliary access')
            h, w, v = H, W, V
    for name, A in (('speed', n0), ('turning', n2)):
        A = np.array(A)
        if len(A) > 30:
            c.ok(abs(A.mean()) < 5 / math.sqrt(len(A)) and abs(A.var() - 1) < 5 * math.sqrt(2. / len(A)) and np.abs(A).max() < 7, 'ship: ' + name,
                 lambda: '%s: residuals of mean %g and variance %g in %d steps' % (mode, A.mean(), A.var(), len(A)))
    c.ev('ship')
    c.sig(mode, len(n0))


def k_north(c):
    seed(c.seed)
    N = c.r.choice([5, 40, 200])
    t = GoNorthwardTask(maxsteps=N)
    if c.r.random() < .3:
        t = GoNorthwardTask(ShipSteeringEnvironment(render=False), N)
    total = 0
    t.reset()
    for i in range(N):
        c.ok(not t.isFinished(), 'north: finished early')
        o = t.getObservation()
        if i % 20 == 0:
            t.env.sensors = [c.r.uniform(-10, 10), c.r.uniform(-3, 3), c.r.uniform(-5, 35)]
            o = t.getObservation()
        h, w, v = t.env.getSensors()
        c.close(o, [h / 180., w / 180., (v + 10) / 25. - 1], 'north: observation', 1e-9)
        a = np.array([c.r.choice([1., c.r.uniform(-2, 2)]), -h / 90.])
        t.performAction(a)
        c.close(t.env.action, [np.clip(a[0], -1, 1) * 1.5 + .5, np.clip(a[1], -1, 1) * 90], 'north: action', 1e-9)
        r = t.env.getSpeed() * 100. / N / 40 if abs(t.env.getHeading()) < 5 else 0
        if r:
            c.ev('northward reward')
        c.close(t.getReward(), r, 'north: reward', 1e-9)
        total += r
        c.close(t.getTotalReward(), total, 'north: total', 1e-7)
    c.ok(t.isFinished(), 'north: not finished')
    t.setMaxLength(N + 1)
    c.ok(not t.isFinished(), 'north: length')
    t.reset()
    c.ok(not t.isFinished() and t.getTotalReward() == 0, 'north: reset')
    t.setMaxLength(2)
    for i in range(2):
        c.ok(not t.isFinished(), 'north: reset', 'finished %d steps after the reset' % i)
        t.performAction(np.zeros(2))
    c.ok(t.isFinished(), 'north: length')
    c.ev('northward')
    c.sig(N)


EDGES = [(i, j) for i in range(8) for j in range(i + 1, 8) if bin(i ^ j).count('1') == 1]
CORNERS = np.array([[i, j, k] for i in range(2) for j in range(2) for k in range(2)], dtype=float)


class Cube:
    """eight unit masses, each connected to each by a spring"""

    def __init__(self, height=10.):
        self.height = height
        self.reset()

    def reset(self):
        self.p = CORNERS * 20 - 10 + [0, self.height, 0]
        self.v = np.zeros((8, 3))
        self.L = np.sqrt(((CORNERS[:, None] - CORNERS[None]) ** 2).sum(2)) * 20
        self.n = 0
        self.a = np.ones(12) * 20

    def dist(self):
        return np.sqrt(((self.p[:, None] - self.p[None]) ** 2).sum(2))

    def edges(self):
        D = self.dist()
        return np.array([D[i, j] for i, j in EDGES])

    def step(self, a):
        a = np.clip(a, 14., 26.)
        self.a = a
        for (i, j), x in zip(EDGES, a):
            self.L[i, j] = self.L[j, i] = x
        D = self.dist()
        dt = .02
        U = (self.p[:, None] - self.p[None]) / (D + 1e-10)[:, :, None]
        self.v = self.v + (U * ((self.L - D) * 60. * dt)[:, :, None]).sum(1)
        self.v = self.v + np.array([0, -100., 0]) * dt
        self.v = self.v * (1 - .4 * dt)
        self.p = self.p + dt * self.v
        low = self.p[:, 1] < 0
        self.p[low, 1] = 0
        self.v[low] = self.v[low] * [0, -1, 0]
        self.n += 1
        return low.any()

    def center(self):
        return self.p.mean(0)

    def sense(self, name, target=(-80., 0, 0)):
        if name == 'EdgesReal':
            return self.edges() / 30
        if name == 'EdgesSumReal':
            return [self.edges().sum() - 240]
        if name == 'EdgesTarget':
            return self.a / 30
        if name == 'VerticesContact':
            return np.clip(1 - self.p[:, 1], 0, 1)
        if name == 'VerticesMinHight':
            return [self.p[:, 1].min()]
        if name == 'Time':
            return [math.sin(self.n / x) for x in (4., 8., 16.)]
        g = self.center() * [1, 0, 1]
        if name == 'DistToOrigin':
            return [np.linalg.norm(g) * .00125]
        t = np.asarray(target) - g
        out = [np.linalg.norm(t) * .00625]
        for i in (0, 1, 4, 5):
            d = self.p[i] - g
            m = np.linalg.norm(d) * np.linalg.norm(t)
            cos, sin = (d[0] * t[0] + d[2] * t[2]) / m, (d[0] * t[2] - d[2] * t[0]) / m
            # straight to the side, or straight backwards, the side taken is a matter of rounding
            out.append(float('nan') if abs(cos) < 1e-6 or cos < 0 and abs(sin) < 1e-6 else sin if cos >= 0 else 1. if sin > 0 else -1.)
        return out


def settle(want, got):
    """values that may be taken either way are what they were taken for, if that is one of the ways"""
    got = np.asarray(got, dtype=float)
    if got.shape != want.shape:
        return want
    return np.where(np.isnan(want) & (np.abs(got) <= 1 + 1e-9), got, want)


ALL = ['EdgesReal', 'EdgesSumReal', 'EdgesTarget', 'VerticesContact', 'VerticesMinHight', 'DistToOrigin', 'Target', 'Time']


def k_cube(c):
    seed(c.seed)
    e = FlexCubeEnvironment(render=False)
    names = [n for n in ALL if c.r.random() < .6]
    c.r.shuffle(names)
    if names:
        e.mySensors = fsensors.Sensors(names)
    else:
        names = ['EdgesReal']
    q = Cube(c.r.choice([10., 10., 100., 0.]))
    e.startHight = q.height
    mode = c.r.choice(['still', 'random', 'extreme', 'pulse'])
    c.close([e.minAkt, e.maxAkt], [14., 26.], 'cube: limits', 1e-9)
    for ep in range(2):
        e.reset()
        q.reset()
        fell = True
        for i in range(c.r.randint(5, 60)):
            c.close(e.pos, q.p, 'cube: positions', 1e-6, '%s, step %d' % (mode, i))
            c.close(e.centerOfGrav.ravel(), q.center(), 'cube: center of gravity', 1e-6)
            S = e.getSensors()
            if not c.eq([s[0] for s in S], names, 'cube: sensors'):
                return
            for s in S:
                w = np.asarray(q.sense(s[0]), dtype=float)
                c.eq((s[1], len(s[2])), (len(w), len(w)), 'cube: size of sensor ' + s[0])
                w = settle(w, s[2])
                c.close(s[2], w, 'cube: sensor ' + s[0], 1e-6, '%s, step %d of episode %d' % (mode, i, ep))
            c.ev('sensors')
            if c.violations:
                return
            a = {'still': np.ones(12) * 20., 'random': np.array([c.r.uniform(14, 26) for _ in range(12)]), 'extreme': np.array([c.r.choice([-5., 14., 26., 90.]) for _ in range(12)]),
                 'pulse': np.ones(12) * (14. if i % 10 < 5 else 26.)}[mode]
            if mode == 'extreme':
                c.ev('clipped edges')
            p0, v0 = np.array(e.pos), np.array(e.vel)
            a_ = a.copy()
            e.performAction(a)
            c.close(a, a_, 'cube: action modified', 0)
            hit = q.step(a)
            c.eq(e.step, q.n, 'cube: steps')
            if hit:
                c.ev('floor')
            else:
                # inner forces move nothing as a whole
                c.close(e.vel.mean(0), (v0.mean(0) + [0, -2., 0]) * .992, 'cube: momentum', 1e-7, mode)
                c.ev('free fall')
            c.ok(bool((e.pos[:, 1] >= 0).all()), 'cube: below the floor')
    if mode == 'still':
        c.ev('cube at rest')
        for i in range(150):
            e.performAction(np.ones(12) * 20.)
        c.ok(np.abs(e.getSensors()[0][2]).max() < 1e3, 'cube: does not come to rest')
    c.ev('cube')
    c.sig(mode, tuple(names), q.height)
    c.sample('%s, sensors %s' % (mode, names))


def k_cubetask(c):
    seed(c.seed)
    name = FTASKS[c.idx % len(FTASKS)]
    e = FlexCubeEnvironment(render=False)
    t = getattr(ftasks, name)(e)
    q = Cube(200. if name == 'RollingUpTask' else 10.)
    c.eq(t.epiLen, {'NoRewardTask': 1, 'GrowTask': 200, 'WalkTask': 2000, 'RollingUpTask': 500, 'WalkDirectionTask': 2000, 'TargetTask': 6000, 'JumpTask': 500}[name], 'cube task: length')
    n = t.epiLen = c.r.choice([6, 30, 60])
    obs = {'NoRewardTask': ['EdgesReal'], 'GrowTask': ['EdgesReal', 'EdgesTarget'], 'JumpTask': ['EdgesTarget', 'EdgesReal', 'VerticesContact']}.get(
        name, ['EdgesTarget', 'EdgesReal', 'VerticesContact', 'Time'])
    rs = {'GrowTask': 'EdgesSumReal', 'WalkTask': 'DistToOrigin', 'RollingUpTask': 'DistToOrigin', 'JumpTask': 'VerticesMinHight'}.get(name)
    if name in ('WalkDirectionTask', 'TargetTask'):
        rs, obs = 'Target', obs + ['Target']
    mode = c.r.choice(['still', 'random', 'pulse', 'pulse'])
    half = c.r.choice([6, 8, 10, 20])
    speed = 12. / (10 if name == 'JumpTask' else 30)
    for ep in range(2):
        t.reset()
        q.reset()
        if rs != 'Target' and c.r.random() < .5:
            # blown up from within
            q.v = (CORNERS * 2 - 1) * c.r.uniform(50, 250)
            e.vel = q.v.copy()
        target = (160., 0, 0) if rs == 'Target' else (-80., 0, 0)
        last = np.ones(12) * 20
        best, total = 0., 0.
        for i in range(n):
            done = t.isFinished()
            c.ok(not done, 'cube task: finished early', name)
            if name == 'TargetTask' and i in (n // 3, 2 * n // 3):
                q.reset()
                target = (113.2, 0, -113.2 if i == n // 3 else 113.2)
            o = np.asarray(t.getObservation(), dtype=float)
            want = [np.asarray(q.sense(s, target), dtype=float) for s in obs]
            if len(o) == sum(map(len, want)):
                flat = settle(np.concatenate(want), o)
                want = [flat[sum(map(len, want[:j])):][:len(w)] for j, w in enumerate(want)]
            raw = q.sense(rs, target)[0] if rs else 0.
            if not (c.eq((len(o), t.inDim, t.outDim), (sum(map(len, want)), sum(map(len, want)), 12), 'cube task: dimensions', name) and
                    c.close(sorted(o), sorted(np.concatenate(want)), 'cube task: observation', 1e-6, '%s, %s, step %d' % (name, mode, i)) and
                    c.close(o, np.concatenate(want), 'cube task: order of the observation', 1e-6, name)):
                return
            pain = ((np.clip(q.edges() / 30, 1, 4) - 1) ** 2).sum()
            if pain:
                c.ev('cube pain')
            a = {'still': np.zeros(12), 'random': np.array([c.r.uniform(-2, 2) for _ in range(12)]), 'pulse': np.ones(12) * (1. if (i // half) % 2 == 0 else -1.)}[mode]
            t.performAction(a)
            last = np.clip((a + 1) / 2 * 12 + 14, last - speed, last + speed)
            q.step(last)
            c.close(t.action, last, 'cube task: action', 1e-9, name)
            k = i + 1
            if name == 'JumpTask' and k < n:
                best = max(best, raw)
            r = {'NoRewardTask': 0., 'GrowTask': raw, 'WalkTask': raw * 800 if k == n else 0, 'JumpTask': best if k == n else 0,
                 'WalkDirectionTask': np.clip(160 * (1 - raw), 0, 160) if k == n else max(0, .5 - raw),
                 'TargetTask': np.clip(160 * (1 - raw), 0, 160) if k in (n // 3, 2 * n // 3, n) else 0}.get(name, raw * 800 if k == n else 0) - pain
            if not c.close(t.getReward(), r, 'cube task: reward', 1e-6, '%s, %s, step %d of %d' % (name, mode, k, n)):
                return
            total += r
            c.close(t.getTotalReward(), total, 'cube task: total reward', 1e-6, name)
        c.ok(t.isFinished(), 'cube task: not finished', name)
    c.ev('cube ' + name)
    c.sig(name, mode, n)
    c.sample('%s, %s, %d steps' % (name, mode, n))


KINDS = [
    ('cart poles', k_pole, 40, 800),
    ('double poles', k_double, 20, 300),
    ('linearized pole', k_linear, 4, 60),
    ('balance tasks', k_task, 72, 1500),
    ('ship', k_ship, 16, 300),
    ('northward', k_north, 8, 100),
    ('cube', k_cube, 24, 400),
    ('cube tasks', k_cubetask, 28, 500),
]
