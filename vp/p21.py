"""P21: mazes, partially observable tasks and the classic discrete-action tasks."""
import math, random
import numpy as np
from pybrain.rl.environments.mazes import Maze, PolarMaze
from pybrain.rl.environments.mazes.tasks import TigerTask, TrivialMaze, MazeTask, CheeseMaze, TMaze, FourByThreeMaze, EightyNineStateMaze, \
    ShuttleDocking, MDPMazeTask
from pybrain.rl.environments.classic.xor import XORTask, XORChainTask
from pybrain.rl.environments.classic.mountaincar import MountainCar
from pybrain.rl.environments.classic.acrobot import AcrobotTask, SimpleAcrobot, VerySimpleAcrobot, SingleArmSwinger
from pybrain.structure.modules.module import Module
from vp.p12 import seed

RULE = ('a case walks through one random maze, plays several episodes of one task, or drives one of the classic systems; non-trivial when at least three '
        'actions were performed; distinct by task, topology, settings and walk')
EXPECT = ['maze', 'bang', 'moved', 'polar maze', 'turned', 'noisy action', 'noisy polar action', 'noisy observation', 'state number', 'maze task', 'finished', 'max steps',
          'array action', 'cheese', 'tmaze', 'bad arm', 'good arm', 'four by three', 'absorbed', 'eighty nine', 'shuttle', 'docked', 'forward', 'tiger',
          'opened', 'listened', 'xor', 'xor chain', 'mountain car', 'goal', 'left border', 'acrobot', 'swinger', 'timeout', 'fitness', 'total reward',
          'restart', 'space', 'front to station', 'back to station', 'directions', 'side walls', 'noisy walls', 'deaf', 'one step']
ASSUMPTIONS = ['mazes are surrounded by walls', 'frequencies are compared within five standard deviations under fixed seeds',
               'the ordering of actions is north, east, south, west, as the environments list them']

STEP = [(1, 0), (0, 1), (-1, 0), (0, -1)]


def topology(c):
    h, w = c.r.randint(3, 7), c.r.randint(3, 8)
    if h == 3 and w == 3:
        w = 4
    t = np.ones((h, w), dtype=int)
    for i in range(1, h - 1):
        for j in range(1, w - 1):
            t[i, j] = c.r.random() < .25
    free = [(i, j) for i in range(h) for j in range(w) if not t[i, j]]
    if len(free) < 2:
        t[1, 1:w - 1] = 0
        t[1:h - 1, 1] = 0
        free = [(i, j) for i in range(h) for j in range(w) if not t[i, j]]
    return t, free


def add(p, d):
    return (p[0] + STEP[d][0], p[1] + STEP[d][1])


def walls(t, p):
    return [float(t[add(p, d)]) for d in range(4)]


def k_maze(c):
    seed(c.seed)
    t, free = topology(c)
    goal = c.r.choice(free)
    keep = t.copy()
    init = None
    if c.r.random() < .4:
        init = [q for q in free if c.r.random() < .5 and q != goal] or None
    polar = c.r.random() < .4
    m = (PolarMaze if polar else Maze)(t, goal, **({'initPos': list(init)} if init else {}))
    seen, dirs = set(), []
    for _ in range(200):
        m.reset()
        seen.add(m.perseus)
        if polar:
            c.ok(m.perseusDir in range(4), 'start', 'direction')
            dirs.append(m.perseusDir)
    if polar:
        for d in range(4):
            rate(c, dirs.count(d), len(dirs), .25, 'start', 'starts facing %d' % d)
        c.ev('directions')
    c.ok(seen <= set(init or [q for q in free if q != goal]), 'start', 'started at %r' % (seen,))
    if len(init or free) < 8:
        c.eq(sorted(seen), sorted(init or [q for q in free if q != goal]), 'start', 'every start is used')
    pos, d = m.perseus, getattr(m, 'perseusDir', 0)
    turn = {0: 0, 1: 0, 2: 2, 3: 1, 4: 3}
    left = None
    walk = []
    for _ in range(c.r.randint(10, 60)):
        a = c.r.randrange(5 if polar else 4)
        walk.append(a)
        m.performAction(a)
        bang = False
        if polar:
            if a == 1:
                q = add(pos, d)
                bang = bool(t[q])
                pos = pos if bang else q
            elif a in (3, 4):
                # quarter turns, the two ways
                if left is None:
                    left = {3: (m.perseusDir - d) % 4 if a == 3 else (d - m.perseusDir) % 4}
                    c.ok(left[3] in (1, 3), 'turn', 'a turn of %d quarters' % left[3])
                d = (d + (left[3] if a == 3 else -left[3])) % 4
                c.ev('turned')
            elif a == 2:
                d = (d + 2) % 4
        else:
            q = add(pos, a)
            bang = bool(t[q])
            pos = pos if bang else q
        c.ev('bang' if bang else 'moved')
        c.must((m.perseus, bool(m.bang)) == (pos, bang), 'move', 'at %r (bang %s), expected %r (bang %s) after action %d' % (m.perseus, m.bang, pos, bang, a))
        w = walls(t, pos)
        if polar:
            c.eq(m.perseusDir, d, 'turn', 'direction')
            w = w[d:] + w[:d]
        c.close(m.getSensors(), w, 'sensors', 0, 'walls seen at %r' % (pos,))
        c.ok(not t[m.perseus], 'wall', 'inside a wall')
    c.ok(np.array_equal(t, keep), 'input kept', 'topology changed')
    str(m)
    c.ev('polar maze' if polar else 'maze')
    if len(walk) >= 3:
        c.sig('maze', polar, t.tobytes(), walk)


def rate(c, k, n, p, key, msg):
    c.ok(abs(k - n * p) <= 5 * math.sqrt(n * p * (1 - p)) + 1e-9, key, lambda: '%s: %d of %d, expected %.1f' % (msg, k, n, n * p))


def k_noise(c):
    seed(c.seed)
    t = np.ones((3, 3), dtype=int) if c.r.random() < .3 else np.ones((5, 5), dtype=int)
    n = len(t)
    t[1:-1, 1:-1] = 0
    if n == 3:
        t = np.ones((3, 4), dtype=int)
        t[1, 1:3] = 0
    so, sa = c.r.choice([0., .1, .5, 1.]), c.r.choice([0., .2, 1.])
    m = Maze(t, (1, 1), stochObs=so, stochAction=sa)
    N = 1200
    m.perseus = (1, 2) if len(t) == 3 else (2, 2)
    w = walls(t, m.perseus)
    obs = np.array([m.getSensors() for _ in range(N)])
    for k in range(4):
        rate(c, int((obs[:, k] != w[k]).sum()), N, so, 'noise', 'flipped observations')
    c.ok(set(np.unique(obs)) <= {0., 1.}, 'noise', 'observations are bits')
    if so:
        c.ev('noisy observation')
    a = c.r.randrange(4)
    start, ends = m.perseus, {}
    for _ in range(N):
        m.perseus = start
        m.performAction(a)
        ends[m.perseus] = ends.get(m.perseus, 0) + 1
    for q in set(list(ends) + [add(start, k) for k in range(4) if not t[add(start, k)]] + [start]):
        p = sum((1 - sa if k == a else 0) + sa / 4. for k in range(4) if (start if t[add(start, k)] else add(start, k)) == q)
        rate(c, ends.get(q, 0), N, p, 'noise', 'moves to %r' % (q,))
    if sa:
        c.ev('noisy action')
    c.sig('noise', so, sa, a, t.shape)
    # polar mazes draw from all of their five actions
    m = PolarMaze(t, (1, 1), stochAction=sa)
    a, d = c.r.randrange(5), c.r.randrange(4)
    m.reset()
    ways = {}
    for k in range(5):
        m.stochAction, m.perseus, m.perseusDir = 0., start, d
        m.performAction(k)
        w = m.perseus, m.perseusDir
        ways[w] = ways.get(w, 0.) + (1 - sa if k == a else 0) + sa / 5.
    m.stochAction, ends = sa, {}
    for _ in range(N):
        m.perseus, m.perseusDir = start, d
        m.performAction(a)
        w = m.perseus, m.perseusDir
        ends[w] = ends.get(w, 0) + 1
    for w in set(list(ends) + list(ways)):
        rate(c, ends.get(w, 0), N, ways.get(w, 0.), 'polar noise', 'to %r' % (w,))
    if sa:
        c.ev('noisy polar action')


def k_mdp(c):
    seed(c.seed)
    t, free = topology(c)
    goal = c.r.choice(free)
    m = Maze(t, goal)
    task = MDPMazeTask(m)
    num = {}
    for q in free:
        m.perseus = q
        o = task.getObservation()
        c.eq(len(o), 1, 'state number', 'observations')
        num.setdefault(int(o[0]), []).append(q)
        c.eq(float(o[0]), float(int(o[0])), 'state number', 'a whole number')
        c.ok(0 <= o[0] < t.size, 'state number', 'number %r in a maze of %d cells' % (o[0], t.size))
    c.ok(all(len(v) == 1 for v in num.values()), 'state number', 'shared by %r in a maze of %r' % ([v for v in num.values() if len(v) > 1], t.shape))
    m.reset()
    pos = m.perseus
    n = 0
    for _ in range(40):
        a = c.r.randrange(4)
        task.performAction(np.array([float(a)]) if c.r.random() < .5 else [a])
        q = add(pos, a)
        pos = pos if t[q] else q
        c.must(m.perseus == pos, 'move', 'position')
        r = task.getReward()
        c.eq(r, 1. if pos == goal else 0., 'reward', 'reward')
        n += pos == goal
        if pos == goal:
            c.ev('goal')
            c.ok(m.perseus != goal, 'reward', 'started over after the goal')
        pos = m.perseus
    c.ev('state number')
    c.sig('mdp', t.tobytes(), goal, n)


class Wander(Module):
    """acts at random, by index or as an array"""
    def __init__(self, c, outdim, indim, how):
        Module.__init__(self, outdim, indim)
        self.c, self.how, self.obs, self.n = c, how, [], 0

    def activate(self, o):
        self.obs.append(np.array(o))
        a = self.c.r.randrange(self.outdim)
        if self.how == 'index':
            return a
        x = np.zeros(self.outdim)
        if self.how == 'soft':
            x[:] = [self.c.r.random() for _ in range(self.outdim)]
        else:
            x[a] = 2.
        return x


def walk_task(c, t, maxSteps, check, reward, episodes=3, actions=None):
    """Play; check(task, before, action) sees every step; the totals are those of the rewards"""
    n = 0
    for _ in range(episodes):
        t.reset()
        c.eq((t.steps, t.cumreward), (0, 0), 'reset', 'steps and reward after a reset')
        tot, k, d = 0., 0, t.discount or 1.
        while not t.isFinished() and k < 300:
            o = t.getObservation()
            c.eq(len(o), t.outdim, 'observation', 'observations')
            before = state(t)
            a = c.r.randrange(t.indim) if actions is None else actions(t)
            act, keep = a, None
            if c.r.random() < .4:
                act = np.zeros(t.indim)
                act[a] = c.r.choice([1., 2.])
                keep = act.copy()
                c.ev('array action')
            t.performAction(act)
            if keep is not None:
                c.close(act, keep, 'input kept', 0, 'the action')
            k += 1
            n += 1
            check(t, before, a)
            r = reward(t)
            for _ in range(2):
                c.close(t.getReward(), r, 'reward', 1e-12, 'reward (asked twice) at %r' % (state(t),))
            tot += r * d ** (k if t.discount else 0)
            c.close(t.getTotalReward(), tot, 'total', 1e-9, 'total reward after %d steps' % k)
            c.eq(t.steps, k, 'steps', 'steps')
            if maxSteps is not None:
                c.ok(k <= maxSteps, 'max steps', 'step %d of %d' % (k, maxSteps))
        if k == maxSteps:
            c.ev('max steps')
            c.eq(t.isFinished(), True, 'max steps', 'finished')
        if t.isFinished():
            c.ev('finished')
        c.ev('total reward')
    return n


def state(t):
    e = getattr(t, 'env', None)
    return (e.perseus, getattr(e, 'perseusDir', 0)) if e is not None else None


def k_mazetask(c):
    seed(c.seed)
    top, free = topology(c)
    goal = c.r.choice(free)
    ms = c.r.choice([None, 1, 5, 20])
    args = dict(topology=top, goal=goal, bangPenalty=c.r.choice([0, -1, -.5]), defaultPenalty=c.r.choice([0, -.1]), finalReward=c.r.choice([1, 5.]),
                maxSteps=ms, discount=c.r.choice([None, .9]))
    t = MazeTask(**args)
    c.eq((t.indim, t.outdim, t.noisy), (4, 4, False), 'dimensions', 'dimensions')

    def check(t, before, a):
        q = add(before[0], a)
        check.bang = bool(top[q])
        c.must(t.env.perseus == (before[0] if check.bang else q), 'move', 'from %r by %d to %r' % (before[0], a, t.env.perseus))
        c.close(t.getObservation(), walls(top, t.env.perseus), 'observation', 0, 'walls')

    def reward(t):
        return args['finalReward'] if t.env.perseus == goal else (args['bangPenalty'] if check.bang else args['defaultPenalty'])
    n = walk_task(c, t, ms, check, reward)
    # the fitness of a module is the average of its episodes
    if ms is not None:
        w = Wander(c, 4, 4, c.r.choice(['index', 'hot', 'soft']))
        t.batchSize = c.r.choice([1, 3])
        tots, g = [], t.getTotalReward
        f = t.f(w)
        c.ok(len(w.obs) <= ms * t.batchSize, 'max steps', 'steps of the evaluation')
        if t.batchSize == 1:
            c.close(f, t.getTotalReward(), 'fitness', 1e-9, 'fitness')
        c.ev('fitness')
    c.ok(t.minReward <= min(args['bangPenalty'], args['defaultPenalty']), 'reward', 'the lower bound of the rewards')
    c.ev('maze task')
    if n >= 3:
        c.sig('mazetask', top.tobytes(), goal, str(sorted((k, str(v)) for k, v in args.items() if k != 'topology')))


def k_named(c):
    seed(c.seed)
    which = c.r.choice(['cheese', 'tmaze', 'tmaze', 'fourbythree', 'eightynine', 'shuttle', 'shuttle', 'trivial'])
    ms = c.r.choice([None, 10, 60]) if which != 'eightynine' else c.r.choice([10, 60])
    if which == 'trivial':
        t = TrivialMaze(maxSteps=ms)

        def check(t, b, a):
            q = add(b[0], a)
            c.eq(t.env.perseus, b[0] if t.topology[q] else q, 'move', 'move')
        walk_task(c, t, ms, check, lambda t: 1 if t.env.perseus == t.goal else 0)
    elif which == 'cheese':
        t = CheeseMaze(maxSteps=ms)
        table = {}
        free = [(i, j) for i in range(t.topology.shape[0]) for j in range(t.topology.shape[1]) if not t.topology[i, j]]
        for q in free:
            t.env.perseus = q
            o = tuple(t.getObservation())
            c.eq(sorted(o), [0.] * 6 + [1.], 'cheese', 'one of seven')
            table.setdefault('goal' if q == t.goal else tuple(walls(t.topology, q)), set()).add(o)
        c.eq([len(v) for v in table.values()], [1] * len(table), 'cheese', 'one observation per combination of walls')
        c.eq(len(set(list(v)[0] for v in table.values())), len(table), 'cheese', 'combinations are told apart')
        c.eq(len(table), 7, 'cheese', 'combinations')

        def check(t, b, a):
            q = add(b[0], a)
            c.eq(t.env.perseus, b[0] if t.topology[q] else q, 'move', 'move')
        walk_task(c, t, ms, check, lambda t: 1 if t.env.perseus == t.goal else 0)
        c.ev('cheese')
    elif which == 'tmaze':
        L = c.r.choice([1, 3, 10])
        t = TMaze(length=L, maxSteps=ms)
        c.eq(t.length, L, 'tmaze', 'length')

        def check(t, b, a):
            q = add(b[0], a)
            c.eq(t.env.perseus, b[0] if t.topology[q] else q, 'tmaze', 'move')
            check.bang = bool(t.topology[q])
            o = list(t.getObservation())
            c.eq(sorted(o), [0, 0, 0, 1], 'tmaze', 'one of four')
            k = o.index(1)
            p = t.env.perseus
            want = (0 if t.env.goal[0] == 3 else 1) if p == (2, 1) else (2 if p[1] == L + 1 else 3)
            c.eq(k, want, 'tmaze', 'observation at %r with the goal at %r' % (p, t.env.goal))

        def reward(t):
            p = t.env.perseus
            if p[1] == L + 1 and p[0] != 2:
                good = p == t.env.goal
                c.ev('good arm' if good else 'bad arm')
                c.eq(t.isFinished(), True, 'tmaze', 'finished at the end of an arm')
                return 4 if good else -.1
            return -.1 if check.bang else 0

        def go(t):
            return c.r.choice([1, 1, 1, c.r.randrange(4)]) if t.env.perseus[1] <= L else c.r.choice([0, 2, c.r.randrange(4)])
        walk_task(c, t, ms, check, reward, 4, go)
        ups = 0
        for _ in range(100):
            t.reset()
            ups += t.env.goal == (3, L + 1)
            c.ok(t.env.goal in ((3, L + 1), (1, L + 1)), 'tmaze', 'goal')
        rate(c, ups, 100, .5, 'tmaze', 'goals on top')
        c.ev('tmaze')
    elif which == 'fourbythree':
        t = FourByThreeMaze(maxSteps=ms)

        def check(t, b, a):
            p = t.env.perseus
            c.ok(p == b[0] or (abs(p[0] - b[0][0]) + abs(p[1] - b[0][1]) == 1 and not t.topology[p]), 'four by three', 'moved from %r to %r' % (b[0], p))

        def reward(t):
            p = t.env.perseus
            if p == (2, 4):
                c.ev('absorbed')
                c.eq(t.isFinished(), True, 'four by three', 'the bad spot absorbs')
                return -1
            return 1 if p == (3, 4) else -.04
        walk_task(c, t, ms, check, reward, 4)
        # seen are the walls to the west, to the east, both or neither
        quiet = FourByThreeMaze(stochObs=0)
        for i in range(1, 4):
            for j in range(1, 5):
                if not quiet.topology[i, j]:
                    quiet.env.perseus = (i, j)
                    w, e = quiet.topology[i, j - 1], quiet.topology[i, j + 1]
                    c.close(quiet.getObservation(), [w, e, w and e, not w and not e], 'four by three', 0, 'walls beside %r' % ((i, j),))
                    c.ev('side walls')
        # slipping sideways, hardly ever backwards
        n, a = 1500, c.r.randrange(4)
        t.reset()
        cnt = [0] * 4
        for _ in range(n):
            seen = []
            t.env.performAction = seen.append
            t.performAction(a)
            cnt[seen[0]] += 1
        del t.env.performAction
        c.eq(cnt[(a + 2) % 4], 0, 'four by three', 'slipped backwards')
        for s in (1, 3):
            rate(c, cnt[(a + s) % 4], n, .1, 'four by three', 'slipped sideways')
        c.ev('four by three')
    elif which == 'eightynine':
        t = EightyNineStateMaze(maxSteps=ms)

        def check(t, b, a):
            p = t.env.perseus
            c.ok(p == b[0] or (abs(p[0] - b[0][0]) + abs(p[1] - b[0][1]) == 1 and not t.topology[p]), 'eighty nine', 'move')
            c.ok(p == b[0] or p == add(b[0], b[1]), 'eighty nine', 'moved sideways')
        walk_task(c, t, ms, check, lambda t: 1 if t.env.perseus == (2, 7) else 0)
        # each wall is misread one time in ten
        t.reset()
        w = walls(t.topology, t.env.perseus)
        w = w[t.env.perseusDir:] + w[:t.env.perseusDir]
        obs = np.array([t.getObservation() for _ in range(600)])
        for k in range(4):
            rate(c, int((obs[:, k] != w[k]).sum()), 600, .1, 'eighty nine', 'misread walls')
        c.ev('noisy walls')
        c.ev('eighty nine')
    else:
        t = ShuttleDocking(maxSteps=ms)
        c.eq(t.indim, 3, 'shuttle', 'actions')

        def check(t, b, a):
            p, d = state(t)
            (x, y), e = b
            opp = (e + 2) % 4
            if a == 2:
                c.eq((p, d), ((x, y), opp), 'shuttle', 'turned around')
            elif a == 1:
                f = add((x, y), e)
                bump = bool(t.topology[f]) or f in ((1, 1), (1, 5))
                c.eq((p, d, bool(t.env.bang)), ((x, y) if bump else f, e, bump), 'shuttle', 'forward from %r facing %d' % ((x, y), e))
                check.bang = bump
                c.ev('forward')
            else:
                back = add((x, y), opp)
                c.ok((p, d) in (((x, y), e), ((x, y), opp), (back, e)), 'shuttle', 'backup from %r facing %d to %r facing %d' % ((x, y), e, p, d))
            o = list(t.getObservation())
            c.eq(sorted(o), [0.] * 4 + [1.], 'shuttle', 'one of five')
            c.eq(o[4] == 1, p == (1, 5), 'shuttle', 'in the new station')
            c.eq(o[0] == 1, p == (1, 1), 'shuttle', 'in the old station')
            if p[1] in (2, 4):
                # the ship sees the station that it faces
                c.eq(o[3 if d == 1 else 1], 1, 'shuttle', 'seen at %r facing %d' % (p, d))
            # it turns around only: always on the line between the stations
            c.ok(d in (1, 3), 'shuttle', 'facing %d' % d)

        def reward(t):
            if t.env.perseus == (1, 5):
                c.ev('docked')
                c.eq(t.isFinished(), True, 'shuttle', 'docked')
                return 10
            return -3 if t.env.bang else 0
        walk_task(c, t, ms, check, reward, 4)
        for _ in range(10):
            t.reset()
            c.eq(state(t), ((1, 1), 1), 'shuttle', 'starts in the old station, looking out')
        # backing up is unreliable: in space, with the front and with the back to a station
        for name, q, d, turn, move in [('space', (1, 3), c.r.choice([1, 3]), .1, .8)] + [('front to station', q, d, .3, .3) for q, d in [((1, 2), 3), ((1, 4), 1)]] + \
                [('back to station', q, d, 0., .7) for q, d in [((1, 2), 1), ((1, 4), 3)]]:
            N, cnt = 400, {}
            for _ in range(N):
                t.env.perseus, t.env.perseusDir = q, d
                t.performAction(0)
                cnt[state(t)] = cnt.get(state(t), 0) + 1
            back = add(q, (d + 2) % 4)
            rate(c, cnt.pop((q, (d + 2) % 4), 0), N, turn, 'shuttle', name + ': turned')
            rate(c, cnt.pop((back, d), 0), N, move, 'shuttle', name + ': backed up')
            cnt.pop((q, d), 0)
            c.eq(cnt, {}, 'shuttle', name + ': nothing else')
            c.ev(name)
        # in space it is seen less well
        for d in (1, 3):
            t.env.perseus, t.env.perseusDir = (1, 3), d
            obs = np.array([t.getObservation() for _ in range(600)])
            rate(c, int(obs[:, 3 if d == 1 else 1].sum()), 600, .7, 'shuttle', 'seen from the middle facing %d' % d)
        c.ev('shuttle')
    c.sig('named', which, ms, c.r.random())


def k_tiger(c):
    seed(c.seed)
    ms = c.r.choice([None, 3, 10])
    so = c.r.choice([.15, .15, 0., .3, 1.])
    t = TigerTask(maxSteps=ms) if so == .15 else TigerTask(maxSteps=ms, stochObs=so)
    heard = total = lefts = 0
    for _ in range(120):
        t.reset()
        lefts += t.tigerLeft
        k, tot = 0, 0.
        while not t.isFinished():
            o = t.getObservation()
            c.eq(sorted(o), [0, 1], 'tiger', 'one of two')
            heard += (o[0] == 1) == t.tigerLeft
            total += 1
            a = c.r.choice([0, 0, 0, 1, 2])
            act = a
            if c.r.random() < .3:
                act = np.zeros(3)
                act[a] = 1
                c.ev('array action')
            t.performAction(act)
            k += 1
            r = -1 if a == 0 else (-100 if (a == 1) == t.tigerLeft else 10)
            for _ in range(2):
                c.eq(t.getReward(), r, 'tiger', 'reward of action %d, tiger left %s' % (a, t.tigerLeft))
            tot += r * .75 ** k
            c.close(t.getTotalReward(), tot, 'total', 1e-9, 'total reward')
            c.eq(t.isFinished(), a != 0 or k == ms, 'tiger', 'finished after action %d' % a)
            c.ev('opened' if a else 'listened')
    rate(c, heard, total, 1 - so, 'tiger', 'heard right')
    if so != .15:
        c.ev('deaf')
    rate(c, lefts, 120, .5, 'tiger', 'tiger on the left')
    c.ev('tiger')
    c.sig('tiger', ms, total)


def k_xor(c):
    seed(c.seed)
    chain = c.r.random() < .5
    t = (XORChainTask if chain else XORTask)()
    t.and_task = c.r.random() < .4
    if chain:
        t.reward_cutoff = c.r.choice([0, 1, 2, 3])
    else:
        t.randomorder = c.r.random() < .4
    op = (lambda a, b: a & b) if t.and_task else (lambda a, b: a ^ b)
    s, tot, walk = 0, 0, []
    for k in range(c.r.randint(4, 40)):
        o = t.getObservation()
        bits = [int(x) for x in o]
        c.ok(all(x in (0, 1) for x in o) and len(o) == 3 and o[2] == 1, 'xor', 'bits and a bias: %r' % (o,))
        if chain:
            c.eq(bits[:2], [s % 2, s // 2], 'xor', 'bits of state %d' % s)
        elif not t.randomorder:
            c.eq(bits[:2], [k % 2, (k // 2) % 2], 'xor', 'bits of step %d' % k)
        right = op(bits[0], bits[1])
        a = right if c.r.random() < .7 else 1 - right
        walk.append(a)
        t.performAction(a if c.r.random() < .5 else np.array([a]))
        if chain:
            r = (1 if s >= t.reward_cutoff else -1) if a == right else -1
            s = min(s + 1, 3) if a == right else 0
        else:
            r = 1 if a == right else -1
        tot += r
        c.eq(t.getReward(), r, 'xor', 'reward of %d for %r' % (a, bits))
        c.eq(t.cumreward, tot, 'total', 'total reward')
        c.eq(t.isFinished(), False, 'xor', 'never finished')
    if not chain and t.randomorder:
        seen = [tuple(int(x) for x in t.getObservation()[:2]) for _ in range(800)]
        for b in ((0, 0), (0, 1), (1, 0), (1, 1)):
            rate(c, seen.count(b), 800, .25, 'xor', 'random bits %r' % (b,))
        o = t.getObservation()
        t.performAction(op(int(o[0]), int(o[1])))
        r = 1
    t.stochasticity = c.r.choice([.2, 1.])
    n = 800
    rate(c, sum(t.getReward() == -r for _ in range(n)), n, t.stochasticity, 'xor', 'inverted rewards')
    c.ev('xor chain' if chain else 'xor')
    c.sig('xor', chain, t.and_task, walk)


def episodes(c, t, step, reward, policy, n):
    """the protocol shared by the classic tasks: two idle steps after success, none after the time is up"""
    for e in range(n):
        t.reset()
        c.eq((t.steps, t.cumreward, t.isFinished()), (0, 0, False), 'reset', 'after a reset')
        x, tot, done, k = list(t.state), 0, 0, 0
        while not t.isFinished() and k < 1200:
            a = policy(x)
            t.performAction(a)
            if not done:
                k += 1
                x = step(x, a)
                r, f = reward(x)
                tot += r
                done = 5 if k >= t.maxSteps else f
                if k >= t.maxSteps:
                    c.ev('timeout')
            else:
                done += 1
            c.close(np.array(t.state, dtype=float), np.array(x, dtype=float), 'state', 1e-9, 'state after %d steps' % k)
            if any(k2 == 'state' for k2, _ in c.violations):
                return
            x = list(t.state)
            c.close(t.getReward(), r, 'reward', 1e-9, 'reward')
            c.close(t.getTotalReward(), tot, 'total', 1e-9, 'total reward')
            c.eq(t.isFinished(), done >= 3, 'finished', 'done %d after %d steps' % (done, k))
            if f:
                c.ev('goal')
        c.ev('total reward')


def k_car(c):
    seed(c.seed)
    t = MountainCar()
    t.maxSteps = c.r.choice([20, 150, 300])
    how = c.r.choice(['swing', 'random', 'left', 'still'])

    def step(x, a):
        v = min(max(x[1] + .001 * (a - 1) - .0025 * math.cos(3 * x[0]), -.07), .07)
        p = x[0] + v
        if p <= -1.4:
            c.ev('left border')
            return [-1.4, 0.]
        return [p, v]

    def policy(x):
        return {'swing': 2 if x[1] >= 0 else 0, 'random': c.r.randrange(3), 'left': 0 if x[1] <= 0 else 1, 'still': 1}[how]
    episodes(c, t, step, lambda x: (1, 1) if x[0] >= .45 else (0, 0), policy, 2)
    # reach the left border
    t.reset()
    t.state = [-1.35, -.07]
    t.performAction(0)
    c.close(t.state, step([-1.35, -.07], 0), 'state', 1e-12, 'left border')
    o = t.getObservation()
    c.close(o, [t.state[0], 100 * t.state[1], 1], 'observation', 1e-12, 'observation')
    # one step from anywhere, near the goal and near the limits of the speed
    for k in range(40):
        t.reset()
        x = [c.r.choice([c.r.uniform(-1.4, .5), c.r.uniform(.38, .46), c.r.uniform(-1.4, -1.33)]),
             c.r.choice([c.r.uniform(-.07, .07), c.r.uniform(-.003, .003), .07, -.07, .0699, -.0699])]
        last = c.r.random() < .3
        if last:
            t.steps = t.maxSteps - 1
        t.state = list(x)
        a = c.r.randrange(3)
        t.performAction(a)
        y = step(x, a)
        c.close(t.state, y, 'state', 1e-12, 'one step from %r' % (x,))
        c.close(t.getObservation(), [y[0], 100 * y[1], 1], 'observation', 1e-12, 'observation of %r' % (y,))
        if abs(y[0] - .45) > 1e-9:
            c.eq(t.getReward(), int(y[0] >= .45), 'reward', 'reward in %r' % (y,))
            c.eq(t.isFinished(), last, 'finished', 'after one step to %r, time up: %r' % (y, last))
            t.performAction(1)
            c.eq(t.isFinished(), last, 'finished', 'second step')
            t.performAction(1)
            c.eq(t.isFinished(), last or y[0] >= .45, 'finished', 'third step')
    c.ev('one step')
    t.resetOnSuccess = True
    t.reset()
    t.state = [.449, .05]
    t.performAction(2)
    c.eq((t.isFinished(), t.getReward()), (False, 1), 'finished', 'success')
    t.performAction(2)
    t.performAction(2)
    c.eq((t.isFinished(), list(t.state)), (False, [-.5, 0.]), 'finished', 'starts over on success')
    c.ev('restart')
    c.ev('mountain car')
    c.sig('car', how, t.maxSteps)


def k_acrobot(c):
    seed(c.seed)
    cls = c.r.choice([AcrobotTask, SimpleAcrobot, VerySimpleAcrobot, SingleArmSwinger])
    t = cls()
    swing = cls is SingleArmSwinger
    t.maxSteps = c.r.choice([20, 100])
    t.easy_rewards = c.r.random() < .3
    pi = math.pi

    def raw(x, a):
        th1, th2, w1, w2 = x
        for _ in range(4):
            d1 = .25 + (1 + .25 + math.cos(th2)) + 2
            d2 = .25 + .5 * math.cos(th2) + 1
            p2 = .5 * 9.8 * math.cos(th1 + th2 - pi / 2)
            p1 = -.5 * w2 * math.sin(th2) * (w2 - 2 * w1) + 1.5 * 9.8 * math.cos(th1 - pi / 2) + p2
            a2 = ((a - 1.) + p1 * d2 / d1 - .5 * w1 * w1 * math.sin(th2) - p2) / (1.25 - d2 * d2 / d1)
            a1 = -(d2 * a2 + p1) / d1
            w1 = min(max(w1 + .05 * a1, -4 * pi), 4 * pi)
            th1 += .05 * w1
            w2 = min(max(w2 + .05 * a2, -9 * pi), 9 * pi)
            th2 += .05 * w2
        th1 += 2 * pi if th1 < -pi else (-2 * pi if th1 > pi else 0)
        th2 += 2 * pi if th2 < -pi else (-2 * pi if th2 > pi else 0)
        return [th1, th2, w1, w2]
    full = [None]

    def step(x, a):
        full[0] = raw(x, a)
        if swing:
            return [pi, full[0][1], 0, full[0][3]]
        return full[0]

    def reward(x):
        y = -math.cos(full[0][0]) - math.cos(full[0][1])
        f = y >= t.target
        if t.easy_rewards:
            return (10 * y if f else y), int(f)
        return (1 if f else 0), int(f)
    how = c.r.choice(['random', 'pump', 'hold'])

    def policy(x):
        return {'random': c.r.randrange(3), 'pump': 2 if x[2] + x[3] >= 0 else 0, 'hold': 1}[how]
    episodes(c, t, step, reward, policy, 2)
    o = t.getObservation()
    c.close(o, np.array(list(t.state[2:] if swing else t.state) + [pi]) / pi, 'observation', 1e-12, 'observation')
    if not swing:
        c.eq(len(o), t.nsenses, 'observation', 'senses')
        lim = [pi, pi, 4 * pi, 9 * pi]
        t.reset()
        t.state = [c.r.uniform(-l, l) for l in lim]
        for _ in range(20):
            x = list(t.state)
            t.done = 0
            t.performAction(c.r.randrange(3))
            c.ok(all(abs(v) <= l + 1e-9 for v, l in zip(t.state, lim)), 'state', 'outside its limits: %r' % (t.state,))
    pose = (lambda x: [pi, x[1], 0, x[3]]) if swing else list
    for k in range(30):
        t.reset()
        x = pose([c.r.uniform(-pi, pi), c.r.uniform(-pi, pi), c.r.choice([-1, 1]) * c.r.choice([c.r.uniform(0, 4), c.r.uniform(11.5, 12.566)]),
                  c.r.choice([-1, 1]) * c.r.choice([c.r.uniform(0, 9), c.r.uniform(27, 28.27)])])
        last = c.r.random() < .3
        if last:
            t.steps = t.maxSteps - 1
        t.state = list(x)
        a = c.r.randrange(3)
        t.performAction(a)
        y = step(x, a)
        c.close(t.state, y, 'state', 1e-9, 'one step from %r' % (x,))
        c.close(t.getObservation(), np.array((y[2:] if swing else y) + [pi]) / pi, 'observation', 1e-9, 'observation of %r' % (y,))
        r, f = reward(y)
        c.close(t.getReward(), r, 'reward', 1e-9, 'reward in %r' % (y,))
        c.eq(t.isFinished(), last, 'finished', 'after one step to %r, time up: %r' % (y, last))
        t.performAction(1)
        c.eq(t.isFinished(), last, 'finished', 'second step')
        t.performAction(1)
        c.eq(t.isFinished(), bool(last or f), 'finished', 'third step')
        if f and c.r.random() < .5:
            t.reset()
            t.resetOnSuccess = True
            t.state = list(x)
            for _ in range(3):
                t.performAction(a)
            c.eq((t.isFinished(), list(t.state), t.steps, t.done), (False, [pi if swing else 0, 0, 0, 0], 0, 0), 'finished', 'starts over on success')
            c.ev('restart')
            t.resetOnSuccess = False
    c.ev('swinger' if swing else 'acrobot')
    c.sig('acrobot', cls.__name__, how, t.maxSteps, t.easy_rewards)


KINDS = [('maze', k_maze, 80, 2500), ('noise', k_noise, 20, 300), ('mdp', k_mdp, 40, 1200), ('maze task', k_mazetask, 60, 1500),
         ('named', k_named, 100, 2500), ('tiger', k_tiger, 15, 200), ('xor', k_xor, 40, 1000), ('car', k_car, 20, 300), ('acrobot', k_acrobot, 30, 500)]
