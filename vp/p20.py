"""P20: game players, tournaments with ratings, and the tasks of winning games."""
import random
import numpy as np
from pybrain.rl.environments.twoplayergames import CaptureGame, GomokuGame
from pybrain.rl.environments.twoplayergames.pente import PenteGame
from pybrain.rl.environments.twoplayergames import capturegameplayers as CP, gomokuplayers as GP
from pybrain.rl.environments.twoplayergames.tasks import CaptureGameTask, GomokuTask, PenteTask, HandicapCaptureTask, RelativeCaptureTask, \
    RelativeGomokuTask
from pybrain.rl.experiments.tournament import Tournament
from pybrain.structure.modules.module import Module
from vp.core import rnd_vec
from vp.p12 import seed

RULE = ('a case lets one player move in many random positions, plays one tournament, or evaluates one player by one task; non-trivial when at least one '
        'game or move was made; distinct by players, sizes and results')
EXPECT = ['random player', 'nonsuicide player', 'killing player', 'kill', 'no way but suicide', 'module player', 'greedy', 'gibbs', 'inverted board',
          'rectangular board', 'tournament', 'elo', 'elo carried over', 'forced legality', 'no legal move', 'draw', 'capture task', 'gomoku task', 'pente task',
          'opponent starts', 'agent starts', 'alternate', 'moves coefficient', 'handicap task', 'handicap up', 'relative capture', 'relative gomoku', 'preset', 'warmer', 'fluctuating', 'greatest handicap']
ASSUMPTIONS = ['frequencies are compared within five standard deviations under fixed seeds']


class Prefer(Module):
    """positive values drawn once; logs its inputs"""
    def __init__(self, c, g):
        Module.__init__(self, g.outdim, g.indim)
        self.vals, self.log, self.resets = abs(rnd_vec(c, g.indim)) * c.r.choice([.3, 1., 3.]), [], 0
        if c.r.random() < .4:
            self.vals = np.round(self.vals)     # ties

    def _forwardImplementation(self, i, o):
        self.log.append(np.array(i))
        o[:] = self.vals

    def reset(self):
        self.resets += 1
        Module.reset(self)


def freq_ok(c, counts, probs, n, key, msg):
    for k, p in enumerate(probs):
        sd = 5 * np.sqrt(n * p * (1 - p)) + 5.
        c.ok(abs(counts[k] - n * p) <= sd, key, lambda: '%s: %d of %d, expected %.1f' % (msg, counts[k], n, n * p))


def position(c, g, m):
    """random position after at most m moves"""
    col = g.startcolor
    for _ in range(m):
        l = g.getAcceptable(col) if hasattr(g, 'getAcceptable') else g.getLegals(col)
        l = [p for p in l if p not in g.getKilling(col)]
        if not l:
            break
        g.performAction((col, c.r.choice(l)))
        col = -col
    return col


def k_players(c):
    seed(c.seed)
    if c.r.random() < .55:
        g = CaptureGame(c.r.choice([2, 3, 3, 4, 5]))
        cells = g.size ** 2
        P = [CP.RandomCapturePlayer, CP.NonSuicidePlayer, CP.KillingPlayer]
        w = g.size
    else:
        g = c.r.choice([GomokuGame, PenteGame])(c.r.choice([(5, 5), (6, 5), (5, 7)]))
        cells, w = g.size[0] * g.size[1], g.size[1]
        P = [GP.RandomGomokuPlayer, GP.KillingGomokuPlayer]
        if g.size[0] != g.size[1]:
            c.ev('rectangular board')
    position(c, g, c.r.choice([0, 3, cells // 2, cells, 2 * cells]))
    if isinstance(g, CaptureGame) and c.r.random() < .1:
        # two eyes: nothing but suicides for the other color
        g.reset()
        for q in list(g._iterPos())[1:-1]:
            g.doMove(g.BLACK, q)
    if g.gameOver():
        c.ev('over')
        return
    col = c.r.choice([1, -1])
    if isinstance(g, CaptureGame):
        # prefer the color that has nothing but suicides left
        col = ([x for x in (1, -1) if g.getLegals(x) and not g.getAcceptable(x)] + [col])[0]
    legal, kill = g.getLegals(col), sorted(set(g.getKilling(col)))
    if not legal:
        return
    n = 400
    cls = c.r.choice(P)
    p = cls(g, color=col)
    before = dict(g.b)
    name = {'RandomCapturePlayer': 'random player', 'RandomGomokuPlayer': 'random player', 'NonSuicidePlayer': 'nonsuicide player'}.get(
        cls.__name__, 'killing player')
    acts = [p.getAction() for _ in range(n)]
    c.ok(all(a[0] == col for a in acts), 'color', 'actions in the color of the player')
    c.eq(g.b, before, 'board kept', 'choosing a move changes no board')
    allowed = legal
    if name == 'killing player' and kill:
        allowed = kill
        c.ev('kill')
    elif name != 'random player' and isinstance(g, CaptureGame):
        allowed = g.getAcceptable(col) or legal
        if not g.getAcceptable(col):
            c.ev('no way but suicide')
    allowed = sorted(allowed)
    c.ok(all(tuple(a[1]) in allowed for a in acts), 'choice', '%s moved elsewhere than %r' % (cls.__name__, allowed))
    cnt = [sum(1 for a in acts if tuple(a[1]) == q) for q in allowed]
    if name == 'random player':
        freq_ok(c, cnt, [1. / len(allowed)] * len(allowed), n, 'choice', '%s uniform' % cls.__name__)
    c.ev(name)
    # a module decides
    mod = Prefer(c, g)
    mp = CP if isinstance(g, CaptureGame) else GP
    T = c.r.choice([.5, 1., 2.])
    greedy = c.r.random() < .5
    p = mp.ModuleDecidingPlayer(mod, g, color=col, temperature=T, greedySelection=greedy)
    acts = [p.getAction() for _ in range(n)]
    arr = g.getBoardArray()
    seen = arr if col == g.BLACK else arr.reshape(-1, 2)[:, ::-1].ravel()
    if col != g.BLACK:
        c.ev('inverted board')
    c.ok(all(np.array_equal(x, seen) for x in mod.log), 'module input', 'the module sees the board as self and other')
    c.ok(mod.resets >= n, 'module input', 'reset before each decision')
    idx = [q[0] * w + q[1] for q in legal]
    v = mod.vals[idx]
    if greedy:
        pr = (v == v.max()) / float((v == v.max()).sum())
        c.ev('greedy')
    else:
        pr = np.exp((v - v.max()) / T)
        pr /= pr.sum()
        c.ev('gibbs')
    c.ok(all(tuple(a[1]) in legal and a[0] == col for a in acts), 'choice', 'the module player moves legally')
    cnt = [sum(1 for a in acts if tuple(a[1]) == q) for q in legal]
    freq_ok(c, cnt, pr, n, 'module choice', 'module player (greedy %s) at %r' % (greedy, legal))
    p.newEpisode()
    c.ev('module player')
    c.sig('player', cls.__name__, type(g).__name__, str(g.size), len(legal), col, greedy)


class Scripted(object):
    """mixin: logs what it played, with which color and on which game"""
    def getAction(self):
        a = self.base.getAction(self)
        occ = [q for q, v in sorted(self.game.b.items()) if v != 0]
        if occ and self.bad and self.c.r.random() < self.bad:
            a = [self.color, self.c.r.choice(occ)]
            self.illegal += 1
        else:
            self.log.append((self, self.color, tuple(a[1])))
        return a

    def newEpisode(self):
        self.episodes += 1


def mk(c, base, g, log, bad=0.):
    p = type('S' + base.__name__, (Scripted, base), {'base': base})(g)
    p.c, p.log, p.bad, p.illegal, p.episodes = c, log, bad, 0, 0
    return p


def watch(g, games, log):
    """record every game: who moved what, who won in how many moves"""
    r, d = g.reset, g.doMove

    def reset():
        r()
        games.append({'from': len(log), 'stones': 0, 'moves': [], 'winner': None})

    def doMove(col, pos):
        if games and not games[-1]['moves']:
            games[-1]['stones'] = sum(1 for v in g.b.values() if v != 0)
        res = d(col, pos)
        if games:
            if res:
                games[-1]['moves'].append((col, pos))
            games[-1]['winner'], games[-1]['done'] = g.getWinner(), g.movesDone
        return res
    g.reset, g.doMove = reset, doMove


def k_tournament(c):
    seed(c.seed)
    which = c.r.choice(['capture', 'gomoku', 'gomoku', 'pente'])
    g = CaptureGame(c.r.randint(2, 4)) if which == 'capture' else (GomokuGame((5, 5)) if which == 'gomoku' else PenteGame((5, 5)))
    log, games = [], []
    watch(g, games, log)
    P = [CP.RandomCapturePlayer, CP.KillingPlayer, CP.NonSuicidePlayer] if which == 'capture' else [GP.RandomGomokuPlayer, GP.KillingGomokuPlayer]
    forced = c.r.random() < .4
    agents = [mk(c, c.r.choice(P), g, log, .3 if forced else 0.) for _ in range(c.r.choice([2, 3, 4, 5]))]
    t = Tournament(g, agents)
    t.forcedLegality = forced
    results, total, rounds = {}, 0, 0
    for _ in range(c.r.randint(1, 2)):
        if rounds and c.r.random() < .2:
            t.reset()
            results, total, rounds = {}, 0, 0
        rep = c.r.randint(1, 2)
        n0 = len(games)
        eps = [a.episodes for a in agents]
        res = t.organize(rep)
        rounds += rep
        new = [x for x in games[n0:]]
        order = [(a, b) for _ in range(rep) for a in agents for b in agents if a is not b]
        c.must(len(new) == len(order), 'games', '%d games, expected %d' % (len(new), len(order)))
        total += len(new)
        for x, (a, b) in zip(new, order):
            # with forced legality every move is legal; the moves alternate between a (who starts) and b
            cols = [m[0] for m in x['moves']]
            c.eq(cols, [g.startcolor * (-1) ** k for k in range(len(cols))], 'turns', 'colors in turn')
            who = [e for e in log[x['from']:]][:len(x['moves'])]
            c.ok(all(e[0] is (a, b)[k % 2] for k, e in enumerate(who)), 'turns', 'players in turn')
            w = x['winner']
            c.ok(w is not None, 'over', 'the game is decided')
            results.setdefault((a, b), []).append(a if w == g.startcolor else (b if w == -g.startcolor else g.DRAW))
            if w == g.DRAW:
                c.ev('draw')
        c.eq([a.episodes - e for a, e in zip(agents, eps)], [2 * rep * (len(agents) - 1)] * len(agents), 'games', 'new episodes of the players')
        c.ok(res == results, 'results', lambda: 'results %r, expected %r' % (list(res.values()), list(results.values())))
        c.eq((t.numGames, t.rounds), (total, rounds), 'games', 'number of games and rounds')
    if forced:
        c.ev('forced legality')
    start, k = c.r.choice([1500, 1000., 60., 0]), c.r.choice([32, 10.])
    elo = {}
    for i, a in enumerate(agents):
        if c.r.random() < .3:
            a.elo = c.r.choice([c.r.uniform(1000, 2000), c.r.uniform(-50, 120)])
            c.ev('elo carried over')
        elo[a] = getattr(a, 'elo', start)
    s0 = sum(elo.values())
    for i, a in enumerate(agents):
        for b in agents[i + 1:]:
            out = results[a, b] + results[b, a]
            s = sum(1. if r is a else (.5 if r == g.DRAW else 0.) for r in out)
            d = k * (s - len(out) / (1 + 10 ** ((elo[b] - elo[a]) / 400.)))
            elo[a] += d
            elo[b] -= d
    got = t.eloScore(start, k)
    for a in agents:
        c.close(got[a], elo[a], 'elo', 1e-9, 'rating')
        c.close(a.elo, elo[a], 'elo', 1e-9, 'rating kept by the agent')
    c.close(sum(got.values()), s0, 'elo', 1e-9, 'ratings are conserved')
    c.ev('elo')
    s = str(t)
    for a in agents:
        for b in agents:
            if a is not b:
                o = results[a, b]
                line = '%s won %d times and lost %d times against %s' % (a.name, sum(1 for r in o if r is a), sum(1 for r in o if r is b), b.name)
                c.ok(line in s, 'report', 'no line %r in\n%s' % (line, s))
    c.ev('tournament')
    c.sig('tournament', which, len(agents), total, forced, [type(a).__name__ for a in agents], [x['winner'] for x in games])


def k_stuck(c):
    """a player without legal moves is given up"""
    g = GomokuGame((5, 5))
    log = []
    a, b = mk(c, GP.RandomGomokuPlayer, g, log), mk(c, GP.RandomGomokuPlayer, g, log, 1.)
    t = Tournament(g, [a, b])
    t.forcedLegality = True
    c.raises(Exception, lambda: t.organize(1), 'legality', 'nothing but illegal moves')
    c.ok(b.illegal > 10 or a.illegal > 10, 'legality', 'tried again')
    c.ev('no legal move')
    c.sig('stuck', a.illegal, b.illegal)


def k_task(c):
    seed(c.seed)
    which = c.r.choice(['capture', 'gomoku', 'pente'])
    cls = {'capture': CaptureGameTask, 'gomoku': GomokuTask, 'pente': PenteTask}[which]
    size = c.r.randint(2, 5) if which == 'capture' else 5
    args = dict(alternateStarting=c.r.random() < .5, opponentStart=c.r.random() < .6, winnerReward=c.r.choice([1., 2.]),
                numMovesCoeff=c.r.choice([0., 0., .5, .9]), averageOverGames=c.r.randint(1, 6))
    P = CP if which == 'capture' else GP
    opp = c.r.choice([None, P.RandomCapturePlayer if which == 'capture' else P.RandomGomokuPlayer, P.KillingPlayer if which == 'capture' else
                      P.KillingGomokuPlayer])
    t = cls(size, opp, **args)
    g = t.env
    log, games = [], []
    watch(g, games, log)
    if c.r.random() < .6:
        x = mk(c, c.r.choice([P.RandomCapturePlayer, P.NonSuicidePlayer, P.KillingPlayer] if which == 'capture' else
                             [P.RandomGomokuPlayer, P.KillingGomokuPlayer]), g, log)
    else:
        x = Prefer(c, g)
    ocol = t.opponent.color
    c.eq(ocol, g.BLACK if args['opponentStart'] else g.WHITE, 'colors', 'color of the opponent')
    for _ in range(c.r.randint(1, 2)):
        n0 = len(games)
        log[:] = []
        f = t(x)
        new = games[n0:]
        c.must(len(new) == args['averageOverGames'], 'games', '%d games' % len(new))
        tot = 0.
        for q in new:
            c.eq([m[0] for m in q['moves']], [(-1) ** k for k in range(len(q['moves']))], 'turns', 'black starts, in turn')
            c.ok(q['winner'] is not None, 'over', 'decided')
            w = q['winner']
            r = args['winnerReward'] - args['numMovesCoeff'] * float(q['done'] - t.minmoves) / (t.maxmoves - t.minmoves)
            tot += 0 if w == g.DRAW else (r if w == -ocol else -r)
            if w == g.DRAW:
                c.ev('draw')
            c.ev('opponent starts' if ocol == g.BLACK else 'agent starts')
            if args['alternateStarting']:
                ocol = -ocol
                c.ev('alternate')
        c.close(f, tot / len(new), 'fitness', 1e-9, 'fitness with %r, winners %r' % (args, [q['winner'] for q in new]))
        if args['numMovesCoeff']:
            c.ev('moves coefficient')
        c.eq(t.opponent.color, ocol, 'colors', 'color of the opponent after the games')
    c.raises(NotImplementedError, lambda: t([1.]), 'fitness', 'fitness of a list')
    c.ev(which + ' task')
    c.sig('task', which, size, str(sorted(args.items())), [q['winner'] for q in games])


class Ref:
    """the documented handicap schedule"""
    def __init__(self, t):
        self.t, self.r = t, {0: [0, 0, 0, 0]}

    def win(self, h):
        w, n, a, b = self.r[h]
        if not n:
            return 0.
        return (w - n / 2.) / (n / 2.) + (.1 / (n * a) if a else 0) - (1. / (n * b) if b else 0)

    def up(self, h):
        return self.r[h][1] >= self.t.minEvals and self.win(h) > .6

    def down(self, h):
        return self.r[h][1] >= self.t.minEvals and self.win(h) < -.6

    def fluct(self):
        h = max(self.r) - 1
        m = 2 * self.t.minEvals
        return h > 0 and self.r[h][1] >= m and self.r[h - 1][1] >= m and self.up(h - 1) and self.down(h)

    def stable(self, h):
        full = self.r[h][1] >= 2 * self.t.minEvals
        return self.fluct() or full and (not self.up(h) and not self.down(h) or self.up(h) and h >= self.t.maxHandicaps or self.down(h) and h == 0)


def k_handicap(c):
    seed(c.seed)
    size = c.r.choice([3, 4, 5])
    t = HandicapCaptureTask(size, c.r.choice([None, CP.KillingPlayer, CP.NonSuicidePlayer]), maxGames=c.r.choice([5, 30, 60]), minEvals=c.r.choice([2, 3, 5]))
    g = t.env
    log, games = [], []
    watch(g, games, log)
    x = Prefer(c, g) if c.r.random() < .3 else mk(c, c.r.choice([CP.KillingPlayer, CP.KillingPlayer, CP.RandomCapturePlayer]), g, log)
    for _ in range(c.r.randint(1, 2)):
        games[:] = []
        f = t(x)
        R, cur = Ref(t), 0
        for k, q in enumerate(games):
            c.ok(k < t.maxGames and not R.stable(cur), 'handicap', 'the results were stable')
            h = q['stones']
            if h != cur and not (cur == 1 and h == 0):
                c.fail('handicap', 'game %d: %d handicap stones, expected %d; results %r' % (k, h, cur, R.r))
            cur = h
            c.eq([m[0] for m in q['moves']], [(-1) ** j for j in range(len(q['moves']))], 'turns', 'the opponent starts as black')
            r = R.r
            r.setdefault(cur + 1, [0, 0, 0, 0])
            won = q['winner'] == g.WHITE
            r[cur][1] += 1
            r[cur][0] += won
            r[cur][2 if won else 3] += q['done']
            if R.up(cur) and cur < t.maxHandicaps:
                cur += 1
                c.ev('handicap up')
            elif R.down(cur) and cur > 1:
                cur -= 1
        c.ok(len(games) == t.maxGames or R.stable(cur), 'handicap', 'stopped after %d games without a stable result' % len(games))
        c.eq({k: list(v) for k, v in t.results.items()}, R.r, 'handicap', 'results')
        hi = max(R.r) - 1
        want = hi - .5 + (R.win(hi) + R.win(hi - 1)) / 2. if R.fluct() else hi + R.win(hi)
        c.close(f, want, 'handicap', 1e-9, 'score')
    c.ev('handicap task')
    c.sig('handicap', size, t.maxGames, t.minEvals, len(games), [q['winner'] for q in games])


def k_schedule(c):
    """the handicap schedule under results that are chosen: up to the greatest handicap, back and forth, undecided"""
    size = c.r.choice([4, 4, 5])
    t = HandicapCaptureTask(size, None, maxGames=c.r.choice([30, 200]), minEvals=c.r.choice([2, 3, 4]))
    g = t.env
    how = c.r.choice(['all', 'edge', 'edge', 'edge', 'half'])
    top = 4 * size - 12
    edge = c.r.randint(1, top - 1)
    games = []

    def play(p1, p2):
        st = [v for v in g.b.values() if v != g.EMPTY]
        c.ok(all(v == g.BLACK for v in st), 'handicap', 'stones of the player: %r' % (st,))
        c.eq((p1 is t.opponent, p1.color, p2.color), (True, g.BLACK, g.WHITE), 'handicap', 'the opponent starts as black')
        h = len(st)
        won = {'all': True, 'edge': h <= edge, 'half': len(games) % 2 == 0}[how]
        m = c.r.randint(3, 12)
        g.winner, g.movesDone = (g.WHITE if won else g.BLACK), m
        games.append((h, won, m))
    g.playToTheEnd = play
    f = t(CP.KillingPlayer(g))
    R, cur = Ref(t), 0
    t0 = t.maxHandicaps
    c.eq(t0, top, 'handicap', 'stones on the second line of a board of %d' % size)
    for k, (h, won, m) in enumerate(games):
        c.ok(k < t.maxGames and not R.stable(cur), 'handicap', 'the results were stable')
        if h != cur and not (cur == 1 and h == 0):
            c.fail('handicap', 'game %d: %d handicap stones, expected %d; results %r' % (k, h, cur, R.r))
        cur = h
        c.ok(h <= top, 'handicap', '%d stones' % h)
        r = R.r
        r.setdefault(cur + 1, [0, 0, 0, 0])
        r[cur][1] += 1
        r[cur][0] += won
        r[cur][2 if won else 3] += m
        if R.up(cur) and cur < top:
            cur += 1
        elif R.down(cur) and cur > 1:
            cur -= 1
    c.ok(len(games) == t.maxGames or R.stable(cur), 'handicap', 'stopped after %d games without a stable result' % len(games))
    c.eq({k: list(v) for k, v in t.results.items()}, R.r, 'handicap', 'results')
    hi = max(R.r) - 1
    fl = R.fluct()
    c.close(f, hi - .5 + (R.win(hi) + R.win(hi - 1)) / 2. if fl else hi + R.win(hi), 'handicap', 1e-9, 'score after %r' % (R.r,))
    if fl:
        c.ev('fluctuating')
        c.ok(hi == edge + 1, 'handicap', 'between %d and %d' % (edge, edge + 1))
    if hi == top:
        c.ev('greatest handicap')
    c.sig('schedule', how, size, t.maxGames, t.minEvals, games)


def k_relative(c):
    seed(c.seed)
    cap = c.r.random() < .5
    args = dict(maxGames=c.r.choice([1, 3, 6, 15]), numMovesCoeff=c.r.choice([0., .5, .9]))
    if cap:
        t = RelativeCaptureTask(c.r.choice([3, 4, 5]), presetGamesProportion=c.r.choice([0., .5, .8]), **args)
    else:
        t = RelativeGomokuTask(5, **args)
    if c.r.random() < .3:
        t.useNetworks = True
    g = t.env
    log, games, scores = [], [], []
    watch(g, games, log)
    one = t._oneGame

    heat = []

    def spy(preset=None):
        n = len(games)
        attr = 'temperature' if t.useNetworks else 'randomPartMoves'
        heat.append((t.temp, getattr(t.player, attr, None), getattr(t.opponent, attr, None)))
        r = one(preset)
        scores.append((preset, r, games[n] if len(games) > n else None, t.temp))
        return r
    t._oneGame = spy
    if t.useNetworks:
        p1, p2 = Prefer(c, g), Prefer(c, g)
    else:
        B = [CP.RandomCapturePlayer, CP.KillingPlayer, CP.NonSuicidePlayer] if cap else [GP.RandomGomokuPlayer, GP.KillingGomokuPlayer]
        p1, p2 = [mk(c, c.r.choice(B), g, log) for _ in range(2)]
    t.maxTemperature = c.r.choice([.05, .2])
    noisy = not t.useNetworks and c.r.random() < .5
    if noisy:
        p1.randomPartMoves = p2.randomPartMoves = 0
    v = t(p1, p2)
    c.must(scores, 'games', 'no game played')
    # both players get as noisy as the temperature says, up to the greatest one; players which cannot stay as they are
    c.ok(heat[0][0] == 0 and all(a[0] <= b[0] for a, b in zip(heat, heat[1:])), 'temperature', 'temperatures %r' % ([h[0] for h in heat],))
    if t.useNetworks or noisy:
        f = (lambda x: x) if t.useNetworks else (lambda x: x / (x + 1.))
        cool = 0
        for temp, a, b in heat:
            cool = temp if temp <= t.maxTemperature else cool
            c.close([a, b], [f(cool)] * 2, 'temperature', 1e-9, 'of both players at %r' % temp)
            if temp > 0:
                c.ev('warmer')
    else:
        c.eq([h[0] for h in heat], [0] * len(heat), 'temperature', 'players without a temperature')
    for preset, r, q, temp in scores:
        cols = [m[0] for m in q['moves']]
        first = -1 if preset is not None else 1
        c.eq(cols, [first * (-1) ** k for k in range(len(cols))], 'turns', 'colors in turn')
        if preset is not None:
            c.ev('preset')
            c.eq(q['stones'], 1, 'preset', 'one stone')
            c.ok(all(1 <= x <= t.size - 2 for x in preset), 'preset', 'first stone %r at the border' % (preset,))
        done = len(cols) + (preset is not None)
        a = 1 - t.numMovesCoeff * float(done - t.minmoves) / (t.maxmoves - t.minmoves)
        w = q['winner']
        if w == g.DRAW:
            c.ev('draw')
        c.close(r, 0 if w == g.DRAW else (a if w == 1 else -a), 'score', 1e-9, 'score of a game (winner %r)' % w)
    rs = [s[1] for s in scores]
    c.ok(min(rs) - 1e-9 <= v <= max(rs) + 1e-9, 'score', 'average %r of %r' % (v, rs))
    if not cap:
        # later (warmer) games weigh less
        co = [1 / (10 * s[3] + 1) for s in scores]
        c.close(v, np.dot(co, rs) / sum(co), 'score', 1e-9, 'weighted average')
        c.eq(len(scores), t.maxGames, 'games', 'games')
    c.ev('relative capture' if cap else 'relative gomoku')
    c.sig('relative', cap, str(sorted(args.items())), rs)


KINDS = [('players', k_players, 120, 3000), ('tournament', k_tournament, 30, 1000), ('stuck', k_stuck, 4, 40), ('task', k_task, 50, 1500),
         ('handicap', k_handicap, 20, 500), ('schedule', k_schedule, 60, 1500), ('relative', k_relative, 40, 1000)]
