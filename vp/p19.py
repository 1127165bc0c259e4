"""P19: the rules and the bookkeeping of the board games."""
import numpy as np
from pybrain.rl.environments.twoplayergames import CaptureGame, GomokuGame
from pybrain.rl.environments.twoplayergames.pente import PenteGame
from vp.p12 import seed

RULE = ('a case plays one game (legal, illegal, suicidal, capturing moves, resignations, several moves of one color in a row) or sets up random and '
        'handicap boards; non-trivial when at least three stones were set; distinct by game, size and move list')
EXPECT = ['capture game', 'gomoku', 'pente', 'illegal move', 'suicide', 'suicide refused', 'capture', 'resign', 'merge', 'merge of three', 'five', 'overline',
          'draw', 'pair captured', 'several pairs', 'win by pairs', 'random board', 'handicap', 'rectangular board', 'full game', 'reset']
ASSUMPTIONS = ['positions are on the board', 'a stone is captured or suicidal by the rules of go, and the first one ends the capture game']


def nb(p, size):
    return [(p[0] + a, p[1] + b) for a, b in ((0, 1), (1, 0), (0, -1), (-1, 0)) if 0 <= p[0] + a < size[0] and 0 <= p[1] + b < size[1]]


def group(b, p, size):
    """(stones, liberties) of the group at p, by flood fill"""
    col, todo, seen, libs = b[p], [p], {p}, set()
    while todo:
        for n in nb(todo.pop(), size):
            if b.get(n) is None:
                libs.add(n)
            elif b[n] == col and n not in seen:
                seen.add(n)
                todo.append(n)
    return seen, libs


class Go:
    """reference capture game: a dict of stones, nothing else"""
    def __init__(self, n):
        self.size, self.b = (n, n), {}

    def kind(self, col, p):
        b = dict(self.b)
        b[p] = col
        if any(b.get(n) == -col and not group(b, n, self.size)[1] for n in nb(p, self.size)):
            return 'capture'
        return 'plain' if group(b, p, self.size)[1] else 'suicide'


def observe(c, g, stones, key):
    """every view of the board shows these stones"""
    cells = list(g._iterPos())
    W = g.size if isinstance(g.size, tuple) else (g.size, g.size)
    c.eq(cells, [(i, j) for i in range(W[0]) for j in range(W[1])], key, 'positions')
    c.eq((g.indim, g.outdim), (len(cells), 2 * len(cells)), key, 'dimensions')
    arr = np.zeros(2 * len(cells))
    for k, p in enumerate(cells):
        if p in stones:
            arr[2 * k + (1 if stones[p] == g.BLACK else 0)] = 1
    c.close(g.getBoardArray(), arr, key, 0, 'board array')
    c.eq(list(g.getSensors()), [stones.get(p, g.EMPTY) for p in cells], key, 'sensors')
    for p in cells:
        if g.b[p] != stones.get(p, 0):
            c.fail(key, 'position %r shows %r' % (p, g.b[p]))


def lists(c, g, ref, key):
    """legal, acceptable and killing moves of both colors"""
    free = [p for p in g._iterPos() if p not in ref.b]
    for col in (g.BLACK, g.WHITE):
        kinds = {p: ref.kind(col, p) for p in free}
        legal = [p for p in free if g.suicideenabled or kinds[p] != 'suicide']
        c.eq(sorted(g.getLegals(col)), sorted(legal), key, 'legal moves of %d' % col)
        c.eq(sorted(g.getAcceptable(col)), sorted(p for p in free if kinds[p] != 'suicide'), key, 'acceptable moves of %d' % col)
        c.eq(sorted(g.getKilling(col)), sorted(p for p in free if kinds[p] == 'capture'), key, 'killing moves of %d' % col)
        for p in g._iterPos():
            c.eq(bool(g.isLegal(col, p)), p in legal, key, 'legality of %r for %d' % (p, col))
    c.eq(g.isLegal(g.BLACK, (-1, 0)), False, key, 'outside the board')
    c.eq(g.isLegal(g.BLACK, (ref.size[0], 0)), False, key, 'outside the board')


def libs(c, g, ref, key):
    for p in g._iterPos():
        if p in ref.b:
            s, l = group(ref.b, p, ref.size)
            c.eq(g.getLiberties(p), len(l), key, 'liberties of %r' % (p,))
            c.eq(g.getGroupSize(p), len(s), key, 'group size of %r' % (p,))
        else:
            c.eq((g.getLiberties(p), g.getGroupSize(p)), (None, None), key, 'empty position')


def k_capture(c):
    n = c.r.choice([2, 3, 3, 4, 4, 5, 6])
    suic = c.r.random() < .6
    g = CaptureGame(n, suic)
    style = c.r.choice(['careful', 'careful', 'careful', 'anything'])
    order = c.r.choice(['alternate', 'alternate', 'any'])
    for _ in range(c.r.choice([1, 1, 2])):
        g.reset()
        c.ev('reset')
        ref, moves, col, done = Go(n), [], g.startcolor, 0
        c.eq((g.gameOver(), g.getWinner(), g.movesDone), (False, None, 0), 'reset', 'after a reset')
        for step in range(4 * n * n):
            lists(c, g, ref, 'moves')
            libs(c, g, ref, 'liberties')
            observe(c, g, ref.b, 'board')
            if order == 'any' and c.r.random() < .4:
                col = -col
            taken = sorted(ref.b)
            if taken and c.r.random() < .1:
                p = c.r.choice(taken)
                g.performAction([col, p])
                c.eq(g.movesDone, done, 'illegal', 'illegal moves are not done')
                c.eq(g.gameOver(), False, 'illegal', 'an illegal move ends nothing')
                c.ev('illegal move')
                continue
            if c.r.random() < .01:
                c.eq(g.doMove(col, 'resign'), True, 'resign', 'resigning')
                c.eq((g.gameOver(), g.getWinner()), (True, -col), 'resign', 'who resigns loses')
                c.ev('resign')
                break
            free = [p for p in g._iterPos() if p not in ref.b]
            if not free:
                break
            kinds = {p: ref.kind(col, p) for p in free}
            if style == 'careful':
                plain = [p for p in free if kinds[p] == 'plain']
                if plain and c.r.random() < .97:
                    free = plain
            p = c.r.choice(free)
            k = kinds[p]
            if k == 'suicide' and not suic:
                c.eq(g.doMove(col, p), False, 'suicide', 'suicide is illegal')
                c.eq((g.movesDone, g.gameOver()), (done, False), 'suicide', 'refused suicide')
                c.ev('suicide refused')
                col = -col
                if all(ref.kind(x, q) == 'suicide' for x in (1, -1) for q in [q for q in g._iterPos() if q not in ref.b]):
                    break
                continue
            if c.r.random() < .5:
                c.eq(g.doMove(col, p), True, 'legal', 'legal move')
            else:
                g.performAction((col, p))
                c.eq(g.lastplayer, col, 'legal', 'last player')
            done += 1
            moves.append((col, p))
            c.eq(g.movesDone, done, 'count', 'moves done')
            if k == 'plain':
                mates = set()
                for q in nb(p, ref.size):
                    if ref.b.get(q) == col:
                        mates.add(min(group(ref.b, q, ref.size)[0]))
                if len(mates) >= 2:
                    c.ev('merge')
                if len(mates) >= 3:
                    c.ev('merge of three')
                ref.b[p] = col
                c.must(not g.gameOver() and g.getWinner() is None, 'over', 'a plain move ends nothing')
                col = -col
                continue
            c.ev(k)
            c.ev('full game')
            c.eq((g.gameOver(), g.getWinner()), (True, col if k == 'capture' else -col), 'over', 'winner after a %s' % k)
            break
        str(g)
        c.ev('capture game')
        if len(moves) >= 3:
            c.sig('capture', n, suic, tuple(moves))


def k_boards(c):
    seed(c.seed)
    n = c.r.randint(3, 9)
    g = CaptureGame(n)
    if c.r.random() < .6:
        m = c.r.choice([0, 1, 5, n * n // 2, n * n])
        k = g.randomBoard(m)
        ref = Go(n)
        ref.b = {p: v for p, v in g.b.items() if v != 0}
        c.eq(len(ref.b), k, 'random board', 'stones on the board')
        c.ok(k <= m, 'random board', 'at most %d stones' % m)
        c.eq((g.gameOver(), sum(ref.b.values())), (False, k % 2), 'random board', 'undecided, alternating')
        for p in ref.b:
            c.ok(group(ref.b, p, ref.size)[1], 'random board', 'a stone without liberties')
        if k < m:
            col = g.BLACK if k % 2 == 0 else g.WHITE
            c.ok(all(ref.kind(col, p) != 'plain' for p in g._iterPos() if p not in ref.b), 'random board', 'it could have gone on')
        libs(c, g, ref, 'random board')
        if n < 7:
            lists(c, g, ref, 'random board')
        c.ev('random board')
        c.sig('random', n, tuple(sorted(ref.b.items())))
    else:
        h = c.r.randint(0, 2 * n)
        col = c.r.choice([1, -1])
        g.giveHandicap(h, col)
        ref = Go(n)
        ref.b = {p: v for p, v in g.b.items() if v != 0}
        # all of them on the second line
        line = [p for p in g._iterPos() if min(p[0], p[1], n - 1 - p[0], n - 1 - p[1]) == 1] if n > 2 else []
        c.eq(len(ref.b), min(h, len(set(line))), 'handicap', 'handicap stones on size %d' % n)
        c.ok(all(v == col and p in line for p, v in ref.b.items()), 'handicap', 'stones %r' % ref.b)
        c.eq(g.gameOver(), False, 'handicap', 'over')
        libs(c, g, ref, 'handicap')
        c.ev('handicap')
        c.sig('handicap', n, h, col)


def run_len(b, p, col, d):
    n = 1
    for s in (1, -1):
        q = (p[0] + s * d[0], p[1] + s * d[1])
        while b.get(q) == col:
            n += 1
            q = (q[0] + s * d[0], q[1] + s * d[1])
    return n


DIRS = [(0, 1), (1, 0), (1, 1), (1, -1)]


def five(b, p, col):
    return max(run_len(b, p, col, d) for d in DIRS) >= 5


def pairs(b, p, col):
    out = []
    for d in DIRS:
        for s in (1, -1):
            q = [(p[0] + s * k * d[0], p[1] + s * k * d[1]) for k in (1, 2, 3)]
            if b.get(q[0]) == -col and b.get(q[1]) == -col and b.get(q[2]) == col:
                out += q[:2]
    return out


def k_rows(c, pente=False):
    cls = PenteGame if pente else GomokuGame
    size = c.r.choice([(5, 5), (5, 6), (7, 5), (6, 6), (9, 9)])
    if size[0] != size[1]:
        c.ev('rectangular board')
    g = cls(size)
    total = size[0] * size[1]
    style = c.r.choice(['random', 'avoid', 'avoid', 'pairs' if pente else 'lines'])
    for _ in range(c.r.choice([1, 1, 2])):
        g.reset()
        c.ev('reset')
        b, taken, done, moves, over = {}, {1: 0, -1: 0}, 0, [], False
        if pente:
            b[(size[0] // 2, size[1] // 2)] = -g.startcolor
            done = 1
        col = g.startcolor
        c.eq((g.movesDone, g.gameOver(), g.getWinner()), (done, False, None), 'reset', 'after a reset')
        while not over and len(moves) < 400:
            observe(c, g, b, 'board')
            free = [p for p in g._iterPos() if p not in b]
            for x in (1, -1):
                c.eq(sorted(g.getLegals(x)), free, 'moves', 'legal moves')
                if len(moves) % 3 == 0 or len(free) < 8:
                    kill = [p for p in free if five(b, p, x) or (pente and taken[x] + len(pairs(b, p, x)) // 2 >= 5)]
                    c.eq(sorted(set(g.getKilling(x))), kill, 'moves', 'killing moves of %d' % x)
            if c.r.random() < .05 and b:
                c.eq(g.doMove(col, c.r.choice(sorted(b))), False, 'illegal', 'occupied')
                c.eq((g.movesDone, g.gameOver()), (done, False), 'illegal', 'an illegal move changes nothing')
                c.ev('illegal move')
                continue
            if c.r.random() < .03:
                col = -col
            cand = free
            if style == 'avoid':
                cand = [p for p in free if not five(b, p, col)] or free
            elif style == 'pairs':
                cand = [p for p in free if pairs(b, p, col)] or \
                       [p for p in free if not five(b, p, col) and any(b.get((p[0] + x, p[1] + y)) == col for x in (-1, 0, 1) for y in (-1, 0, 1))] or free
            elif style == 'lines':
                m = {p: max(run_len(b, p, col, d) for d in DIRS) for p in free}
                # rows are filled such that more than five stones get connected at once
                long = [p for p in free if m[p] > 5] or [p for p in free if m[p] != 5]
                cand = long or free
                if c.r.random() < .6 and long:
                    top = max(m[p] for p in long)
                    cand = [p for p in long if m[p] == top]
                if c.r.random() < .5:
                    col = 1
            p = c.r.choice(cand)
            f, k = five(b, p, col), pairs(b, p, col) if pente else []
            if c.r.random() < .5:
                c.eq(g.doMove(col, p), True, 'legal', 'legal move')
            else:
                g.performAction((col, p))
                c.eq(g.lastplayer, col, 'legal', 'last player')
            done += 1
            moves.append((col, p))
            c.eq(g.movesDone, done, 'count', 'moves done')
            if f:
                c.ev('five')
                if max(run_len(b, p, col, d) for d in DIRS) > 5:
                    c.ev('overline')
                want = col
            elif k and taken[col] + len(k) // 2 >= 5:
                c.ev('win by pairs')
                want = col
            else:
                b[p] = col
                for q in k:
                    del b[q]
                taken[col] += len(k) // 2
                if k:
                    c.ev('pair captured')
                    if len(k) > 2:
                        c.ev('several pairs')
                want = None
                if len(b) == total:
                    c.ev('draw')
                    want = g.DRAW
                    observe(c, g, b, 'board')
                if pente:
                    c.eq(g.pairsTaken, taken, 'pairs', 'pairs taken')
            c.must((g.gameOver(), g.getWinner()) == (want is not None, want), 'over',
                   'after %r of %r (five %s, pairs %d): over %s, winner %r, expected %r' % (p, col, f, len(k), g.gameOver(), g.getWinner(), want))
            over = want is not None
            col = -col
        if over:
            c.ev('full game')
        str(g)
        c.ev('pente' if pente else 'gomoku')
        if len(moves) >= 3:
            c.sig(cls.__name__, size, tuple(moves))


def k_pente(c):
    k_rows(c, True)


KINDS = [('capture', k_capture, 120, 4000), ('boards', k_boards, 60, 1500), ('gomoku', k_rows, 80, 2500), ('pente', k_pente, 120, 4000)]
