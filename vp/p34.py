"""P34: self-organizing maps and sampling layers."""
import copy, pickle
import numpy as np
from pybrain.structure import FeedForwardNetwork, LinearLayer, FullConnection, IdentityConnection
from pybrain.structure.modules import KohonenMap
from pybrain.structure.modules.samplelayer import BernoulliLayer
from vp.core import rnd_vec, frozen

RULE = ('a case drives one map through a random history of inputs, training steps, changed settings and copies, trains one map on clustered '
        'or spread data, or draws from one sampling layer; non-trivial with at least two steps; distinct by sizes, settings and history')
EXPECT = ['winner', 'full map', 'trained', 'trained again without a new input', 'neighborhood smaller than the map', 'neighborhood gone to the winner',
          'at the border', 'settings changed', 'copied', 'pickled', 'in a network', 'tie', 'error falls', 'order', 'sampled', 'certain units', 'independent units']
ASSUMPTIONS = ['ties between neurons may be broken either way', 'frequencies are compared within five standard deviations under fixed seeds']


def distances(W, x):
    return ((W - x) ** 2).sum(axis=2)


def k_history(c):
    """random inputs, training steps, settings and copies, followed by a model of the neurons"""
    r = c.r
    dim, n = r.randint(1, 4), r.randint(1, 6)
    full = r.random() < .4
    som = KohonenMap(dim, n, outputFullMap=full)
    c.eq((som.indim, som.outdim), (dim, n * n if full else 2), 'dimensions')
    c.eq(som.neurons.shape, (n, n, dim), 'shape')
    c.ok(bool(np.all((som.neurons >= 0) & (som.neurons <= 1))), 'initial neurons')
    if r.random() < .4:
        som.neurons = np.array(rnd_vec(c, n * n * dim)).reshape(n, n, dim)
    if r.random() < .15 and n > 1:
        som.neurons[:] = som.neurons[0, 0]
        c.ev('tie')
    # the module itself, or as the last part of a network
    innet = r.random() < .3
    top = som
    if innet:
        top = FeedForwardNetwork()
        a = LinearLayer(dim)
        top.addInputModule(a)
        top.addOutputModule(som)
        top.addConnection(IdentityConnection(a, som))
        top.sortModules()
        c.ev('in a network')
    W = som.neurons.copy()
    rate, neigh, decay = .01, float(n), .9999
    last = None
    steps = r.randint(4, 40)
    log = []
    for _ in range(steps):
        op = r.choice('aaaattttscp') if last is not None else 'a'
        log.append(op)
        if op == 'a':
            x = rnd_vec(c, dim, r.choice([.3, 1, 3]))
            if r.random() < .2:
                x = W[r.randrange(n), r.randrange(n)] + 0
            y = top.activate(frozen(x))
            d = distances(W, x)
            c.close(som.neurons, W, 'looking changes the map', 0)
            if full:
                c.close(y, d.reshape(-1), 'full map', 1e-9)
                c.ev('full map')
            best = [tuple(p) for p in np.argwhere(d <= d.min() + 1e-12 * (1 + d.min()))]
            win = tuple(int(v) for v in som.winner)
            if not full:
                c.must(tuple(y) in best, 'winner', lambda: 'answered %s, nearest are %s' % (y, best))
                c.eq(tuple(y), win, 'winner is the answer')
            else:
                c.must(win in best, 'winner', lambda: 'winner %s, nearest are %s' % (win, best))
            c.ev('winner')
            last = [x, win, W.copy(), 0]
        elif op == 't':
            x, win, Wseen, count = last
            if innet and r.random() < .5:
                top.backActivate(np.zeros(top.outdim))
            else:
                som.backward()
            rad = int(np.floor(neigh))
            E = W.copy()
            inside = 0
            for i in range(n):
                for j in range(n):
                    if abs(i - win[0]) <= rad and abs(j - win[1]) <= rad:
                        f = max(0., 1 - (abs(i - win[0]) + abs(j - win[1])) / float(n))
                        E[i, j] -= rate * f * (Wseen[i, j] - x)
                        inside += 1
            c.close(som.neurons, E, 'training step', 1e-9, 'winner %s, radius %d, size %d, rate %s' % (win, rad, n, rate))
            neigh *= decay
            c.close(som.neighbours, neigh, 'neighborhood decay', 1e-9)
            W = som.neurons.copy()
            c.ev('trained')
            if count:
                c.ev('trained again without a new input')
            last[3] += 1
            if inside < n * n:
                c.ev('neighborhood smaller than the map')
                if 0 in win or n - 1 in win:
                    c.ev('at the border')
            if inside == 1 and n > 1:
                c.ev('neighborhood gone to the winner')
        elif op == 's':
            rate = som.learningrate = r.choice([.01, .1, .5, 1.])
            neigh = som.neighbours = float(r.choice([n, n - .5, 1.5, 1., .7, 2.2, r.random() * n]))
            decay = som.neighbourdecay = r.choice([.9999, .9, .5])
            c.ev('settings changed')
        else:
            o = top.copy() if op == 'c' and innet else copy.deepcopy(top) if op == 'c' else pickle.loads(pickle.dumps(top, r.choice([0, 2])))
            osom = o if not innet else [m for m in o.modules if isinstance(m, KohonenMap)][0]
            c.ok(osom is not som, 'copy is the same object')
            c.close(osom.neurons, W, 'copied neurons', 0)
            c.close((osom.learningrate, osom.neighbours, osom.neighbourdecay), (rate, neigh, decay), 'copied settings', 1e-12)
            # train the side that is not followed any more
            if r.random() < .5:
                o, top, osom, som = top, o, som, osom
                last = None
            for _ in range(2):
                o.activate(rnd_vec(c, dim))
                osom.backward()
            c.close(som.neurons, W, 'copy is not independent', 0)
            c.close(som.neighbours, neigh, 'copy is not independent: neighborhood', 0)
            c.ev('copied' if op == 'c' else 'pickled')
    c.sig(dim, n, full, innet, ''.join(log))
    c.sample({'dim': dim, 'neurons': n * n, 'full map': full, 'operations': ''.join(log)})


def k_learning(c):
    """maps come to lie over their data, neighbors near each other"""
    r = c.r
    n = r.randint(3, 5)
    som = KohonenMap(2, n)
    som.learningrate, som.neighbourdecay = .1, .998
    data = c.np.rand(300, 2) * 4 - 2 if r.random() < .5 else \
        np.concatenate([c.np.randn(100, 2) * .1 + m for m in ([2, 2], [-2, 2], [0, -2])])
    def err():
        return float(np.mean([distances(som.neurons, x).min() for x in data]))
    before = err()
    for _ in range(2500):
        som.activate(data[c.np.randint(len(data))])
        som.backward()
    after = err()
    c.ok(after < .5 * before, 'error does not fall', 'from %s to %s' % (before, after))
    c.ev('error falls')
    W = som.neurons
    near = np.mean([((W[i, j] - W[i + 1, j]) ** 2).sum() for i in range(n - 1) for j in range(n)] +
                   [((W[i, j] - W[i, j + 1]) ** 2).sum() for i in range(n) for j in range(n - 1)])
    flat = W.reshape(-1, 2)
    far = np.mean([((a - b) ** 2).sum() for a in flat for b in flat]) * n * n / (n * n - 1.)
    c.ok(near < .75 * far, 'no order', 'neighbors %s, all pairs %s' % (near, far))
    c.ev('order')
    c.sig(n, round(before, 3))


def k_sample(c):
    """units of a sampling layer are zero with the probability of their input, independently"""
    r = c.r
    n = r.randint(2, 5)
    lay = BernoulliLayer(n)
    p = np.array([r.choice([0., 1., .5, r.random(), r.random()]) for _ in range(n)])
    N = 3000
    out = np.array([lay.activate(frozen(p)) for _ in range(N)])
    c.ok(bool(np.all((out == 0) | (out == 1))), 'sampled values')
    m = out.mean(axis=0)
    for i in range(n):
        if p[i] in (0., 1.):
            c.eq(m[i], 1 - p[i], 'certain unit')
            c.ev('certain units')
        else:
            c.ok(abs(m[i] - (1 - p[i])) < 5 * np.sqrt(p[i] * (1 - p[i]) / N) + 1e-9, 'frequency', '%s for %s' % (m[i], p[i]))
    for i in range(n):
        for j in range(i):
            s = np.sqrt(p[i] * (1 - p[i]) * p[j] * (1 - p[j]) / N)
            cov = ((out[:, i] - 1 + p[i]) * (out[:, j] - 1 + p[j])).mean()
            c.ok(abs(cov) < 5 * s + 1e-9, 'units are not independent', '%s, bound %s' % (cov, 5 * s))
            c.ev('independent units')
    # successive draws are independent as well
    q = (out[1:] - 1 + p) * (out[:-1] - 1 + p)
    c.ok(bool(np.all(abs(q.mean(axis=0)) < 5 * p * (1 - p) / np.sqrt(N - 1) + 1e-9)), 'draws are not independent')
    c.ev('sampled')
    c.sig(n, tuple(np.round(p, 3)))


KINDS = [('history', k_history, 200, 8000), ('learning', k_learning, 8, 80), ('sampling', k_sample, 12, 300)]
