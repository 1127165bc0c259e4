"""P22: model-based reinforcement learning."""
import itertools, random
import numpy as np
from pybrain.rl.learners.modelbased import policyiteration as pi
from pybrain.rl.learners.modelbased import leastsquares as ls
from vp.p12 import seed

RULE = ('a case builds one random decision process (transition matrices, rewards, discount, policy, features) and asks for its values, policies or '
        'least-squares estimates; non-trivial with at least two states and two actions; distinct by sizes, discount, structure and kind of features')
EXPECT = ['values', 'q values', 'collapse', 'greedy', 'greedy tie', 'q policy', 'q tie', 'random policy', 'random deterministic', 'policy iteration',
          'initial policy', 'custom evaluator', 'feature stats', 'small stats', 'sampled stats', 'lstd', 'lstd q', 'lspi', 'lstd pi', 'deterministic', 'absorbing',
          'iteration limit', 'steps', 'one step']
ASSUMPTIONS = ['values are truncated after 10/(1-discount) steps, as the code documents by its horizon: the comparison allows the discounted rest',
               'feature maps have one column per state (the layout that the code uses; the documentation speaks of rows)']


def mdp(c, smax=6, amax=4):
    S, A = c.r.randint(1, smax), c.r.randint(1, amax)
    how = c.r.choice(['dense', 'sparse', 'deterministic', 'absorbing'])
    Ts = []
    for a in range(A):
        T = np.zeros((S, S))
        for s in range(S):
            if how == 'deterministic' or (how == 'sparse' and c.r.random() < .4):
                T[s, c.r.randrange(S)] = 1.
            elif how == 'absorbing' and s == S - 1:
                T[s, s] = 1.
            else:
                w = np.array([c.r.random() if how == 'dense' or c.r.random() < .6 else 0. for _ in range(S)])
                if w.sum() == 0:
                    w[c.r.randrange(S)] = 1.
                T[s] = w / w.sum()
        Ts.append(T)
    R = np.array([c.r.choice([c.r.gauss(0, 1), 0., 1., -1., 5.]) for _ in range(S)])
    g = c.r.choice([0., .1, .5, .9, .95, .95, .97, .98, .99])
    P = np.array([[c.r.choice([c.r.random() + .01, .01, 1.]) for _ in range(A)] for _ in range(S)])
    P /= P.sum(1)[:, None]
    if how in ('deterministic', 'absorbing'):
        c.ev(how)
    if S > 1 and A > 1:
        c.sig(S, A, how, g)
    return S, A, Ts, R, g, P


def values(T, R, g):
    """sum of discounted rewards, those of the next states counting in full"""
    return np.linalg.solve(np.eye(len(R)) - g * T, T.dot(R))


def rest(R, g):
    """what may be missing after the documented horizon"""
    n = max(int(10 / (1. - g)), 1)
    return g ** n * abs(R).max() / (1 - g) + 1e-9


def collapse(Ts, P):
    return sum(P[:, a][:, None] * Ts[a] for a in range(len(Ts)))


def qs(Ts, R, g, V):
    return np.array([T.dot(R + g * V) for T in Ts]).T


def optimal(Ts, R, g):
    V = np.zeros(len(R))
    for _ in range(3000):
        W = qs(Ts, R, g, V).max(1)
        if abs(W - V).max() < 1e-13:
            break
        V = W
    return W


def near(c, a, b, tol, key, msg):
    c.must(np.shape(a) == np.shape(b), key, '%s: shape %s, expected %s' % (msg, np.shape(a), np.shape(b)))
    c.ok(abs(np.asarray(a) - b).max() <= tol, key, lambda: '%s: got %s, expected %s' % (msg, a, b))


def k_values(c):
    S, A, Ts, R, g, P = mdp(c)
    keep = [T.copy() for T in Ts], R.copy(), P.copy()
    T = pi.collapsedTransitions(Ts, P)
    c.close(T, collapse(Ts, P), 'collapse', 1e-12)
    c.close(T.sum(1), np.ones(S), 'collapse', 1e-12, 'rows')
    c.ev('collapse')
    V = pi.trueValues(T, R, g)
    near(c, V, values(T, R, g), rest(R, g), 'values', 'discount %s' % g)
    c.ev('values')
    Q = pi.trueQValues(Ts, R, g, P)
    near(c, Q, qs(Ts, R, g, values(T, R, g)), rest(R, g), 'q values', 'discount %s' % g)
    c.ev('q values')
    near(c, (Q * P).sum(1), V, 2 * rest(R, g), 'consistency', 'values as averages of Q values')
    c.ok(all((a == b).all() for a, b in zip(Ts, keep[0])) and (R == keep[1]).all() and (P == keep[2]).all(), 'input', 'the model was changed')


def argmaxes(row, tol):
    m = max(row)
    return [i for i, v in enumerate(row) if v >= m - tol]


def soft(c, P, Q, key, exact):
    """rows of a greedy policy: uniform over the best actions"""
    c.must(P.shape == Q.shape, key, 'shape %s' % (P.shape,))
    c.close(P.sum(1), np.ones(len(P)), key, 1e-12, 'rows')
    for s in range(len(Q)):
        sup = [a for a in range(Q.shape[1]) if P[s, a] > 0]
        c.close(P[s, sup], np.ones(len(sup)) / len(sup), key, 1e-12, 'ties are broken softly')
        wide = argmaxes(Q[s], 0. if exact else 1e-9 * (1 + abs(Q[s]).max()))
        c.ok(set(sup) <= set(wide), key, 'actions %s of values %s' % (sup, Q[s]))
        if exact:
            c.eq(sup, wide, key, 'values %s' % Q[s])
        if len(sup) > 1:
            c.ev('q tie' if exact else 'greedy tie')


def k_greedy(c):
    seed(c.seed)
    S, A, Ts, R, g, P = mdp(c)
    V = np.array([c.r.choice([c.r.gauss(0, 2), 0., 1.]) for _ in range(S)])
    if c.r.random() < .3 and A > 1:
        Ts[1] = Ts[0].copy()
    pol, T = pi.greedyPolicy(Ts, R, g, V)
    soft(c, pol, qs(Ts, R, g, V), 'greedy', False)
    c.close(T, collapse(Ts, pol), 'greedy', 1e-12, 'collapsed transitions')
    c.ev('greedy')
    Q = np.array([[c.r.choice([c.r.gauss(0, 1), 0., 1., -1.]) for _ in range(A)] for _ in range(S)])
    soft(c, pi.greedyQPolicy(Q), Q, 'q policy', True)
    c.ev('q policy')
    pol, T = pi.randomPolicy(Ts)
    c.close(pol, np.ones((S, A)) / A, 'random policy', 1e-12)
    c.close(T, collapse(Ts, pol), 'random policy', 1e-12)
    c.ev('random policy')
    cnt = np.zeros((S, A))
    n = 40
    for _ in range(n):
        pol, T = pi.randomDeterministic(Ts)
        c.must(pol.shape == (S, A), 'random deterministic', 'shape %s' % (pol.shape,))
        c.ok(((pol == 0) | (pol == 1)).all() and (pol.sum(1) == 1).all(), 'random deterministic', 'not one action per state: %s' % pol)
        c.close(T, collapse(Ts, pol), 'random deterministic', 1e-12)
        cnt += pol
    tot = cnt.sum(0)
    m, v = float(n * S) / A, n * S / float(A) * (1 - 1. / A)
    c.ok((abs(tot - m) <= 6 * v ** .5 + 3 * (v > 0)).all(), 'random deterministic', 'actions chosen %s times' % tot)
    c.ev('random deterministic')


def judge(c, Ts, R, g, pol, T, key, slack):
    A, S = len(Ts), len(R)
    c.must(np.shape(pol) == (S, A), key, 'shape %s' % (np.shape(pol),))
    c.close(pol.sum(1), np.ones(S), key, 1e-9, 'rows of the policy')
    c.close(T, collapse(Ts, pol), key, 1e-2, 'collapsed transitions')
    best, got = optimal(Ts, R, g), values(collapse(Ts, pol), R, g)
    c.ok((got >= best - slack).all(), key, lambda: 'policy %s is worth %s, optimal is %s (discount %s)' % (pol.tolist(), got, best, g))
    c.ok((got <= best + 1e-6).all(), 'oracle', 'better than optimal')


def k_policyiteration(c):
    seed(c.seed)
    S, A, Ts, R, g, P = mdp(c)
    kw = {}
    if c.r.random() < .5:
        kw['initpolicy'] = P.copy()
        c.ev('initial policy')
    exact = c.r.random() < .5
    calls = []
    if exact:
        def ev(T):
            calls.append(1)
            return values(T, R, g)
        kw['VEvaluator'] = ev
        c.ev('custom evaluator')
    limit = c.r.choice([None, None, 0, 1, 2])
    if limit is not None:
        kw['maxIters'] = limit
    pol, T = pi.policyIteration(Ts, R, g, **kw)
    if exact:
        c.ok(1 <= len(calls) <= (limit or 20) or limit == 0 and not calls, 'iterations', '%d evaluations for limit %s' % (len(calls), limit))
    if limit is None:
        judge(c, Ts, R, g, pol, T, 'policy iteration', 1e-6 if exact else 4 * rest(R, g) / (1 - g))
        c.ev('policy iteration')
    else:
        # as far as it got: one improvement each
        cur = kw.get('initpolicy', np.ones((S, A)) / A)
        lo = values(collapse(Ts, cur), R, g)
        got = values(collapse(Ts, pol), R, g)
        c.ok((got >= lo - 4 * rest(R, g) / (1 - g)).all(), 'improvement', 'worth %s, started with %s' % (got, lo))
        if limit == 0:
            c.close(pol, cur, 'limit', 1e-12)
        elif limit == 1:
            soft(c, pol, qs(Ts, R, g, lo), 'limit', False) if exact and abs(pol - cur).sum() > 1e-3 else None
        c.ev('iteration limit')
    if 'initpolicy' in kw:
        c.ok((kw['initpolicy'] == P).all(), 'input', 'initial policy was changed')


def iterate(start, improve, limit):
    """the policy after the given number of improvements, or where they end"""
    cur = start
    for _ in range(limit):
        new = improve(cur)
        if abs(new - cur).sum() < 1e-3:
            return cur
        cur = new
    return cur


def k_steps(c):
    """each iteration is one evaluation and one improvement, made of the functions that the other cases judge"""
    seed(c.seed)
    S, A, Ts, R, g, P = mdp(c, 6, 4)
    F = np.eye(S)
    if c.r.random() < .4:
        F = np.array([[c.r.gauss(0, 1) for _ in range(S)] for _ in range(S)])
    limit = c.r.choice([0, 1, 1, 2, 3, 20])
    kw = {'maxIters': limit}
    start = np.ones((S, A)) / A
    if c.r.random() < .6:
        start = P.copy()
        kw['initpolicy'] = P.copy()
    own = lambda T: pi.trueValues(T, R, g)
    custom = lambda T: values(T, R, g) ** 2 - R
    lv = lambda T: ls.LSTD_values(T, R, F, g)
    todo = [('policy iteration', lambda: pi.policyIteration(Ts, R, g, **kw), lambda p: pi.greedyPolicy(Ts, R, g, own(collapse(Ts, p)))[0]),
            ('custom values', lambda: pi.policyIteration(Ts, R, g, VEvaluator=custom, **kw), lambda p: pi.greedyPolicy(Ts, R, g, custom(collapse(Ts, p)))[0]),
            ('LSTD_PI_policy', lambda: ls.LSTD_PI_policy(F, Ts, R, g, **kw), lambda p: pi.greedyPolicy(Ts, R, g, lv(collapse(Ts, p)))[0]),
            ('LSPI_policy', lambda: ls.LSPI_policy(F, Ts, R, g, **kw), lambda p: pi.greedyQPolicy(ls.LSTD_Qvalues(Ts, p, R, F, g)))]
    for name, f, improve in todo:
        pol, T = f()
        want = iterate(start, improve, limit)
        # one that rounding decides may end elsewhere
        near_tie = abs(iterate(start, lambda p: improve(p * (1 + 1e-13)), limit) - want).sum() > 1e-9
        if not near_tie:
            c.close(pol, want, 'steps', 1e-9, '%s with at most %d iterations' % (name, limit))
        c.close(T, collapse(Ts, pol), 'steps', 1e-2, 'transitions of %s' % name)
    c.ev('steps')
    if limit == 1:
        c.ev('one step')


def fixed_point(Ts_w, R, F, g, nxt):
    """sums over all transitions of the statistics of LSTD"""
    k = F.shape[0]
    A, b = np.zeros((k, k)), np.zeros(k)
    for (i, f, p, j) in Ts_w:
        A += p * np.outer(f, f - g * nxt[:, j])
        b += p * R[j] * f
    return A, b


def features(c, S):
    how = c.r.choice(['tabular', 'random', 'few', 'binary'])
    if how == 'tabular':
        return how, np.eye(S)
    k = S if how == 'random' else c.r.randint(1, max(1, S - 1))
    if how == 'binary':
        return how, np.array([[float(c.r.random() < .5) for _ in range(S)] for _ in range(k)])
    return how, np.array([[c.r.gauss(0, 1) for _ in range(S)] for _ in range(k)])


def k_lstd(c):
    seed(c.seed)
    S, A, Ts, R, g, P = mdp(c)
    how, F = features(c, S)
    T = collapse(Ts, P)
    tr = [(s, F[:, s], T[s, j], j) for s in range(S) for j in range(S)]
    M, b = fixed_point(tr, R, F, g, F)
    for kw in ({}, {'MAT_LIMIT': 0}):
        m, v = ls.trueFeatureStats(T.copy(), R.copy(), F.copy(), g, **kw)
        c.close(m, M, 'feature stats', 1e-9, '%s' % kw)
        c.close(v, b, 'feature stats', 1e-9, 'residual %s' % kw)
        c.ev('small stats' if kw else 'feature stats')
    prop = c.r.choice([.5, .7, .3])
    m, v = ls.trueFeatureStats(T.copy(), R.copy(), F.copy(), g, stateProp=prop)
    k = int(S * prop)
    if S <= 6:
        good = False
        for sub in itertools.combinations(range(S), k):
            a, d = fixed_point([t for t in tr if t[3] in sub], R, F, g, F)
            good = good or (abs(a - m).max() < 1e-9 and abs(d - v).max() < 1e-9)
        c.ok(good, 'sampled stats', 'statistics of no %d of %d states' % (k, S))
    c.ev('sampled stats')
    V = ls.LSTD_values(T.copy(), R.copy(), F.copy(), g)
    c.must(np.shape(V) == (S,), 'lstd', 'shape %s' % (np.shape(V),))
    sv = np.linalg.svd(M, compute_uv=False)
    if sv[-1] > 1e-6 * max(sv[0], 1e-6):
        w = np.linalg.solve(M, b)
        near(c, V, w.dot(F), 1e-6 * (1 + abs(w).max()) * (1 + abs(F).max()) / min(1., sv[-1]), 'lstd', 'estimated values')
        if how == 'tabular':
            near(c, V, values(T, R, g), 1e-7 * (1 + abs(R).max()) / (1 - g), 'lstd true', 'tabular features')
        c.ev('lstd')


def k_lstdq(c):
    seed(c.seed)
    S, A, Ts, R, g, P = mdp(c, 5, 3)
    how, F = features(c, S)
    k = len(F)
    rep = np.zeros((S, A, k * A))
    for s in range(S):
        for a in range(A):
            rep[s, a, k * a:k * a + k] = F[:, s]
    nxt = np.array([sum(P[s, a] * rep[s, a] for a in range(A)) for s in range(S)]).T
    tr = [(s, rep[s, a], Ts[a][s, j], j) for s in range(S) for a in range(A) for j in range(S)]
    M, b = fixed_point(tr, R, nxt, g, nxt)
    Q = ls.LSTD_Qvalues([T.copy() for T in Ts], P.copy(), R.copy(), F.copy(), g)
    c.must(np.shape(Q) == (S, A), 'lstd q', 'shape %s' % (np.shape(Q),))
    sv = np.linalg.svd(M, compute_uv=False)
    if sv[-1] > 1e-6 * max(sv[0], 1e-6):
        w = np.linalg.solve(M, b)
        near(c, Q, rep.dot(w), 1e-6 * (1 + abs(w).max()) * (1 + abs(F).max()) / min(1., sv[-1]), 'lstd q', 'estimated values')
        if how == 'tabular':
            near(c, Q, qs(Ts, R, g, values(collapse(Ts, P), R, g)), 1e-7 * (1 + abs(R).max()) / (1 - g), 'lstd q true', 'tabular features')
        c.ev('lstd q')


def k_lspi(c):
    seed(c.seed)
    S, A, Ts, R, g, P = mdp(c, 5, 3)
    F = np.eye(S)
    if c.r.random() < .4:
        F = np.array([[c.r.gauss(0, 1) for _ in range(S)] for _ in range(S)])
        if np.linalg.cond(F) > 100:
            F = np.eye(S)
    kw = {'initpolicy': P.copy()} if c.r.random() < .5 else {}
    for f in (ls.LSPI_policy, ls.LSTD_PI_policy):
        pol, T = f(F.copy(), [T.copy() for T in Ts], R.copy(), g, **kw)
        judge(c, Ts, R, g, pol, T, f.__name__, 1e-5 / (1 - g))
        c.ev('lspi' if f is ls.LSPI_policy else 'lstd pi')


KINDS = [('values', k_values, 80, 4000), ('greedy', k_greedy, 80, 4000), ('policyiteration', k_policyiteration, 80, 4000), ('lstd', k_lstd, 80, 4000),
         ('lstdq', k_lstdq, 40, 2000), ('lspi', k_lspi, 40, 2000), ('steps', k_steps, 60, 3000)]
