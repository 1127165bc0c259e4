"""P14: non-dominated fronts, crowding distances, NSGA-II selection and the multi-objective GAs."""
import random
import numpy as np
from pybrain.tools import nondominated as nd
from pybrain.tools.nondominated import (non_dominated_front, non_dominated_sort, crowding_distance,
                                        const_non_dominated_front, const_non_dominated_sort, const_crowding_distance,
                                        const_number_of_feasible_pop)
from pybrain.optimization.populationbased.multiobjective import nsga2, constnsga2
from pybrain.optimization import MultiObjectiveGA, ConstMultiObjectiveGA
from pybrain.rl.environments.functions import multiobjective as mf
from vp.core import rnd_vec
from vp.p12 import seed

RULE = ('a case ranks one random multiset of objective vectors (with ties, duplicates, chains and anti-chains) or monitors one '
        'multi-objective run; non-trivial when something is dominated; distinct by size, number of objectives and fronts')
EXPECT = ['front', 'front strict', 'more than 100', 'ties', 'duplicates', 'sort', 'crowding', 'flat objective', 'selection',
          'split front', 'feasible mix', 'all infeasible', 'const sort', 'const selection', 'moga', 'moga archive', 'moga bounded',
          'const moga', 'variants']
ASSUMPTIONS = ['smaller objective values dominate (the convention of the code and its benchmark functions)']


def keys(c):
    n = c.r.choice([1, 2, 5, c.r.randint(2, 30), c.r.randint(20, 60), c.r.randint(95, 105), c.r.randint(101, 260), c.r.randint(101, 260)])
    d = c.r.choice([1, 2, 2, 2, 3, 4])
    kind = c.r.choice(['float', 'float', 'grid', 'grid', 'anti', 'chain', 'mix'])
    out = []
    for i in range(n):
        if kind == 'float':
            k = tuple(c.r.gauss(0, 1) for _ in range(d))
        elif kind == 'grid':
            k = tuple(float(c.r.randint(0, 3)) for _ in range(d))
        elif kind == 'anti':
            t = c.r.random()
            k = tuple([t, -t][j % 2] + (0 if j < 2 else c.r.random()) for j in range(d))
        elif kind == 'chain':
            k = tuple(float(i // 2) for _ in range(d))
        else:
            k = tuple(c.r.choice([0., c.r.random()]) for _ in range(d))
        out.append(k)
    if len(out) > 20 and d > 1 and c.r.random() < .4:
        # parts of very different quality, in this order (see k_front)
        kind = 'parts'
        cut = c.r.choice([len(out) // 2, c.r.randint(1, len(out) - 1)])
        good = c.r.random() < .5
        for i in range(len(out)):
            t = float(i) if c.r.random() < .95 else c.r.random() * len(out)
            if (i < cut) == good:
                out[i] = (t, -t) + (0.,) * (d - 2)
            else:
                w = c.r.choice([0., len(out) * 2., c.r.random() * len(out)])
                out[i] = (t + w, c.r.choice([t, -t, 0.]) + w) + (c.r.choice([0., 0., -1.]),) * (d - 2)
    return kind, d, out


def le(a, b):
    return all(x <= y for x, y in zip(a, b))


def lt(a, b):
    return all(x < y for x, y in zip(a, b))


def ref_front(idx, K, eq):
    """-> the front as a set (equality allowed) or as the set of its keys (one representative each)"""
    if eq:
        return set(i for i in idx if not any(lt(K[j], K[i]) for j in idx))
    return set(i for i in idx if not any(le(K[j], K[i]) and K[j] != K[i] for j in idx))


def same_front(c, got, idx, K, eq, what):
    c.ok(isinstance(got, (set, frozenset)), 'type', '%s returns a set' % what)
    want = ref_front(idx, K, eq)
    if eq:
        return c.ok(got == want, 'front', lambda: '%s (%d items): front %s, expected %s' % (what, len(idx), sorted(got)[:20], sorted(want)[:20]))
    c.ok(got <= want, 'front', lambda: '%s (%d items): dominated items %s in the front' % (what, len(idx), sorted(got - want)[:20]))
    gk, wk = sorted(K[i] for i in got), sorted(set(K[i] for i in want))
    return c.ok(gk == wk, 'front', lambda: '%s (%d items): front has objective vectors %s, expected one each of %s'
                % (what, len(idx), gk[:20], wk[:20]))


def k_front(c):
    kind, d, K = keys(c)
    idx = list(range(len(K)))
    if kind != 'parts' or c.r.random() < .2:
        c.r.shuffle(idx)
    eq = c.r.random() < .5
    c.ev('front' if eq else 'front strict')
    if len(K) > 100:
        c.ev('more than 100')
    if len(set(K)) < len(K):
        c.ev('ties')
    form = c.r.choice([tuple, tuple, np.array])
    given = list(idx)
    src = c.r.choice([list, set, iter, tuple])(idx)
    got = non_dominated_front(src, key=lambda i: form(K[i]), allowequality=eq)
    same_front(c, got, given, K, eq, 'non_dominated_front')
    if c.r.random() < .3 and len(K) <= 120:
        for nm in ('_non_dominated_front_old', '_non_dominated_front_fast', '_non_dominated_front_merge', '_non_dominated_front_arr'):
            if hasattr(nd, nm):
                same_front(c, getattr(nd, nm)(list(given), key=lambda i: K[i], allowequality=eq), given, K, eq, nm)
        c.ev('variants')
    if c.r.random() < .3:
        # keys are the items themselves; duplicates count once
        its = list(K) + [c.r.choice(K) for _ in range(3)]
        got = non_dominated_front(its, allowequality=eq)
        u = sorted(set(K))
        same_front(c, set(u.index(k) for k in got), list(range(len(u))), u, eq, 'non_dominated_front of tuples')
        c.ev('duplicates')
    if len(got) < len(K):
        c.sig(kind, len(K), d, eq, len(got))


def k_sort(c):
    kind, d, K = keys(c)
    if len(K) > 120:
        K = K[:120]
    eq = c.r.random() < .5
    idx = list(range(len(K)))
    fr = non_dominated_sort(idx, key=lambda i: K[i], allowequality=eq)
    flat = [i for f in fr for i in f]
    c.ok(sorted(flat) == idx, 'partition', 'the fronts do not partition the items')
    rest = set(idx)
    for k, f in enumerate(fr):
        c.ok(len(f) > 0, 'empty front', 'an empty front')
        if not same_front(c, set(f), sorted(rest), K, eq, 'front %d of the sort' % k):
            break
        rest -= set(f)
    c.ev('sort')
    if len(fr) > 1:
        c.sig(kind, len(K), d, eq, len(fr))


def ref_crowd(ids, K):
    """distances of individuals; defined where no ties blur the neighbourhood"""
    D = {i: 0. for i in ids}
    for k in range(len(K[ids[0]])):
        s = sorted(ids, key=lambda i: K[i][k])
        span = K[s[-1]][k] - K[s[0]][k]
        D[s[0]] = D[s[-1]] = float('inf')
        for a, b, e in zip(s, s[1:], s[2:]):
            D[b] += (K[e][k] - K[a][k]) / span
    return D


def k_crowding(c):
    n, d = c.r.randint(1, 25), c.r.randint(1, 4)
    K = {i: tuple(c.r.gauss(0, 1) for _ in range(d)) for i in range(n)}
    const = c.r.random() < .4
    flat = None
    if c.r.random() < .3 and d > 1:
        flat = c.r.randrange(d)
        K = {i: tuple(1. if j == flat else v for j, v in enumerate(k)) for i, k in K.items()}
    ids = list(K)
    c.r.shuffle(ids)
    if const:
        got = const_crowding_distance(set(ids), {i: (K[i], True, np.zeros(2)) for i in ids})
    else:
        got = crowding_distance(set(ids), K)
    if flat is None:
        want = ref_crowd(ids, K)
        for i in ids:
            if want[i] == float('inf'):
                c.ok(got[i] >= 1e99, 'boundary', 'a boundary individual has crowding distance %s' % got[i])
            else:
                c.close(got[i], want[i], 'crowding', 1e-9, 'crowding distance of %s among %s' % (K[i], K))
    else:
        c.ev('flat objective')
        c.ok(all(np.isfinite(got[i]) for i in ids), 'flat', 'crowding distance with an equal objective: %s' % dict(got))
        K2 = {i: tuple(v for j, v in enumerate(k) if j != flat) for i, k in K.items()}
        want = ref_crowd(ids, K2)
        for i in ids:
            if got[i] < 1e99:
                c.close(got[i], want[i], 'flat', 1e-9, 'an objective equal for all changes the distance')
    c.ev('crowding')
    c.sig(n, d, const, flat)


def check_selection(c, sel, pop, k, fronts, crowd, what):
    c.ok(len(sel) == len(set(sel)) and set(sel) <= set(pop), 'selection members', what)
    c.eq(len(sel), min(k, len(set(pop))), 'selection size', '%s: %d survivors of %d' % (what, k, len(set(pop))))
    left = set(sel)
    for i, f in enumerate(fronts):
        f = set(f)
        if f <= left:
            left -= f
            continue
        part = f & left
        c.ok(left == part, 'selection front', lambda: '%s: individuals of later fronts survive while front %d is incomplete' % (what, i))
        if part:
            cd = crowd(f)
            a, b = min(cd[x] for x in part), max(cd[x] for x in f - part)
            c.ok(a >= b - 1e-9, 'selection crowding', lambda: '%s: in the split front an individual with crowding distance %s '
                 'survives and one with %s does not' % (what, a, b))
            c.ev('split front')
        break


def k_selection(c):
    kind, d, K = keys(c)
    K = K[:110]
    pop = [(float(i),) for i in range(len(K))]
    c.r.shuffle(pop)
    F = {p: np.array(K[int(p[0])]) for p in pop}
    k = c.r.randint(0, len(K) + 2)
    eq = c.r.random() < .7
    fronts = non_dominated_sort(pop, key=lambda x: F[x], allowequality=eq)
    sel = nsga2.nsga2select(list(pop), F, k, eq)
    if eq:
        idx = list(range(len(K)))
        rest, fr = set(idx), []
        while rest:
            f = ref_front(sorted(rest), K, True)
            fr.append(set((float(i),) for i in f))
            rest -= f
        fronts = fr
    # (a split front is judged by the crowding distance of the library, which another kind checks; with ties inside a
    #  front it depends on the order)
    if all(len(set(K[i][j] for i in range(len(K)))) == len(K) for j in range(d)) or not eq:
        crowd = lambda f: crowding_distance(f, F)
    else:
        crowd = lambda f: {x: 0. for x in f}
    if eq or len(set(K)) == len(K):
        check_selection(c, sel, pop, k, fronts, crowd, 'NSGA-II')
    c.ev('selection')
    c.sig(kind, len(K), d, k, eq)


def ref_const(idx, K, ok, V, eq):
    feas = [i for i in idx if ok[i]]
    if feas:
        return ref_front(feas, K, eq)
    m = min(abs(sum(V[i])) for i in idx)
    return set(i for i in idx if abs(sum(V[i])) == m)


def k_const(c):
    kind, d, K = keys(c)
    K = K[:130]
    n = len(K)
    p = c.r.choice([0., .3, .8, 1.])
    ok = [c.r.random() < p for _ in range(n)]
    V = [np.zeros(2) if o else -np.abs(rnd_vec(c, 2)) for o in ok]
    if c.r.random() < .2:
        V = [v if o else np.array([-1., -1.]) for o, v in zip(ok, V)]
    idx = list(range(n))
    eq = c.r.random() < .6
    key = lambda i: [np.array(K[i]), ok[i], V[i]]
    got = const_non_dominated_front(list(idx), key=key, allowequality=eq)
    want = ref_const(idx, K, ok, V, eq)
    if any(ok):
        same_front(c, got, [i for i in idx if ok[i]], K, eq, 'const_non_dominated_front')
        if not all(ok):
            c.ev('feasible mix')
    else:
        c.ev('all infeasible')
        c.ok(len(got) == 1 and got <= want, 'least violation', lambda: 'infeasible front %s, least violating %s' % (got, want))
    fr = const_non_dominated_sort(idx, key=key, allowequality=eq)
    c.ok(sorted(i for f in fr for i in f) == idx, 'partition', 'the constrained fronts do not partition the items')
    seen = False
    for f in fr:
        bad = [i for i in f if not ok[i]]
        seen = seen or bool(bad)
        c.ok(not seen or len(bad) == len(f), 'feasible first', 'an infeasible item is ranked before or beside a feasible one')
    bad = [abs(sum(V[i])) for f in fr for i in f if not ok[i]]
    c.ok(bad == sorted(bad), 'violation order', 'infeasible items are not ranked by violation')
    c.eq(const_number_of_feasible_pop(idx, key=key), sum(ok), 'feasible count', 'number of feasible individuals')
    c.ev('const sort')
    pop = [(float(i),) for i in idx]
    F = {q: key(int(q[0])) for q in pop}
    k = c.r.randint(0, n)
    sel = constnsga2.nsga2select(list(pop), F, k, eq)
    if len(set(K)) == n:
        fronts = const_non_dominated_sort(pop, key=lambda x: F[x], allowequality=eq)
        tie = any(len(set(K[i][j] for i in idx)) < n for j in range(d))
        check_selection(c, sel, pop, k, fronts, (lambda f: {x: 0. for x in f}) if tie else
                        (lambda f: const_crowding_distance(f, F)), 'constrained NSGA-II')
        c.ev('const selection')
    c.sig(kind, n, d, p, eq, len(fr))


def k_moga(c):
    """whole runs: what is reported as best is the non-dominated front of what was evaluated"""
    n, d = c.r.randint(1, 3), c.r.randint(2, 3)
    os_ = [rnd_vec(c, n) for _ in range(d)]
    grid = c.r.random() < .3
    calls = {}
    order = []

    def f(x):
        v = tuple(float(np.dot(x - o, x - o)) for o in os_)
        if grid:
            v = tuple(float(round(w)) for w in v)
        calls[tuple(x)] = v
        order.append(tuple(x))
        return np.array(v)
    N = c.r.choice([4, 7, 12])
    el, eq = c.r.random() < .5, c.r.random() < .6
    st = dict(populationSize=N, elitism=el, allowEquality=eq, storeAllPopulations=True, mutationProb=c.r.choice([.3, 1.]),
              topProportion=c.r.choice([.5, 1.]), eliteProportion=c.r.choice([.5, 1.]))
    bound = None
    if c.r.random() < .4:
        bound = st['xBound'] = [(-2., 2.)] * n
    seed(c.seed)
    x0 = np.array([c.r.uniform(-1.5, 1.5) for _ in range(n)])
    opt = MultiObjectiveGA(f, x0.copy(), **st)
    for g in range(c.r.randint(1, 5)):
        best, val = opt.learn(1)
        c.eq(opt.numEvaluations, len(order), 'count', 'evaluations')
        best = [tuple(b) for b in best]
        c.ok(all(b in calls and tuple(v) == calls[b] for b, v in zip(best, val)) and len(best) == len(val), 'best values',
             'the front of the run is reported with other objective values than evaluated')
        if el:
            pop, _ = opt._allGenerations[-1]
            ids = sorted(set(map(tuple, pop)))
        else:
            ids = sorted(calls)
            c.ev('moga archive')
        K = [calls[i] for i in ids]
        same_front(c, set(ids.index(b) for b in best if b in ids), list(range(len(ids))), K, eq,
                   'reported best (%s)' % ('population' if el else 'archive'))
        if bound:
            c.ok(all(-2 <= v <= 2 for x in order for v in x), 'bounds', 'an individual outside the bounds')
            c.ev('moga bounded')
        c.ev('moga')
    c.sig(n, d, N, el, eq, g)


FUNCS = ['ConstDeb', 'ConstSrn', 'ConstOsy', 'ConstTnk', 'ConstBnh']


def k_const_moga(c):
    f = getattr(mf, c.r.choice(FUNCS))()
    N = c.r.choice([6, 12])
    el = c.r.random() < .5
    seed(c.seed)
    x0 = np.array([lo + (hi - lo) * c.r.random() for lo, hi in f.xbound])
    opt = ConstMultiObjectiveGA(f, x0, populationSize=N, elitism=el, storeAllPopulations=True, storeAllEvaluations=True,
                                topProportion=1., eliteProportion=1., mutationProb=1., mutationStdDev=.3)
    best, val = opt.learn(c.r.randint(1, 4))
    g = getattr(mf, type(f).__name__)()
    for b, v in zip(best, val):
        x = np.array(b)
        c.ok(all(lo <= t <= hi for t, (lo, hi) in zip(x, f.xbound)), 'bounds', 'outside the bounds')
        c.close(np.abs(v[0]), np.abs(g.f(x)), 'const values', 1e-12, 'objective values of a reported individual')
        c.ok(bool(v[1]) == bool(g.g(x)[0]), 'const feasible', lambda: '%s at %s: reported feasible %s' % (type(f).__name__, x, v[1]))
    pops = [tuple(p) for p in opt._allGenerations[-1][0]] if el else \
        [tuple(p) for gen, _ in opt._allGenerations for p in gen]
    ids = sorted(set(pops))
    K = [tuple(-g.f(np.array(i))) for i in ids]
    ok = [bool(g.g(np.array(i))[0]) for i in ids]
    if any(ok):
        same_front(c, set(ids.index(tuple(b)) for b in best), [i for i in range(len(ids)) if ok[i]], K, True, 'constrained best')
    else:
        c.eq(len(best), 1, 'const best', 'infeasible front')
    c.ev('const moga')
    c.sig(type(f).__name__, N, el, opt.numEvaluations)


KINDS = [('front', k_front, 450, 6000), ('sort', k_sort, 80, 1200), ('crowding', k_crowding, 120, 2000),
         ('selection', k_selection, 120, 2000), ('const', k_const, 100, 1500), ('moga', k_moga, 60, 900),
         ('const_moga', k_const_moga, 30, 400)]
