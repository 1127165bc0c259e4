"""P12: every black-box optimizer keeps its books right: best found, budgets, direction, stopping."""
import random
import numpy as np
import numpy.random
from pybrain.optimization import (HillClimber, StochasticHillClimber, RandomSearch, WeightGuessing, WeightMaskGuessing,
                                  NelderMead, ES, GA, ParticleSwarmOptimizer, FiniteDifferences, SimpleSPSA, PGPE, CMAES,
                                  SNES, XNES, FEM, ExactNES, OriginalNES,
                                  VanillaGradientEvolutionStrategies, MemeticSearch, InverseMemeticSearch,
                                  InnerMemeticSearch, InnerInverseMemeticSearch)
from pybrain.optimization.distributionbased.rank1 import Rank1NES
from pybrain.optimization.optimizer import ContinuousOptimizer
from pybrain.rl.environments.functions.function import FunctionEnvironment
from pybrain.rl.environments.fitnessevaluator import FitnessEvaluator
from pybrain.structure.parametercontainer import ParameterContainer
from pybrain.structure.evolvables.evolvable import Evolvable
from pybrain.structure.evolvables.maskedparameters import MaskedParameters
from pybrain.tools.shortcuts import buildNetwork
from vp.core import rnd_vec

RULE = ('a case runs one optimizer on one objective through a recording evaluator; non-trivial when at least one full '
        'learning step was observed; distinct by optimizer, settings, objective, dimension and number of recorded calls')
OPTS = {
    'HillClimber': (HillClimber, {'evaluatorIsNoisy': [False, False, True]}),
    'StochasticHillClimber': (StochasticHillClimber, {'temperature': [.1, 1., 20.], 'evaluatorIsNoisy': [False, False, True]}),
    'RandomSearch': (RandomSearch, {}), 'WeightGuessing': (WeightGuessing, {}), 'WeightMaskGuessing': (WeightMaskGuessing, {}),
    'NelderMead': (NelderMead, {'maxEvaluations': [300]}),
    'ES': (ES, {'mu': [1, 2, 3], 'lambada': [6], 'elitism': [True, False], 'evaluatorIsNoisy': [False, False, True],
                'storeHallOfFame': [True, False]}),
    'GA': (GA, {'populationSize': [6, 10], 'elitism': [True, False], 'topProportion': [.4, .8], 'mutationProb': [.2, .8]}),
    'PSO': (ParticleSwarmOptimizer, {'size': [4, 7]}),
    'FD': (FiniteDifferences, {'batchSize': [4, 7], 'rprop': [False, True], 'momentum': [0., .5]}),
    'SPSA': (SimpleSPSA, {'learningRate': [.05]}),
    'PGPE': (PGPE, {'exploration': ['local', 'global']}),
    'CMAES': (CMAES, {'initStepSize': [.5, 2.]}), 'SNES': (SNES, {'uniformBaseline': [True, False]}),
    'XNES': (XNES, {'uniformBaseline': [True, False], 'importanceMixing': [False, True]}),
    'Rank1NES': (Rank1NES, {}),
    'FEM': (FEM, {'windowSize': [5, 12], 'diagonalOnly': [False, True], 'elitism': [False, True],
                  'sampleElitism': [False, True], 'mutative': [False, True], 'batchSize': [1]}),
    'ExactNES': (ExactNES, {'batchSize': [25], 'baselineType': [0, 1, 2, 3], 'importanceMixing': [True, False],
                            'learningRate': [.2]}),
    'OriginalNES': (OriginalNES, {'batchSize': [25], 'importanceMixing': [True, False], 'learningRate': [.3]}),
    'VES': (VanillaGradientEvolutionStrategies, {'batchSize': [20], 'importanceMixing': [True, False],
                                                 'momentum': [None, .3]}),
    'Memetic': (MemeticSearch, {'localSteps': [5, 12]}), 'InverseMemetic': (InverseMemeticSearch, {'localSteps': [5, 12]}),
    'InnerMemetic': (InnerMemeticSearch, {'localSteps': [5], 'mu': [2], 'lambada': [2, 4], 'elitism': [True, False]}),
    'InnerInverseMemetic': (InnerInverseMemeticSearch, {'localSteps': [5], 'mu': [2], 'lambada': [2, 4]}),
}
EXPECT = ['desired zero', 'error of the objective', 'direction changed', 'verbose run'] + ['run %s' % n for n in OPTS] + \
    ['minimize', 'maximize', 'FunctionEnvironment', 'fitness evaluator', 'parameter container', 'module', 'list start',
     'no start', 'evolvable', 'budget stop', 'desired stop', 'desired at start', 'step count stop', 'divergence',
     'opposite run', 'representation run', 'stored evaluations', 'stored evaluated', 'best not last', 'listener call',
     'resumed', 'mask legal']
ASSUMPTIONS = ['objectives are deterministic, so that the best value can be re-evaluated; optimizers that re-evaluate (noisy '
               'settings) are run on them too']
MUT = (MaskedParameters.__dict__['mutate'], MaskedParameters.__dict__['topologyMutate'])
CONT = [n for n in OPTS if issubclass(OPTS[n][0], ContinuousOptimizer)]


def objective(c, n):
    a, o = np.array([c.r.uniform(.3, 4) for _ in range(n)]), rnd_vec(c, n, 2)
    k = c.r.choice(['quad', 'quad', 'rast', 'abs', 'steps', 'lin'])
    if k == 'quad':
        f = lambda x: float(np.dot(a, (x - o) ** 2))
    elif k == 'rast':
        f = lambda x: float(np.sum((x - o) ** 2 - 3 * np.cos(5 * (x - o))) + 3 * n)
    elif k == 'abs':
        f = lambda x: float(np.sum(np.abs(x - o)))
    elif k == 'steps':
        f = lambda x: float(np.floor(np.sum(np.abs(x - o)) * 4))
    else:
        f = lambda x: float(np.dot(a, np.arctan(x - o)))
    return k, f


def settings(c, name, over=()):
    s = {k: c.r.choice(v) for k, v in OPTS[name][1].items()}
    s.update(over)
    return s


class Rec:
    """The evaluator handed to the optimizer: records every call."""

    def __init__(self, f, nan_at=None, bad=None):
        self.f, self.calls, self.nan_at, self.bad, self.error = f, [], nan_at, bad, None

    def __call__(self, x):
        x = pvec(x)
        v = self.f(x)
        if self.error is not None and len(self.calls) == self.error:
            raise ValueError('the objective has failed')
        if self.nan_at is not None and len(self.calls) == self.nan_at:
            v = self.bad
        self.calls.append((x, v))
        return v


def problem(c, rec, n, minimize, form):
    """ -> evaluator, settings of the direction """
    if form == 'fe':
        class F(FunctionEnvironment):
            desiredValue = None
            toBeMinimized = minimize

            def f(self, x):
                return rec(x)
        return F(n), {}
    if form == 'fit':
        class E(FitnessEvaluator):
            toBeMinimized = minimize

            def f(self, x):
                return rec(x)
        return E(), {}
    if not minimize and c.r.random() < .3:
        return rec, {}
    return rec, {'minimize': minimize}


def start(c, x0, rep, net=None):
    if rep == 'list':
        return list(x0)
    if rep == 'pc':
        p = ParameterContainer(len(x0))
        p._setParameters(np.array(x0))
        return p
    if rep == 'module':
        net._setParameters(np.array(x0))
        return net
    return np.array(x0)


def pvec(x):
    if hasattr(x, 'pcontainer'):
        x = x.pcontainer        # a masked module: the full parameters, zeros included
    return np.array(x.params if hasattr(x, 'params') else x, dtype=float)


def seed(s):
    random.seed(s)
    numpy.random.seed(s % (2 ** 32))


def better(a, b, minimize):
    return a <= b if minimize else a >= b


def pick(vals, minimize):
    return min(vals) if minimize else max(vals)


def setup(c, name=None, rep=None, form=None, need_x0=False):
    name = name or c.r.choice(list(OPTS))
    n = c.r.randint(2, 4)
    net = None
    if rep is None:
        rep = c.r.choice(['array', 'array', 'list', 'pc', 'pc', 'module', 'none'])
    if need_x0 and rep == 'none':
        rep = 'array'
    if rep == 'module':
        net = buildNetwork(1, c.r.randint(1, 2), 1, bias=False)
        n = len(net.params)
        c.ev('module')
    if rep == 'none':
        c.ev('no start')
    elif rep == 'pc':
        c.ev('parameter container')
    elif rep == 'list':
        c.ev('list start')
    k, f = objective(c, n)
    minimize = c.r.random() < .5
    c.ev('minimize' if minimize else 'maximize')
    form = form or c.r.choice(['plain', 'plain', 'fe', 'fit'])
    if form == 'fe' and rep == 'module' and ('Mask' in name or 'Memetic' in name):
        form = 'plain'
    if form == 'fe' and rep == 'list':
        form = 'plain'          # a FunctionEnvironment is only defined on arrays and containers
    if form == 'fe':
        c.ev('FunctionEnvironment')
    if form == 'fit':
        c.ev('fitness evaluator')
    rec = Rec(f)
    ev, st = problem(c, rec, n, minimize, form)
    if rep == 'none':
        st['numParameters'] = n
    x0 = rnd_vec(c, n, 1.5)
    c.ev('run %s' % name)
    return name, n, net, rep, f, k, minimize, form, rec, ev, st, x0


def books(c, opt, name, rec, f, minimize, out, diverged=False):
    calls = rec.calls
    good = calls[:-1] if diverged else calls
    c.eq(opt.numEvaluations, len(good), 'count', '%s: evaluations counted' % name)
    if not good:
        return
    best = pick([v for _, v in good], minimize)
    x, v = out
    c.ok(v == best, 'best value', lambda: '%s: learn() returned %r, the best recorded evaluation is %r' % (name, v, best))
    c.ok(f(pvec(x)) == v, 'best point', lambda: '%s: the returned point evaluates to %r, not to the returned %r'
         % (name, f(pvec(x)), v))
    if calls[-1][1] != best:
        c.ev('best not last')
    if opt.storeAllEvaluations and not (name == 'SNES' and opt.clearStorage):
        c.eq(list(opt._allEvaluations), [w for _, w in good], 'all evaluations', '%s: stored evaluations' % name)
        c.ev('stored evaluations')
    if opt.storeAllEvaluated:
        c.ok(len(opt._allEvaluated) == len(good) and
             all(np.array_equal(pvec(a), b) for a, (b, _) in zip(opt._allEvaluated, good)),
             'all evaluated', '%s: the stored points are not those evaluated' % name)
        c.ev('stored evaluated')


def converges(name, opt):
    """whether the optimizer may stop by itself"""
    return name in ('NelderMead', 'CMAES', 'SNES', 'Rank1NES', 'ExactNES', 'OriginalNES', 'VES')


def k_run(c):
    name, n, net, rep, f, k, minimize, form, rec, ev, st, x0 = setup(c)
    st.update(settings(c, name))
    for s in ('storeAllEvaluations', 'storeAllEvaluated'):
        if c.r.random() < .5:
            st[s] = True
    if c.r.random() < .15:
        st['verbose'] = True
        c.ev('verbose run')
    marks = []

    def listener(e, v):
        c.ev('listener call')
        marks.append(len(rec.calls))
        best = pick([w for _, w in rec.calls], minimize)
        c.ok(abs(v) == abs(best), 'listener value', lambda: '%s: the listener got %r, best so far is %r' % (name, v, best))
        c.ok(f(pvec(e)) == best, 'listener point', '%s: the listener got a point that is not the best so far' % name)
    st['listener'] = listener
    seed(c.seed)
    x0s = None if rep == 'none' else start(c, x0, rep, net)
    mode = c.r.choice(['steps', 'steps', 'budget', 'desired', 'max steps'])
    M = None
    if mode == 'budget':
        M = st['maxEvaluations'] = c.r.randint(30, 120)
    elif mode == 'max steps':
        st['maxLearningSteps'] = c.r.randint(0, 4)
    elif mode == 'desired':
        goal = [f(rnd_vec(c, n, 1.5)) for _ in range(c.r.randint(3, 9))]
        D = st['desiredEvaluation'] = pick(goal, minimize)
        if c.r.random() < .3:
            f0, D0 = f, D                       # a target of exactly zero
            f = rec.f = lambda x: f0(x) - D0
            D = st['desiredEvaluation'] = c.r.choice([0, 0.])
            c.ev('desired zero')
        st['maxEvaluations'] = 200
    if c.r.random() < .3:
        opt = OPTS[name][0](**st)
        opt.setEvaluator(ev, x0s) if x0s is not None else opt.setEvaluator(ev)
    else:
        opt = OPTS[name][0](ev, x0s, **st) if x0s is not None else OPTS[name][0](ev, **st)
    init = len(rec.calls)
    c.eq(opt.numEvaluations, init, 'count init', '%s: evaluations at construction' % name)
    self_stop = converges(name, opt)
    if mode == 'steps':
        done = 0
        if c.r.random() < .3:
            opt.maxLearningSteps = c.r.randint(0, 6)          # the argument of learn() is what counts
        outs = []
        for _ in range(c.r.randint(1, 3)):
            kk = c.r.randint(0, 3)
            before, b4 = len(marks), len(rec.calls)
            out = opt.learn(kk)
            if rec.calls and not np.isfinite(rec.calls[-1][1]):
                return books(c, opt, name, rec, f, minimize, out, True)
            d = len(marks) - before
            if self_stop:
                c.ok(d <= kk, 'steps', '%s: learn(%d) made %d steps' % (name, kk, d))
            else:
                c.eq(d, kk, 'steps', '%s: learn(%d) made another number of steps' % (name, kk))
            c.ok(kk > 0 or len(rec.calls) == b4, 'no steps', '%s: learn(0) evaluated something' % name)
            done += d
            c.eq(opt.numLearningSteps, done, 'step count', '%s: numLearningSteps' % name)
            if rec.calls:
                books(c, opt, name, rec, f, minimize, out)
                outs.append((out, pvec(out[0])))
            c.ev('resumed')
        for o, x in outs:
            c.ok(np.array_equal(pvec(o[0]), x), 'returned evaluable changed later', '%s: a result of learn() changed in the next call' % name)
        c.ev('step count stop')
    else:
        out = opt.learn()
        blown = bool(rec.calls) and not np.isfinite(rec.calls[-1][1])
        self_stop = self_stop or blown
        if mode == 'budget':
            c.ok(len(rec.calls) <= max(M, init), 'budget', '%s: %d evaluations with a budget of %d (%d at construction, %s)'
                 % (name, len(rec.calls), M, init, {k: v for k, v in st.items() if k != 'listener'}))
            if not self_stop:
                c.ok(len(rec.calls) + opt.batchSize > M, 'budget unused', '%s: stopped at %d evaluations with a budget of %d '
                     'and steps of %d' % (name, len(rec.calls), M, opt.batchSize))
            c.ev('budget stop')
        elif mode == 'max steps':
            L = st['maxLearningSteps']
            if self_stop:
                c.ok(len(marks) <= L, 'max steps', '%s: %d steps with a limit of %d' % (name, len(marks), L))
            else:
                c.eq(len(marks), L, 'max steps', '%s: steps made under a limit' % name)
            c.ev('step count stop')
        else:
            hit = [i for i, (_, v) in enumerate(rec.calls) if better(v, D, minimize)]
            if hit:
                c.ev('desired stop')
                if hit[0] < init:
                    c.eq(len(rec.calls), init, 'desired at start', '%s: went on although the desired value was found' % name)
                    c.ev('desired at start')
                else:
                    prev = marks[-2] if len(marks) > 1 else init
                    if name == 'NelderMead':
                        c.ok(len(rec.calls) <= hit[0] + 2 * n + 4, 'desired stop', 'Nelder-Mead went on after the desired value')
                    else:
                        c.ok(hit[0] >= prev, 'desired stop', '%s: call %d reached the desired value, but a step began at call '
                             '%d' % (name, hit[0], prev))
            elif not self_stop:
                c.ok(len(rec.calls) + opt.batchSize > 200, 'stopped early', '%s: stopped after %d evaluations, best %r, '
                     'desired %r' % (name, len(rec.calls), out[1], D))
        if rec.calls:
            books(c, opt, name, rec, f, minimize, out, blown)
    if x0s is not None:
        c.ok(np.array_equal(pvec(x0s), x0), 'start modified', '%s: the initial point was modified: %s, was %s'
             % (name, pvec(x0s), x0))
    if rec.calls and rep in ('pc', 'module') and 'Mask' not in name and 'Memetic' not in name:
        c.eq(type(out[0]).__name__, type(x0s).__name__, 'type', '%s: type of the returned evaluable' % name)
        c.ok(out[0] is not x0s, 'alias', '%s: the returned evaluable is the initial one' % name)
    c.ok((MaskedParameters.__dict__['mutate'], MaskedParameters.__dict__['topologyMutate']) == MUT, 'mutations switched',
         '%s left the mutation operators of the class exchanged' % name)
    if marks:
        c.sig(name, k, n, rep, form, minimize, mode, len(rec.calls))
    c.sample({'optimizer': name, 'objective': k, 'dim': n, 'start': rep, 'mode': mode, 'evaluations': len(rec.calls)})


def k_diverge(c):
    name, n, net, rep, f, k, minimize, form, rec, ev, st, x0 = setup(c)
    if 'Memetic' in name:
        name = c.r.choice([m for m in OPTS if 'Memetic' not in m])
        c.ev('run %s' % name)
    st.update(settings(c, name))
    seed(c.seed)
    x0s = None if rep == 'none' else start(c, x0, rep, net)
    rec.bad = c.r.choice([float('nan'), float('inf'), -float('inf')])
    opt = OPTS[name][0](ev, x0s, **st) if x0s is not None else OPTS[name][0](ev, **st)
    rec.nan_at = len(rec.calls) + c.r.randint(0, 30)
    if c.r.random() < .5:
        # errors of the objective end the run, and keep the books
        rec.nan_at, rec.error = None, len(rec.calls) + c.r.randint(0, 20)
        marks = []
        opt.listener = lambda e, v: marks.append(1)
        out = opt.learn(20)
        books(c, opt, name, rec, f, minimize, out)
        c.eq(opt.numLearningSteps, len(marks), 'steps counted', name)
        if rec.error is not None and len(rec.calls) == rec.error:
            c.ev('error of the objective')
        return
    out = opt.learn(40)
    if len(rec.calls) > rec.nan_at:
        c.eq(len(rec.calls), rec.nan_at + 1, 'stops', '%s: evaluations after a non-finite value' % name)
        books(c, opt, name, rec, f, minimize, out, diverged=True)
        c.ev('divergence')
        c.sig(name, k, n, rep, rec.nan_at, minimize)
    else:
        books(c, opt, name, rec, f, minimize, out)


def trace(c, name, make, s, x0s, st, steps, **kw):
    seed(s)
    rec, ev, more = make()
    opt = OPTS[name][0](ev, x0s, **dict(st, **more))
    out = opt.learn(steps)
    return rec.calls, out


def k_opposite(c):
    """minimizing f and maximizing -f are the same run; the kind of evaluable and of evaluator does not matter"""
    name, n, net, rep, f, k, minimize, form, rec, ev, st, x0 = setup(c, rep='array', form='plain')
    st = settings(c, name)
    if c.r.random() < .3:
        st['desiredEvaluation'] = D = f(rnd_vec(c, n))
    else:
        D = None
    steps = c.r.randint(1, 5)

    def mk(sgn, form):
        def make():
            r = Rec(lambda x: sgn * f(x))
            e, more = problem(c, r, n, sgn == 1, form)
            if D is not None:
                more['desiredEvaluation'] = sgn * D
            return r, e, more
        return make
    base, out = trace(c, name, mk(1, 'plain'), c.seed, start(c, x0, 'array'), st, steps)
    form = c.r.choice(['plain', 'fe', 'fit'] if name != 'GA' else ['plain', 'fit'])    # (GA takes the bounds of the fe)
    opp, out2 = trace(c, name, mk(-1, form), c.seed, start(c, x0, 'array'), st, steps)
    c.ok(len(base) == len(opp) and all(np.array_equal(a[0], b[0]) and a[1] == -b[1] for a, b in zip(base, opp)), 'opposite',
         lambda: '%s: maximizing -f (as %s) evaluates other points than minimizing f (%d / %d calls)'
         % (name, form, len(opp), len(base)))
    if base:
        c.ok(out[1] == -out2[1] and np.array_equal(pvec(out[0]), pvec(out2[0])), 'opposite result',
             '%s: minimizing f returns %r, maximizing -f %r' % (name, out, out2))
    c.ev('opposite run')
    rep = c.r.choice(['list', 'pc', 'array'])
    if rep == 'pc':             # (wrapping an array draws random numbers, so it is not comparable with a container)
        base, out = trace(c, name, mk(1, 'plain'), c.seed, start(c, x0, 'pc'), st, steps)
    form = 'plain' if rep == 'list' else c.r.choice(['plain', 'fe', 'fit'] if name != 'GA' else ['plain', 'fit'])
    oth, out3 = trace(c, name, mk(1, form), c.seed, start(c, x0, rep), st, steps)
    c.ok(len(base) == len(oth) and all(np.array_equal(a[0], b[0]) and a[1] == b[1] for a, b in zip(base, oth)), 'representation',
         lambda: '%s: starting from a %s with a %s evaluates other points' % (name, rep, form))
    if base:
        c.ok(out[1] == out3[1] and np.array_equal(pvec(out[0]), pvec(out3[0])), 'representation result', name)
    c.ev('representation run')
    if len(base) > 1:
        c.sig(name, k, n, len(base), steps)


def k_direction(c):
    """the direction may be set after the objective, and changed again"""
    name = c.r.choice(['NelderMead', 'CMAES', 'SNES', 'XNES', 'FD', 'SPSA', 'PGPE', 'PSO', 'FEM', 'RandomSearch'])
    name, n, net, rep, f, k, minimize, form, rec, ev, st, x0 = setup(c, name=name, rep=c.r.choice(['array', 'pc']), form='plain')
    st = settings(c, name)
    D = None
    if c.r.random() < .5:
        D = st['desiredEvaluation'] = f(rnd_vec(c, n)) + c.r.choice([-.5, .5])
    seed(c.seed)
    x0s = start(c, x0, rep)
    first = c.r.choice([None, minimize, not minimize])
    opt = OPTS[name][0](rec, x0s, **dict(st, **({} if first is None else {'minimize': first})))
    if rec.calls:                    # (evaluations made in the old direction)
        return
    for _ in range(c.r.randint(0, 3)):
        opt.minimize = c.r.random() < .5
    opt.minimize = minimize
    state = numpy.random.get_state(), random.getstate()
    steps = c.r.randint(1, 4)
    out = opt.learn(steps)
    if rec.calls:
        books(c, opt, name, rec, f, minimize, out, not np.isfinite(rec.calls[-1][1]))
    again = Rec(f)
    seed(c.seed)
    opt = OPTS[name][0](again, start(c, x0, rep), minimize=minimize, **st)
    out2 = opt.learn(steps)
    c.ok(len(again.calls) == len(rec.calls) and all(np.array_equal(a[0], b[0]) for a, b in zip(again.calls, rec.calls)), 'direction changed',
         lambda: '%s: %d evaluations instead of %d' % (name, len(rec.calls), len(again.calls)))
    c.ev('direction changed')
    c.sig(name, n, minimize, first, len(rec.calls))


class Evo(Evolvable):
    """the smallest evolvable: not a parameter container"""
    log = None

    def __init__(self, x):
        self.x = x

    def mutate(self):
        self.x += random.gauss(0, 1)

    def copy(self):
        return Evo(self.x)

    def randomize(self):
        self.x = random.uniform(-9, 9)


def k_evolvable(c):
    name = c.r.choice(['HillClimber', 'StochasticHillClimber', 'RandomSearch', 'ES'])
    o, minimize = c.r.gauss(0, 3), c.r.random() < .5
    calls = []

    def f(e):
        v = (e.x - o) ** 2
        calls.append((e.x, v))
        return v
    e0 = Evo(c.r.gauss(0, 3))
    x0 = e0.x
    seed(c.seed)
    opt = OPTS[name][0](f, e0, minimize=minimize, storeAllEvaluated=True, **settings(c, name))
    steps = c.r.randint(1, 12)
    e, v = opt.learn(steps)
    best = pick([w for _, w in calls], minimize)
    c.ok(v == best and (e.x - o) ** 2 == v, 'evolvable best', '%s: returned %r at %r, best is %r' % (name, v, e.x, best))
    c.eq(opt.numEvaluations, len(calls), 'count', name)
    c.eq([a.x for a in opt._allEvaluated], [x for x, _ in calls], 'all evaluated', '%s: stored evolvables' % name)
    c.ok(e0.x == x0, 'start modified', name)
    if name == 'RandomSearch':
        c.ok(all(-9 <= x <= 9 for x, _ in calls[1:]), 'random', 'RandomSearch evaluated something not randomized')
    if name == 'HillClimber':
        cur = calls[0][1]
        c.eq(len(calls), steps * opt.batchSize + 1, 'hill climb', 'evaluations')
    c.ev('evolvable')
    c.ev('run %s' % name)
    c.sig(name, minimize, len(calls))


def k_masks(c):
    """evaluables of the topology optimizers: legal masks, masked values are zero"""
    n = c.r.randint(2, 6)
    mc = c.r.choice([None, c.r.randint(1, n)])
    k, f = objective(c, n)
    old = (MaskedParameters.maskOnProbability, MaskedParameters.maxComplexity)
    name = c.r.choice(['WeightMaskGuessing', 'Memetic', 'InverseMemetic', 'InnerMemetic', 'InnerInverseMemetic'])
    seed(c.seed)
    seen = []

    def g(e):
        seen.append((np.array(e.mask), np.array(e.params)))
        c.ok(1 <= sum(e.mask) <= (mc or n), 'mask size', '%s: %d of %d parameters enabled, at most %s allowed'
             % (name, sum(e.mask), n, mc))
        c.ok(np.all(e.params[~e.mask] == 0), 'masked zero', '%s: a disabled parameter is %s' % (name, e.params))
        c.ev('mask legal')
        return f(np.array(e.params))
    pc = ParameterContainer(n)
    mp = MaskedParameters(pc, returnZeros=True, maskOnProbability=c.r.choice([0., .2, .8, 1.]), maxComplexity=mc)
    opt = OPTS[name][0](g, mp, minimize=True, **settings(c, name))
    e, v = opt.learn(c.r.randint(1, 8))
    best = min(f(p) for _, p in seen)
    c.ok(v == best, 'mask best', '%s returned %r, best %r' % (name, v, best))
    c.ok(f(np.array(e.params)) == v, 'mask point', '%s: the returned evaluable evaluates to %r instead of %r'
         % (name, f(np.array(e.params)), v))
    c.ok((MaskedParameters.__dict__['mutate'], MaskedParameters.__dict__['topologyMutate']) == MUT, 'mutations switched', name)
    c.ev('run %s' % name)
    c.sig(name, n, mc, len(seen))


def k_mask_probability(c):
    n = 400
    seed(c.seed)
    p = c.r.choice([0., .1, .35, .7, .95, 1.])
    m = MaskedParameters(ParameterContainer(n), maskOnProbability=p)
    k = int(sum(m.mask))
    lim = 6 * np.sqrt(n * p * (1 - p)) + 1
    c.ok(abs(k - n * p) <= lim, 'mask probability', '%d of %d enabled with probability %s' % (k, n, p))
    m._setParameters(rnd_vec(c, k))
    a = m.copy()
    before = np.array(a.params)
    m._setParameters(rnd_vec(c, k))
    m.mutate()
    m.topologyMutate()
    c.ok(np.array_equal(a.params, before), 'copy shares', 'a copy changed with its original')
    c.ev('mask legal')
    c.sig(p, k)


KINDS = [('run', k_run, 420, 6000), ('diverge', k_diverge, 90, 1500), ('opposite', k_opposite, 130, 2500),
         ('direction', k_direction, 60, 800), ('evolvable', k_evolvable, 25, 300), ('masks', k_masks, 40, 600), ('mask_probability', k_mask_probability, 10, 60)]
