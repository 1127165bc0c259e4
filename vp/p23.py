"""P23: benchmark functions and their transformations."""
import math, random, io, contextlib, inspect
import numpy as np
from math import cos, sin, pi, exp, sqrt
from pybrain.rl.environments.functions import unimodal as U, multimodal as M, unbounded as B, transformations as T, multiobjective as MO, bbob2010
from pybrain.rl.environments.functions.function import FunctionEnvironment
from pybrain.rl.environments.functions.lennardjones import LennardJones
from pybrain.rl.environments.fitnessevaluator import FitnessEvaluator
from pybrain.structure.parametercontainer import ParameterContainer
from vp.p12 import seed

RULE = ('a case evaluates one benchmark function, transformation, multi-objective problem or atom configuration at random points, at its optimum and around it; '
        'non-trivial with at least two dimensions and five points; distinct by function, dimension and settings')
EXPECT = ['formula', 'optimum', 'around', 'unmodified', 'unbounded', 'container', 'sensors', 'translate', 'given offset', 'rotate', 'given matrix', 'opposite',
          'plain function', 'soft constraint', 'inside', 'outside', 'already penalized', 'composition', 'bbob', 'definition', 'make-up', 'noise', 'noisy optimum', 'recorded', 'oscillate',
          'asymmetry', 'conditioning', 'orthogonal', 'penalty', 'multiobjective', 'feasible', 'infeasible', 'atoms', 'known minimum', 'example atoms', 'sparse', 'limits', 'larger', 'kept', 'no noise', 'noise model',
          'known energies']
ASSUMPTIONS = ['formulas are those of the literature the code cites, where the code follows them; deviations that keep the optimum are listed in DESIGN.md',
               'minima are judged on sampled points']


def pts(c, d, n, opt=None):
    res = []
    for _ in range(n):
        how = c.r.random()
        if how < .3 and opt is not None:
            res.append(np.asarray(opt, float) + np.array([c.r.gauss(0, 10 ** c.r.uniform(-4, 0)) for _ in range(d)]))
        elif how < .4:
            x = np.zeros(d)
            x[c.r.randrange(d)] = c.r.uniform(-6, 6)
            res.append(x)
        elif how < .5:
            res.append(np.array([float(c.r.randint(-5, 5)) for _ in range(d)]))
        else:
            res.append(np.array([c.r.uniform(-1, 1) * c.r.choice([.5, 5, 8]) for _ in range(d)]))
    return res


def griewank(x):
    p = 1.
    for i in range(len(x)):
        p *= cos(x[i] / sqrt(i + 1))
    return 1 + sum(v * v for v in x) / 4000. - p


def weier(x, k=20):
    return sum(sum(.5 ** j * cos(2 * pi * 3 ** j * (v + .5)) - .5 ** j * cos(pi * 3 ** j) for j in range(k)) for v in x)


def schaffer(x):
    t = 0.
    for i in range(len(x) - 1):
        s = sqrt(x[i] ** 2 + x[i + 1] ** 2)
        t += sqrt(s) * (1 + sin(50 * s ** .2) ** 2)
    return t ** 2


def glas(x, k=.1):
    m = len(x) // 2
    a, b = k * sqrt(sum(v * v for v in x[:m])), sqrt(sum(v * v for v in x[m:]))
    return a + b + sqrt(2 * a * b + b * b)


def grosen(x):
    s = [100 * (x[i] ** 2 - x[i + 1]) ** 2 + (x[i] - 1) ** 2 for i in range(len(x) - 1)]
    return sum(v / 4000. - cos(v) for v in s) / (len(x) - 1) + 1


def sq(x):
    return sum(v * v for v in x)


N = lambda x: len(x) - 1.
# class, smallest dimension, keyword arguments, reference, relative tolerance
BASE = [
    (U.SphereFunction, 1, {}, sq, 1e-9),
    (U.SchwefelFunction, 1, {}, lambda x: sum(sum(x[:i + 1]) ** 2 for i in range(len(x))), 1e-9),
    (U.CigarFunction, 2, {}, lambda x: x[0] ** 2 + 1e6 * sq(x[1:]), 1e-9),
    (U.TabletFunction, 2, {}, lambda x: 1e6 * x[0] ** 2 + sq(x[1:]), 1e-9),
    (U.ElliFunction, 2, {}, lambda x: sum(1000. ** (2 * i / N(x)) * x[i] ** 2 for i in range(len(x))), 1e-9),
    (U.ElliFunction, 2, {'a': 100}, lambda x: sum(100. ** (2 * i / N(x)) * x[i] ** 2 for i in range(len(x))), 1e-9),
    (U.SharpRFunctionBis, 1, {}, lambda x: x[0] ** 2 + 100 * sqrt(sq(x[1:])), 1e-9),
    (U.DiffPowFunction, 2, {}, lambda x: sum(abs(x[i]) ** (2 + 10 * i / N(x)) for i in range(len(x))), 1e-9),
    (U.DiffPowFunction, 2, {'a': 4}, lambda x: sum(abs(x[i]) ** (2 + 4 * i / N(x)) for i in range(len(x))), 1e-9),
    (U.RosenbrockFunction, 2, {}, lambda x: sum(100 * (x[i] ** 2 - x[i + 1]) ** 2 + (x[i] - 1) ** 2 for i in range(len(x) - 1)), 1e-9),
    (U.GlasmachersFunction, 2, {}, glas, 1e-9),
    (U.StepElliFunction, 2, {}, None, 0),
    (U.AttractiveSectorFunction, 1, {}, None, 0),
    (U.BoundedLinear, 2, {}, None, 0),
    (M.FunnelFunction, 2, {}, lambda x: min(sq([v - 2.5 for v in x]), len(x) + sq([v + 2.5 for v in x])), 1e-9),
    (M.RastriginFunction, 2, {}, lambda x: sum(v * v - 10 * cos(2 * pi * v) + 10 for v in x), 1e-9),
    (M.WeierstrassFunction, 2, {}, weier, 1e-4),
    (M.WeierstrassFunction, 2, {'kmax': 11}, lambda x: weier(x, 11), 1e-6),
    (M.SchaffersF7Function, 2, {}, schaffer, 1e-9),
    (M.AckleyFunction, 2, {}, lambda x: -20 * exp(-.2 * sqrt(sq(x) / len(x))) - exp(sum(cos(2 * pi * v) for v in x) / len(x)) + 20 + exp(1), 1e-9),
    (M.GriewankFunction, 2, {}, griewank, 1e-9),
    (M.BucheRastriginFunction, 2, {}, None, 0),
    (M.GriewankRosenbrockFunction, 2, {}, grosen, 1e-8),
    (M.Schwefel_2_13Function, 2, {}, None, 0),
    (M.Schwefel20Function, 2, {}, None, 0),
    (M.GallagherGauss101MeFunction, 2, {}, None, 0),
    (M.GallagherGauss21HiFunction, 2, {}, None, 0),
    (M.KatsuuraFunction, 2, {}, None, 0),
    (M.LunacekBiRastriginFunction, 2, {}, None, 0),
    (M.BraninFunction, 2, {}, lambda x: (x[1] - 5.1 / (4 * pi ** 2) * x[0] ** 2 + 5 / pi * x[0] - 6) ** 2 + 10 * (1 - 1 / (8 * pi)) * cos(x[0]) + 10 - .397887, 1e-9),
]


def make(c, cls, lo, kw):
    d = 2 if cls is M.BraninFunction else c.r.randint(lo, 7)
    with contextlib.redirect_stdout(io.StringIO()):
        return cls(d, **kw), d


def evaluate(c, f, x, how=0):
    """the value, by one of the ways of asking; the point must stay as it is"""
    keep = x.copy()
    if how == 1:
        p = ParameterContainer(len(x))
        p._setParameters(x)
        v = f(p)
        c.ev('container')
    elif how == 2:
        f.performAction(x)
        s = f.getSensors()
        c.must(len(s) == 1, 'sensors', 'observation %s' % s)
        v = s[0]
        c.raises(AssertionError, f.getSensors, 'sensors', 'result observed twice')
        c.ev('sensors')
    else:
        v = f(x)
    c.ok((x == keep).all(), 'unmodified', lambda: '%s modified its point: %s, was %s' % (f.__class__.__name__, x, keep))
    c.ev('unmodified')
    return float(v)


def k_base(c):
    seed(c.seed)
    cls, lo, kw, ref, tol = BASE[c.idx % len(BASE)]
    f, d = make(c, cls, lo, kw)
    c.eq((f.xdim, f.indim, f.outdim, f.toBeMinimized), (d, d, 0, True), 'interface')
    opt = np.array(f.xopt, dtype=float)
    c.must(opt.shape == (d,), 'interface', 'optimum %s' % opt)
    v0 = evaluate(c, f, opt.copy())
    c.ok(abs(v0) < 1e-5, 'optimum', lambda: '%s is %s at its optimum %s' % (cls.__name__, v0, opt))
    c.ev('optimum')
    for x in pts(c, d, 12, opt):
        v = evaluate(c, f, x, c.r.choice([0, 0, 1, 2]))
        c.ok(v == v and v >= v0 - 1e-6, 'minimum', lambda: '%s is %s at %s, below its minimum %s at %s' % (cls.__name__, v, x, v0, opt))
        c.close(evaluate(c, f, x.copy()), v, 'function', 1e-12, 'asked again')
        if ref:
            c.close(v, ref(list(x)), 'formula', tol, cls.__name__ + ' at %s' % x)
            c.ev('formula')
        far = opt + (x - opt) * 1e-3
        if abs(x - opt).max() > 1e-2 and cls not in (U.StepElliFunction,):
            # the single optimum: something is lost around it
            if cls not in (U.BoundedLinear, M.KatsuuraFunction, M.WeierstrassFunction, M.BraninFunction, M.Schwefel20Function):
                c.ok(evaluate(c, f, far) > v0, 'single', lambda: '%s does not grow around its optimum, towards %s' % (cls.__name__, x))
        c.ev('around')
    if cls is U.BoundedLinear:
        # constant from the best corner onwards, linear inside
        x = opt * np.array([c.r.uniform(1, 3) for _ in range(d)])
        c.close(evaluate(c, f, x), 0., 'formula', 1e-6, 'beyond the best corner')
        i, h = c.r.randrange(d), c.r.uniform(.1, 9)
        x = opt.copy()
        x[i] -= np.sign(opt[i]) * h
        c.close(evaluate(c, f, x), h * 10. ** (i / (d - 1.)), 'formula', 1e-8, 'slope %d' % i)
    if cls is U.AttractiveSectorFunction:
        i, h = c.r.randrange(d), c.r.uniform(.1, 3)
        for s, k in ((np.sign(opt[i]), 100.), (-np.sign(opt[i]), 1.)):
            x = opt.copy()
            x[i] += s * h
            c.close(evaluate(c, f, x), osc(np.array([(k * h) ** 2]))[0] ** .9, 'formula', 1e-5, 'sector')
    if cls is M.Schwefel_2_13Function:
        for x in pts(c, d, 3):
            r = sum((sum(f.A[i][j] * sin(f.alphas[j]) + f.B[i][j] * cos(f.alphas[j]) - f.A[i][j] * sin(x[j]) - f.B[i][j] * cos(x[j]) for j in range(d))) ** 2 for i in range(d))
            c.close(evaluate(c, f, x), r, 'formula', 1e-8, 'Schwefel 2.13')
    if d > 1:
        c.sig(cls.__name__, d, sorted(kw))


def penal(x, lim=5.):
    return sum(max(0., abs(v) - lim) ** 2 for v in x)


def diags(a, d):
    return [a ** (i / (2 * d - 2.)) for i in range(d)]


def known(f, *names):
    """the random parameters of an instance, where it shows them"""
    r = [getattr(f, n, None) for n in names]
    return None if any(v is None for v in r) else [np.asarray(v, dtype=float) if not isinstance(v, list) else v for v in r]


def k_formula(c):
    """functions whose random parameters decide the values: formula by the parameters of the instance"""
    seed(c.seed)
    cls = [U.StepElliFunction, U.AttractiveSectorFunction, U.BoundedLinear, M.BucheRastriginFunction, M.Schwefel20Function, M.GallagherGauss101MeFunction,
           M.GallagherGauss21HiFunction, M.KatsuuraFunction, M.LunacekBiRastriginFunction, M.Schwefel_2_13Function][c.idx % 10]
    d = c.r.choice([2, 3, 4, 5, 8, 12])
    with contextlib.redirect_stdout(io.StringIO()):
        f = cls(d)
    opt = np.array(f.xopt, dtype=float)
    ref = None
    dirs = np.sign(opt)
    if cls is U.StepElliFunction:
        p = known(f, '_R')
        if p:
            R = p[0]
            c.close(R.dot(R.T), np.eye(d), 'parameters', 1e-8, 'orthogonal')

            def ref(x):
                z = R.dot(np.array([math.floor(.5 + v) if v > .5 else math.floor(.5 + 10 * v) / 10. for v in x]))
                return .1 * max(1e-4 * abs(z[0]), sum(10. ** (2 * i / N(x)) * z[i] ** 2 for i in range(d)))
    elif cls is U.AttractiveSectorFunction:
        ref = lambda x: osc(np.array([sum(((100. if v * o > 0 else 1.) * v) ** 2 for v, o in zip(x - opt, opt))]))[0] ** .9
    elif cls is U.BoundedLinear:
        ref = lambda x: sum(10. ** (i / N(x)) * (5 - min(5., dirs[i] * x[i])) for i in range(d))
    elif cls is M.BucheRastriginFunction:
        def ref(x):
            z = [v * 10 ** (i / N(x) / 2. + (1 if v <= 0 or i % 2 == 0 else 0)) for i, v in enumerate(x)]
            return sum(v * v - 10 * cos(2 * pi * v) + 10 for v in z)
    elif cls is M.Schwefel20Function:
        c.close(abs(opt), np.ones(d) * 4.20968746 / 2, 'parameters', 1e-5, 'optimum')

        def ref(x):
            o, z = 2 * abs(opt), 2 * x * dirs
            z = np.array([z[i] + (.25 * (z[i - 1] - o[i - 1]) if i else 0) for i in range(d)])
            z = 100 * (np.array(diags(10, d)) * (z - o) + o)
            return -sum(v * sin(sqrt(abs(v))) for v in z) / (100. * d) + 4.189828872724339 + 100 * penal(z / 100.)
    elif cls is M.KatsuuraFunction:
        def ref(x):
            p = 1.
            for i, v in enumerate(x):
                p *= (1 + (i + 1) * sum(abs(2 ** j * v - math.trunc(2 ** j * v)) / 2. ** j for j in range(1, 33))) ** (10. / d ** 1.2)
            return p - 1
    elif cls is M.LunacekBiRastriginFunction:
        p = known(f, '_R1', '_R2')
        c.close(abs(opt), np.ones(d) * 1.25, 'parameters', 1e-9, 'optimum')
        if p:
            A, B = p
            c.close(A.dot(A.T), np.eye(d), 'parameters', 1e-8, 'orthogonal')
            c.close(B.dot(B.T), np.eye(d), 'parameters', 1e-8, 'orthogonal')

            def ref(x):
                s = 1 - 1 / (2 * sqrt(d + 20) - 8.2)
                m = -sqrt((2.5 ** 2 - 1) / s)
                w = 2 * dirs * x
                z = A.dot(np.array(diags(100, d)) * B.dot(w - 2.5))
                return min(sq(w - 2.5), d + s * sq(w - m)) + 10 * (d - sum(cos(2 * pi * v) for v in z))
    elif cls is M.Schwefel_2_13Function:
        p = known(f, 'A', 'B', 'alphas')
        if p:
            A, B, al = p
            c.ok((A == np.floor(A)).all() and abs(A).max() <= 100 and (B == np.floor(B)).all() and abs(B).max() <= 100 and abs(al).max() <= pi, 'parameters', 'of Schwefel 2.13')
            ref = lambda x: sum((A[i].dot(np.sin(al)) + B[i].dot(np.cos(al)) - A[i].dot(np.sin(x)) - B[i].dot(np.cos(x))) ** 2 for i in range(d))
    else:
        n = f.numPeaks
        p = known(f, '_opts', '_covs', '_R', '_ws')
        if p:
            O, C, R, W = p
            O = np.array(O)
            C = [np.diagonal(m) for m in C]
            c.eq((O.shape, len(C), len(W)), ((n, d), n, n), 'parameters', 'sizes')
            c.close(O[0], opt, 'parameters', 1e-12, 'highest peak')
            c.ok(abs(O).max() <= 4.9 and abs(O[0]).max() <= 4, 'parameters', 'peaks outside of the domain: %s' % abs(O).max())
            c.close(W, [10.] + [1.1 + 8. * i / (n - 2) for i in range(n - 1)], 'parameters', 1e-9, 'heights')
            conds = [1000. ** .5 if n == 101 else 1000.] + sorted(1000. ** (2. * i / (n - 2)) for i in range(n - 1))
            got = [m.max() / m.min() for m in C]
            c.close([got[0] ** 2] + sorted(v ** 2 for v in got[1:]), conds, 'parameters', 1e-6, 'conditions of the peaks')
            for m, g in zip(C, got):
                c.close(sorted(m), np.array(diags(g ** 2, d)) / (g ** 2) ** .25, 'parameters', 1e-7, 'axes of a peak')
            if d > 2:
                c.ok(any(np.argsort(m).tolist() != list(range(d)) for m in C), 'parameters', 'axes are not shuffled')
            c.close(R.dot(R.T), np.eye(d), 'parameters', 1e-8, 'orthogonal')

            def ref(x):
                best = 0.
                for o, m, w in zip(O, C, W):
                    y = R.dot(x - o)
                    best = max(best, w * exp(-sum(m * y * y) / (2. * d)))
                return (10 - best) ** 2
            for o in (O[c.r.randrange(n)], O[1]):
                c.close(evaluate(c, f, o.copy()), ref(o), 'formula', 1e-8, 'peak of %s' % cls.__name__)
    if dirs.all() and cls in (U.BoundedLinear, M.Schwefel20Function, M.LunacekBiRastriginFunction) and d >= 8:
        signs = [np.sign(cls(d).xopt) for _ in range(4)]
        c.ok(any((s > 0).any() and (s < 0).any() for s in signs), 'parameters', 'directions %s' % signs)
    if ref:
        for x in pts(c, d, 10, opt) + [opt.copy()] + [np.array([c.r.uniform(-40, 40) for _ in range(d)]), np.array([c.r.randint(-6, 6) / 2. for _ in range(d)])]:
            if cls is U.AttractiveSectorFunction and abs(x - opt).min() < 1e-9 and abs(x - opt).max() > 0:
                continue
            v = evaluate(c, f, x)
            c.ok(abs(v - ref(x)) <= 1e-7 * max(abs(v), 1e-2) + (1e-5 if cls is M.Schwefel20Function else 0), 'formula', lambda: '%s at %s: %s, formula %s' % (cls.__name__, x, v, ref(x)))
        c.ev('parameters')
    c.sig(cls.__name__, d)


def k_limits(c):
    """dimensions, defaults, larger sizes, what transformations keep"""
    seed(c.seed)
    cls, lo, kw, ref, tol = c.r.choice([b for b in BASE if b[0] not in (M.BraninFunction,)])
    for d in range(lo):
        if d < cls.xdimMin:
            c.raises(AssertionError, lambda: cls(d), 'limits', '%s of %d dimensions' % (cls.__name__, d))
    c.raises(AssertionError, lambda: M.BraninFunction(3), 'limits', 'Branin of 3 dimensions')
    c.ev('limits')
    d = c.r.choice([1, 2, 3, 11, 25])
    if ref and d >= max(lo, 1):
        with contextlib.redirect_stdout(io.StringIO()):
            f = cls(d, **kw)
        for x in pts(c, d, 3, f.xopt):
            c.close(evaluate(c, f, x), ref(list(x)), 'formula', max(tol, 1e-8), '%s at %s' % (cls.__name__, x))
        c.close(evaluate(c, f, np.array(f.xopt, float)), 0., 'optimum', 1e-4, '%s of %d dimensions' % (cls.__name__, d))
        c.ev('larger')
    # given optimum, bounds and other attributes
    o = np.array([c.r.uniform(-1, 1) for _ in range(3)])
    f = U.SphereFunction(3, o.copy(), xbound=7)
    c.close(f.xopt, o, 'attributes', 0)
    c.eq(f.xbound, 7, 'attributes')
    # desired values and directions through transformations
    b = c.r.choice([U.SphereFunction(3), T.oppositeFunction(U.SphereFunction(3))])
    b.desiredValue = c.r.choice([None, 0, 0., -2., 3.5])
    down = b.toBeMinimized
    o = T.oppositeFunction(b)
    if b.desiredValue is not None:
        c.eq(o.desiredValue, -b.desiredValue, 'opposite', 'desired value of %s' % b.desiredValue)
    c.eq((o.toBeMinimized, T.oppositeFunction(o).toBeMinimized), (not down, down), 'opposite', 'twice')
    for g in (T.TranslateFunction(b), T.RotateFunction(b), T.SoftConstrainedFunction(b)):
        c.eq((g.desiredValue, g.toBeMinimized), (b.desiredValue, down), 'inherited', g.__class__.__name__)
    # penalties grow away from the domain in the direction of worse values
    s, fac, lim = T.SoftConstrainedFunction(b, 2., 7.), 7., 2.
    for x in pts(c, 3, 4) + [np.array([c.r.uniform(-60, 60) for _ in range(3)])]:
        c.close(s(x), b(x) + (fac if down else -fac) * penal(x, lim), 'penalty', 1e-9, 'at %s' % x)
    t = T.SoftConstrainedFunction(s, 1., 100.)
    x = np.array([c.r.uniform(-9, 9) for _ in range(3)])
    c.close(t(x), s(x), 'penalty', 1e-9, 'penalized twice')
    c.ok(t.penalized, 'penalty', 'mark')
    c.ev('kept')
    # optima of transformed functions do not move along with each other
    g = T.TranslateFunction(b, offset=np.array([1., 2., 3.]))
    h = T.RotateFunction(g, np.linalg.qr(np.array([[c.r.gauss(0, 1) for _ in range(3)] for _ in range(3)]))[0])
    before = [np.array(v.xopt) for v in (b, g, h)]
    g.xopt += 1.
    c.close([b.xopt, h.xopt], [before[0], before[2]], 'independent', 0, 'optima')
    # formulas of the transformations of variables
    y = np.array([c.r.choice([c.r.uniform(-4, 4), 10 ** c.r.uniform(-6, 0), 0., -.5]) for _ in range(c.r.choice([2, 3, 9]))])
    c.close(T.BBOBTransformationFunction.oscillatify(y.copy()), osc(y), 'oscillate', 1e-7, 'of %s' % y)
    if hasattr(T.BBOBTransformationFunction, '_oscillatify'):
        c.close(T.BBOBTransformationFunction._oscillatify(y.copy()), osc(y), 'oscillate', 1e-7, 'of %s, second way' % y)
        c.close(T.BBOBTransformationFunction._oscillatify(float(y[0])), osc(y[:1])[0], 'oscillate', 1e-7, 'of one number')
    be = c.r.choice([.1, .2, .5])
    c.close(T.BBOBTransformationFunction.asymmetrify(y.copy(), be), asym(y, be), 'asymmetry', 1e-7, 'of %s' % y)
    a, n = c.r.choice([10, 100, 1000.]), c.r.randint(2, 9)
    D = T.generateDiags(a, n)
    c.close(D, np.diag(diags(a, n)), 'conditioning', 1e-9)
    D = np.array(T.generateDiags(a, n, shuffled=True))
    c.close(sorted(np.diagonal(D)), diags(a, n), 'conditioning', 1e-9, 'shuffled')
    c.close(D - np.diag(np.diagonal(D)), np.zeros((n, n)), 'conditioning', 0, 'shuffled')
    first = {int(np.argmin(np.diagonal(T.generateDiags(a, 5, shuffled=True)))) for _ in range(40)}
    c.ok(len(first) == 5, 'conditioning', 'smallest axis always at %s' % first)
    c.sig(cls.__name__, d)


class Const(FunctionEnvironment):
    """some positive value everywhere"""
    value = 1.

    def f(self, x):
        return self.value


def k_noise(c):
    """models of noise: relative, uniform, Cauchy; none at the optimum; deterministic penalties"""
    seed(c.seed)
    d = c.r.randint(2, 10)
    b = Const(d)
    b.value = c.r.choice([1., 3., 50., 1e-9, 1e-4])
    how = ['gnoise', 'unoise', 'cnoise'][c.idx % 3]
    par = {'gnoise': c.r.choice([.01, 1.]), 'unoise': c.r.choice([.01, .5, 1.]), 'cnoise': (c.r.choice([.01, 1.]), c.r.choice([.05, .2, .5]))}[how]
    f = T.BBOBTransformationFunction(b, **{how: par})
    n = 400
    vs = np.array([f(f.xopt + 1.) for _ in range(n)])
    v = b.value
    key = 'noise ' + how
    if v < 1e-8:
        c.ok((vs == v).all(), 'noise below', 'noise on a value of %s' % v)
        c.ev('no noise')
        return
    vs = vs - 1.01e-8
    c.ok((vs >= -1e-15).all(), key, 'negative: %s' % vs.min())
    if how == 'gnoise':
        l = np.log(vs / v) / par
        c.ok(abs(l.mean()) < 6 / n ** .5 and abs(l.std() - 1) < 6 * (.5 / n) ** .5, key, 'mean %s, deviation %s of the logarithm' % (l.mean(), l.std()))
        c.ok((l < 0).any() and (l > 0).any(), key, 'one-sided')
    elif how == 'unoise':
        a = .49 / d * par
        # f * U^beta * max(1, (1e9/f)^(alpha V)): between 0 and f * (1e9/f)^alpha
        hi = v * (1e9 / v) ** a
        c.ok((vs <= hi * (1 + 1e-9)).all(), key, 'largest %s, bound %s' % (vs.max(), hi))
        m = np.mean(np.log(vs / v))
        want = -par + a * math.log(1e9 / v) / 2
        sd = sqrt(par ** 2 + (a * math.log(1e9 / v)) ** 2 / 12)
        c.ok(abs(m - want) < 6 * sd / n ** .5, key, 'mean logarithm %s, expected %s' % (m, want))
    else:
        al, be = par
        c.ok((vs >= v - 1e-9).all(), key, 'a value smaller than without noise')
        up = (vs > v + 1e-7).mean()
        want = be / 2
        c.ok(abs(up - want) < 6 * sqrt(want * (1 - want) / n), key, '%s of the values raised, expected %s' % (up, want))
        r = (vs[vs > v + 1e-7] - v) / (al * 1000.)
        # absolute ratio of normal variables: the median is one
        if len(r) > 20:
            k = (r > 1).mean()
            c.ok(abs(k - .5) < 6 * .5 / len(r) ** .5, key, '%s of the outliers above the median' % k)
    c.sig(how, d, par, v)
    c.ev('noise model')
    # the penalty itself is not noisy
    g = T.BBOBTransformationFunction(U.SphereFunction(d), translate=False, gnoise=0, penalized=3)
    x = np.array([c.r.uniform(-9, 9) for _ in range(d)])
    c.close(g(x), sq(x) + 3 * penal(x), 'penalty', 1e-9)
    # optima are spread over the domain
    os_ = np.array([T.BBOBTransformationFunction(U.SphereFunction(d)).xopt for _ in range(200)]).ravel()
    c.ok(abs(os_).max() <= 4.9 and abs(os_).max() > 4.5 and abs(os_.mean()) < 6 * 2.83 / len(os_) ** .5, 'optima', 'from %s to %s' % (os_.min(), os_.max()))


def k_unbounded(c):
    cls, ref = c.r.choice([(B.LinearFunction, sum), (B.ParabRFunction, lambda x: -x[0] + 100 * sq(x[1:])), (B.SharpRFunction, lambda x: -x[0] + 100 * sqrt(sq(x[1:])))])
    d = c.r.randint(1, 6)
    f = cls(d)
    for x in pts(c, d, 8):
        c.close(evaluate(c, f, x, c.r.randint(0, 2)), ref(list(x)), 'formula', 1e-9, cls.__name__)
    c.raises((AssertionError,), lambda: f(list(x)), 'input', 'a list was accepted')
    if d > 1:
        c.sig(cls.__name__, d)
    c.ev('unbounded')


def simple(c):
    """a function with a simple reference"""
    cands = [b for b in BASE if b[3] and b[0] not in (M.WeierstrassFunction, M.BraninFunction)]
    cls, lo, kw, ref, tol = c.r.choice(cands)
    f, d = make(c, cls, max(lo, 2), kw)
    return f, d, ref, cls.__name__


def k_transform(c):
    seed(c.seed)
    f, d, ref, name = simple(c)
    base, keep = f, np.array(f.xopt, dtype=float)
    layers = []
    for _ in range(c.r.randint(1, 3)):
        how = c.r.choice(['translate', 'rotate', 'soft', 'opposite'])
        inner = ref
        opt = np.array(f.xopt, dtype=float)
        if how == 'translate':
            if c.r.random() < .5:
                off = np.array([c.r.uniform(-3, 3) for _ in range(d)])
                g = T.TranslateFunction(f, offset=off.copy())
                c.close(np.asarray(g.xopt) - opt, off, 'translate', 1e-9, 'given offset')
                c.ev('given offset')
            else:
                dist = c.r.choice([.1, 1., 4.])
                g = T.TranslateFunction(f, dist)
                off = np.asarray(g.xopt) - opt
                c.close(np.linalg.norm(off), dist, 'translate', 1e-9, 'distance')
            ref = lambda x, inner=inner, off=off: inner(list(np.asarray(x) - off))
            c.ev('translate')
        elif how == 'rotate':
            if c.r.random() < .5:
                R = np.linalg.qr(np.array([[c.r.gauss(0, 1) for _ in range(d)] for _ in range(d)]))[0]
                if c.r.random() < .3:
                    R = R + np.diag([c.r.uniform(0, .5) for _ in range(d)])
                    if np.linalg.cond(R) > 20:
                        R = np.eye(d)[::-1].copy()
                g = T.RotateFunction(f, R.copy())
                c.ev('given matrix')
            else:
                g = T.RotateFunction(f)
                # what the matrix is can be read off the function alone through a recording base
                R = g._M
                c.close(R.dot(R.T), np.eye(d), 'rotate', 1e-8, 'orthogonal')
            ref = lambda x, inner=inner, R=R: inner(list(np.asarray(x).dot(R)))
            c.close(np.asarray(g.xopt).dot(R), opt, 'rotate', 1e-7, 'optimum of the rotated function')
            c.ev('rotate')
        elif how == 'soft':
            dist, fac = c.r.choice([5, 5, 1.5]), c.r.choice([1., 10.])
            g = T.SoftConstrainedFunction(f, dist, fac)
            c.close(g.xopt, opt, 'soft', 0, 'optimum')
            c.ok(g.penalized, 'soft', 'not marked as penalized')
            if f.penalized:
                c.ev('already penalized')
            else:
                s = 1 if f.toBeMinimized else -1
                ref = lambda x, inner=inner, k=s * fac, dist=dist: inner(x) + k * sum(max(0, abs(v) - dist) ** 2 for v in x)
            c.ev('soft constraint')
        else:
            g = T.oppositeFunction(f)
            c.close(g.xopt, opt, 'opposite', 0, 'optimum')
            c.eq(g.toBeMinimized, not f.toBeMinimized, 'opposite', 'direction')
            c.eq(g.desiredValue, -f.desiredValue, 'opposite', 'desired value')
            ref = lambda x, inner=inner: -inner(x)
            c.ev('opposite')
        if how != 'opposite':
            c.eq((g.toBeMinimized, g.desiredValue), (f.toBeMinimized, f.desiredValue), 'inherited', how)
        c.eq(g.xdim, d, 'dimension', how)
        layers.append(how)
        c.close(f.xopt, opt, 'original', 0, 'the optimum of the original moved by %s' % how)
        f = g
    for x in pts(c, d, 8, f.xopt):
        v = evaluate(c, f, x, c.r.choice([0, 0, 1, 2]))
        c.close(v, ref(list(x)), 'composition', 1e-7, '%s of %s at %s' % (layers, name, x))
        if 'soft' in layers:
            c.ev('outside' if abs(x).max() > 5 else 'inside')
    if 'soft' not in layers:
        c.close(evaluate(c, f, np.array(f.xopt, float)), 0., 'optimum', 1e-5, '%s of %s' % (layers, name))
    c.close(base.xopt, keep, 'original', 0, 'optimum of the base function')
    c.ev('composition')
    # opposites of things that are no function environments
    if c.r.random() < .3:
        plain = lambda x: 3. * x
        c.eq(T.oppositeFunction(plain)(2.), -6., 'opposite')

        class Ev(FitnessEvaluator):
            desiredValue, toBeMinimized = 4., c.r.random() < .5

            def f(self, x):
                return 2. * x
        e = Ev()
        o = T.oppositeFunction(e)
        c.eq((o(3.), o.desiredValue, o.toBeMinimized), (-6., -4., not e.toBeMinimized), 'opposite', 'evaluator')
        c.ev('plain function')
    c.sig(name, d, layers)


def osc(x):
    r = np.zeros(len(x))
    for i, v in enumerate(x):
        if v != 0:
            a, b = (10, 7.9) if v > 0 else (5.5, 3.1)
            # the published definition oscillates log|x|, this code x itself
            r[i] = math.copysign(1, v) * exp(math.log(abs(v)) + .049 * (sin(a * v) + sin(b * v)))
    return r


def asym(x, beta):
    d = len(x)
    return np.array([v if v <= 0 else v ** (1 + beta * i / (d - 1.) * sqrt(v)) for i, v in enumerate(x)])


class Recorder(FunctionEnvironment):
    def f(self, x):
        self.seen = np.array(x, dtype=float)
        return float(np.dot(x, x))


def inverse_osc(z):
    r = np.zeros(len(z))
    for i, v in enumerate(z):
        lo, hi = sorted((0., 2. * v))
        for _ in range(80):
            m = (lo + hi) / 2
            if osc(np.array([m]))[0] < v:
                lo = m
            else:
                hi = m
        r[i] = (lo + hi) / 2
    return r


def k_bbobtransform(c):
    seed(c.seed)
    d = c.r.randint(2, 5)
    kw = {}
    rot = c.r.random() < .5
    if rot:
        kw['rotate'] = True
    if c.r.random() < .3:
        kw['translate'] = False
    if c.r.random() < .4:
        kw['conditioning'] = c.r.choice([10, 100, .01])
    if c.r.random() < .4 and not (rot and 'conditioning' in kw):
        kw['oscillate'] = True
    if c.r.random() < .4 and not rot:
        kw['asymmetry'] = c.r.choice([.2, .5])
    pen = c.r.choice([0, 0, 1, 10])
    if pen:
        kw['penalized'] = pen
    base = Recorder(d)
    if c.r.random() < .5:
        base.xopt = np.array([c.r.uniform(-2, 2) for _ in range(d)])
    # the recorder's own optimum: shifted, so that all of this is told apart
    off = np.array(base.xopt, dtype=float)
    f = T.BBOBTransformationFunction(base, **kw)
    opt = np.array(f.xopt, dtype=float)
    c.must(opt.shape == (d,) and abs(opt).max() <= 5, 'bbob', 'optimum %s' % opt)
    if 'translate' in kw:
        c.close(opt, off, 'bbob', 1e-12, 'not translated')

    def z(y):
        x = opt + y
        v = evaluate(c, f, x)
        s = base.seen
        c.close(v, s.dot(s) + pen * sum(max(0, abs(t) - 5) ** 2 for t in x), 'penalty', 1e-8, 'point %s' % x)
        if pen and abs(x).max() > 5:
            c.ev('penalty')
        return s - off
    c.close(z(np.zeros(d)), np.zeros(d), 'recorded', 1e-8, 'the optimum of the base function')
    diag = np.array([kw.get('conditioning', 1.) ** (i / (2 * d - 2.)) for i in range(d)])
    ys = [np.array([c.r.uniform(-4, 4) for _ in range(d)]) for _ in range(6)]
    if not rot:
        for y in ys:
            w = y
            if 'oscillate' in kw:
                w = osc(w)
                c.ev('oscillate')
            if 'asymmetry' in kw:
                w = asym(w, kw['asymmetry'])
                c.ev('asymmetry')
            if 'conditioning' in kw:
                c.ev('conditioning')
            c.close(z(y), diag * w, 'recorded', 1e-7, '%s of %s' % (kw, y))
            c.ev('recorded')
    elif 'oscillate' not in kw:
        A = np.array([z(e) for e in np.eye(d)]).T
        for y in ys:
            c.close(z(y), A.dot(y), 'recorded', 1e-7, 'linear %s' % kw)
        # rotations on both sides keep the condition
        c.close(sorted(np.linalg.svd(A, compute_uv=False)), sorted(diag), 'orthogonal', 1e-7, 'conditioning %s' % kw)
        c.ev('orthogonal')
        c.ev('conditioning')
    else:
        A = np.array([inverse_osc(z(e)) for e in np.eye(d)]).T
        c.close(A.dot(A.T), np.eye(d), 'orthogonal', 1e-6, 'rotation before the oscillation')
        for y in ys:
            c.close(z(y), osc(A.dot(y)), 'recorded', 1e-5, 'oscillated rotation')
        c.ev('orthogonal')
        c.ev('oscillate')
    c.sig(d, sorted(kw.items()))


# the functions of the suite that are not rotated: what they are made of
SEPARABLE = {'bbob_f1': ('SphereFunction', {}), 'bbob_f2': ('ElliFunction', dict(oscillate=True)), 'bbob_f3': ('RastriginFunction', dict(oscillate=True, asymmetry=.2)),
             'bbob_f4': ('BucheRastriginFunction', dict(oscillate=True, penalized=100)), 'bbob_f8': ('RosenbrockFunction', {})}
# the condition numbers of the rotated ones, with the other transformations they are known for
ROTATED = {'bbob_f7': dict(conditioning=10, penalized=1), 'bbob_f9': {}, 'bbob_f10': dict(oscillate=True), 'bbob_f11': dict(oscillate=True), 'bbob_f12': dict(asymmetry=.5),
           'bbob_f13': dict(conditioning=10), 'bbob_f14': {}, 'bbob_f15': dict(conditioning=10, oscillate=True, asymmetry=.2),
           'bbob_f16': dict(conditioning=.01, oscillate=True), 'bbob_f17': dict(conditioning=10, asymmetry=.5, penalized=10),
           'bbob_f18': dict(conditioning=1000, asymmetry=.5, penalized=10), 'bbob_f19': {}, 'bbob_f23': dict(conditioning=100)}
NOISE = [dict(gnoise=.01), dict(unoise=.01), dict(cnoise=(.01, .05))] * 2 + [dict(gnoise=1), dict(unoise=1), dict(cnoise=(1, .2))] * 8


def k_bbobmakeup(c):
    """which transformations the functions of the suite ask for"""
    names = sorted(ROTATED) + ['bbob_f%d' % k for k in range(101, 131)]
    name = names[c.idx % len(names)]
    real = bbob2010.BBOBTransformationFunction
    sig = inspect.signature(real.__init__)
    seen = []

    def spy(*a, **kw):
        b = sig.bind(None, *a, **kw)
        b.apply_defaults()
        seen.append(dict(b.arguments))
        return real(*a, **kw)
    bbob2010.BBOBTransformationFunction = spy
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            getattr(bbob2010, name)(c.r.randint(2, 5))
    finally:
        bbob2010.BBOBTransformationFunction = real
    for a in seen[:1]:
        if name in ROTATED:
            want = dict(dict(conditioning=None, oscillate=False, asymmetry=None, penalized=0, gnoise=None, unoise=None, cnoise=None, translate=True, rotate=True), **ROTATED[name])
        else:
            want = dict(dict(gnoise=None, unoise=None, cnoise=None, penalized=1), **NOISE[int(name[6:]) - 101])
        for k, v in want.items():
            c.eq((a[k] or None) if not isinstance(v, tuple) else tuple(a[k] or ()), v or None, 'bbob definition', '%s: %s' % (name, k))
        c.ev('make-up')
    c.sig(name)


def k_bbob(c):
    seed(c.seed)
    n1 = len(bbob2010.bbob_collection)
    k = c.idx % (n1 + len(bbob2010.bbob_noise_collection))
    fn = (bbob2010.bbob_collection + bbob2010.bbob_noise_collection)[k]
    d = c.r.randint(2, 6)
    with contextlib.redirect_stdout(io.StringIO()):
        f = fn(d)
    name = fn.__name__
    opt = np.array(f.xopt, dtype=float)
    if name in SEPARABLE:
        base, kw = SEPARABLE[name]
        b = getattr(M if hasattr(M, base) else U, base)(d)
        off = np.array(b.xopt, dtype=float)
        for x in pts(c, d, 12, opt) + [np.array([c.r.uniform(-8, 8) for _ in range(d)])]:
            w = x - opt
            if kw.get('oscillate'):
                w = osc(w)
            if kw.get('asymmetry'):
                w = asym(w, kw['asymmetry'])
            pen = kw.get('penalized', 0) * sum(max(0, abs(t) - 5) ** 2 for t in x)
            v = float(b(w + off)) + pen
            c.ok(abs(evaluate(c, f, np.array(x)) - v) <= 1e-7 * (1 + abs(v)), 'bbob definition', lambda: '%s at %s: %s, expected %s' % (name, x, evaluate(c, f, np.array(x)), v))
        c.ev('definition')
    v0 = evaluate(c, f, opt.copy())
    c.ok(abs(v0) < 1e-6, 'bbob optimum', lambda: '%s is %s at its optimum' % (name, v0))
    if k >= n1:
        c.ev('noisy optimum')
    differ = 0
    for x in pts(c, d, 15, opt):
        v, w = evaluate(c, f, x), evaluate(c, f, x)
        c.ok(v == v and v >= -1e-6, 'bbob minimum', lambda: '%s is %s at %s' % (name, v, x))
        if k < n1:
            c.close(w, v, 'bbob', 1e-12, name + ' is not deterministic')
        differ += v != w
    if k >= n1:
        # chance decides at each evaluation, except for the rare noise of cnoise
        c.ok(differ > 0 or k % 3 == (n1 + 2) % 3, 'noise', '%s is not noisy' % name)
        c.ev('noise')
    c.eq((f.xdim, f.toBeMinimized), (d, True), 'interface')
    c.sig(name, d)
    c.ev('bbob')


def k_sparse(c):
    """large dimensions use sparse matrices"""
    seed(c.seed)
    d = 500
    kw = c.r.choice([{'rotate': True}, {'rotate': True, 'conditioning': 100.}, {'conditioning': 10.}, {}])
    base = Recorder(d)
    f = T.BBOBTransformationFunction(base, **kw)
    y = np.array([c.r.gauss(0, 1) for _ in range(d)])
    f(f.xopt + y)
    z1 = base.seen
    c.must(z1.shape == (d,), 'sparse', 'shape %s' % (z1.shape,))
    f(f.xopt - 2 * y)
    c.close(base.seen, -2 * z1, 'sparse', 1e-7, 'linear')
    if 'conditioning' not in kw:
        c.close(np.linalg.norm(z1), np.linalg.norm(y), 'sparse', 1e-8, 'norm')
    else:
        r = np.linalg.norm(z1) / np.linalg.norm(y)
        c.ok(1 - 1e-9 <= r <= sqrt(kw['conditioning']) + 1e-9, 'sparse', 'stretched by %s' % r)
    c.sig(sorted(kw.items()))
    c.ev('sparse')


# objectives (to be minimized) and constraints (>= 0) of the literature
A1, A2 = .5 * sin(1) - 2 * cos(1) + sin(2) - 1.5 * cos(2), 1.5 * sin(1) - cos(1) + 2 * sin(2) - .5 * cos(2)
POL = lambda x: (1 + (A1 - .5 * sin(x[0]) + 2 * cos(x[0]) - sin(x[1]) + 1.5 * cos(x[1])) ** 2 + (A2 - 1.5 * sin(x[0]) + cos(x[0]) - 2 * sin(x[1]) + .5 * cos(x[1])) ** 2,
                 (x[0] + 3) ** 2 + (x[1] + 1) ** 2)
MOPS = [
    (MO.SchBenchmark, 1, 5, lambda x: (x[0] ** 2, (x[0] - 2) ** 2), None),
    (MO.FonBenchmark, 3, 4, lambda x: tuple(1 - exp(-sum((v - s / sqrt(3)) ** 2 for v in x)) for s in (1, -1)), None),
    (MO.PolBenchmark, 2, pi, POL, None), (MO.Pol, 2, pi, POL, None),
    (MO.KurBenchmark, 3, 5, lambda x: (sum(-10 * exp(-.2 * sqrt(x[i] ** 2 + x[i + 1] ** 2)) for i in range(len(x) - 1)), sum(abs(v) ** .8 + 5 * sin(v ** 3) for v in x)), None),
    (MO.Deb, 2, None, lambda x: (x[0], (1 + x[1]) / x[0]), None),
    (MO.ConstDeb, 2, None, lambda x: (x[0], (1 + x[1]) / x[0]), lambda x: (x[1] + 9 * x[0] - 6, -x[1] + 9 * x[0] - 1)),
    (MO.ConstSrn, 2, None, lambda x: (2 + (x[0] - 2) ** 2 + (x[1] - 1) ** 2, 9 * x[0] - (x[1] - 1) ** 2), lambda x: (225 - sq(x), 3 * x[1] - x[0] - 10)),
    (MO.ConstOsy, 6, None, lambda x: (-(25 * (x[0] - 2) ** 2 + (x[1] - 2) ** 2 + (x[2] - 1) ** 2 + (x[3] - 4) ** 2 + (x[4] - 1) ** 2), sq(x)),
     lambda x: (x[0] + x[1] - 2, 6 - x[0] - x[1], 2 - x[1] + x[0], 2 - x[0] + 3 * x[1], 4 - (x[2] - 3) ** 2 - x[3], (x[4] - 3) ** 2 + x[5] - 4)),
    (MO.ConstTnk, 2, None, lambda x: (x[0], x[1]),
     lambda x: (sq(x) - 1 - .1 * cos(16 * (math.atan(x[0] / x[1]) if x[1] else pi / 2)), .5 - (x[0] - .5) ** 2 - (x[1] - .5) ** 2)),
    (MO.ConstBnh, 2, None, lambda x: (4 * x[0] ** 2 + 4 * x[1] ** 2, (x[0] - 5) ** 2 + (x[1] - 5) ** 2),
     lambda x: (25 - (x[0] - 5) ** 2 - x[1] ** 2, (x[0] - 8) ** 2 + (x[1] + 3) ** 2 - 7.7)),
]


def k_multiobjective(c):
    cls, d, bound, ref, con = MOPS[c.idx % len(MOPS)]
    f = cls()
    c.eq((f.xdim, f.indim, f.outdim), (d, d, 2), 'interface', cls.__name__)
    lims = [(-bound, bound)] * d if bound else f.xbound
    o = T.oppositeFunction(f)
    for k in range(12):
        x = np.array([c.r.choice([c.r.uniform(a, b), c.r.uniform(a, b), a, b]) for a, b in lims])
        if cls is MO.ConstOsy and k < 6:
            # on the known front
            x = np.array([5., 1., c.r.uniform(1, 5), 0., c.r.choice([1., 5., c.r.uniform(1, 5)]), 0.])
        if cls is MO.ConstTnk and k < 6:
            r = c.r.uniform(1.06, 1.2)
            a = c.r.uniform(.2, 1.3)
            x = np.array([r * cos(a), r * sin(a)])
        keep = x.copy()
        if c.r.random() < .3:
            v = -np.asarray(o(x))
        else:
            v = f(x)
        c.ok((x == keep).all(), 'unmodified', cls.__name__)
        c.close(-np.ravel(v), ref([float(t) for t in x]), 'objectives', 1e-9, '%s at %s' % (cls.__name__, x))
        if con:
            g = np.array(con([float(t) for t in x]))
            if abs(g).min() < 1e-9:
                g = np.where(abs(g) < 1e-12, 0, g)
            good = bool((g >= 0).all())
            if (abs(g) < 1e-9).any() and not (g == 0).any():
                continue
            c.eq(bool(f.feasible), good, 'feasible', '%s at %s: constraints %s' % (cls.__name__, x, g))
            c.eq((bool(f.outfeasible),), (good,), 'feasible', 'asked from outside')
            c.close(f.violation, np.zeros(2) if good else g, 'violation', 1e-9, '%s at %s' % (cls.__name__, x))
            c.ok(np.array_equal(f.outviolation, f.violation), 'violation', 'asked from outside')
            c.ev('feasible' if good else 'infeasible')
        else:
            c.ok(not f.constrained, 'constrained', cls.__name__)
    c.ev('multiobjective')
    c.sig(cls.__name__)


def k_atoms(c):
    seed(c.seed)
    n = c.r.randint(1, 6)
    f = LennardJones(3 * n)
    c.close(f.desiredValue, [0, 0, -1, -3, -6, -9.103852, -12.712062][n] + 1e-5, 'atoms', 1e-9, 'desired value')
    for _ in range(5):
        X = np.array([[c.r.uniform(-2, 2) for _ in range(3)] for _ in range(n)])
        ref = sum(4 * (np.linalg.norm(X[i] - X[j]) ** -12 - np.linalg.norm(X[i] - X[j]) ** -6) for i in range(n) for j in range(i))
        v = evaluate(c, f, X.flatten())
        c.close(v, ref, 'atoms', 1e-8, '%d atoms' % n)
        R = np.linalg.qr(np.array([[c.r.gauss(0, 1) for _ in range(3)] for _ in range(3)]))[0]
        Y = X.dot(R)[c.r.sample(range(n), n)] + np.array([c.r.uniform(-2, 2) for _ in range(3)])
        c.close(evaluate(c, f, Y.flatten()), v, 'invariance', 1e-6, 'moved and renamed atoms')
        c.ok(v >= f.desiredValue - 2e-5, 'atoms', 'below the best known energy')
    if n <= 4:
        e = 2 ** (1 / 6.)
        simplex = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]) * e / (2 * sqrt(2))
        c.close(evaluate(c, f, simplex[:n].flatten()), [0, 0, -1, -3, -6][n], 'atoms', 1e-9, 'simplex')
        c.ev('known minimum')
    m = 8 * c.r.randint(1, 2)
    x = LennardJones(3 * m)._exampleConfig(m, edge=3.)
    c.must(x.shape == (3 * m,), 'example atoms', 'shape %s' % (x.shape,))
    X = x.reshape(m, 3)
    cnt = {}
    for p in X:
        k = tuple((p > 0).astype(int))
        cnt[k] = cnt.get(k, 0) + 1
        c.ok((abs(abs(p) - 1.5) < 1.2).all(), 'example atoms', 'atom at %s' % p)
    c.eq(sorted(cnt.values()), [m // 8] * 8, 'example atoms', 'corners of the cube')
    c.ev('example atoms')
    k = c.r.choice([7, 10, 13, 19, 38, 55, 75, 100, 110, c.r.randint(7, 109)])
    E = LennardJones(3 * k).desiredValue
    some = {7: -16.505384, 10: -28.422532, 13: -44.326801, 19: -72.659782, 38: -173.928427, 55: -279.248470, 75: -397.492331, 100: -557.039820, 110: -621.788224}
    if k in some:
        c.close(E, some[k] + 1e-5, 'known energies', 1e-9, '%d atoms' % k)
    else:
        # each further atom gains between 3 and 8
        c.ok(3 < E - LennardJones(3 * k + 3).desiredValue < 8, 'known energies', '%s for %d atoms' % (E, k))
    c.ev('known energies')
    c.ev('atoms')
    if n > 1:
        c.sig(n, m)


KINDS = [('base', k_base, 120, 3000), ('formula', k_formula, 100, 3000), ('limits', k_limits, 60, 3000), ('noise', k_noise, 24, 900),
         ('unbounded', k_unbounded, 12, 300), ('transform', k_transform, 80, 4000), ('bbobtransform', k_bbobtransform, 80, 4000),
         ('bbob', k_bbob, 108, 1080), ('bbobmakeup', k_bbobmakeup, 43, 86), ('sparse', k_sparse, 2, 12), ('multiobjective', k_multiobjective, 44, 2200), ('atoms', k_atoms, 20, 1000)]
