"""P36: what leaves the library - plots, images, telemetry, files - carries exactly the data given."""
import math, os, random, shutil, socket, struct, tempfile, threading, time, warnings
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.image, matplotlib.cm
import pylab
from vp import fakeode
fakeode.install()
from pybrain.tools.networking.udpconnection import UDPServer, UDPClient
from pybrain.tools import filehandling, example_tools
from pybrain.tools.datasets import mnist
from pybrain.tools.plotting.multiline import MultilinePlotter
from pybrain.tools.plotting.colormaps import ColorMap
from pybrain.tools.plotting.ciaoplot import CiaoPlot
from pybrain.tools.plotting.fitnesslandscapes import FitnessPlotter, plotCovEllipse
from pybrain.tools.plotting.fitnessprogression import plotFitnessProgession
from pybrain.tools.plotting.quickvariations import plotVariations
from pybrain.tools.plotting.classification import ClassificationDataSetPlot
from pybrain.auxiliary.gaussprocess import GaussianProcess
from pybrain.rl.environments.functions.unimodal import SphereFunction, ElliFunction
from pybrain.rl.environments.functions.multimodal import RastriginFunction

RULE = ('a case sends one history of messages over the loopback network, drives one environment with a connected viewer, writes and reads one set of files, '
        'or draws one plot and reads it back from the figure or the image; distinct by the data')
EXPECT = ['message', 'several clients', 'malformed', 'silent client forgotten', 'client back', 'array sent', 'not finite sent', 'reset signal', 'cube', 'ship', 'bodies',
          'dictionary file', 'missing file', 'mnist', 'not an mnist file', 'weights loaded', 'statistics', 'added point', 'added points', 'replaced line', 'offset', 'saved lines',
          'expanded axes', 'line style', 'image', 'asymmetric', 'landscape', 'rescaled', 'ellipse', 'successful only', 'over evaluations', 'over fitness', 'own batch size', 'target reached exactly', 'target reached at the end',
          'variations', 'several figures', 'x and y', 'told apart', 'sequence plot', 'punchcard', 'process']
ASSUMPTIONS = ['messages fit into a datagram and the buffer of the client; arrays have few enough entries to be written out in full',
               'some fitness of a curve is worse than the cutoff', 'lines given to an autoscaled plot are sorted by x', 'the ranges of a fitness landscape include 0 in both directions']


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*a, **k)


# ------------------------------------------------------------------ telemetry

def address(c, host):
    p = os.getpid()
    return '127.%d.%d.%d' % (1 + p // 250 // 250 % 250, 1 + p // 250 % 250, 1 + (p * 7 + host) % 250)


def base_port(c):
    return str(20000 + 2 * c.r.randint(0, 6000))


def rnd_data(c, depth=0):
    r = c.r
    k = r.random()
    if depth > 2 or k < .25:
        return r.choice([r.randint(-99, 99), r.gauss(0, 1), 'text', '', True, None, float('inf'), float('-inf'), 0.])
    if k < .6:
        sh = r.choice([(3,), (2, 2), (1,), (0,), (2, 1, 2)])
        a = c.np.normal(0, 10 ** r.uniform(-3, 4), sh)
        k = r.random()
        if k < .15:
            a = a.astype(int)
        elif k < .3:
            a = a.astype('float32')
        elif k < .4:
            a = a.astype('int32')
        elif k < .5 and a.size:
            a.ravel()[r.randrange(a.size)] = r.choice([np.inf, np.nan, -np.inf])
            c.ev('not finite sent')
        c.ev('array sent')
        return a
    xs = [rnd_data(c, depth + 1) for _ in range(r.randint(0, 3))]
    return tuple(xs) if r.random() < .4 else {str(i): x for i, x in enumerate(xs)} if r.random() < .3 else xs


def same(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.shape == b.shape and (a.dtype.kind == b.dtype.kind) and \
            np.allclose(a.astype(float), b.astype(float), rtol=1e-5, atol=1e-7 * (1 + abs(b[np.isfinite(b)]).max() if b.size and np.isfinite(b).any() else 1), equal_nan=True)
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in b)
    return a == b and isinstance(a, type(b))


def close_all(*socks):
    for s in socks:
        try:
            s.close()
        except Exception:
            pass


def k_udp(c):
    """one server, some clients, a history of messages"""
    r = c.r
    port = base_port(c)
    host = address(c, 0)
    s = UDPServer(host, port)
    cl, heard = [], {}
    pending = []                       # signs of life on their way to the server
    known = []
    try:
        for _ in range(r.randint(3, 14)):
            op = r.choice(['client', 'message', 'message', 'message', 'message', 'malformed'])
            if op == 'client' or not cl:
                if len(cl) < 3:
                    k = UDPClient(host, address(c, 1 + len(cl)), port, '16384')
                    cl.append(k)
                    pending.append(k)
                    heard[k] = []
                    if len(cl) > 1:
                        c.ev('several clients')
            while pending:
                s.listen()
                k = pending.pop(0)
                if k not in known:
                    known.append(k)
                c.eq(s.clients, len(known), 'number of clients')
            if op in ('message', 'client'):
                burst = [[rnd_data(c) for _ in range(r.randint(1, 3))] for _ in range(r.choice([1, 1, 2, 3]))]
                for d in burst:
                    if len(repr(d)) > 8000:
                        return
                    s.send(d)
                for k in cl:
                    for d in burst:
                        got = k.listen()
                        pending.append(k)
                        c.ev('message')
                        c.ok(same(got, d), 'message', lambda: 'sent %r, received %r' % (d, got))
            else:
                bad = r.choice(['[1, 2', 'array([1,', '{]', 'nosuchname + 1', 'array([1, 2)'])
                k = r.choice(cl)
                x = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
                x.sendto(bad.encode(), k.inAddr)
                x.close()
                c.eq(k.listen(), None, 'malformed message', bad)
                pending.append(k)
                c.ev('malformed')
        if r.random() < .25:
            while pending:
                s.listen()
                pending.pop(0)
            s.listen()                 # nothing for two seconds
            c.eq(s.clients, 0, 'clients stay although silent')
            s.send(['nobody'])
            for k in cl:
                k.UDPInSock.settimeout(.05)
                try:
                    got = k.UDPInSock.recv(999)
                except Exception:
                    got = None
                c.eq(got, None, 'forgotten client still served')
            c.ev('silent client forgotten')
            k = r.choice(cl)
            k.UDPOutSock.sendto(k.ownIP.encode(), k.outAddr)
            s.listen()
            c.eq(s.clients, 1, 'client comes back')
            s.send(['welcome'])
            c.eq(k.listen(), ['welcome'], 'message after coming back')
            c.ev('client back')
        c.sig(len(cl), host, port)
        c.sample({'clients': len(cl)})
    finally:
        close_all(s.UDPInSock, *[x for k in cl for x in (k.UDPInSock, k.UDPOutSock)] + list(s.UDPOutSockList))


def settle(before):
    t = time.time()
    while time.time() - t < 30:
        if not [x for x in threading.enumerate() if x not in before]:
            return True
        time.sleep(.002)
    return False


def k_viewer(c):
    """an environment with a viewer: what the viewer gets is the state"""
    r = c.r
    port, host = base_port(c), address(c, 0)
    kind = r.choice(['cube', 'ship', 'bodies', 'bodies'])
    before = threading.enumerate()
    if kind == 'cube':
        from pybrain.rl.environments.flexcube import FlexCubeEnvironment
        env = FlexCubeEnvironment(True, False, host, port)
    elif kind == 'ship':
        from pybrain.rl.environments.shipsteer import ShipSteeringEnvironment
        env = ShipSteeringEnvironment(True, host, port)
    else:
        from pybrain.rl.environments.ode import JohnnieEnvironment, AcrobotEnvironment, CCRLEnvironment
        which = r.choice([JohnnieEnvironment, AcrobotEnvironment, CCRLEnvironment])
        env = quiet(which, *[x for x in ['ccrlGlas.xode'] if which is CCRLEnvironment], ip=host, port=port, realtime=False, renderer=True)
    s = env.server
    k = UDPClient(host, address(c, 1), port, '65000')
    try:
        for t in range(r.randint(2, 5)):
            if kind == 'cube':
                env.performAction(c.np.uniform(10, 30, 12))
            elif kind == 'ship':
                env.performAction([r.uniform(-1, 2), r.uniform(-90, 90)])
            else:
                for b in env.world.bodies:
                    b.vel = tuple(c.np.normal(0, 10, 3))
                env.step()
            c.must(settle(before), 'the update never ends')
            c.eq(s.clients, 1, 'viewer not connected')
            got = k.listen()
            if kind == 'cube':
                got = eval(got, {'array': np.array, 'nan': np.nan, 'inf': np.inf})
                c.ok(same(got, [np.array(env.pos), np.array(env.centerOfGrav)]), 'cube: message is not the state', lambda: repr((got, env.pos, env.centerOfGrav)))
                c.close(got[1], np.mean(env.pos, 0), 'cube: center', tol=1e-6)
            elif kind == 'ship':
                c.close(got, env.sensors, 'ship: message is not the state', tol=1e-9)
            else:
                c.must(isinstance(got, list) and len(got) == len(env.body_geom), 'bodies: message', repr(got)[:300])
                for item, (b, g) in zip(got, env.body_geom):
                    want = {}
                    if b is not None:
                        want['position'], want['rotation'] = tuple(b.pos), b.getRotation()
                        if hasattr(b, 'color'):
                            want['color'] = b.color
                    name = type(g).__name__
                    if (b is None) == (name == 'GeomPlane') and name != 'Geom':
                        want['type'] = name
                    if name == 'GeomBox':
                        want['scale'] = g.getLengths()
                    elif name == 'GeomSphere':
                        want['radius'] = g.getRadius()
                    elif name in ('GeomCylinder', 'GeomCCylinder'):
                        want['radius'], want['length'] = g.getParams()
                        if name == 'GeomCCylinder':
                            want['length'] -= 2 * want['radius']
                    elif name == 'GeomPlane':
                        want['normal'], want['distance'] = g.getParams()
                    c.eq(sorted(item), sorted(want), 'bodies: fields', b and b.name)
                    for f in want:
                        if f in item:
                            if isinstance(want[f], str):
                                c.eq(item[f], want[f], 'bodies: ' + f)
                            else:
                                c.close(np.ravel(item[f]).astype(float), np.ravel(want[f]).astype(float), 'bodies: ' + f, tol=1e-9)
            c.ev(kind)
            if kind != 'bodies' and r.random() < .4:
                env.reset()
                got = k.listen()
                c.eq(got, ['r'] * (2 if kind == 'cube' else 3), 'reset signal')
                c.ev('reset signal')
                env.server.listen()
        c.sig(kind, host, port)
        c.sample({'environment': kind})
    finally:
        close_all(s.UDPInSock, k.UDPInSock, k.UDPOutSock, *s.UDPOutSockList)


# ------------------------------------------------------------------ files

class scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='p36')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def k_files(c):
    """dictionaries in files, names of files"""
    r = c.r
    with scratch() as d:
        model, names = {}, [r.choice(['run', 'exp', 'x', 'test.1']) + str(i) for i in range(4)]
        junk = [n for n in ['runs.txt', 'a.pickle.bak', 'exp.dat', 'pickle'] if r.random() < .5]
        for j in junk:
            open(os.path.join(d, j), 'w').close()
        for _ in range(r.randint(4, 20)):
            n = r.choice(names)
            p = os.path.join(d, n)
            op = r.choice(['dump', 'read', 'add', 'add', 'add'])
            if op == 'dump':
                v = {r.choice(['a', 'b', 0, '']): [r.random() for _ in range(r.randint(0, 3))] for _ in range(r.randint(0, 3))}
                c.ok(filehandling.pickleDumpDict(p, v) is True, 'dump failed')
                model[n] = {k: list(x) for k, x in v.items()}
            elif op == 'add':
                k, v = r.choice(['a', 'b', 0, '']), c.np.normal(0, 1, 3).tolist()
                filehandling.addToDictFile(p, k, v, verbose=r.random() < .3)
                model.setdefault(n, {}).setdefault(k, []).append(v)
            c.eq(filehandling.pickleReadDict(p), model.get(n, {}), 'dictionary file', op)
            c.ev('dictionary file' if n in model else 'missing file')
        for n in names:
            c.eq(filehandling.pickleReadDict(os.path.join(d, n)), model.get(n, {}), 'dictionary file', 'at the end')
        tag = r.choice(['', 'run', 'exp', 'x'])
        c.eq(sorted(filehandling.getAllFilesIn(d, tag)), sorted(n for n in model if n.startswith(tag)), 'files of a directory', tag)
        c.eq(sorted(filehandling.getAllFilesIn(d, tag, '.txt')), sorted(j[:-4] for j in junk if j.startswith(tag) and j.endswith('.txt')), 'files of a directory', '.txt')
        c.eq(filehandling.pickleDumpDict(os.path.join(d, 'no', 'such'), {}), False, 'dump into a missing directory')
        ss = [''.join(r.choice('ab1_') for _ in range(6)) for _ in range(12)]
        req = [''.join(r.choice('ab1_') for _ in range(r.randint(1, 2))) for _ in range(r.randint(0, 3))]
        for al in (True, False):
            c.eq(list(filehandling.selectSome(ss, req, al)), [x for x in ss if not req or (all if al else any)(q in x for q in req)], 'selected strings', req)
        c.sig(sorted(model), sorted(junk))


def k_mnist(c):
    r = c.r
    with scratch() as d:
        data = {}
        for part in ('t10k', 'train'):
            n = r.randint(1, 5)
            im = c.np.randint(0, 256, (n, 28, 28))
            lb = c.np.randint(0, 10, n)
            data[part] = im, lb
            with open(os.path.join(d, part + '-images-idx3-ubyte'), 'wb') as f:
                f.write(struct.pack('>iiii', 2051, n, 28, 28) + bytes(im.astype('uint8').tobytes()))
            with open(os.path.join(d, part + '-labels-idx1-ubyte'), 'wb') as f:
                f.write(struct.pack('>ii', 2049, n) + bytes(lb.astype('uint8').tobytes()))
        train, test = quiet(mnist.makeMnistDataSets, d)
        for ds, part in ((train, 'train'), (test, 't10k')):
            im, lb = data[part]
            c.eq(len(ds), len(lb), part + ': number of samples')
            for i in range(min(len(ds), len(lb))):
                x, t = ds.getSample(i)
                c.close(x, im[i].ravel(), part + ': image')
                c.close(t, np.eye(10)[lb[i]], part + ': label')
        h, w = r.randint(1, 4), r.randint(1, 4)
        im = c.np.randint(0, 256, (3, h, w))
        p = os.path.join(d, 'other')
        with open(p, 'wb') as f:
            f.write(struct.pack('>iiii', 2051, 3, h, w) + bytes(im.astype('uint8').tobytes()))
        c.eq([list(x) for x in mnist.images(p)], [list(x.ravel()) for x in im], 'images of another size')
        with open(p, 'wb') as f:
            f.write(struct.pack('>iiii', r.choice([0, 1234, -1, 2048, 2050]), 3, h, w) + bytes(im.astype('uint8').tobytes()))
        c.raises(AssertionError, lambda: list(mnist.images(p)), 'wrong images accepted')
        c.raises(AssertionError, lambda: list(mnist.labels(p)), 'wrong labels accepted')
        c.ev('not an mnist file')
        c.ev('mnist')
        c.sig(im.tolist(), h, w)


def k_extools(c):
    """the helpers of the reinforcement learning examples"""
    r = c.r

    class L(object):
        bestEvaluation = 0.
        inits = 0

        def _bestFound(self):
            return 'best', self.bestEvaluation

        def _additionalInit(self):
            self.inits += 1

    class GD(object):
        got = None

        def init(self, x):
            self.got = np.array(x)

    class A(object):
        pass
    batch, prnts = r.randint(1, 5), r.randint(1, 4)
    kind = r.choice(['optimizer', 'learner'])
    et, other = example_tools.ExTools(batch, prnts, kind=kind), example_tools.ExTools()
    et.agent = A()
    et.agent.learner = L()
    et.agent.learner.gd = GD()
    runs = r.randint(1, 4)
    n = r.randint(1, 6)
    all_ = []
    for i in range(runs):
        cur = []
        for u in range(n):
            if kind == 'optimizer':
                res = [r.gauss(0, 1) for _ in range(r.randint(1, 5))]
                et.printResults(res, i, u)
                cur.append(sum(res) / len(res))
            else:
                v = r.gauss(0, 1)
                et.printResults(v, i, u)
                cur.append(v)
        et.addExps()
        all_.append(cur)
        c.close(et.rll, all_, 'recorded results')
        c.eq(other.rll, [], 'results of another experiment')
    got = []
    saved = example_tools.errorbar, example_tools.show
    example_tools.errorbar, example_tools.show = (lambda *a, **k: got.append(a)), (lambda *a, **k: None)
    try:
        et.showExps()
    finally:
        example_tools.errorbar, example_tools.show = saved
    x, y, e = got[0][:3]
    c.close(x, [(i + 1) * batch * prnts for i in range(n)], 'statistics: evaluations')
    c.close(y, np.mean(all_, 0), 'statistics: mean')
    c.close(e, np.std(all_, 0), 'statistics: deviation', tol=1e-7)
    c.ev('statistics')
    with scratch() as d:
        w = c.np.normal(0, 1, r.randint(1, 8))
        et.saveWeights(os.path.join(d, 'w'), w)
        et.saveResults(os.path.join(d, 'r'), all_)
        et.loadWeights(os.path.join(d, 'w'))
        l = et.agent.learner
        c.close(l.current, w, 'weights loaded')
        c.close(l.gd.got, w, 'gradient descent starts elsewhere')
        c.eq(l.inits, 1, 'learner not initialized')
        c.ev('weights loaded')
    c.sig(all_)


# ------------------------------------------------------------------ plots

def k_lines(c):
    """a history of calls of the line plotter"""
    r = c.r
    auto = r.choice([0., 0., 1.5, 2.])
    p = MultilinePlotter(r.choice([1, 2, 3, 3, 12]), autoscale=auto)
    X, Y, col, lw = [[] for _ in range(p.nbLines)], [[] for _ in range(p.nbLines)], {}, {}
    off, default, cur, last = 0, None, None, {}
    try:
        def need(i):
            while len(X) <= i:
                X.append([])
                Y.append([])
                if default is not None:
                    lw[len(X) - 1] = default
        with scratch() as d:
            for _ in range(r.randint(3, 25)):
                op = r.choice(['add', 'add', 'add', 'many', 'set', 'offset', 'save', 'style', 'update', 'update'])
                i = r.randint(0, 4)
                step = lambda: last.__setitem__(i + off, last.get(i + off, r.uniform(-3, 3)) + r.uniform(0, 3)) or last[i + off]
                if op == 'add':
                    x, y = step(), r.gauss(0, 2)
                    need(i + off)
                    p.addData(i, x, y)
                    X[i + off].append(x)
                    Y[i + off].append(y)
                    cur = i + off
                    c.ev('added point')
                elif op == 'many':
                    x = [step() for _ in range(r.randint(1, 4))]
                    y = [r.gauss(0, 2) for _ in x]
                    need(i + off)
                    p.addData(i, tuple(x) if r.random() < .3 else x, y)
                    X[i + off] += x
                    Y[i + off] += y
                    cur = i + off
                    c.ev('added points')
                elif op == 'set':
                    n = r.randint(1, 5)
                    x = sorted(r.uniform(-5, 5) for _ in range(n))
                    y = [r.gauss(0, 4) for _ in range(n)]
                    need(i + off)
                    p.setData(i, list(x), list(y))
                    X[i + off], Y[i + off] = x, y
                    last[i + off] = x[-1]
                    c.ev('replaced line')
                elif op == 'offset':
                    off = r.choice([0, 0, 1, 3])
                    p.setOffset(off)
                    if off:
                        c.ev('offset')
                elif op == 'style':
                    w = r.choice([1., 2., 3.5, 7.])
                    kw = dict(linewidth=w)
                    if r.random() < .4:
                        kw['color'] = r.choice(['k', 'c'])
                    k = r.choice(['one', 'list', 'all', 'last'])
                    if k == 'last' and cur is None:
                        continue
                    js = {'one': [i + off], 'list': [off, i + off], 'all': list(range(len(X))), 'last': [cur]}[k]
                    if k in ('one', 'list'):
                        need(max(js))
                    if k == 'last' and cur - off < 0:
                        continue
                    if k == 'last':
                        p.setLineStyle(**kw)
                    else:
                        p.setLineStyle({'one': i, 'list': [0, i], 'all': -1}[k], **kw)
                    for j in js:
                        lw[j] = w
                        if 'color' in kw:
                            col[j] = kw['color']
                    default = w
                    c.ev('line style')
                elif op == 'save':
                    f = os.path.join(d, 'data')
                    p.saveData(f)
                    got = [float(x) for x in open(f)]
                    want = [v for a, b in zip(X, Y) for xy in zip(a, b) for v in xy]
                    c.close(got, want, 'saved lines')
                    c.ev('saved lines')
                elif op == 'update':
                    old = p.Axes.get_xlim(), p.Axes.get_ylim()
                    p.update()
                    for j in range(len(X)):
                        c.close(p.Lines[j].get_xdata(), X[j], 'plotted x')
                        c.close(p.Lines[j].get_ydata(), Y[j], 'plotted y')
                    xl, yl = p.Axes.get_xlim(), p.Axes.get_ylim()
                    if auto > 1:
                        for j in range(len(X)):
                            if X[j]:
                                c.ok(xl[0] <= X[j][0] and X[j][-1] <= xl[1] and yl[0] <= min(Y[j]) and max(Y[j]) <= yl[1], 'data outside the axes',
                                     lambda: '%s %s %s %s' % (X[j], Y[j], xl, yl))
                        c.ok(xl[0] <= old[0][0] and xl[1] >= old[0][1] and yl[0] <= old[1][0] and yl[1] >= old[1][1], 'axes shrink')
                        if (xl, yl) != old:
                            c.ev('expanded axes')
                    else:
                        c.eq((xl, yl), old, 'axes move without autoscale')
                c.eq(p.nbLines, len(X), 'number of lines', op)
                c.eq(len(p.Axes.lines), len(X), 'number of plotted lines', op)
            for j, w in lw.items():
                c.close(p.Lines[j].get_linewidth(), w, 'line width')
            for j in range(len(X)):
                if j in col:
                    c.eq(p.Lines[j].get_color(), col[j], 'line color')
                else:
                    c.eq(tuple(p.Lines[j].get_color()), tuple(MultilinePlotter.graphColor[j % 9]), 'line color')
            p.setLabels('abc', 'def', 'ghi')
            c.eq((p.Axes.get_xlabel(), p.Axes.get_ylabel(), p.Axes.get_title()), ('abc', 'def', 'ghi'), 'labels')
            if r.random() < .2:
                f = os.path.join(d, 'plot.png')
                p.show('u', 'v', 'w', imgfile=f)
                a = pylab.gca()
                c.eq(len(a.lines), len(X), 'shown lines')
                for l, x, y in zip(a.lines, X, Y):
                    c.close(l.get_xdata(), x, 'shown x')
                    c.close(l.get_ydata(), y, 'shown y')
                c.eq((a.get_xlabel(), a.get_ylabel(), a.get_title()), ('u', 'v', 'w'), 'shown labels')
                c.ok(os.path.getsize(f) > 0, 'no image written')
            c.sig(X, Y)
    finally:
        pylab.close('all')


def k_image(c):
    """matrices as images, read back from the file"""
    r = c.r
    try:
        if r.random() < .5:
            m = c.np.normal(0, 10 ** r.uniform(-2, 2), (r.randint(1, 7), r.randint(1, 7)))
            m.ravel()[0] += 1e-3
            kw = {}
            lo, hi = m.min(), m.max()
            if r.random() < .4:
                lo = kw['minvalue'] = r.uniform(lo - 1, (lo + hi) / 2)
            if r.random() < .4:
                hi = kw['maxvalue'] = r.uniform((lo + hi) / 2, hi + 1)
            if not lo < hi:
                return
            cm = ColorMap(np.array(m), **kw) if r.random() < .5 else ColorMap(np.array(m), cmap=matplotlib.cm.jet, pixelspervalue=10, **kw)
            rel = None
        else:
            n = r.randint(2, 6)
            h1, h2 = [c.np.normal(0, 1, 2).tolist() for _ in range(2)] and [list(c.np.normal(0, 1, n)) for _ in range(2)]
            games = []

            def ev(a, b):
                games.append((a, b))
                return a * 2 - b + a * b
            f = lambda a, b: a * 2 - b + a * b
            sym = r.random() < .5
            W = np.zeros((n, n))
            for i in range(n):
                for j in range(i + 1):
                    W[i, j] = f(h1[i], h2[j])
                    if i == j:
                        W[i, j] += 0 if sym else f(h2[i], h1[i])
                    else:
                        W[j, i] = W[i, j] if sym else f(h2[j], h1[i])
            c.close(CiaoPlot.generateData(ev, h1, h2, symmetric=sym), W, 'games of the generations')
            c.eq(len(games), n * (n + 1) // (2 if sym else 1), 'number of games')
            cm = CiaoPlot(ev, h1, h2, **(dict(symmetric=sym) if not sym or r.random() < .5 else {}))
            rel = (W.max() - W) / (W.max() - W.min())
            c.close(cm.relData, rel, 'relative results')
            m, lo, hi = rel, 0., 1.
            if not sym:
                c.ev('asymmetric')
        im = cm.fig.axes[0].images[0]
        c.close(np.array(im.get_array()), m, 'data of the image')
        c.close(im.get_clim(), (lo, hi), 'range of the colors')
        with scratch() as d:
            other = pylab.figure()           # saved is the map, not the present figure
            f = os.path.join(d, 'x.png')
            cm.save(f)
            got = matplotlib.image.imread(f)[:, :, :3]
        h, w = m.shape
        H, Wd = got.shape[:2]
        c.ok(abs(H * w - Wd * h) <= max(h, w), 'shape of the image', (got.shape, m.shape))
        for i in range(h):
            for j in range(w):
                px = got[int((i + .5) * H / h), int((j + .5) * Wd / w)]
                want = np.array(im.get_cmap()((m[i, j] - lo) / (hi - lo)))[:3]
                want2 = np.array(im.get_cmap()((m[i, j] - lo) / (hi - lo) * .999))[:3], np.array(im.get_cmap()((m[i, j] - lo) / (hi - lo) * 1.001))[:3]
                c.ok(min(abs(px - q).max() for q in (want,) + want2) < .03, 'color of a value', lambda: '%s: %s, expected %s' % ((i, j), px, want))
        c.ev('image')
        c.sig(m.tolist())
    finally:
        pylab.close('all')


def k_landscape(c):
    r = c.r
    try:
        lim = [-r.uniform(.5, 3), r.uniform(.5, 3), -r.uniform(.5, 3), r.uniform(.5, 3)]
        n = r.choice([3, 5, 8])
        k = r.choice(['class', 'object', 'function'])
        if k == 'class':
            arg = r.choice([SphereFunction, ElliFunction, RastriginFunction])
            ref = arg(2)
            f = lambda x, y: ref(np.array([x, y]))
        elif k == 'object':
            arg = r.choice([SphereFunction, ElliFunction])(2)
            f = lambda x, y: arg(np.array([x, y]))
        else:
            f = arg = lambda x, y: 3 * x - y * y + x * y
        p = FitnessPlotter(arg, *lim, precision=n, newfig=r.random() < .7)

        def check(what):
            c.eq((len(p.xs), len(p.ys)), (n, n), what + ': size of the grid')
            c.close(p.zs, [[f(x, y) for x in p.xs] for y in p.ys], what + ': values', tol=1e-9)
            for v, a in ((p.xs, 'x'), (p.ys, 'y')):
                c.close(np.diff(v), [(v[-1] - v[0]) / (n - 1.)] * (n - 1), what + ': spacing')
        check('landscape')
        c.close([p.xs[0], p.xs[-1], p.ys[0], p.ys[-1]], lim, 'ranges')
        c.ev('landscape')
        if r.random() < .8:
            sc = r.choice([.1, 1., 5.])
            pts = [c.np.normal(0, sc, 2) for _ in range(r.randint(1, 6))]
            re = r.random() < .7
            ox, oy = np.array(p.xs), np.array(p.ys)
            p.addSamples(pts, rescale=re)
            l = pylab.gca().lines[-1]
            c.close(np.transpose([l.get_xdata(), l.get_ydata()]), pts, 'samples')
            check('rescaled')
            if re:
                P = np.array(pts)
                for v, q, o in ((p.xs, P[:, 0], ox), (p.ys, P[:, 1], oy)):
                    c.ok(v[0] <= min(o[0], q.min()) + 1e-12 and v[-1] >= max(o[-1], q.max()) - 1e-12, 'samples outside the landscape',
                         lambda: '%s %s %s' % (v, q, o))
                c.ev('rescaled')
            else:
                c.close(p.xs, ox, 'ranges changed')
                c.close(p.ys, oy, 'ranges changed')
        if r.random() < .4:
            p.plotAll(levels=5, popup=False)
        A = c.np.normal(0, 1, (2, 2))
        E = A.dot(A.T) + 1e-3 * np.eye(2)
        cen = c.np.normal(0, 1, 2)
        seg = r.randint(4, 20)
        if r.random() < .5:
            ex, ey = plotCovEllipse(E, cen, segments=seg)
        else:
            p.addCovEllipse(E, cen, segments=seg, rescale=True)
            l = pylab.gca().lines[-1]
            ex, ey = l.get_xdata(), l.get_ydata()
            c.ok(p.xs[0] <= min(ex) + 1e-9 and p.xs[-1] >= max(ex) - 1e-9 and p.ys[0] <= min(ey) + 1e-9 and p.ys[-1] >= max(ey) - 1e-9, 'ellipse outside the landscape')
            check('with an ellipse')
        c.eq(len(ex), seg + 1, 'points of the ellipse')
        Q = np.transpose([ex, ey]) - cen
        c.close([q.dot(np.linalg.solve(E, q)) for q in Q], [1.] * len(Q), 'point off the ellipse', tol=1e-6)
        c.close(Q[0], Q[-1], 'ellipse not closed')
        Z = np.linalg.solve(np.linalg.cholesky(E), Q.T).T
        c.close([z.dot(y) for z, y in zip(Z, Z[1:])], [math.cos(2 * math.pi / seg)] * seg, 'spacing on the ellipse', tol=1e-6)
        m = [l for l in pylab.gca().lines if l.get_marker() == '+'][-1]
        c.close([m.get_xdata()[0], m.get_ydata()[0]], cen, 'center of the ellipse')
        c.ev('ellipse')
        c.sig(lim, n, k)
    finally:
        pylab.close('all')


def k_process(c):
    """Plots of a Gaussian process: the training points, the predictive mean, the band around it."""
    r = c.r
    try:
        d = r.choice([1, 1, 2])
        gp = GaussianProcess(d, start=-r.choice([1, 2]), stop=r.choice([1, 2]), step=r.choice([.25, .5]))
        gp.mean = r.choice([0, 2.])
        X, y = c.np.normal(0, 1, (r.randint(1, 6), d)), []
        for x in X:
            y.append(r.gauss(0, 2))
            gp.addSample(x, y[-1])
        T = np.array(gp.testx)
        m = np.array(gp.testOnArray(T))
        C = np.array(gp.pred_cov)
        if r.random() < .5:
            # the plot brings predictions up to date by itself
            gp.addSample(np.zeros(d), 1.)
            X, y = np.vstack([X, np.zeros(d)]), y + [1.]
            g2 = GaussianProcess(d, gp.start, gp.stop, gp.step)
            g2.mean = gp.mean
            for a, b in zip(X, y):
                g2.addSample(a, b)
            m, C = np.array(g2.testOnArray(T)), np.array(g2.pred_cov)
        np.random.seed(c.seed % 2 ** 32)
        pylab.figure()
        if d == 1:
            n = 5 if r.random() < .4 else 0
            quiet(gp.plotCurves, showSamples=bool(n))
            L = [np.array(l.get_xydata()) for l in pylab.gca().lines]
            if not c.eq(len(L), n + 2, 'process: lines'):
                return
            c.close(L[n], np.column_stack([X[:, 0], y]), 'process: training points')
            c.close(L[n + 1], np.column_stack([T[:, 0], m]), 'process: predictive mean', 1e-6)
            for l in L[:n]:
                c.close(l[:, 0], T[:, 0], 'process: sampled functions')
            path = pylab.gca().patches[0].get_path().vertices
            v = np.diag(C)
            want = np.vstack([np.column_stack([T[:, 0], m + 2 * v]), np.column_stack([T[::-1, 0], (m - 2 * v)[::-1]])])
            c.close(path[:len(want)], want, 'process: band of twice the variance', 1e-6)
        else:
            k = int(round(math.sqrt(len(T))))
            if r.random() < .5:
                quiet(gp.plotCurves)
                a = np.array(pylab.gca().collections[0].get_array()).ravel()
                c.close(a, m.reshape(k, k)[::-1].ravel(), 'process: map of the mean', 1e-6)
            else:
                ax = quiet(gp.plotCurves, force2D=False)
                c.close(np.column_stack(ax.lines[0].get_data_3d()), np.column_stack([X, y]), 'process: training points in space')
                P = np.unique(np.round(np.array([q for seg in ax.collections[0]._segments3d for q in seg], float), 9), axis=0)
                W = np.unique(np.round(np.column_stack([T, m]), 9), axis=0)
                c.close(P[np.lexsort(P[:, 1::-1].T)], W[np.lexsort(W[:, 1::-1].T)], 'process: surface of the mean', 1e-6)
        c.ev('process')
        c.sig(d, len(X), len(T), y)
    finally:
        pylab.close('all')


def k_progress(c):
    """curves of fitness"""
    r = c.r
    try:
        cut = 10 ** r.uniform(-8, -2)
        med, succ, over = r.random() < .4, r.random() < .3, r.random() < .6
        L0 = r.randint(3, 15)
        d, own = {}, {}
        bs = r.choice([1, 5, 10])
        for nm in r.sample(['a', 'b', 'cma', 'zz'], r.randint(1, 3)):
            runs = []
            for _ in range(r.randint(1, 4)):
                k = L0 if not over else r.randint(2, 15)
                v = np.minimum.accumulate(10 ** c.np.uniform(-10 if r.random() < .5 else -1, 2, k)) if r.random() < .7 else 10 ** c.np.uniform(-3, 2, k)
                if r.random() < .15:
                    v = v.copy()
                    v[-1] = cut
                    c.ev('target reached exactly')
                runs.append(v)
            d[nm], own[nm] = runs, bs
            if r.random() < .4:
                own[nm] = r.choice([2, 7])
                d[nm] = (runs, own[nm])
                c.ev('own batch size')
        want = {}
        for nm in sorted(d):
            runs = d[nm][0] if isinstance(d[nm], tuple) else d[nm]
            if succ:
                runs = [v for v in runs if min(v) <= cut]
                c.ev('successful only')
            cutr = []
            for v in runs:
                hit = [i for i, x in enumerate(v) if x <= cut]
                cutr.append(v[:hit[0] + 1] if hit else v)
            if cutr:
                want[nm] = cutr
        res = r.choice([10, 50])
        pylab.figure()
        kw = dict(targetcutoff=cut, onlysuccessful=succ, useMedian=med, resolution=res, averageOverEvaluations=over, title='t')
        if bs != 1:
            kw['batchsize'] = bs
        kw['semilog'] = semi = r.random() < .6
        kw['varyplotsymbols'] = r.random() < .3
        snap = {k: [np.array(x) for x in (v[0] if isinstance(v, tuple) else v)] for k, v in d.items()}
        quiet(plotFitnessProgession, d, **kw)
        for k, v in snap.items():
            c.ok(all((a == b).all() for a, b in zip(v, d[k][0] if isinstance(d[k], tuple) else d[k])), 'data changed by plotting')
        lines = [l for l in pylab.gca().lines if not l.get_label().startswith('_')]
        c.eq([l.get_label() for l in lines], sorted(want), 'curves')
        for l, nm in zip(lines, sorted(want)):
            x, y, runs = l.get_xdata(), l.get_ydata(), want[nm]
            if over:
                worst = max(max(v) for v in runs)
                if worst < cut:
                    continue
                t = np.arange(res + 1) / float(res)
                grid = (10 ** (t * (np.log10(worst) - np.log10(cut)) + np.log10(cut)) if semi else t * (worst - cut) + cut)[::-1]
                c.close(y, grid, 'levels of a curve', tol=1e-9)
                longest = max(len(v) for v in runs)
                first = []
                for tv in y:
                    first.append([next((i for i, q in enumerate(v) if q <= tv), longest) for v in runs])
                f = np.array(first, float)
                c.close(x, (np.median(f, 1) if med else f.mean(1)) * own[nm], 'evaluations until a level', msg=nm)
                c.ev('over evaluations')
            else:
                n = max(len(v) for v in runs)
                c.close(x, np.arange(n) * own[nm], 'evaluations', msg=nm)
                w = np.array([sum(max(v[i], cut) if i < len(v) else cut for v in runs) / len(runs) for i in range(n)])
                c.ok(len(y) == n and (abs(y - w) <= 2 * cut + 1e-9 * w).all(), 'mean fitness', lambda: '%s: %s, expected %s' % (nm, y, w))
                c.ev('over fitness')
        c.eq(pylab.gca().get_yscale() if want else 'log', 'log' if semi or not want else 'linear', 'scale')
        c.sig(sorted(d), bs, cut)
    finally:
        pylab.close('all')


def k_progress_max(c):
    """curves of maximized fitness, which may be negative: never better than the target"""
    r = c.r
    try:
        n, cut, succ = r.randint(2, 12), r.choice([-1.5, 0., 2.]), r.random() < .5
        d, want = {}, {}
        for nm in r.sample(['a', 'b', 'cma', 'zz'], r.randint(1, 3)):
            d[nm] = []
            for _ in range(r.randint(1, 4)):
                v = cut - abs(c.np.normal(0, 3, n)) - 1e-6
                if r.random() < .6:
                    # the last one reaches the target
                    v[-1] = cut + r.choice([0., 0., r.uniform(0, 3)])
                    c.ev('target reached at the end')
                d[nm].append(v)
            kept = [np.minimum(v, cut) for v in d[nm] if not succ or max(v) >= cut]
            if kept:
                want[nm] = sum(kept) / len(kept)
        pylab.figure()
        quiet(plotFitnessProgession, d, targetcutoff=cut, onlysuccessful=succ, averageOverEvaluations=False, minimize=False, semilog=False, title='t')
        lines = [l for l in pylab.gca().lines if not l.get_label().startswith('_')]
        c.eq([l.get_label() for l in lines], sorted(want), 'curves of maximization')
        for l, nm in zip(lines, sorted(want)):
            c.close(l.get_xdata(), np.arange(n), 'evaluations', msg=nm)
            c.close(l.get_ydata(), want[nm], 'mean fitness of maximization', msg=nm)
        c.sig(n, cut, sorted(d), c.idx)
    finally:
        pylab.close('all')


def k_variations(c):
    r = c.r
    try:
        opts = {k: sorted(set(r.randint(0, 9) for _ in range(r.randint(1, 3)))) for k in r.sample(['alpha', 'beta', 'gam'], r.randint(0, 3))}
        vary = r.choice([None, [], r.sample(sorted(opts), r.randint(0, len(opts)))])
        data = [c.np.normal(0, 1, 4) for _ in range(r.randint(1, 3))]
        tits = ['t%d' % i for i in range(len(data))]
        shift = r.choice([0., .01])
        xy = r.random() < .5
        calls, pre, post = [], [], []

        def gen(x, **kw):
            calls.append((list(x), dict(kw)))
            if kw.get('alpha') == 5:
                return None
            ys = [v * (1 + kw.get('alpha', 0)) + kw.get('beta', 0) - 3 * kw.get('gam', 0) for v in x]
            return (list(range(10, 14)), ys) if xy else ys
        kw = dict(opts)
        if shift:
            kw['_differentiator'] = shift
        quiet(plotVariations, data, tits, gen, varyperplot=vary, prePlotFun=lambda x: pre.append(list(x)), postPlotFun=lambda t: post.append(t), **kw)
        inner = [k for k in opts if k in (vary or [])]
        outer = [k for k in opts if k not in inner]
        def combos(ks):
            out = [{}]
            for k in ks:
                out = [dict(o, **{k: v}) for o in out for v in opts[k]]
            return out
        figs = [pylab.figure(n) for n in pylab.get_fignums()]
        c.eq(len(figs), len(data) * len(combos(outer)), 'number of figures')
        key = lambda o: sorted(o.items())
        expect = [(list(x), sorted(key(dict(o, **i)) for i in combos(inner))) for x in data for o in combos(outer)]
        got = []
        n = len(combos(inner))
        for i in range(0, len(calls), n):
            got.append((calls[i][0], sorted(key(o) for x, o in calls[i:i + n])))
        c.eq(sorted(map(repr, got)), sorted(map(repr, expect)), 'options of the figures')
        for f, i in zip(figs, range(0, len(calls), n)):
            a = f.axes[0]
            ls = list(a.lines)
            k = 0
            for m, (x, o) in enumerate(calls[i:i + n]):
                q = len(calls)
                v = gen(x, **o)
                calls.pop(q)
                if v is None:
                    continue
                ys = v[1] if xy else v
                if c.ok(k < len(ls), 'missing curve'):
                    c.close(ls[k].get_xdata(), range(10, 14) if xy else range(4), 'x of a curve')
                    c.close(ls[k].get_ydata(), np.array(ys) + shift * m, 'y of a curve')
                    lab = '-'.join(t[:3] + '=' + str(o[t])[:5] for t in inner if len(opts[t]) > 1)
                    g = ls[k].get_label()
                    c.eq(sorted(g.split('-')) if lab else g[:1], sorted(lab.split('-')) if lab else '_', 'label of a curve')
                k += 1
            c.eq(len(ls), k, 'number of curves')
            t = a.get_title()
            c.eq(t.split('\n')[0], tits[i // n // len(combos(outer))], 'title')
            o = calls[i][1]
            c.eq(sorted(t.split('\n')[1].split()), sorted(['%s=%s' % (q, str(o[q])[:5]) for q in outer] + ['%s=%s' % (q, str(opts[q][0])[:5]) for q in inner if len(opts[q]) == 1]), 'options in the title')
            c.ev('variations')
        c.eq(pre, [x for x, _ in expect], 'calls before the plots')
        c.eq(post, [t for t in tits for _ in combos(outer)], 'calls after the plots')
        if len(figs) > 1:
            c.ev('several figures')
        if xy:
            c.ev('x and y')
        if shift and n > 1:
            c.ev('told apart')
        c.sig(sorted(opts.items()), vary, len(data))
    finally:
        pylab.close('all')


def k_classes(c):
    """performance of a classifier on a set of sequences"""
    from pybrain.datasets import SequenceClassificationDataSet
    r = c.r
    try:
        nc, dim = r.randint(2, 4), r.randint(1, 3)
        ds = SequenceClassificationDataSet(dim, 1, nb_classes=nc, class_labels=['c%d' % i for i in range(nc)])
        seqs = []
        nseq = r.randint(1, 9)
        for i in range(nseq):
            ds.newSequence()
            k = i if i < nc else r.randrange(nc)
            xs = [c.np.normal(0, 1, dim) for _ in range(r.randint(2, 5))]
            for x in xs:
                ds.appendLinked(x, [k])
            seqs.append((k, xs))
        if nseq < nc:
            return
        quiet(ds._convertToOneOfMany)

        class Mod(object):
            outdim, log = nc, []
            W = c.np.normal(0, 1, (nc, dim))

            def reset(self):
                self.h = np.zeros(nc)

            def activate(self, x):
                self.h = .5 * self.h + self.W.dot(x)
                return np.exp(self.h) / np.exp(self.h).sum()
        m = Mod()

        def outs(xs):
            m.reset()
            return np.array([m.activate(x) for x in xs])

        def check(a, i):
            k, xs = seqs[i]
            o = outs(xs)
            c.eq(len(a.lines), nc, 'lines of a sequence')
            for j, l in enumerate(a.lines):
                c.close(l.get_ydata(), o[:, j], 'outputs of a sequence')
            v = a.collections[0].get_paths()[0].vertices
            for t in range(len(xs)):
                at = sorted(set(round(y, 9) for x, y in v if abs(x - t) < 1e-9))
                c.close([at[0], at[-1]], [round(o[t, k], 9), 1.], 'filled up to the right output', tol=1e-7)
            c.ev('sequence plot')
        i = r.randrange(nseq)
        pylab.figure()
        ClassificationDataSetPlot.plot_module_classification_sequence_performance(m, ds, i)
        check(pylab.gca(), i)
        pylab.figure()
        cols = r.choice([4, 1, 3])
        ClassificationDataSetPlot.plot_module_classification_dataset_performance(m, ds, cols=cols)
        ax = pylab.gcf().axes
        if c.eq(len(ax), nseq, 'number of subplots'):
            pos = []
            for i, a in enumerate(ax):
                check(a, i)
                b = a.get_position()
                pos.append((-round(b.y0, 6), round(b.x0, 6)))
            c.eq(pos, sorted(pos), 'order of the subplots')
            c.ok(len(set(p[1] for p in pos)) <= cols, 'columns of subplots')
        pylab.figure()
        ClassificationDataSetPlot.punchcard_module_classification_performance(m, ds, s=100)
        a = pylab.gca()
        means = [outs(xs).mean(0) for k, xs in seqs]
        act = [int(np.argmax(x)) for x in means]
        exp = [k for k, xs in seqs]
        off = [np.array(q.get_offsets()) for q in a.collections]
        c.close(off[0], list(zip(range(nseq), exp)), 'punchcard: targets')
        c.close(off[1], list(zip(range(nseq), act)), 'punchcard: answers')
        c.close(off[2], [(i, j) for i in range(nseq) for j in range(nc)], 'punchcard: places')
        c.close(a.collections[2].get_sizes(), 100 * np.ravel(means), 'punchcard: confidences')
        pc = float(a.get_title().split('%')[0])
        c.close(pc, 100. * sum(x == y for x, y in zip(act, exp)) / nseq, 'punchcard: percentage')
        c.eq([t.get_text() for t in a.get_yticklabels()], ['c%d' % i for i in range(nc)], 'punchcard: names')
        c.ev('punchcard')
        c.sig(nc, dim, [len(x) for k, x in seqs])
    finally:
        pylab.close('all')


KINDS = [('udp', k_udp, 40, 600), ('viewer', k_viewer, 24, 200), ('files', k_files, 40, 800), ('mnist', k_mnist, 10, 100), ('extools', k_extools, 30, 400),
         ('lines', k_lines, 60, 1200), ('image', k_image, 40, 600), ('landscape', k_landscape, 40, 600), ('progress', k_progress, 60, 1000), ('progress_max', k_progress_max, 40, 600),
         ('variations', k_variations, 60, 600), ('classes', k_classes, 20, 200), ('process', k_process, 12, 150)]
