"""P25: structured networks (swiping, multi-dimensional, bidirectional, convolutional, board) and weight sharing."""
import itertools, math, os, tempfile, pickle
import numpy as np
from pybrain.structure import LinearLayer, TanhLayer, SigmoidLayer, FeedForwardNetwork, MDLSTMLayer, FullConnection
from pybrain.structure.modulemesh import ModuleMesh
from pybrain.structure.moduleslice import ModuleSlice
from pybrain.structure.connections.shared import MotherConnection
from pybrain.structure.networks.swiping import SwipingNetwork
from pybrain.structure.networks.borderswiping import BorderSwipingNetwork
from pybrain.structure.networks.multidimensional import MultiDimensionalRNN, MultiDimensionalLSTM
from pybrain.structure.networks.bidirectional import BidirectionalNetwork
from pybrain.structure.networks.convolutional import SimpleConvolutionalNetwork
from pybrain.structure.networks.custom.convboard import ConvolutionalBoardNetwork
from pybrain.structure.networks.custom.capturegame import CaptureGameNetwork
from pybrain.tools.customxml import NetworkReader, NetworkWriter
from vp.core import rnd_vec, frozen
from vp.p12 import seed

RULE = ('a case builds one structured network of random size and settings with random shared weights, activates it on random inputs and compares with a direct '
        'recursive evaluation from the shared weights alone; non-trivial with at least two grid positions; distinct by class, sizes and settings')
EXPECT = ['swiping', 'border', 'mdrnn', 'mdlstm', 'bidirectional', 'symmetric', 'asymmetric', 'convolutional', 'conv board', 'capture', 'directlink', 'combinputs',
          'simple borders', 'resized larger', 'resized smaller', 'extrapolated', 'mirrored', 'transposed', 'rotated board', 'derivatives', 'copied', 'xml', 'pickled', 'predefined',
          'mesh', 'one dimension', 'three dimensions', 'even convolution', 'odd convolution', 'unshared weights', 'independent']
ASSUMPTIONS = ['peephole weights belong to their cell and are read from it; all other weights are read from the mother connections',
               'bidirectional, convolutional and multi-dimensional networks cannot be read from XML (their constructors build); only swiping and capture networks are']


def sg(x):
    return 1. / (1. + np.exp(-x))


ACT = {TanhLayer: np.tanh, SigmoidLayer: sg, LinearLayer: lambda x: x}


def full(p, outdim, x):
    p = np.asarray(p, float)
    return p.reshape(outdim, len(p) // outdim).dot(x)


def coords(dims):
    return list(itertools.product(*[range(d) for d in dims]))


class Cell:
    """one hidden unit of the reference: input vector and the states of its predecessors -> output, state"""

    def __init__(self, kind, h, nd, peep=None):
        self.kind, self.h, self.nd, self.peep = kind, h, nd, peep
        self.indim = h if kind is not MDLSTMLayer else h * (3 + nd)

    def __call__(self, z, prev, unit):
        if self.kind is not MDLSTMLayer:
            return ACT[self.kind](z), None
        h, nd = self.h, self.nd
        ig, fg, cx, og = z[:h], z[h:h * (1 + nd)].reshape(nd, h), z[h * (1 + nd):h * (2 + nd)], z[h * (2 + nd):]
        prev = np.array([np.zeros(h) if p is None else p for p in prev])
        p = self.peep(unit) if self.peep else None
        if p is not None:
            ig = ig + p[:h] * prev.sum(0)
            fg = fg + p[h:h * (1 + nd)].reshape(nd, h) * prev
        s = sg(ig) * np.tanh(cx) + (sg(fg) * prev).sum(0)
        if p is not None:
            og = og + p[h * (1 + nd):] * s
        return sg(og) * np.tanh(s), s


def swipe_ref(dims, x, insz, cell, outsz, outact, win, wout, hconn, border=None, direct=None, glob=None):
    """hconn(dim, dir) -> weights, border(dim, rest of the coordinates) -> bias weights"""
    units = coords(dims)
    ins = {u: x[i * insz:(i + 1) * insz] for i, u in enumerate(units)}
    memo = {}

    def hid(u, s):
        if (u, s) in memo:
            return memo[u, s]
        z = full(win, cell.indim, ins[u])
        if glob is not None:
            z = z + glob
        prev = []
        for d in range(len(dims)):
            up = (s >> d) & 1
            v = list(u)
            v[d] += 1 if up else -1
            if 0 <= v[d] < dims[d]:
                o, st = hid(tuple(v), s)
                z = z + full(hconn(d, '-' if up else '+'), cell.indim, o)
                prev.append(st)
            else:
                prev.append(None)
                if border:
                    z = z + border(d, u[:d] + u[d + 1:])
        memo[u, s] = cell(z, prev, u + (s,))
        return memo[u, s]
    res = []
    for u in units:
        z = 0
        for s in range(2 ** len(dims)):
            z = z + full(wout, outsz, hid(u, s)[0])
        if direct is not None:
            z = z + full(direct, outsz, ins[u])
        res.append(outact(z))
    return np.concatenate(res)


def hconn_of(net):
    h = net.predefined['hconns']
    return (lambda d, s: h[d].params) if net.symmetricdirections else (lambda d, s: h[d, s].params)


def border_of(net):
    if net.simpleborders:
        return lambda d, t: net.predefined['borderconn'].params

    def b(d, t):
        if net.symmetricdimensions:
            rest = net.dims[:d] + net.dims[d + 1:]
            t = tuple(min(a, m - 1 - a) for a, m in zip(t, rest))
        return net.predefined['bordconns'][d][t].params
    return b


def distinct_mothers(net):
    seen = []

    def walk(x):
        if isinstance(x, dict):
            for v in x.values():
                walk(v)
        elif not any(x is y for y in seen):
            seen.append(x)
    walk(net.predefined)
    return seen


def gradient(c, net, key='derivatives'):
    """backpropagated derivatives of the shared weights equal finite differences"""
    x, e = rnd_vec(c, net.indim), rnd_vec(c, net.outdim)
    net.resetDerivatives()
    net.activate(x)
    ie = np.array(net.backActivate(e))
    d = np.array(net.derivs)
    p0 = np.array(net.params)
    h = 1e-5
    for i in c.r.sample(range(len(p0)), min(len(p0), 12)):
        net.params[i] = p0[i] + h
        a = np.dot(net.activate(x), e)
        net.params[i] = p0[i] - h
        b = np.dot(net.activate(x), e)
        net.params[i] = p0[i]
        c.ok(abs((a - b) / (2 * h) - d[i]) < 2e-6 * (1 + abs(d[i]) + abs(a)), key, lambda: 'parameter %d: %r, finite difference %r' % (i, d[i], (a - b) / (2 * h)))
    for i in c.r.sample(range(net.indim), min(net.indim, 6)):
        y = x.copy()
        y[i] += h
        a = np.dot(net.activate(y), e)
        y[i] -= 2 * h
        b = np.dot(net.activate(y), e)
        c.ok(abs((a - b) / (2 * h) - ie[i]) < 2e-6 * (1 + abs(ie[i]) + abs(a)), key + ' of the input', lambda: 'input %d: %r, finite difference %r' % (i, ie[i], (a - b) / (2 * h)))
    c.ev('derivatives')


def check(c, net, ref, nparams, what, n=2, grad=.5):
    """ref(net, x) -> outputs"""
    c.eq(net.paramdim, nparams, 'number of weights', what)
    c.eq(len(net.params), nparams, 'number of weights', what)
    for k in range(n):
        if k:
            # other weights: through the network or through a mother connection
            if c.r.random() < .5:
                net.params[:] = rnd_vec(c, nparams, .7)
            else:
                net._setParameters(rnd_vec(c, nparams, .7))
        x = rnd_vec(c, net.indim)
        out = np.array(net.activate(frozen(x)))
        c.close(out, ref(net, x), 'outputs', 1e-9, what)
        c.close(net.activate(x), out, 'activation depends on earlier ones', 1e-12, what)
    if c.r.random() < grad and nparams:
        gradient(c, net)
    if c.r.random() < .3:
        net.params[:] = rnd_vec(c, nparams, .7)
        cp = net.copy()
        x = rnd_vec(c, net.indim)
        out = np.array(net.activate(x))
        c.close(cp.activate(x), out, 'copy computes something else', 1e-12, what)
        cp.params[:] = rnd_vec(c, nparams, .7)
        c.close(net.activate(x), out, 'changing a copy changes the network', 1e-12, what)
        c.close(cp.activate(x), ref(cp, x), 'outputs of a copy with other weights', 1e-9, what)
        c.ev('copied')
    if c.r.random() < .2:
        # the classes of the layers are picklable, hence the networks
        cp = pickle.loads(pickle.dumps(net))
        x = rnd_vec(c, net.indim)
        c.close(cp.activate(x), net.activate(x), 'pickled network computes something else', 1e-12, what)
        c.ev('pickled')


def xml(c, net, what):
    fd, fn = tempfile.mkstemp(suffix='.xml')
    os.close(fd)
    try:
        NetworkWriter.writeToFile(net, fn)
        n2 = NetworkReader.readFrom(fn)
    finally:
        os.unlink(fn)
    x = rnd_vec(c, net.indim)
    c.eq(n2.paramdim, net.paramdim, 'number of weights after XML', what)
    c.close(n2.activate(x), net.activate(x), 'network read from XML computes something else', 1e-12, what)
    c.ev('xml')


def symmetries(c, net, dims, insz, outsz, transp, what):
    x = rnd_vec(c, int(np.prod(dims)) * insz)
    X = x.reshape(dims + (insz,))
    Y = np.array(net.activate(x)).reshape(dims + (outsz,))
    ax = c.r.randrange(len(dims))
    Y2 = np.array(net.activate(np.flip(X, ax).flatten())).reshape(dims + (outsz,))
    c.close(Y2, np.flip(Y, ax), 'mirrored input', 1e-9, what)
    c.ev('mirrored')
    if transp and len(dims) > 1 and len(set(dims)) == 1:
        perm = list(range(len(dims)))
        c.r.shuffle(perm)
        Y2 = np.array(net.activate(np.transpose(X, perm + [len(dims)]).flatten())).reshape(dims + (outsz,))
        c.close(Y2, np.transpose(Y, perm + [len(dims)]), 'transposed input', 1e-9, what)
        c.ev('transposed')


def meshes(c, dims, insz, hsz, outsz, kind, outkind):
    n = int(np.prod(dims))
    inmesh = ModuleMesh.viewOnFlatLayer(LinearLayer(insz * n, name='input'), dims, 'inmesh')
    outmesh = ModuleMesh.viewOnFlatLayer(outkind(outsz * n, name='output'), dims, 'outmesh')
    hd = tuple(dims) + (2 ** len(dims),)
    if kind is MDLSTMLayer:
        hid = ModuleMesh(lambda: MDLSTMLayer(hsz, len(dims)).meatSlice(), hd, 'hidden', baserename=True)
    elif c.r.random() < .5:
        hid = ModuleMesh.constructWithLayers(kind, hsz, hd, 'hidden')
    else:
        hid = ModuleMesh(lambda: kind(hsz), hd, 'hidden')
    return inmesh, hid, outmesh


def dims_of(c, border=False):
    nd = c.r.choice([1, 2, 2, 2, 3])
    hi = {1: 6, 2: 4, 3: 3}[nd]
    dims = tuple(c.r.randint(2, hi) for _ in range(nd))
    if c.r.random() < .4:
        dims = (dims[0],) * nd
    if nd == 1:
        c.ev('one dimension')
    if nd == 3:
        c.ev('three dimensions')
    return dims


def k_swiping(c):
    seed(c.seed)
    r = c.r
    border = r.random() < .5
    dims = dims_of(c)
    insz, hsz, outsz = r.randint(1, 3), r.randint(1, 3), r.randint(1, 2)
    kind = r.choice([TanhLayer, TanhLayer, SigmoidLayer, LinearLayer])
    outkind = r.choice([SigmoidLayer, LinearLayer, TanhLayer])
    sdim = r.random() < .5
    sdir = border or r.random() < .5
    simple = border and r.random() < .4
    args = dict(symmetricdimensions=sdim, symmetricdirections=sdir)
    what = '%s %s in %d hidden %d out %d %s %s %s' % ('border' if border else 'swiping', dims, insz, hsz, outsz, kind.__name__, args, 'simple' if simple else '')
    pre = None
    if r.random() < .3:
        pre = {'inconn': MotherConnection(insz * hsz, name='inconn')}
        c.ev('predefined')
    m = meshes(c, dims, insz, hsz, outsz, kind, outkind)
    if border:
        args['simpleborders'] = simple
        net = BorderSwipingNetwork(*m, **dict(args, **({'predefined': pre} if pre else {})))
        c.ev('border')
        if simple:
            c.ev('simple borders')
    else:
        net = SwipingNetwork(*m, **dict(args, **({'predefined': pre} if pre else {})))
        c.ev('swiping')
    if pre:
        c.ok(net.predefined['inconn'] is pre['inconn'], 'predefined connection not used', what)

    def ref(n, x):
        p = n.predefined
        return swipe_ref(dims, x, insz, Cell(kind, hsz, len(dims)), outsz, ACT[outkind], p['inconn'].params, p['outconn'].params, hconn_of(n), border_of(n) if border else None)
    nd = len(dims)
    nh = (1 if sdim else nd) * (1 if sdir else 2)
    nb = 0
    if border and simple:
        nb = 1
    elif border and sdim:
        # one per distance to the closest ends; shared between dimensions
        nb = len(set(itertools.chain(*[itertools.product(*[range((m + 1) // 2) for m in dims[:d] + dims[d + 1:]]) for d in range(nd)])))
        if len(set(dims)) > 1:
            nb = None
    elif border:
        nb = sum(int(np.prod(dims[:d] + dims[d + 1:])) for d in range(nd))
    nparams = insz * hsz + hsz * outsz + nh * hsz * hsz
    if nb is None:
        # cross sections of different shapes: which are shared depends on the order of construction
        nparams = sum(len(q.params) for q in distinct_mothers(net))
    else:
        nparams += nb * hsz
    net.params[:] = rnd_vec(c, net.paramdim, .7)
    check(c, net, ref, nparams, what)
    c.ev('symmetric' if sdir else 'asymmetric')
    if sdir and (not border or simple or sdim):
        symmetries(c, net, dims, insz, outsz, sdim and (not border or simple or len(dims) == 2), what)
    if r.random() < .3:
        xml(c, net, what)
    c.sig(border, dims, insz, hsz, outsz, kind.__name__, sdim, sdir, simple)
    c.sample(what)


def peep_of(net):
    def f(unit):
        m = net['hidden' + str(unit)]
        return np.asarray(m.params) if m.peepholes else None
    return f


def k_mdrnn(c):
    seed(c.seed)
    r = c.r
    dims = dims_of(c)
    insz, hsz, outsz = r.randint(1, 3), r.randint(1, 3), r.randint(1, 2)
    lstm = r.random() < .5
    outkind = r.choice([SigmoidLayer, LinearLayer])
    sdim, sdir = r.random() < .5, r.random() < .6
    args = dict(insize=insz, hsize=hsz, outputs=outsz, outcomponentclass=outkind, symmetricdimensions=sdim, symmetricdirections=sdir)
    peep = False
    if lstm:
        kind = MDLSTMLayer
        peep = r.random() < .5
        net = MultiDimensionalLSTM(dims, peepholes=peep, **args)
        c.ev('mdlstm')
    else:
        kind = r.choice([TanhLayer, SigmoidLayer, LinearLayer])
        net = MultiDimensionalRNN(dims, componentclass=kind, **args)
        c.ev('mdrnn')
    what = 'multi-dimensional %s %s %s peepholes %s' % (dims, kind.__name__, {k: v for k, v in args.items() if k != 'outcomponentclass'}, peep)
    nd = len(dims)

    def ref(n, x):
        p = n.predefined
        return swipe_ref(dims, x, insz, Cell(kind, hsz, nd, peep_of(n) if peep else None), outsz, ACT[outkind], p['inconn'].params, p['outconn'].params, hconn_of(n))
    hin = Cell(kind, hsz, nd).indim
    nparams = insz * hin + hsz * outsz + (1 if sdim else nd) * (1 if sdir else 2) * hin * hsz
    if peep:
        nparams += int(np.prod(dims)) * 2 ** nd * hsz * (2 + nd)
    net.params[:] = rnd_vec(c, net.paramdim, .7)
    check(c, net, ref, nparams, what)
    if sdir and not peep:
        symmetries(c, net, dims, insz, outsz, sdim and not lstm, what)
    c.ev('symmetric' if sdir else 'asymmetric')
    c.sig(dims, insz, hsz, outsz, kind.__name__, sdim, sdir, peep)
    c.sample(what)


def bidi_ref(n, x, T, insz, hsz, outsz, act, outact, sym, ws):
    a, b = ws
    xs = x.reshape(T, insz)
    f, g = [None] * T, [None] * T
    for t in range(T):
        z = full(a['in'], hsz, xs[t])
        if t:
            z = z + full(a['h'], hsz, f[t - 1])
        f[t] = act(z)
    for t in range(T - 1, -1, -1):
        z = full(b['in'], hsz, xs[t])
        if t < T - 1:
            z = z + full(b['h'], hsz, g[t + 1])
        g[t] = act(z)
    return np.concatenate([outact(full(a['out'], outsz, f[t]) + full(b['out'], outsz, g[t])) for t in range(T)])


def conn(net, a, ia, b, ib):
    """the weights of the connection from (output of) module a to module b at these buffer positions"""
    res = [q for q in net.connections[net[a]] if q.outmod is net[b] and (ia is None or q.inSliceFrom == ia) and (ib is None or q.outSliceFrom == ib)]
    assert len(res) == 1, (a, b, len(res))
    return res[0].mother.params


def k_bidirectional(c):
    seed(c.seed)
    r = c.r
    T = r.randint(2, 7)
    insz, hsz, outsz = r.randint(1, 3), r.randint(1, 3), r.randint(1, 2)
    kind, outkind = r.choice([TanhLayer, SigmoidLayer, LinearLayer]), r.choice([SigmoidLayer, LinearLayer])
    sym = r.random() < .5
    net = BidirectionalNetwork(seqlen=T, inputsize=insz, hiddensize=hsz, outputsize=outsz, symmetric=sym, componentclass=kind, outcomponentclass=outkind)
    what = 'bidirectional length %d sizes %s %s symmetric %s' % (T, (insz, hsz, outsz), kind.__name__, sym)

    def ref(n, x):
        ws = []
        for d in (0, 1):
            ws.append({'in': conn(n, 'input', 0, 'hidden(%d, 0)' % d, None), 'out': conn(n, 'hidden(%d, 0)' % d, None, 'output', 0),
                       'h': conn(n, *(('hidden(0, 0)', None, 'hidden(0, 1)', None) if d == 0 else ('hidden(1, 1)', None, 'hidden(1, 0)', None)))})
        return bidi_ref(n, x, T, insz, hsz, outsz, ACT[kind], ACT[outkind], sym, ws)
    nparams = (insz * hsz + hsz * outsz + hsz * hsz) * (1 if sym else 2)
    net.params[:] = rnd_vec(c, net.paramdim, .7)
    check(c, net, ref, nparams, what, n=3)
    if sym:
        symmetries(c, net, (T,), insz, outsz, False, what)
    c.ev('bidirectional')
    c.ev('symmetric' if sym else 'asymmetric')
    c.sig(T, insz, hsz, outsz, kind.__name__, sym)
    c.sample(what)


def conv_weights(n, convSize, nfm, inlayer, insize, inputdim):
    rows = [conn(n, inlayer, insize * k * inputdim, 'h', 0) for k in range(convSize)]
    return rows, conn(n, 'h', 0, 'out', 0)


def conv_ref(X, rows, out, convSize, nfm):
    """X: insize x insize x inputdim"""
    insize = len(X)
    od = insize - convSize + 1
    res = np.zeros((od, od))
    for i in range(od):
        for j in range(od):
            z = 0
            for k in range(convSize):
                z = z + full(rows[k], nfm, X[i + k, j:j + convSize].flatten())
            res[i, j] = sg(np.dot(out, np.tanh(z)))
    return res.flatten()


def k_conv(c):
    seed(c.seed)
    r = c.r
    cs = r.randint(1, 4)
    nfm = r.randint(1, 3)
    board = r.random() < .5
    c.ev('even convolution' if cs % 2 == 0 else 'odd convolution')
    if board:
        size = r.randint(2, 5)
        cs = max(cs, 2)
        net = ConvolutionalBoardNetwork(size, cs, nfm)
        x_ = cs // 2
        insize = size + 2 * x_ - (1 if cs % 2 == 0 else 0)
        inputdim = 2

        def ref(n, x):
            bias = [q for m in n.modules if type(m).__name__ == 'BiasUnit' for q in n.connections[m]][0].mother.params
            X = np.empty((insize, insize, 2))
            X[:, :] = bias
            X[x_:x_ + size, x_:x_ + size] = x.reshape(size, size, 2)
            rows, out = conv_weights(n, cs, nfm, 'pad', insize, 2)
            return conv_ref(X, rows, out, cs, nfm)
        nparams = 2 + cs * cs * nfm * 2 + nfm
        c.eq(net.outdim, size * size, 'one output per board position')
        c.ev('conv board')
    else:
        # (a window as large as the input would be a slice of everything, which the code refuses)
        size = r.randint(cs + 1, 6)
        inputdim = r.randint(1, 3)
        net = SimpleConvolutionalNetwork(inputdim, size, cs, nfm)
        insize = size

        def ref(n, x):
            rows, out = conv_weights(n, cs, nfm, n.inmodules[0].name, insize, inputdim)
            return conv_ref(x.reshape(size, size, inputdim), rows, out, cs, nfm)
        nparams = cs * cs * nfm * inputdim + nfm
        c.eq(net.outdim, (size - cs + 1) ** 2, 'one output per window')
        c.ev('convolutional')
    what = 'convolution %s of %s, %d features, %s' % (cs, size, nfm, 'board' if board else inputdim)
    net.params[:] = rnd_vec(c, net.paramdim, .7)
    check(c, net, ref, nparams, what)
    c.sig(board, cs, size, nfm, inputdim)
    c.sample(what)


def cap_ref(net, x):
    n, ins, h = net.size, net.insize, net.hsize
    p = net.predefined
    kind = net.componentclass
    cell = Cell(kind, h, 2, peep_of(net) if net.peepholes and kind is MDLSTMLayer else None)
    glob = None
    if net.combinputs:
        glob = full(p['globalinconn'].params, cell.indim, x[n * n * ins:])
    return swipe_ref((n, n), x[:n * n * ins], ins, cell, net.outputs, ACT[net.outcomponentclass], p['inconn'].params, p['outconn'].params, hconn_of(net),
                     border_of(net), p['directconn'].params if net.directlink else None, glob)


def k_capture(c):
    seed(c.seed)
    r = c.r
    size = r.randint(2, 4)
    kind = r.choice([TanhLayer, TanhLayer, SigmoidLayer, MDLSTMLayer])
    args = dict(size=size, hsize=r.randint(1, 2))
    if r.random() < .5:
        args['insize'] = r.randint(1, 3)
    if kind is not TanhLayer:
        args['componentclass'] = kind
    peep = kind is MDLSTMLayer and r.random() < .5
    if peep:
        args['peepholes'] = True
    if r.random() < .4:
        args['directlink'] = True
        c.ev('directlink')
    if r.random() < .4:
        args['combinputs'] = r.randint(1, 2)
        c.ev('combinputs')
    if r.random() < .3:
        args['outputs'] = 2
    if r.random() < .3:
        args['simpleborders'] = True
        c.ev('simple borders')
    if r.random() < .3:
        args['symmetricdimensions'] = False
    if r.random() < .3:
        args['outcomponentclass'] = LinearLayer
    what = 'capture %s' % {k: getattr(v, '__name__', v) for k, v in args.items()}
    net = CaptureGameNetwork(**args)
    net.params[:] = rnd_vec(c, net.paramdim, .7)

    def npar(net):
        n, h, ins = net.size, net.hsize, net.insize
        hin = Cell(kind, h, 2).indim
        sd = net.symmetricdimensions
        k = ins * hin + h * net.outputs + (1 if sd else 2) * hin * h
        k += hin * (1 if net.simpleborders else (n + 1) // 2 if sd else 2 * n)
        if net.directlink:
            k += ins * net.outputs
        k += net.combinputs * hin
        if peep:
            k += n * n * 4 * h * 4
        return k
    check(c, net, cap_ref, npar(net), what)
    if not net.combinputs and not peep and (net.symmetricdimensions or net.simpleborders):
        symmetries(c, net, (size, size), net.insize, net.outputs, net.symmetricdimensions and kind is not MDLSTMLayer, what)
        c.ev('rotated board')
    if r.random() < .3:
        xml(c, net, what)
    # the same weights on another board
    new = r.randint(2, 6 if kind is not MDLSTMLayer else 4)
    n2 = net.resizedTo(new)
    w2 = what + ' resized to %d' % new
    c.eq(n2.size, new, 'size of a resized network', w2)
    for k in ['insize', 'hsize', 'componentclass', 'directlink', 'combinputs', 'outputs', 'simpleborders', 'symmetricdimensions', 'peepholes', 'outcomponentclass']:
        c.eq(getattr(n2, k), getattr(net, k), 'settings of a resized network', '%s of %s' % (k, w2))
    c.eq(n2.paramdim, npar(n2), 'number of weights of a resized network', w2)
    if new == size:
        c.close(n2.params, net.params, 'resized to the same size', 0, w2)
    for k in ['inconn', 'outconn'] + (['directconn'] if net.directlink else []) + (['globalinconn'] if net.combinputs else []) + (['borderconn'] if net.simpleborders else []):
        c.close(n2.predefined[k].params, net.predefined[k].params, 'weights of a resized network', 0, '%s of %s' % (k, w2))
    for k in net.predefined['hconns']:
        c.close(n2.predefined['hconns'][k].params, net.predefined['hconns'][k].params, 'weights of a resized network', 0, '%s of %s' % (k, w2))
    if not net.simpleborders and new != size:
        for d in net.predefined['bordconns']:
            old, nb = net.predefined['bordconns'][d], n2.predefined['bordconns'][d]
            for t in old:
                if t in nb:
                    c.close(nb[t].params, old[t].params, 'border weights of a resized network', 0, '%s of %s' % (t, w2))
            for t in nb:
                if t not in old:
                    # one dimensional cross section: the closest known border position with a lower coordinate
                    lower = max(q for q in old if q < t)
                    c.close(nb[t].params, old[lower].params, 'extrapolated border weights', 1e-12, '%s of %s' % (t, w2))
                    c.ev('extrapolated')
    c.ev('resized larger' if new > size else 'resized smaller')
    x = rnd_vec(c, n2.indim)
    y = rnd_vec(c, net.indim)
    out = np.array(net.activate(y))
    c.close(n2.activate(x), cap_ref(n2, x), 'outputs of a resized network', 1e-9, w2)
    n2.params[:] = rnd_vec(c, n2.paramdim, .7)
    c.close(n2.activate(x), cap_ref(n2, x), 'outputs of a resized network', 1e-9, w2)
    c.close(net.activate(y), out, 'changing a resized network changes the original', 1e-12, w2)
    c.close(net.activate(y), cap_ref(net, y), 'outputs after resizing', 1e-9, w2)
    net.params[:] = rnd_vec(c, net.paramdim, .7)
    c.close(net.activate(y), cap_ref(net, y), 'outputs after resizing, other weights', 1e-9, w2)
    gradient(c, net, 'derivatives after resizing') if r.random() < .3 else None
    c.ev('independent')
    c.ev('capture')
    c.sig(tuple(sorted((k, str(v)) for k, v in args.items())), new)
    c.sample(what)


def k_mesh(c):
    """meshes enumerate their components; views on a flat layer tile its buffers"""
    seed(c.seed)
    r = c.r
    dims = tuple(r.randint(1, 4) for _ in range(r.randint(1, 3)))
    if max(dims) == 1:
        dims = dims[:-1] + (2,)
    n = int(np.prod(dims))
    k = r.randint(1, 3)
    made = []

    def mk():
        made.append(LinearLayer(k))
        return made[-1]
    m = ModuleMesh(mk, dims, 'grid')
    c.eq(len(made), n, 'components of a mesh')
    c.eq([id(q) for q in m], [id(q) for q in made], 'order of a mesh')
    for u, q in zip(coords(dims), made):
        c.ok(m[u] is q, 'component of a mesh', u)
        c.eq(q.name, 'grid' + str(u), 'name of a component')
    c.eq((m.componentIndim, m.componentOutdim), (k, k), 'component dimensions')
    big = MDLSTMLayer(n * k, r.randint(1, 2)) if r.random() < .3 else LinearLayer(n * k)
    v = ModuleMesh.viewOnFlatLayer(big, dims, 'view')
    i, o = big.indim // n, big.outdim // n
    for j, u in enumerate(coords(dims)):
        s = v[u]
        c.eq((s.inOffset, s.indim, s.outOffset, s.outdim), (j * i, i, j * o, o), 'view on a flat layer', '%s of %s' % (u, dims))
        c.ok(s.base is big, 'base of a slice')
    # every position gets its own input, weights not shared
    if r.random() < .5:
        net = FeedForwardNetwork()
        a, b = LinearLayer(n * k, name='a'), TanhLayer(n * k, name='b')
        net.addInputModule(a)
        net.addOutputModule(b)
        va, vb = ModuleMesh.viewOnFlatLayer(a, dims, 'va'), ModuleMesh.viewOnFlatLayer(b, dims, 'vb')
        perm = coords(dims)
        r.shuffle(perm)
        W = {}
        for u, w in zip(coords(dims), perm):
            W[u, w] = FullConnection(va[u], vb[w])
            net.addConnection(W[u, w])
        net.sortModules()
        x = rnd_vec(c, n * k)
        net.params[:] = rnd_vec(c, net.paramdim)
        want = np.zeros(n * k)
        for (u, w), q in W.items():
            ju, jw = coords(dims).index(u), coords(dims).index(w)
            want[jw * k:(jw + 1) * k] = np.tanh(full(q.params, k, x[ju * k:(ju + 1) * k]))
        c.close(net.activate(x), want, 'outputs of connected meshes', 1e-10)
        gradient(c, net)
        c.ev('unshared weights')
    c.ev('mesh')
    c.sig(dims, k, type(big).__name__)


KINDS = [('swiping', k_swiping, 60, 1500), ('mdrnn', k_mdrnn, 32, 900), ('bidirectional', k_bidirectional, 40, 900), ('conv', k_conv, 60, 1200),
         ('capture', k_capture, 40, 1000), ('mesh', k_mesh, 50, 800)]
