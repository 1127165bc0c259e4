"""P05: the parameters of a network are one flat live array, whatever is done to it and in whatever order."""
import numpy as np
from pybrain.structure import (FeedForwardNetwork, RecurrentNetwork, LinearLayer, SigmoidLayer, TanhLayer, BiasUnit,
                               FullConnection, LSTMLayer, IdentityConnection)
from pybrain.structure.networks.network import NetworkConstructionException
from pybrain.structure.connections.shared import SharedConnection
from vp.core import rnd_vec, Unchanged
from vp import refnet

RULE = ('a case builds one random (feedforward or recurrent) network and drives it through a random history of parameter '
        'writes at every level (network, part, nested network, mother of shared weights), replacements, randomizations, '
        'mutations, copies, activations and re-sortings after additions; after every operation the monitor walks all parts '
        'and compares them with a model; non-trivial when it has two parametrised parts; distinct by structure and history')
EXPECT = ['writes through the network', 'writes through a part', 'replaced arrays', 'randomizations', 'mutations',
          're-sorted after additions', 'ownership refusals', 'flat layouts walked', 'copies', 'shared parameters',
          'nested networks', 'layout rebuilt identically', 'order checks', 'derivative views', 'lookups']
KINDS_ = [('linear', 2), ('sigmoid', 2), ('tanh', 2), ('softmax', .5), ('gate', .5)]


def random_net(c, recurrent=None):
    r = c.r
    rec = r.random() < .5 if recurrent is None else recurrent
    spec = refnet.random_spec(r, recurrent=rec, kinds=KINDS_, nested=.2, maxmods=4, lstm=.3 if rec else 0, shared=.5)
    return spec, refnet.build(spec, r)


def walk(c, net, parts, key):
    """Every parameter of every part sits at exactly one place of the flat array. Returns {part: start}."""
    total = sum(v.paramdim for v in parts.values())
    if not total:
        c.eq(net.paramdim, 0, key + '/size')
        return {}
    c.must(net.paramdim == total and len(net.params) == total and len(net) == total, key + '/size',
           'network %d parameters, parts %d' % (net.paramdim, total))
    keep, kd = np.array(net.params), np.array(net.derivs)
    place = {}
    try:
        net.params[:] = np.arange(total)
        net.derivs[:] = -np.arange(total)
        seen = []
        for k, v in parts.items():
            p = [int(x) for x in v.params]
            c.ok(p == list(range(p[0], p[0] + len(p))), key + '/contiguous', '%s holds %s' % (k, p))
            c.ok([-int(x) for x in v.derivs] == p, key + '/derivatives aligned', '%s' % k)
            place[k] = p[0]
            seen += p
            c.eq(len(p), v.paramdim, key + '/size of a part', k)
        c.eq(sorted(seen), list(range(total)), key + '/every parameter once')
    finally:
        net.params[:] = keep
        net.derivs[:] = kd
    c.ev('flat layouts walked')
    return place


def agree(c, net, parts, model, key):
    for k, v in parts.items():
        c.close(v.params, model[k], key, 0, k)


def k_history(c):
    r = c.r
    spec, (net, parts, mods, cons) = random_net(c)
    if not parts:
        return
    model = refnet.snapshot(parts)
    place = walk(c, net, parts, 'layout')
    names = sorted(parts)
    hist = []
    for step in range(r.randint(6, 16)):
        op = r.choice(['net', 'net1', 'part', 'set', 'randomize', 'mutate', 'derivs', 'resort', 'activate', 'copy', 'own',
                       'partrand'])
        hist.append(op)
        k = r.choice(names)
        n = len(model[k])
        if op == 'net':
            x = rnd_vec(c, net.paramdim)
            net.params[:] = x
            for q in names:
                model[q] = x[place[q]:place[q] + len(model[q])]
            c.ev('writes through the network')
        elif op == 'net1':
            i = r.randrange(n)
            net.params[place[k] + i] = model[k][i] = 7.5 + step
            c.ev('writes through the network')
        elif op == 'part':
            if r.random() < .5:
                parts[k].params[:] = model[k] = rnd_vec(c, n)
            else:
                i = r.randrange(n)
                parts[k].params[i] += 2
                model[k][i] += 2
            c.ev('writes through a part')
        elif op == 'set':
            x = rnd_vec(c, net.paramdim)
            arg = list(x) if r.random() < .3 else x.copy()
            net._setParameters(arg)
            for q in names:
                model[q] = x[place[q]:place[q] + len(model[q])].copy()
            c.ev('replaced arrays')
        elif op == 'randomize':
            old = np.array(net.params)
            net.randomize()
            c.ok(not np.any(net.params == old), 'randomize', 'parameters kept')
            c.ok(not np.any(net.derivs), 'randomize/derivatives')
            model = refnet.snapshot(parts)
            c.close(np.array(net.params)[place[k]:place[k] + n], model[k], 'randomize/view', 0)
            c.ev('randomizations')
        elif op == 'partrand':
            others = refnet.snapshot(parts)
            net.derivs[:] = 1.
            parts[k].randomize()
            model[k] = np.array(parts[k].params)
            c.ok(not np.any(parts[k].derivs), 'randomize/derivatives of a part')
            c.close(np.array(net.params)[place[k]:place[k] + n], model[k], 'randomize/view', 0)
            for q in names:
                if q != k:
                    c.close(parts[q].params, others[q], 'randomizing a part changes another', 0)
        elif op == 'mutate':
            old = np.array(net.params)
            net.mutate()
            c.ok(np.all(net.params != old) and np.all(abs(net.params - old) < 2), 'mutate', '%s -> %s' % (old, net.params))
            model = refnet.snapshot(parts)
            c.close(np.array(net.params)[place[k]:place[k] + n], model[k], 'mutate/view', 0)
            c.ev('mutations')
        elif op == 'derivs':
            parts[k].derivs[:] = np.arange(n) + 1
            c.close(np.array(net.derivs)[place[k]:place[k] + n], np.arange(n) + 1, 'derivatives/view', 0)
            net.resetDerivatives()
            c.ok(not np.any(parts[k].derivs) and not np.any(net.derivs), 'derivatives/reset')
            c.ev('derivative views')
        elif op == 'resort':
            net.sorted = False if r.random() < .5 else net.sorted
            again = not net.sorted
            net.sortModules()
            if again:                 # a new sorting may lay the parts out differently
                agree(c, net, parts, model, 'view after sorting again')
                place = walk(c, net, parts, 'layout')
        elif op == 'activate':
            u = Unchanged(params=np.array(net.params))
            x = rnd_vec(c, spec.indim)
            net.reset()
            out = net.activate(x)
            c.close(out, refnet.Ref(spec).run(model, [x])[0], 'activation uses the parameters', 1e-7)
            u.verify(c, 'activation changes parameters')
        elif op == 'copy':
            cp = net.copy()
            c.close(cp.params, net.params, 'copy', 0)
            cp.params[:] = 0
            cp.randomize()
            cp.derivs[:] = 3
            c.ev('copies')
            c.ok(not np.any(np.asarray(net.derivs) == 3), 'copy shares derivatives')
        elif op == 'own':
            c.raises(Exception, lambda: parts[k]._setParameters(np.zeros(n)), 'ownership',
                     'a part of a network took a foreign array')
            c.ev('ownership refusals')
        agree(c, net, parts, model, 'view after ' + op)
        c.close(net.params, np.concatenate([model[q] for q in sorted(names, key=lambda q: place[q])]),
                'flat array after ' + op, 0, str(hist))
    c.eq(walk(c, net, parts, 'layout at the end'), place, 'layout moved')
    if any(x.mother for x in spec.cons):
        c.ev('shared parameters')
    if any(m.kind == 'net' for m in spec.mods):
        c.ev('nested networks')
    if len(parts) > 1:
        c.sig(spec.signature(), tuple(hist))
    c.sample({'structure': spec.describe(), 'history': hist})


def k_grow(c):
    """Parts added to a sorted network: nothing known is lost, everything new is in the flat array."""
    r = c.r
    spec, (net, parts, mods, cons) = random_net(c)
    for v in parts.values():
        v.params[:] = rnd_vec(c, v.paramdim)
    model = refnet.snapshot(parts)
    for g in range(r.randint(1, 3)):
        names = [m for m in spec.mods if m.kind not in ('bias',)]
        new = refnet.Mod('new%d' % g, r.choice(['sigmoid', 'tanh', 'linear']), r.randint(1, 3))
        layer = new.make()
        net.addModule(layer)
        mods[new.name] = layer
        spec.mods.append(new)
        src = r.choice([m for m in spec.mods[:-1] if m.outdim])
        # a target that the source does not depend on
        dep, frontier = {src.name}, [src]
        while frontier:
            m = frontier.pop()
            for x in spec.cons:
                if x.dst is m and not x.rec and x.src.name not in dep:
                    dep.add(x.src.name)
                    frontier.append(x.src)
        targets = [m for m in spec.mods[:-1] if m.name not in dep and m.indim and m.kind != 'bias' and m not in spec.ins]
        c1 = refnet.Con('n%da' % g, 'full', src, new)
        ps = [c1]
        if targets:
            ps.append(refnet.Con('n%db' % g, 'full', new, r.choice(targets)))
        for k in ps:
            con = k.make(mods, {})
            cons[k.name] = con
            parts[k.name] = con
            if r.random() < .5:
                con.params[:] = rnd_vec(c, con.paramdim)
            net.addConnection(con)
            spec.cons.append(k)
            model[k.name] = np.array(con.params)
        c.ok(not net.sorted, 'additions need sorting')
        c.raises(AssertionError, lambda: net.activate(np.zeros(spec.indim)), 'unsorted network activated')
        net.reset()
        net.sortModules()
        agree(c, net, parts, model, 'additions/values')
        walk(c, net, parts, 'additions/layout')
        if r.random() < .5:
            net.params[:] = rnd_vec(c, net.paramdim)
            model = refnet.snapshot(parts)
        net.reset()
        seq = [rnd_vec(c, spec.indim) for _ in range(2)]
        for x, e in zip(seq, refnet.Ref(spec).run(model, seq) if spec.recurrent else
                        [refnet.Ref(spec).run(model, [x])[0] for x in seq]):
            c.close(net.activate(x), e, 'additions/activation', 1e-7, str(spec.describe()))
        net.reset()
        c.ev('re-sorted after additions')
    # adding a module or an input twice changes nothing
    d = (net.indim, net.outdim, net.paramdim, len(net.modules))
    for m in spec.ins:
        net.addInputModule(mods[m.name])
    for m in spec.outs:
        net.addOutputModule(mods[m.name])
    for m in spec.mods:
        net.addModule(mods[m.name])
    net.sortModules()
    c.eq((net.indim, net.outdim, net.paramdim, len(net.modules)), d, 'added twice')
    agree(c, net, parts, {k: np.array(v.params) for k, v in parts.items()}, 'added twice')
    c.sig(spec.signature())
    c.sample(spec.describe())


def k_order(c):
    """The sorted order is topological and the same each time the same network is built."""
    r = c.r
    state = r.getstate()
    res = []
    spec = None
    for i in range(2):
        r.setstate(state)
        spec, (net, parts, mods, cons) = random_net(c)
        order = [m.name for m in net.modulesSorted]
        c.eq(sorted(order), sorted(m.name for m in spec.mods), 'order/all modules once')
        for x in spec.cons:
            if not x.rec:
                c.ok(order.index(x.src.name) < order.index(x.dst.name), 'order/topological',
                     '%s before %s in %s' % (x.src.name, x.dst.name, order))
                c.ev('order checks')
        res.append((order, walk(c, net, parts, 'layout')))
        for m in spec.mods:
            c.ok(net[m.name] is mods[m.name], 'lookup')
            c.ev('lookups')
        c.ok(net['no such module'] is None, 'lookup/unknown')
        if spec.recurrent:
            c.eq(sorted(x.name for x in net.recurrentConns), sorted(x.name for x in spec.cons if x.rec), 'recurrent connections')
        live = [x.name for l in net.connections.values() for x in l]
        c.eq(sorted(live), sorted(x.name for x in spec.cons if not x.rec), 'connections')
        garbage = [object() for _ in range(r.randrange(50))]      # move the heap
    c.eq(res[0], res[1], 'order/deterministic', 'the same construction was laid out differently')
    c.ev('layout rebuilt identically')
    c.sig(spec.signature())
    c.sample(spec.describe())


def k_single(c):
    """Standalone containers: dimension, distribution, independence."""
    r = c.r
    a, b = LinearLayer(r.randint(1, 4), name='a'), LinearLayer(r.randint(1, 4), name='b')
    x, y = FullConnection(a, b), FullConnection(a, b)
    n = a.outdim * b.indim
    for q in (x, y):
        c.eq((q.paramdim, len(q.params), len(q.derivs), len(q)), (n,) * 4, 'single/size')
        c.ok(not np.any(q.derivs), 'single/derivatives')
    c.ok(np.all(np.asarray(x.params) != np.asarray(y.params)), 'single/randomized')
    x.params[:] = 1.
    c.ok(np.all(np.asarray(y.params) != 1.), 'single/independent')
    arr = rnd_vec(c, n)
    x._setParameters(arr)
    c.close(x.params, arr, 'single/set', 0)
    z = x.copy()
    z.params[:] = 5
    c.close(x.params, arr, 'single/copy', 0)
    w = x.newSimilarInstance()
    c.ok(np.all(np.asarray(w.params) != arr) and len(w.params) == n, 'single/newSimilarInstance')
    c.close(x.params, arr, 'single/newSimilarInstance', 0)
    # spread of the randomization and of the mutation
    big = FullConnection(LinearLayer(40), LinearLayer(40))
    big.stdParams = r.choice([.1, 1., 3.])
    big.randomize()
    p = np.array(big.params)
    c.ok(abs(np.std(p) / big.stdParams - 1) < .15 and abs(np.mean(p)) < .15 * big.stdParams, 'single/spread of randomize',
         'std %g mean %g for %g' % (np.std(p), np.mean(p), big.stdParams))
    big.mutationStd = r.choice([.01, .1, 1.])
    big.mutate()
    d = np.array(big.params) - p
    c.ok(abs(np.std(d) / big.mutationStd - 1) < .15 and abs(np.mean(d)) < .15 * big.mutationStd, 'single/spread of mutate')
    c.ev('randomizations')
    c.sig(n, big.stdParams, big.mutationStd)
    c.sample({'parameters': n})


KINDS = [('history', k_history, 150, 6000), ('grow', k_grow, 80, 3000), ('order', k_order, 100, 3000),
         ('single', k_single, 40, 600)]
