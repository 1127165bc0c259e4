"""P35: rigid-body worlds - model files, sensors, actuators, collisions, tasks (on stand-ins for ode and xode)."""
import io, math, os, tempfile, warnings
import xml.etree.ElementTree as ET
import numpy as np
from vp import fakeode
fakeode.install()
from vp.fakeode import ode
from pybrain.rl.environments.ode import ODEEnvironment, sensors, actuators
from pybrain.rl.environments.ode import JohnnieEnvironment, CCRLEnvironment, AcrobotEnvironment
from pybrain.rl.environments.ode.tasks import johnnie, ccrl, acrobot
from pybrain.rl.environments.ode.tools.xmltools import XMLstruct
from pybrain.rl.environments.ode.tools import xodetools
from pybrain.rl.environments.ode.tools.xodetools import XODEfile
from pybrain.rl.environments.ode.tools.configgrab import ConfigGrabber

RULE = ('a case builds one XML structure or XODE model by a random history of calls, reads one configuration file, drives one loaded world through random '
        'actions, collisions and resets, or one shipped environment with one of its tasks; distinct by the history')
EXPECT = ['empty tag', 'special characters', 'downTo found', 'downTo missed', 'scaled structure', 'mass given', 'merged', 'scaled model', 'pressure sensor',
          'shipped generator', 'shipped part', 'place changed', 'section', 'section absent', 'last line unterminated', 'stepped', 'several steps per action', 'collision', 'passed through', 'passing by parts of names', 'pushed', 'power chosen', 'held while varying', 'held over two episodes',
          'reset', 'excluded sensor', 'unknown name', 'affixed joint', 'affixed body', 'sensors from the file', 'sliders', 'motors', 'copied actuator',
          'colored', 'johnnie', 'acrobot', 'ccrl', 'perturbed', 'perturbation ended', 'jump rewarded', 'episode ended', 'table touched', 'glass held']
ASSUMPTIONS = ['PyODE is not installed: the packages ode and xode are replaced by recording stand-ins, so the physics itself is not judged',
               'an XODE capped cylinder has the given length including its caps, as the viewer reads it']


def text(c, special=False):
    s = ''.join(c.r.choice('abcdefgh_XYZ') for _ in range(c.r.randint(1, 6)))
    if special and c.r.random() < .3:
        c.ev('special characters')
        s += c.r.choice(['&', '<', '>', '"', "'", '"\'', 'a & b', '<x>', 'p"q'])
    return s


# ------------------------------------------------------------------ XML structures

class M(object):
    def __init__(self, name, attr):
        self.name, self.attr, self.kids, self.parent = name, dict(attr or {}), None, None

    def add(self, k):
        if self.kids is None:
            self.kids = []
        if k is not None:
            self.kids.append(k)
            k.parent = self

    def walk(self):
        yield self
        for k in self.kids or []:
            for x in k.walk():
                yield x


def rnd_attr(c):
    a = {}
    for k in c.r.sample('xyzuvw', c.r.randint(0, 4)):
        if k in 'xyz':
            a[k] = c.r.choice([c.r.randint(-5, 5), round(c.r.uniform(-3, 3), 4)])
        else:
            a[k] = text(c, True)
    return a


def same_xml(c, el, m, key):
    c.eq(el.tag, m.name, key + ' tag')
    c.eq(dict(el.attrib), dict((k, str(v)) for k, v in m.attr.items()), key + ' attributes', m.name)
    c.eq((el.text or '').strip(), '', key + ' text')
    kids = m.kids or []
    if c.eq([e.tag for e in el], [k.name for k in kids], key + ' subtags', m.name):
        for e, k in zip(el, kids):
            same_xml(c, e, k, key)


def k_structure(c):
    """random histories of insertions and moves, followed by an independent tree"""
    r = c.r
    names = ['a', 'b', 'cc', 'd1', 'node', 'e', 'ff']
    attr = rnd_attr(c)
    x, m = XMLstruct('root', attr or None), M('root', attr)
    cur = m
    of = {id(x): m}
    keep = [x]
    log = []
    for _ in range(r.randint(4, 40)):
        op = r.choice(['insert'] * 5 + ['none', 'object', 'multi', 'up', 'up', 'top', 'down', 'down', 'query'])
        log.append(op)
        if op == 'insert':
            n, a = r.choice(names), rnd_attr(c)
            x.insert(n, a or None)
            k = M(n, a)
            cur.add(k)
            cur = k
            of[id(x.current)] = k
        elif op == 'none':
            x.insert(None)
            cur.add(None)
            c.ev('empty tag')
        elif op == 'object':
            n, a = r.choice(names), rnd_attr(c)
            t = XMLstruct(n, a)
            keep.append(t)
            x.insert(t)
            k = M(n, a)
            cur.add(k)
            cur = k
            of[id(t)] = k
            c.ok(x.current is t, 'inserted object is current')
        elif op == 'multi':
            ts = [XMLstruct(r.choice(names), rnd_attr(c)) for _ in range(r.randint(0, 3))]
            keep += ts
            x.insertMulti(ts)
            cur.add(None)
            for t in ts:
                k = M(t.getName(), dict((a, b) for a, b in t.tag.items() if a != 'myName'))
                cur.add(k)
                of[id(t)] = k
        elif op == 'up':
            n = r.choice([1, 1, 1, 2, 3])
            x.up(n)
            for _ in range(n):
                cur = cur.parent or cur
        elif op == 'top':
            x.top()
            cur = m
        elif op == 'down':
            n = r.choice(names)
            found = x.downTo(n)
            want = any(k.name == n for k in cur.walk())
            c.eq(bool(found), want, 'downTo answer', n)
            if found and want:
                got = of.get(id(x.current))
                c.must(got is not None, 'downTo current unknown')
                c.eq(got.name, n, 'downTo name')
                c.ok(got in list(cur.walk()), 'downTo left the subtree')
                if cur.name == n:
                    c.ok(got is cur, 'downTo moved away from a match')
                elif any(k.name == n for k in cur.kids or []):
                    c.ok(got is [k for k in cur.kids if k.name == n][0], 'downTo direct subtag')
                cur = got
                c.ev('downTo found')
                # the way back leads through the parents
                steps, p = 0, cur
                while p is not m:
                    p = p.parent
                    steps += 1
                    if steps == 1 and r.random() < .3:
                        x.up()
                        cur = p
                        break
            else:
                c.ev('downTo missed')
        else:
            t = x.current
            n = r.choice(names)
            kids = cur.kids or []
            c.eq(t.hasSubtag(), cur.kids is not None, 'hasSubtag')
            c.eq(t.hasSubtag(n), any(k.name == n for k in kids), 'hasSubtag name')
            s = t.getSubtag(n)
            c.ok((s is None) == (not any(k.name == n for k in kids)), 'getSubtag')
            if s is not None:
                c.ok(of[id(s)] is [k for k in kids if k.name == n][0], 'getSubtag first')
            c.eq(t.nbAttributes(), len(cur.attr), 'nbAttributes')
            c.eq(len(x.getCurrentSubtags()), len(kids), 'current subtags')
            c.eq(t.getName(), cur.name, 'getName')
        c.ok(of.get(id(x.current)) is cur, 'current tag after ' + op, log)
        c.eq(len(x.stack), sum(1 for _ in iter_up(cur)), 'depth after ' + op)
    if r.random() < .5:
        sc = r.choice([2, .5, 3.])
        ss = set(r.sample(['x', 'y', 'z'], r.randint(1, 3)))
        ex = set(r.sample(names, r.randint(0, 2)))
        x.scale(sc, ss, ex)
        for k in m.walk():
            if k.name not in ex:
                for a in k.attr:
                    if a in ss:
                        k.attr[a] = k.attr[a] * sc
        c.ev('scaled structure')
    f = io.StringIO()
    x.write(f)
    try:
        el = ET.fromstring(f.getvalue())
    except ET.ParseError as e:
        return c.fail('written XML does not parse', '%s\n%s' % (e, f.getvalue()[:600]))
    same_xml(c, el, m, 'written')
    c.sig(log, f.getvalue())
    c.sample({'calls': len(log), 'tags': sum(1 for _ in m.walk())})


def iter_up(n):
    while n.parent is not None:
        n = n.parent
        yield n


# ------------------------------------------------------------------ models

def volume(shape, size):
    if shape == 'box':
        return size[0] * size[1] * size[2]
    if shape == 'sphere':
        return 4 / 3. * math.pi * size[0] ** 3
    if shape == 'cylinder':
        return math.pi * size[0] ** 2 * size[1]
    return math.pi * size[0] ** 2 * (size[1] - 2 * size[0]) + 4 / 3. * math.pi * size[0] ** 3


def dims(shape, size):
    if shape == 'box':
        return dict(sizex=size[0], sizey=size[1], sizez=size[2])
    if shape == 'sphere':
        return dict(radius=size[0])
    return dict(radius=size[0], length=size[1])


def num(el):
    return dict((k, float(v)) for k, v in el.attrib.items())


class Model(object):
    """what was asked of one XODEfile"""
    def __init__(self):
        self.items, self.bodies, self.joints, self.passes, self.colors = [], [], [], {}, []
        self.sensors, self.psens, self.center, self.affix = [], [], None, None


def build_model(c, x, prefix, extra=False, plain=False):
    """random bodies, joints and so on; returns what was asked"""
    r = c.r
    s = Model()
    n = r.randint(1, 6)
    for i in range(n):
        name = prefix + 'b%d' % i
        shape = r.choice(['box', 'cylinder', 'cappedCylinder', 'sphere'])
        size = [round(r.uniform(.2, 3), 3) for _ in range(3)]
        if shape == 'cappedCylinder':
            size[1] = round(size[0] * 2 + r.uniform(.1, 4), 3)
        kw = {}
        dens = r.choice([1, 5, .3])
        pos = [round(r.uniform(-9, 9), 3) for _ in range(3)]
        if r.random() < .7:
            kw['passSet'] = r.sample(['p1', 'p2', 'p3', 'tot'], r.randint(1, 2))
        if r.random() < .5:
            kw['euler'] = [r.choice([0, 90, 45.5, -30]) for _ in range(3)]
        if r.random() < .5:
            kw['mass'] = round(r.uniform(.1, 20), 3)
            c.ev('mass given')
        if r.random() < .4:
            kw['color'] = tuple(round(r.random(), 2) for _ in range(4))
            s.colors.append((name, kw['color']))
        x.insertBody(name, shape, size, dens, pos=pos, **kw)
        for p in kw.get('passSet', []):
            s.passes.setdefault(p, set()).add(name)
        s.bodies.append(name)
        s.items.append(('body', dict(name=name, shape=shape, size=size, dens=dens, pos=pos, euler=kw.get('euler'), mass=kw.get('mass'))))
    for i in range(r.randint(0, 5) if n > 1 else 0):
        a, b = r.sample(s.bodies, 2)
        kind = r.choice(['fixed', 'ball', 'slider', 'hinge', 'hinge', 'hinge'])
        ax = dict(x=r.choice([0, 1]), y=1, z=0)
        if r.random() < .4:
            ax['HiStop'] = 1.5
        anchor = tuple(round(r.uniform(-3, 3), 2) for _ in range(3))
        rel = r.random() < .3
        given = prefix + 'j%d' % i if r.random() < .5 or a + '_' + b in s.joints else None
        name = x.insertJoint(a, b, kind, axis=ax, anchor=anchor, rel=rel, **({'name': given} if given else {}))
        c.eq(name, given or a + '_' + b, 'joint name')
        s.joints.append(name)
        s.items.append(('joint', dict(name=name, a=a, b=b, kind=kind, axis=ax, anchor=anchor, rel=rel)))
    if extra:
        for i in range(r.randint(0, 3) if n > 1 else 0):
            a, b = r.sample(s.bodies, 2)
            kind = r.choice(['amotor', 'hinge2', 'universal'])
            name = prefix + 'x%d' % i
            axes = r.randint(1, 3)
            x.insert('joint', {'name': name})
            x.insert('link1', {'body': a})
            x.up()
            x.insert('link2', {'body': b})
            x.up()
            x.insert(kind, {'axes': axes} if kind == 'amotor' else None)
            x.insert(None)
            x.up(2)
            s.joints.append(name)
            s.items.append(('raw', dict(name=name, a=a, b=b, kind=kind, axes=axes)))
    if plain:
        return s
    for i in range(r.randint(0, 2)):
        parent = r.choice(s.bodies)
        eu = [0, 0, 0] if r.random() < .3 else [r.choice([0, 90, -45, 30]) for _ in range(3)]
        m = round(r.uniform(.05, 2), 3) if r.random() < .5 else None
        stiff, d = r.choice([10., 3.5]), r.choice([1, 2.5])
        shape, size = r.choice([('cappedCylinder', [.16, .5]), ('box', [.3, .4, .5]), ('cylinder', [.2, .7]), ('sphere', [.3])])
        pos = [r.randint(-4, 4) for _ in range(3)]
        kw = dict(mass=m) if m is not None else {}
        name = x.insertPressureSensorElement(parent, name=None if r.random() < .5 else prefix + 's%d' % i, shape=shape, size=size, pos=pos, euler=eu, dens=d,
                                             stiff=stiff, passSet=['p1'], **kw)
        s.passes.setdefault('p1', set()).add(name)
        s.bodies.append(name)
        s.joints.append(name + '_' + parent)
        s.psens.append(name + '_' + parent)
        s.items.append(('body', dict(name=name, shape=shape, size=size, dens=d, pos=pos, euler=eu, mass=m)))
        s.items.append(('press', dict(name=name + '_' + parent, a=name, b=parent, mass=m if m is not None else d * volume(shape, size), stiff=stiff, euler=eu)))
        c.ev('pressure sensor')
    if r.random() < .4:
        y = r.choice([-.5, -3, 1.5])
        x.insertFloor(y)
        s.items.append(('floor', y))
    if r.random() < .6:
        s.center = r.choice(s.bodies)
        x.centerOn(s.center)
    if r.random() < .5:
        s.affix = r.choice(s.bodies + s.joints)
        x.affixToEnvironment(s.affix)
    if r.random() < .5:
        x.attachSensor('JointSensor')
        s.sensors.append(('JointSensor', (), {}))
    if r.random() < .4:
        x.attachSensor('DistToPointSensor', s.bodies[0], name='dist', point=(1., 2., 0.5))
        s.sensors.append(('DistToPointSensor', (s.bodies[0],), dict(name='dist', point=(1., 2., 0.5))))
    return s


def check_shape(c, el, shape, size, sc, key):
    if c.eq([e.tag for e in el], [shape], key + ' shape'):
        want = dict((k, v * sc) for k, v in dims(shape, size).items())
        got = num(el[0])
        c.eq(sorted(got), sorted(want), key + ' dimensions')
        c.close([got[k] for k in sorted(got)], [want[k] for k in sorted(want)], key + ' size')


def check_item(c, el, kind, q, sc):
    if kind == 'floor':
        c.eq((el.tag, el.get('name')), ('geom', 'floor'), 'floor')
        p = num(el.find('plane'))
        c.close([p['a'], p['b'], p['c'], p['d']], [0, 1, 0, q * sc], 'floor plane')
        return
    c.eq(el.get('name'), q['name'], 'name')
    if kind == 'body':
        c.eq(el.tag, 'body', 'body tag')
        p = num(el.find('transform/position'))
        c.close([p[k] for k in 'xyz'], np.array(q['pos']) * sc, 'position')
        e = el.find('transform/rotation/euler')
        if q['euler'] is None:
            c.ok(el.find('transform/rotation') is None, 'rotation not asked for')
        else:
            c.eq(e.get('aformat'), 'degrees', 'angle format')
            c.close([float(e.get(k)) for k in 'xyz'], q['euler'], 'rotation')
        ms = el.find('mass/mass_shape')
        d = float(ms.get('density'))
        if q['mass'] is not None:
            c.close(d * volume(q['shape'], q['size']), q['mass'], 'mass of %s' % q['shape'], 1e-6)
        else:
            c.close(d, q['dens'], 'density')
        check_shape(c, ms, q['shape'], q['size'], sc, 'mass')
        check_shape(c, el.find('geom'), q['shape'], q['size'], sc, 'geom')
        return
    c.eq(el.tag, 'joint', 'joint tag')
    c.eq((el.find('link1').get('body'), el.find('link2').get('body')), (q['a'], q['b']), 'joint bodies')
    k = [e for e in el if not e.tag.startswith('link')]
    if kind == 'press':
        c.eq([e.tag for e in k], ['slider'], 'sensor joint')
        a = num(k[0].find('axis'))
        v = np.array([a['x'], a['y'], a['z']])
        c.close((v ** 2).sum(), sc * sc, 'sensor axis length')
        c.close(a['z'], sc * math.cos(math.radians(q['euler'][1])), 'sensor axis tilt')
        h = .02
        kd = 1 / a['StopCFM'] - h * q['stiff']
        c.close(kd ** 2, 4 * q['mass'] * q['stiff'] / 1.02, 'sensor damping', 1e-5)
        c.close(a['StopERP'], a['StopCFM'] * h * q['stiff'], 'sensor spring', 1e-6)
        return
    c.eq([e.tag for e in k], [q['kind']], 'joint type')
    if kind == 'raw':
        return
    ax, an = k[0].find('axis'), k[0].find('anchor')
    c.eq(ax is not None, q['kind'] in ('hinge', 'slider'), 'joint has an axis')
    c.eq(an is not None, q['kind'] in ('hinge', 'ball'), 'joint has an anchor')
    if ax is not None:
        v, w = num(ax), q['axis']
        c.eq(sorted(v), sorted(w), 'axis parameters')
        g = np.array([v[i] for i in 'xyz']) * math.sqrt(sum(w[i] ** 2 for i in 'xyz'))
        c.close(g / max(1e-9, math.sqrt(sum(v[i] ** 2 for i in 'xyz'))), [w[i] for i in 'xyz'], 'axis direction')
        c.eq(v.get('HiStop'), w.get('HiStop'), 'axis stop')
    if an is not None:
        c.close([float(an.get(i)) for i in 'xyz'], np.array(q['anchor']) * sc, 'anchor')
        c.eq(an.get('absolute'), 'false' if q['rel'] else 'true', 'anchor reference')


def k_model(c):
    """XODE models built, merged, scaled and written; read back with another parser"""
    r = c.r
    x = XODEfile('model')
    s = build_model(c, x, 'u')
    if r.random() < .4:
        y = XODEfile('other')
        t = build_model(c, y, 'v')
        s2 = dict((k, set(v)) for k, v in t.passes.items())
        x.merge(y)
        s.items += t.items
        for k, v in t.passes.items():
            s.passes.setdefault(k, set()).update(v)
        c.eq(dict((k, set(v)) for k, v in y.getPassList().items()), s2, 'merging changed the other file')
        c.ev('merged')
        if r.random() < .5:
            x.insertBody('late', 'sphere', [1.5], 2, pos=[1, 2, 3], passSet=['p1'])
            s.passes.setdefault('p1', set()).add('late')
            s.items.append(('body', dict(name='late', shape='sphere', size=[1.5], dens=2, pos=[1, 2, 3], euler=None, mass=None)))
            c.eq(dict((k, set(v)) for k, v in y.getPassList().items()), s2, 'merged files share pass sets')
    sc = 1
    if r.random() < .4:
        sc = r.choice([.5, 2, 3.])
        x.scaleModel(sc)
        c.ev('scaled model')
    # tags specifying angles are not scaled, whatever they are called
    z = XODEfile('angles')
    k = r.choice([.5, 2., 7])
    kept = r.choice(['euler', 'finiteRotation', 'axisangle'])
    v = [round(r.uniform(-9, 9), 3) for _ in range(3)]
    z.insert('transform')
    z.insert('position', dict(zip('xyz', v)))
    z.up()
    z.insert(kept, dict(zip('xyz', v)))
    z.up(2)
    z.scaleModel(k)
    f = io.StringIO()
    z.write(f)
    tr = ET.fromstring(f.getvalue()).find('.//transform') if f.getvalue().lstrip().startswith('<') else None
    if c.ok(tr is not None, 'angles', 'the written model'):
        for tag, m in (('position', k), (kept, 1)):
            c.close([float(tr.find(tag).get(a)) for a in 'xyz'], np.array(v) * m, 'angles and scaling', 1e-9, '%s scaled by %s' % (tag, k))
    path = os.path.join(os.environ.get('TMPDIR') or tempfile.gettempdir(), 'm%d_%d' % (os.getpid(), c.idx))
    try:
        x.writeXODE(path)
        root = ET.parse(path + '.xode').getroot()
        c.eq((root.tag, root.get('name')), ('xode', 'model'), 'root')
        space = root.find('world/space')
        got = list(space)
        c.eq(len(list(root.find('world'))), 1, 'one space')
        if c.eq(len(got), len(s.items), 'number of parts'):
            for el, (k, q) in zip(got, s.items):
                check_item(c, el, k, q, sc)
        conf = ConfigGrabber(path + '.xode', sectionId='<!--odeenvironment parameters', delim=('<', '>'))
        c.eq(sorted(sorted(eval(t)) for t in conf.getValue('passpairs')), sorted(sorted(v) for v in s.passes.values()), 'pass pairs')
        c.eq(conf.getValue('centerOn'), [s.center] if s.center else [], 'centered body')
        c.eq(conf.getValue('affixToEnvironment'), [s.affix] if s.affix else [], 'affixed')
        c.eq([eval(t) for t in conf.getValue('colors')], s.colors, 'colors')
        calls = []
        env = dict((k, (lambda k: lambda *a, **kw: calls.append((k, a, kw)))(k)) for k in ('JointSensor', 'DistToPointSensor', 'SpecificJointSensor'))
        for t in conf.getValue('sensors'):
            eval(t, env)
        want = [('SpecificJointSensor', (s.psens,), {'name': 'PressureElements'})] if s.psens else []
        c.eq(calls, want + s.sensors, 'sensor commands')
    finally:
        if os.path.exists(path + '.xode'):
            os.remove(path + '.xode')
    c.sig(s.items, sc)
    c.sample({'parts': len(s.items), 'scale': sc})


GENERATORS = ['XODEhand', 'XODEhandflip', 'XODEfinger', 'XODEJohnnie', 'XODESLR', 'XODELSRTable', 'XODELSRGlas', 'XODELSRPlate', 'HapticTestSetupWithRidges',
              'HapticTestSetupWithSpheres', 'HapticTestSetupWithSpirals', 'HapticTestSetupWithSine']


def k_generators(c):
    """the shipped model generators: well-formed, every joint links existing bodies, every configured name exists"""
    name = GENERATORS[c.idx % len(GENERATORS)]
    x = getattr(xodetools, name)('gen')
    f = io.StringIO()
    x.write(f)
    root = ET.fromstring(f.getvalue())
    bodies = [b.get('name') for b in root.iter('body')]
    c.eq(len(bodies), len(set(bodies)), 'body names are unique', name)
    if name == 'XODEfinger':
        # haptic sensors stand upright on a cylinder around the fingertip
        for i in range(3):
            x.insertHapticSensor(dx=c.r.uniform(-.9, .9), dz=c.r.uniform(-.4, .2))
        x.insertHapticSensorsRandom()
        f = io.StringIO()
        x.write(f)
        root = ET.fromstring(f.getvalue())
        bodies = [b.get('name') for b in root.iter('body')]
        for b in root.iter('body'):
            if b.get('name').startswith('haptic'):
                p, e = ([float(b.find('transform/' + t).get(a)) for a in 'xyz'] for t in ('position', 'rotation/euler'))
                c.close(p[0] ** 2 + (p[1] - 4) ** 2, 1.44, 'haptic sensors', 1e-9, 'distance from the axis')
                c.ok(p[1] < 4 and abs(p[2] - 18.5) <= .41, 'haptic sensors', 'at %s' % (p,))
                c.close(e, [90, math.degrees(math.asin(p[0] / 1.2)), 0], 'haptic sensors', 1e-6, 'pointing at the axis')
                j = [j for j in root.iter('joint') if j.get('name') == 'finger1_' + b.get('name')]
                if c.eq(len(j), 1, 'haptic sensors', 'one joint each'):
                    a = j[0].find('.//axis')
                    c.close([float(a.get(k)) for k in 'xyz'], [-p[0], 4 - p[1], 0], 'haptic sensors', 1e-9, 'sliding towards the axis')
        c.ev('haptic')
    joints = list(root.iter('joint'))
    for j in joints:
        for l in ('link1', 'link2'):
            c.ok(j.find(l).get('body') in bodies, 'joint links an unknown body', '%s %s' % (name, j.get('name')))
    for k, v in x.getPassList().items():
        c.ok(set(v) <= set(bodies), 'pass set names an unknown body', name)
    for n, col in x._colors:
        c.ok(n in bodies, 'colored body unknown', name)
    c.ok(x._centerOn is None or x._centerOn in bodies, 'centered body unknown', name)
    jn = [j.get('name') for j in joints]
    c.ok(x._affixToEnvironment is None or x._affixToEnvironment in jn + bodies, 'affixed part unknown', name)
    for n in x.sensorElements:
        c.ok(n in jn, 'sensor element unknown', name)
    for b in root.iter('body'):
        d = float(b.find('mass/mass_shape').get('density'))
        c.ok(d > 0 and np.isfinite(d), 'density', name)
    c.ev('shipped generator')
    c.sig(name)
    c.sample({'generator': name, 'bodies': len(bodies), 'joints': len(joints)})


SHIPPED = {'XODEJohnnie': 'johnnie', 'XODELSRTable': 'ccrlTable', 'XODELSRGlas': 'ccrlGlas', 'XODELSRPlate': 'ccrlPlate'}


def layout(root):
    """where bodies and joints are: {name: {tag: numbers}}"""
    out = {}
    for b in root.iter('body'):
        d = out['body ' + b.get('name')] = {}
        for e in b.iter():
            if e.tag in ('position', 'euler'):
                d[e.tag] = [float(e.get(k)) for k in 'xyz']
            elif e.tag in ('box', 'cylinder', 'cappedCylinder', 'sphere'):
                d.setdefault('shape', []).append((e.tag, [float(v) for _, v in sorted(e.attrib.items())]))
    for j in root.iter('joint'):
        d = out['joint ' + j.get('name')] = {'links': [j.find(l).get('body') for l in ('link1', 'link2')]}
        for e in j.iter():
            if e.tag in ('axis', 'anchor'):
                d[e.tag] = [float(e.get(k)) for k in 'xyz']
            if e.tag in ('hinge', 'slider', 'ball', 'fixed', 'universal'):
                d['kind'] = e.tag
    return out


def k_shipped(c):
    """the generators of the shipped creatures give the shipped models"""
    name = sorted(SHIPPED)[c.idx % len(SHIPPED)]
    x = getattr(xodetools, name)('gen')
    f = io.StringIO()
    x.write(f)
    import pybrain.rl.environments.ode as pkg
    with open(os.path.join(os.path.dirname(pkg.__file__), 'models', SHIPPED[name] + '.xode')) as fh:
        model = fh.read()
    model = model[:model.rfind('</xode>') + 7].strip()
    a, b = layout(ET.fromstring(f.getvalue())), layout(ET.fromstring(model))
    for k in sorted(a):
        # the plate's handles were moved in the model
        if k in b and not k.startswith('body objectP'):
            for t in b[k]:
                got = a[k].get(t)
                if t in ('links', 'kind'):
                    c.eq(got, b[k][t], 'shipped model', '%s %s %s' % (name, k, t))
                elif t == 'shape':
                    c.ok(len(got or []) == len(b[k][t]) and all(p[0] == q[0] and np.allclose(p[1], q[1], atol=1e-6) for p, q in zip(got, b[k][t])),
                         'shipped model', '%s %s: shape %s, shipped %s' % (name, k, got, b[k][t]))
                else:
                    c.ok(got is not None and np.allclose(got, b[k][t], atol=1e-6), 'shipped model', '%s %s: %s %s, shipped %s' % (name, k, t, got, b[k][t]))
            c.ev('shipped part')
    c.ok(len(set(a) & set(b)) >= 29, 'shipped model', '%s has few parts of the shipped model' % name)
    c.sig(name)


def k_config(c):
    """random configuration files against a line-by-line reading of the format"""
    r = c.r
    d = r.choice([('[', ']'), ('<', '>')])
    tags = ['one', 'two', 'three', 'o']
    pre = [text(c) for _ in range(r.randint(0, 3))]
    sec = r.random() < .6
    first = 'parameters here' if sec else None
    body, vals = [], dict((t, []) for t in tags)
    cur = None
    for _ in range(r.randint(0, 14)):
        if r.random() < .35:
            cur = r.choice(tags)
            body.append(d[0] + cur + d[1])
        else:
            v = text(c) + r.choice(['', ' x', ' = 3', "('a', 'b')"])
            if cur:
                vals[cur].append(v)
            body.append(r.choice(['', ' ', '\t']) + v if cur else v)
    # values in front of the section must not be read
    if sec and r.random() < .7:
        pre += [d[0] + 'one' + d[1], 'not this']
    present = not sec or r.random() < .85
    lines = (pre if sec else []) + ([first + r.choice(['', '  '])] if sec and present else []) + (body if body else ['nothing'])
    end = r.choice(['\n', ''])
    if not end:
        c.ev('last line unterminated')
    path = os.path.join(os.environ.get('TMPDIR') or tempfile.gettempdir(), 'c%d_%d' % (os.getpid(), c.idx))
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + end)
    try:
        g = ConfigGrabber(path, sectionId=first + r.choice(['', ' ', '\n']) if sec else '', delim=d)
        c.ev('section' if present else 'section absent')
        for t in tags + ['absent'] + tags[:2]:
            c.eq(g.getValue(t), vals.get(t, []) if present else [], 'config value', '%s in %r' % (t, lines))
    finally:
        os.remove(path)
    c.sig(lines, d, first)
    c.sample({'lines': len(lines), 'values': sum(map(len, vals.values()))})


# ------------------------------------------------------------------ worlds

class J(object):
    """reference of one joint's state"""
    def __init__(self, kind, n):
        self.kind, self.n = kind, n
        self.angle, self.rate, self.torque = [0.] * n, [0.] * n, [0.] * n

    def sensed(self):
        return self.kind in ('hinge', 'hinge2', 'amotor', 'slider')

    def driven(self):
        return self.n if self.kind in ('hinge', 'hinge2', 'amotor') else 0

    def step(self, dt):
        for i in range(self.n):
            self.rate[i] += self.torque[i] * dt
            self.angle[i] += self.rate[i] * dt
            self.torque[i] = 0.


AX = dict(hinge=1, slider=1, hinge2=2, ball=0, universal=0, fixed=0)


def quiet(fn, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        res = fn(*a, **k)
    return res, w


def k_world(c):
    """a loaded world: sensors, actuators, steps, collisions, configuration and resets"""
    r = c.r
    x = XODEfile('w')
    s = build_model(c, x, 'q', extra=True, plain=True)
    if r.random() < .5:
        x.insertFloor(-1.)
        floor = True
    else:
        floor = False
    affix = None
    if r.random() < .6:
        affix = r.choice(s.bodies + s.joints)
        x.affixToEnvironment(affix)
    fsens = []
    if r.random() < .4 and s.joints:
        x._nSensorElements = 1
        x.sensorElements = r.sample(s.joints, r.randint(1, len(s.joints)))
        fsens = [('j', x.sensorElements, 'PressureElements')]
        c.ev('sensors from the file')
    if r.random() < .3:
        x.attachSensor('JointVelocitySensor', name='fromfile')
        fsens.append(('V', list(s.joints), 'fromfile'))
    if r.random() < .3:
        ns = r.sample(s.bodies, 1)
        x.attachSensor('SpecificBodyPositionSensor', ns, 'where')
        fsens.append(('p', ns, 'where'))
    path = os.path.join(os.environ.get('TMPDIR') or tempfile.gettempdir(), 'w%d_%d' % (os.getpid(), c.idx))
    x.writeXODE(path)
    try:
        drive_world(c, r, path + '.xode', s, floor, affix, fsens)
    finally:
        os.remove(path + '.xode')


def drive_world(c, r, path, s, floor, affix, fsens):
    del ode.LOG[:]
    env = ODEEnvironment(render=False, realtime=False)
    env.loadXODE(path)
    kinds, axes = {}, {}
    for k, q in s.items:
        if k in ('joint', 'raw'):
            kinds[q['name']] = q['kind']
            axes[q['name']] = q['axes'] if q['kind'] == 'amotor' else AX[q['kind']]
    pos0 = dict((q['name'], q['pos']) for k, q in s.items if k == 'body')

    def fresh():
        return dict((n, J(kinds[n], axes[n])) for n in s.joints), dict((b, np.array(pos0[b], float)) for b in s.bodies)

    def loaded(key):
        c.eq(env.world.gravity, (0, -9.81, 0), key + ' gravity')
        c.eq(sorted(map(sorted, env.passpairs)), sorted(map(sorted, s.passes.values())), key + ' pass pairs')
        c.eq([b.name if b is not None else None for b, g in env.body_geom], s.bodies + ([None] if floor else []), key + ' bodies')
        c.eq([g.name for b, g in env.body_geom], s.bodies + (['floor'] if floor else []), key + ' geoms')
        for b, g in env.body_geom:
            c.ok(g.body is b, key + ' geom of its body')
        cols = {}
        for n, col in s.colors:
            cols.setdefault(n, col)
        for b, g in env.body_geom:
            if b is not None:
                c.eq(getattr(b, 'color', None), cols.get(b.name), key + ' color')
        if cols:
            c.ev('colored')
        extra = [j for j in env.world.joints if j not in [env.root.namedChild(n).getODEObject() for n in s.joints]]
        for n in s.joints:
            j = env.root.namedChild(n).getODEObject()
            q = [q for k, q in s.items if k in ('joint', 'raw') and q['name'] == n][0]
            b1, b2 = [env.root.namedChild(q[i]).getODEObject() for i in 'ab']
            if n == affix:
                c.ok(j.bodies[0] is b1 and j.bodies[1] is None, key + ' affixed joint')
                c.ev('affixed joint')
            else:
                c.ok(j.bodies[0] is b1 and j.bodies[1] is b2, key + ' joint bodies')
            if kinds[n] == 'fixed':
                c.ok(j.fixed, key + ' fixed joint set')
            if kinds[n] == 'amotor':
                c.eq(j.mode, ode.AMotorEuler, key + ' motor mode')
        if affix in s.bodies:
            if c.eq(len(extra), 1, key + ' affixing joint'):
                j = extra[0]
                c.ok(isinstance(j, ode.FixedJoint) and j.fixed and j.bodies[1] is None and j.bodies[0] is env.root.namedChild(affix).getODEObject(), key + ' affixed body')
                c.ev('affixed body')
        else:
            c.eq(len(extra), 0, key + ' no further joints')

    loaded('load')
    js, ps = fresh()
    # sensors: (kind, names, name)
    sens = list(fsens)
    acts = []
    for _ in range(r.randint(0, 4)):
        k = r.choice(['J', 'V', 'P', 'j', 'v', 'p', 'D', 'B'])
        nm = text(c) if r.random() < .5 else None
        if k == 'J':
            o = sensors.JointSensor(nm) if nm else sensors.JointSensor()
            names = list(s.joints)
        elif k == 'V':
            o = sensors.JointVelocitySensor(nm) if nm else sensors.JointVelocitySensor()
            names = list(s.joints)
        elif k == 'P':
            o = sensors.BodyPositionSensor(nm) if nm else sensors.BodyPositionSensor()
            names = list(s.bodies)
        elif k in 'jv':
            names = [r.choice(s.joints) for _ in range(r.randint(1, 3))] if s.joints else []
            o = (sensors.SpecificJointSensor if k == 'j' else sensors.SpecificJointVelocitySensor)(list(names), nm)
        elif k == 'p':
            names = [r.choice(s.bodies) for _ in range(r.randint(1, 3))]
            o = sensors.SpecificBodyPositionSensor(list(names), nm)
        elif k == 'D':
            pt = tuple(r.randint(-3, 3) for _ in range(3))
            names = (r.choice(s.bodies), pt)
            o = sensors.DistToPointSensor(names[0], nm or 'dp', pt)
        else:
            names = (r.choice(s.bodies), r.choice(s.bodies))
            o = sensors.BodyDistanceSensor(names[0], names[1], nm or 'bd')
        env.addSensor(o)
        sens.append((k, names, o.name))
    for _ in range(r.randint(0, 3)):
        k = r.choice(['J', 'J', 'j', 'c'])
        if k == 'J':
            names, o = list(s.joints), actuators.JointActuator()
        else:
            names = r.sample(s.joints, r.randint(1, len(s.joints))) if s.joints else []
            if k == 'c':
                c.ev('copied actuator')
            o = (actuators.SpecificJointActuator if k == 'j' else actuators.CopyJointActuator)(list(names), text(c))
        env.addActuator(o)
        acts.append((k, names, o.name))
    c.eq(env.getSensorNames(), [n for _, _, n in sens], 'sensor names')
    c.eq(env.getActuatorNames(), [n for _, _, n in acts], 'actuator names')
    for bad in (3, 'JointSensor', actuators.JointActuator()):
        c.raises(TypeError, lambda: env.addSensor(bad), 'not a sensor')
    c.raises(TypeError, lambda: env.addActuator(sensors.JointSensor()), 'not an actuator')

    def value(k, names):
        if k in 'Jj':
            return [a for n in names if js[n].sensed() for a in js[n].angle]
        if k in 'Vv':
            return [a for n in names if js[n].sensed() for a in js[n].rate]
        if k in 'Pp':
            return [a for n in names for a in ps[n]]
        if k == 'D':
            return [math.sqrt(((ps[names[0]] - names[1]) ** 2).sum())]
        return [math.sqrt(((ps[names[0]] - ps[names[1]]) ** 2).sum())]

    for k, names, n in sens:
        if k in 'JjVv':
            if any(kinds[m] == 'slider' for m in names):
                c.ev('sliders')
            if any(kinds[m] == 'amotor' for m in names):
                c.ev('motors')
    excluded = []
    stale = set(i for i, q in enumerate(sens) if q[0] in 'DB')   # distances are first known after a step

    def look(key):
        out = []
        for i, (k, names, n) in enumerate(sens):
            w = value(k, names)
            if i in stale:
                w = list(env.sensors[i].getValues())
                c.eq(len(w), 1, 'one distance')
            if n not in excluded:
                out += w
            first = [q[2] for q in sens].index(n) == i
            if first:
                c.close(env.getSensorByName(n), w, key + ' sensor by name', 1e-9, n)
            c.eq(env.sensors[i].getNumValues(), len(w), key + ' number of values')
        c.close(env.getSensors(), out, key + ' sensors', 1e-9)
        c.eq(env.outdim, len(out), key + ' outdim')

    def width(k, names):
        return 1 if k == 'c' else sum(js[n].driven() for n in names)

    c.eq(env.indim, sum(width(k, n) for k, n, _ in acts), 'indim')
    look('load')
    res, w = quiet(env.getSensorByName, 'no such sensor')
    c.ok(list(res) == [] and len(w) == 1, 'unknown sensor name')
    c.ev('unknown name')
    if r.random() < .5:
        touching = dict()

        def contacts(a, b):
            key = frozenset([a.name, b.name])
            if key not in touching:
                touching[key] = r.choice([0, 0, 1, 2])
            return touching[key]
    else:
        def contacts(a, b):
            return 1
    ode.CONTACTS = contacts
    counter = 0
    log = []
    env.dt = r.choice([.01, .002, .05])
    for _ in range(r.randint(3, 14)):
        op = r.choice('aaaassxrgv')
        log.append(op)
        if op == 'x' and sens:
            n = r.choice(sens)[2]
            env.excludeSensors([n])
            excluded.append(n)
            c.ev('excluded sensor')
        elif op == 'r':
            env.reset()
            js, ps = fresh()
            counter = 0
            stale = set(i for i, q in enumerate(sens) if q[0] in 'DB')
            loaded('reset')
            c.ev('reset')
            c.eq(env.getCurrentStep(), 0, 'step counter after reset')
        elif op == 'g':
            g = r.choice([1., 9.81, 0.])
            env.setGravity(g)
            c.eq(env.world.gravity, (0, -g, 0), 'gravity set')
        elif op == 'v':
            env.FricMu = r.choice([8., 20., 1.5])
            for b, g in env.body_geom:
                if b is not None:
                    b.vel = tuple(r.uniform(-2, 2) for _ in range(3))
            # something moves the joints
            for m in js:
                js[m].rate = [r.uniform(-2, 2) for _ in js[m].rate]
                env.root.namedChild(m).getODEObject().rate[:len(js[m].rate)] = js[m].rate
            for q in env.sensors:
                q._update()
            stale = set()
            c.ev('pushed')
        elif op in 'as':
            if op == 'a':
                env.stepsPerAction = r.choice([1, 1, 1, 2, 3])
                n = env.stepsPerAction
                if n > 1:
                    c.ev('several steps per action')
                act = np.array([r.uniform(-5, 5) for _ in range(sum(width(k, q) for k, q, _ in acts))])
                p = 0
                for k, names, _ in acts:
                    for m in names:
                        for i in range(js[m].driven()):
                            # one value for all of them; motors get it tenfold
                            js[m].torque[i] += act[p] * (10. if k == 'c' and kinds[m] == 'amotor' else 1.)
                            if k != 'c':
                                p += 1
                    if k == 'c':
                        p += 1
            else:
                n = 1
            vel = dict((b.name, np.array(b.vel)) for b, g in env.body_geom if b is not None)
            pairs = []
            frag, told = [], env.passpairs
            if len(s.bodies) > 1 and r.random() < .3:
                # any part of the name is enough to be let through
                frag = [tuple(n[r.randint(1, max(1, len(n) - 2)):] for n in r.sample(s.bodies, 2))]
                env.passpairs = list(told) + frag
                c.ev('passing by parts of names')
            sp = env.space.geoms
            for i, a in enumerate(sp):
                for b in sp[i + 1:]:
                    if any(any(z in a.name for z in t) and any(z in b.name for z in t) for t in list(s.passes.values()) + frag):
                        c.ev('passed through')
                        continue
                    for _ in range(contacts(a, b)):
                        pairs.append((a, b))
                        c.ev('collision')
            del ode.LOG[:]
            if op == 'a':
                a0 = act.copy()
                env.performAction(act)
                c.close(act, a0, 'the action was changed', 0)
            else:
                env.step()
            env.passpairs = told
            for _ in range(n):
                for j in js.values():
                    j.step(env.dt)
                for b in ps:
                    ps[b] = ps[b] + vel[b] * env.dt
            counter += n
            stale = set()
            c.eq([q[0] for q in ode.LOG], ['collide', 'step', 'empty'] * n, 'order of a step')
            for q in ode.LOG:
                if q[0] == 'step':
                    c.close(q[1], env.dt, 'time step')
                elif q[0] == 'empty':
                    c.eq([(u[0], u[1]) for u in q[1]], [(a.name, b.name) for a, b in pairs], 'contact joints')
                    for u, (a, b) in zip(q[1], pairs):
                        c.ok(u[2][0] is a.body and u[2][1] is b.body, 'contact joint bodies')
                        c.close(u[3]['Mu'], env.FricMu, 'friction')
            c.eq(env.getCurrentStep(), counter, 'step counter')
            c.ev('stepped', n)
        look('after ' + {'a': 'action', 's': 'step', 'x': 'exclusion', 'r': 'reset', 'g': 'gravity', 'v': 'velocity'}[op])
    # names that do not exist: a warning, and the sensor keeps quiet
    o = sensors.Sensor('plain', 3)
    v = [1., 2., 3.]
    o.setValues(v)
    v[1] = 9
    c.eq(list(o.getValues()), [1, 2, 3], 'values of a sensor belong to it')
    o = sensors.DistToPointSensor('nobody', 'ghost')
    o._connect(env)
    _, w = quiet(o._update)
    c.eq(len(w), 1, 'warning about an unknown body')
    c.eq(list(o.getValues()), [0], 'distance of an unknown body')
    c.sig(log, sorted(kinds.items()), [q[:2] for q in sens], [q[:2] for q in acts])
    c.sample({'bodies': len(s.bodies), 'joints': sorted(kinds.values()), 'sensors': [q[0] for q in sens], 'actuators': [q[0] for q in acts], 'history': ''.join(log)})


# ------------------------------------------------------------------ shipped environments and tasks

def norm(v, lim):
    return [min(1, max(-1, (x - a) / float(b - a) * 2 - 1)) for x, (a, b) in zip(v, lim)]


def hinges(env):
    res = []

    def go(n):
        if isinstance(n, fakeode.NJoint) and isinstance(n.getODEObject(), ode.HingeJoint):
            res.append(n.getODEObject())
        for k in n.getChildren():
            go(k)
    go(env.root)
    return res


def stir(c, env, js, big=False):
    """move joints and bodies"""
    for j in js:
        j.angle[0], j.rate[0] = c.r.uniform(-1.5, 1.5), c.r.uniform(-3, 3)
    for b, g in env.body_geom:
        if b is not None:
            b.setPosition([p + c.r.uniform(-1, 1) for p in b.pos])
    for s in env.sensors:
        s._update()


def bodypos(env, name):
    return np.array(env.root.namedChild(name).getODEObject().getPosition())


def k_johnnie(c):
    """Johnnie and his tasks: control, observations, rewards, perturbations, episodes"""
    r = c.r
    ode.CONTACTS = lambda a, b: 0
    env = JohnnieEnvironment(renderer=False, realtime=False)
    js = hinges(env)
    c.eq((env.indim, env.actLen, env.obsLen), (11, 11, 22), 'johnnie sizes')
    c.eq(len(js), 11, 'johnnie joints')
    for q in (env.tourqueList, env.cHighList, env.cLowList):
        c.eq(len(q), 11, 'johnnie limits')
        # arms, pelvis, shins, knees and feet, left and right alike
        for i in (0, 3, 5, 7, 9):
            c.eq(q[i], q[i + 1], 'left and right limits', 'joint %d' % i)
    c.ok((env.cLowList < env.cHighList).all(), 'low and high limits')
    name = ['JumpingTask', 'JohnnieTask', 'JumpingTask', 'StandingTask', 'JumpingTask', 'RobStandingTask', 'RStandingTask', 'RobustStandingTask', 'StandingUpTask'][c.idx % 9]
    task = getattr(johnnie, name)(env)
    robust = name in ('RStandingTask', 'RobStandingTask', 'RobustStandingTask')
    c.eq(task.epiLen, {'JohnnieTask': 500, 'StandingTask': 1000, 'JumpingTask': 400, 'StandingUpTask': 2000}.get(name, 4000), 'episode length')
    if not robust and name != 'StandingUpTask':
        task.epiLen = r.choice([3, 10, task.epiLen])
    extra = name != 'JohnnieTask'
    if extra:
        c.eq(env.obsLen, 34, 'observation length')
        c.close(env.getSensors()[22:], np.concatenate([bodypos(env, b) for b in ('footLeft', 'footRight', 'palm', 'head')]), 'added sensors')
    c.eq(len(task.getObservation()), 34 if extra else 22, 'observation size')
    c.eq(env.dt, .01, 'johnnie time step')
    if name in ('RobStandingTask', 'RobustStandingTask'):
        task.incLearn = r.choice([0, 7, 60, 333, 1999, 2100, 20000])
    inc0 = inc = task.incLearn
    power = 400. if name == 'JumpingTask' else 100.
    c.eq(task.maxPower, power, 'johnnie power')
    if r.random() < .3:
        power = task.maxPower = r.choice([50., 250.])
    disturb = {'RStandingTask': 50, 'RobStandingTask': min(50, 10 + inc // 50), 'RobustStandingTask': min(50, inc // 200)}.get(name)
    if robust:
        c.eq(task.getDisturb(), disturb, 'length of the perturbation')
        for k in [0, 49, 50, 199, 200, 1999, 2000, 2100, 9999, 10000, 10199, 10200, 20000]:
            task.incLearn = k
            c.eq(task.getDisturb(), {'RStandingTask': 50, 'RobStandingTask': min(50, 10 + k // 50), 'RobustStandingTask': min(50, k // 200)}[name], 'length of the perturbation', '%s after %d episodes' % (name, k))
        task.incLearn = inc
    maxh = 4.
    total = []
    hist = []
    grav = (0, -9.81, 0)
    episodes = 1 if robust or task.epiLen > 100 else 4
    for e in range(episodes):
        task.reset()
        js = hinges(env)
        c.eq(task.count, 0, 'count at the start')
        cum = 0
        n = 0
        maxh = 4.
        while True:
            n += 1
            probing = r.random() < (.05 if task.epiLen > 50 else 1) or n < 4
            if probing or name == 'JumpingTask':
                stir(c, env, js)
                if name == 'JumpingTask' and r.random() < .3:
                    h = env.root.namedChild('head').getODEObject()
                    h.setPosition((h.pos[0], r.choice([r.uniform(0, 12), r.uniform(0, 6)]), h.pos[2]))
                    env.getSensors()
                    for q in env.sensors:
                        q._update()
            if probing:
                raw = env.getSensors()
                lim = [(env.cLowList[i], env.cHighList[i]) for i in range(11)] + [(-20, 20)] * (11 + (12 if extra else 0))
                c.close(task.getObservation(), norm(raw, lim), 'normalized observation')
            act = np.array([r.uniform(-1, 1) for _ in range(11)])
            ang, vel = np.array([j.angle[0] for j in js]), np.array([j.rate[0] for j in js])
            before = task.count
            if name == 'StandingUpTask' and before < 800:
                used = -np.ones(11) * power * env.tourqueList
            else:
                used = act
            target = (used + 1) / 2. * (env.cHighList - env.cLowList) + env.cLowList
            want = np.tanh((target - ang - vel) * 16.) * power * env.tourqueList
            for j in js:
                del j.calls[:]
            if name != 'JohnnieTask':
                task.performAction(act)
                if probing:
                    c.close([sum(t[0] for t in j.calls) for j in js], want, 'torques of the controller', 1e-7)
                head = bodypos(env, 'head')[1]
                if name == 'JumpingTask':
                    maxh = max(maxh, head)
                    rew = maxh if task.count == task.epiLen else 0.
                    if rew:
                        c.ev('jump rewarded')
                elif name == 'StandingUpTask':
                    rew = 0. if task.count < 800 else min(4., max(-14., head / float(task.epiLen - 800)))
                else:
                    rew = min(4., max(-14., head / float(task.epiLen)))
                c.close(task.getReward(), rew, 'reward', 1e-9, name)
                cum += rew
                c.close(task.getTotalReward(), cum, 'total reward', 1e-7)
            del ode.LOG[:]
            done = task.isFinished()
            gl = [q[1] for q in ode.LOG if q[0] == 'gravity']
            if robust:
                k = task.count
                if not done:
                    for at, g in ((1000, (0, -9.81, -9.81)), (1000 + disturb, (0, -9.81, 0)), (2000, (0, -9.81, 0)), (3000, (0, -9.81, 9.81)), (3000 + disturb, (0, -9.81, 0))):
                        if k == at:
                            grav = g
                            c.ev('perturbed' if g[2] else 'perturbation ended')
                    if k == 2000:
                        js = hinges(env)
                        c.eq(env.getCurrentStep(), 0, 'half way the world is reset')
                c.eq(env.world.gravity, grav, 'gravity during the perturbation', 'count %s, disturbance of %s steps' % (k, disturb))
            c.eq(bool(done), n == task.epiLen + 2, 'finished', '%s after %d of %d' % (name, n, task.epiLen))
            if done:
                c.ev('episode ended')
                c.eq(task.count, 0, 'count after the end')
                if name != 'JumpingTask':
                    inc += 1
                c.eq(task.incLearn, inc, 'finished episodes counted')
                total.append(cum)
                c.close(task.reward_history, total, 'reward history', 1e-7)
                break
            if n > 5000:
                break
    c.ev('johnnie')
    c.sig(name, task.epiLen, inc0, c.idx)
    c.sample({'task': name, 'episode': task.epiLen})


def k_acrobot(c):
    r = c.r
    ode.CONTACTS = lambda a, b: 0
    env = AcrobotEnvironment(renderer=False, realtime=False)
    c.eq((env.indim, env.outdim), (1, 2), 'acrobot sizes')
    task = acrobot.GradualRewardTask(env)
    steps = r.choice([5, 20, 1003])
    power = task.maxPower
    c.eq(power, .5, 'acrobot power')
    if r.random() < .5:
        power = task.maxPower = r.choice([.1, 1., 2.5])
        c.ev('power chosen')
    cum = 0
    j, = hinges(env)
    for n in range(1, steps + 1):
        if r.random() < .3:
            stir(c, env, [j])
        a = np.array([r.uniform(-2, 2)])
        ang, vel = j.angle[0], j.rate[0]
        task.performAction(a)
        v = vel + power * a[0] * env.dt
        p = ang + v * env.dt
        c.close(env.getSensors(), [p, v], 'acrobot motion')
        c.close(task.getObservation(), norm([p, v], [(-math.pi, math.pi), (-20, 20)]), 'acrobot observation')
        rew = p * p - .2 * abs(v)
        c.close(task.getReward(), rew, 'acrobot reward')
        cum += rew
        done = task.isFinished()
        c.eq(bool(done), n == 1002, 'acrobot finished')
        if done:
            c.close(task.reward_history, [cum], 'acrobot history', 1e-7)
            c.ev('episode ended')
            break
    c.ev('acrobot')
    c.sig(c.idx, steps)
    c.sample({'task': 'acrobot', 'steps': steps})


def k_ccrl(c):
    """the two-armed robot: contacts with table and glass, control, observations, rewards"""
    r = c.r
    glas = r.random() < .5
    env = CCRLEnvironment('ccrlGlas.xode' if glas else 'ccrlPlate.xode', renderer=False, realtime=False)
    c.eq((env.indim, env.actLen, env.obsLen), (16, 16, 32), 'ccrl sizes')
    for q in (env.tourqueList, env.cHighList, env.cLowList):
        c.eq(len(q), 16, 'ccrl limits')
    c.ok((env.cLowList < env.cHighList).all(), 'low and high limits')
    touching = {}
    geoms = [g for b, g in env.body_geom if g.name]
    names = [g.name for g in geoms]
    for i in range(r.randint(0, 6)):
        a, b = r.choice([('plate', r.choice(names)), ('objectP0%d' % r.randint(0, 2), r.choice(names)), tuple(r.sample(names, 2))])
        touching[frozenset([a, b])] = r.randint(1, 3)
    ode.CONTACTS = lambda a, b: touching.get(frozenset([a.name, b.name]), 0)
    press = r.random() < .5
    name = r.choice(['CCRLTask', 'CCRLGlasTask', 'CCRLPlateTask'])
    task = getattr(ccrl, name)(env)
    task.epiLen = r.choice([4, 9])
    c.eq(env.obsLen, 44, 'ccrl observation length')
    c.eq(env.dt, .002, 'ccrl time step')
    old = np.zeros(16)
    hist = []
    press0 = press
    for ep in range(2):
        cum = 0
        press = press0
        if ep:
            # the table was touched in the first episode only
            for q in list(touching):
                if 'plate' in q and r.random() < .7:
                    del touching[q]
            c.ev('held over two episodes')
        task.reset()
        c.close(env.pert, [1.5, 0, 1.], 'perturbation after a reset')
        js = hinges(env)
        flag = 0.
        n = 0
        sensed = np.zeros(9)
        while n < 30:
            n += 1
            if n == 3 and r.random() < .3:
                for q in list(touching):
                    if 'plate' in q:
                        del touching[q]
            if press:
                hands = [g for b, g in env.body_geom if g.name.startswith('fingerLeft')]
                for k, g in enumerate(hands):
                    g.name = 'pressLeft%d' % k
                for k in range(len(hands)):
                    touching[frozenset(['objectP00', 'pressLeft%d' % k])] = r.choice([0, 1, 2])
                press = False
            stir(c, env, js)
            raw = env.getSensors()
            glass, palm, f1, f2 = [raw[32 + 3 * i:35 + 3 * i] for i in range(4)]
            for got, nm in ((glass, 'objectP00'), (palm, 'palmLeft'), (f1, 'fingerLeft1'), (f2, 'fingerLeft2')):
                c.close(got, bodypos(env, nm), 'position of ' + nm)
            dif = np.array([0, .2, .8]) if name == 'CCRLPlateTask' else np.zeros(3)
            sensed = np.concatenate([((palm + f1 + f2) / 3. - (glass + dif)) * 4., (f2 - f1) * 5., ((f2 + f1) / 2. - palm) * 10.])
            lim = [(env.cLowList[i], env.cHighList[i]) for i in range(16)] + [(-20, 20)] * 16
            c.close(task.getObservation(), np.concatenate([norm(raw[:32], lim), sensed, old]), 'ccrl observation')
            act = np.array([r.uniform(-1, 1) for _ in range(16)])
            used = act.copy()
            used[15] = 1. if abs(np.abs(sensed[:3]).sum()) < 2. else -1.
            ang, vel = np.array([j.angle[0] for j in js]), np.array([j.rate[0] for j in js])
            target = (used + 1) / 2. * (env.cHighList - env.cLowList) + env.cLowList
            want = np.tanh((target - ang - .9 * vel * env.tourqueList) * 16.) * 100. * env.tourqueList
            for j in js:
                del j.calls[:]
            table = hold = 0
            sp = env.space.geoms
            for i, a in enumerate(sp):
                for b in sp[i + 1:]:
                    if any(any(z in a.name for z in t) and any(z in b.name for z in t) for t in env.passpairs):
                        continue
                    k = ode.CONTACTS(a, b)
                    for u, v in ((a.name, b.name), (b.name, a.name)):
                        if u == 'plate' and v[:-2] != 'objectP':
                            table += k
                        if u[:-2] == 'objectP' and v[:-1] == 'pressLeft' and k:
                            hold += 1
            task.performAction(act.copy())
            old = used
            c.close([sum(t[0] for t in j.calls) for j in js], want, 'ccrl torques', 1e-7)
            c.eq((env.tableSum, env.glasSum), (table, hold), 'contacts counted')
            if table:
                c.ev('table touched')
            if hold >= 2:
                c.ev('glass held')
            dis = math.sqrt((sensed[:3] ** 2).sum())
            if name == 'CCRLTask':
                rew = (25. - dis) / task.epiLen - table * .1
            elif name == 'CCRLGlasTask':
                if table > 0:
                    flag = -1.
                d = sensed.copy()
                d[3] = d[8] = 0
                rew = (10 + (1000. if hold >= 2 else 0.) + 10. / ((d[3:] ** 2).sum() + .1) + 100. / ((d[:3] ** 2).sum() + .1) + flag) / task.epiLen
            else:
                if table > 0:
                    flag = 10.
                grip = 1. if hold >= 2 else 0.
                rew = 25. + grip - dis - flag if task.count == task.epiLen else (25. - dis) / task.epiLen + (grip - table) * .1
            c.close(task.getReward(), rew, 'ccrl reward', 1e-7, name)
            cum += rew
            c.close(task.getTotalReward(), cum, 'ccrl total', 1e-7)
            done = task.isFinished()
            c.eq(bool(done), n == task.epiLen + 2, 'ccrl finished')
            if done:
                hist.append(cum)
                c.close(task.reward_history, hist, 'ccrl history', 1e-7)
                c.eq((task.count, task.incLearn), (0, ep + 1), 'ccrl counters')
                c.ev('episode ended')
                break
    # what lies on the table is moved when the world is loaded again
    p0 = dict((q, v) for q, v in ((b.name, b.pos) for b, g in env.body_geom if b is not None))
    env.pert = np.array([.5, 0., -1.])
    env.reset()
    el = ET.parse(env._currentXODEfile).getroot()
    for b in el.iter('body'):
        p = np.array([float(b.find('transform/position').get(k)) for k in 'xyz'])
        got = bodypos(env, b.get('name'))
        c.close(got, p + (np.array([.5, 0., -1.]) if b.get('name')[:-2] == 'objectP' else 0), 'positions after a reset')
    # the schedule of places of the varying tasks
    if r.random() < .5:
        sched = ccrl.CCRLGlasVarTask(env)
        sched.epiLen = L = r.choice([50, 100])
        places = {1: [1., 0, .5], L // 5 + 1: [-1., 0, .5], 2 * L // 5 + 1: [1., 0, 0], 3 * L // 5 + 1: [-1., 0, 0], 4 * L // 5 + 1: [0, 0, .25]}
        now = env.pert
        for k in range(L + 1):
            now = places.get(k, now)
            c.ok(not sched.isFinished(), 'varying task ended early')
            c.close(env.pert, now, 'place of the glass', 1e-9, 'step %d of %d' % (k, L))
        c.ok(sched.isFinished(), 'varying task did not end')
    c.ev('ccrl')
    c.sig(c.idx, name, glas)
    c.sample({'task': name, 'steps': n, 'touching': len(touching)})


def k_ccrl_more(c):
    """grasping at several places, pointing"""
    r = c.r
    env = CCRLEnvironment('ccrlGlas.xode', renderer=False, realtime=False)
    name = ['CCRLGlasVarTask', 'CCRLGlasVarRandTask', 'CCRLPointTask', 'CCRLPointVarTask'][c.idx % 4]
    names = [g.name for b, g in env.body_geom if g.name]
    touching = {}
    for i in range(r.randint(0, 3)):
        touching[frozenset(['plate', r.choice(names)])] = r.randint(1, 3)
    ode.CONTACTS = lambda a, b: touching.get(frozenset([a.name, b.name]), 0)
    task = getattr(ccrl, name)(env)
    E = task.epiLen = 10
    point = 'Point' in name
    places = {'CCRLGlasVarTask': [(1., 0., .5), (-1., 0., .5), (1., 0., 0.), (-1., 0., 0.), (0., 0., .25)], 'CCRLPointTask': [(0., 0., 1.)],
              'CCRLPointVarTask': [(1., 0., 1.), (-1., 0., 1.)]}.get(name)
    parts = {'CCRLGlasVarTask': 5, 'CCRLGlasVarRandTask': 5, 'CCRLPointTask': 1, 'CCRLPointVarTask': 2}[name]
    resets = []
    real = env.reset

    pressing = r.choice([0, 2, 3])

    def hands():
        hs = [g for b, g in env.body_geom if g.name and g.name.startswith('fingerLeft')]
        for i, g in enumerate(hs):
            g.name = 'pressLeft%d' % i
            touching[frozenset(['objectP00', g.name])] = 1 if i < pressing else 0

    def reset():
        resets.append(np.array(env.pert))
        res = real()
        hands()
        return res
    env.reset = reset
    task.reset()
    del resets[:]
    target = np.array([-6.5, 1.75, -10.5])
    old, table_seen, n = np.zeros(16), 0., 0
    pert = np.array(env.pert)
    while n < 30:
        n += 1
        stir(c, env, hinges(env))
        raw = np.array(env.getSensors())
        obs = np.array(task.getObservation())
        if point:
            lim = [(env.cLowList[i], env.cHighList[i]) for i in range(16)] + [(-20, 20)] * 16
            f1, f2 = raw[38:41], raw[41:44]
            hand = (f1 + f2) / 2.
            ori = np.array([(f1[0] - f2[0]) / 2. - raw[35], (f1[1] - f2[1]) / 2. - raw[36], f1[1] - f2[1]])
            # the last value is drawn
            want = np.concatenate([norm(raw[:32], lim), old, hand, ori, target, np.zeros(3)])
            c.close(obs[:-1], want[:60], 'pointing observation', 1e-7, name)
            c.eq(len(obs), 61, 'pointing observation', name)
            u = 10. if name == 'CCRLPointVarTask' else 1.
            dist = np.concatenate([(target - hand) * u, ori, [obs[15] + (1. if u > 1 else 0.)]])
        else:
            glass, palm, f1, f2 = [raw[32 + 3 * i:35 + 3 * i] for i in range(4)]
            dist = np.concatenate([((palm + f1 + f2) / 3. - glass) * 4., (f2 - f1) * 5., ((f2 + f1) / 2. - palm) * 10.])
            dist[3] = dist[8] = 0
        act = np.array([r.uniform(-1, 1) for _ in range(16)])
        sel = dist[:3] if not point else dist[:3]
        old = act.copy()
        old[15] = 1. if np.abs(sel).sum() < 2. else -1.
        task.performAction(act)
        table, hold = env.tableSum, env.glasSum
        if hold >= 2:
            c.ev('held while varying')
        rew = task.getReward()
        dis = math.sqrt((dist ** 2).sum())
        if name == 'CCRLPointTask':
            want = (25. - dis) / E - table * .1
        elif name == 'CCRLPointVarTask':
            want = (25. - dis) / 2. if task.count in (E, E // 2) else (25. - dis) / E - table * .1
        else:
            table_seen = 10. if table > 0 or table_seen else 0.
            grip, nig = (1. if hold >= 2 else 0.), abs(dist[4]) + 1.
            want = 25. + grip / nig - dis - table_seen if task.count in [k * E // 5 for k in range(1, 6)] else (25. - dis) / E + (grip / nig - table) * .1
        c.close(rew, want, 'ccrl reward', 1e-7, '%s at count %d' % (name, task.count))
        k, before = task.count, len(resets)
        done = task.isFinished()
        c.eq(bool(done), n == E + 2, 'ccrl finished', name)
        moved = [j for j in range(parts) if k == j * E // parts + 1]
        c.eq(len(resets) - before, 1 if moved and moved[0] else 0, 'worlds loaded again', '%s at count %d' % (name, k))
        if moved and not done:
            if places:
                c.close(env.pert, places[moved[0]], 'place', 1e-9, '%s: place at count %d' % (name, k))
            else:
                p = env.pert
                c.ok(-1 <= p[0] <= 1 and p[1] == 0 and .5 <= p[2] <= 1 and not np.array_equal(p, pert), 'random place', '%s: %s' % (name, p))
                pert = np.array(p)
            if point:
                target = np.array(places[moved[0]]) + [-6.5, 1.75, -10.5]
            c.ev('place changed')
        if done:
            c.ev('episode ended')
            break
    c.sig(name, len(touching), n)


KINDS = [('structure', k_structure, 300, 4000), ('model', k_model, 160, 2500), ('shipped', k_shipped, 4, 4), ('generators', k_generators, 12, 60), ('config', k_config, 200, 3000),
         ('world', k_world, 240, 4000), ('johnnie', k_johnnie, 36, 360), ('acrobot', k_acrobot, 10, 80), ('ccrl', k_ccrl, 40, 600), ('ccrl_more', k_ccrl_more, 24, 300)]
