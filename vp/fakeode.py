"""Recording stand-ins for the packages `ode` and `xode` (PyODE), which are not installed here.

They offer the calls pybrain makes, keep no physics worth the name and record what was asked of them:
a joint integrates the torques given to it, a body drifts with a velocity chosen by the check,
`collide` returns as many contacts as the check decides for a pair of geoms.
"""
import sys, types
import xml.etree.ElementTree as ET

ode = types.ModuleType('ode')
xode = types.ModuleType('xode')
ode.LOG = []                      # what was asked: tuples
ode.CONTACTS = lambda g1, g2: 0   # number of contacts of two geoms, set by the check


class World(object):
    def __init__(self):
        self.bodies, self.joints, self.gravity = [], [], None

    def setGravity(self, g):
        self.gravity = tuple(g)
        ode.LOG.append(('gravity', tuple(g)))

    def step(self, dt):
        ode.LOG.append(('step', dt))
        for j in self.joints:
            j._step(dt)
        for b in self.bodies:
            b.pos = tuple(p + v * dt for p, v in zip(b.pos, b.vel))


class Body(object):
    def __init__(self, world):
        world.bodies.append(self)
        self.pos, self.vel, self.mass = (0., 0., 0.), (0., 0., 0.), None

    def setPosition(self, p):
        self.pos = tuple(float(x) for x in p)

    def getPosition(self):
        return self.pos

    def getRotation(self):
        return (1., 0., 0., 0., 1., 0., 0., 0., 1.)

    def getPosRelPoint(self, p):
        return tuple(a - b for a, b in zip(p, self.pos))

    def setMass(self, m):
        self.mass = m

    def getMass(self):
        return self.mass


class Mass(object):
    def setBox(self, density, lx, ly, lz):
        self.what = ('box', density, lx, ly, lz)

    def setSphere(self, density, radius):
        self.what = ('sphere', density, radius)


class Geom(object):
    def __init__(self, space=None, *args, **kw):
        self.body, self.name, self.args = None, None, args or tuple(kw.values())
        if space is not None:
            space.geoms.append(self)

    def setBody(self, b):
        self.body = b

    def getBody(self):
        return self.body

    def _num(self, *names):
        a = self.args[0] if self.args else {}
        return tuple(float(a.get(n, 1.)) for n in names) if isinstance(a, dict) else self.args

    def getLengths(self):
        return self._num('sizex', 'sizey', 'sizez')

    def getRadius(self):
        return self._num('radius')[0]

    def getParams(self):
        if isinstance(self, GeomPlane):
            p = self._num('a', 'b', 'c', 'd')
            return (p[:3], p[3]) if len(p) == 4 else p
        return self._num('radius', 'length')


class Space(object):
    def __init__(self):
        self.geoms = []

    def collide(self, args, callback):
        ode.LOG.append(('collide',))
        for i, a in enumerate(self.geoms):
            for b in self.geoms[i + 1:]:
                callback(args, a, b)


class Contact(object):
    def __init__(self, g1, g2):
        self.geoms = (g1, g2)
        self.set = {}

    def getContactGeomParams(self):
        return ((0., 0., 0.), (0., 1., 0.), 0., self.geoms[0], self.geoms[1])

    def __getattr__(self, name):
        if name.startswith('set'):
            return lambda v: self.set.__setitem__(name[3:], v)
        raise AttributeError(name)


class JointGroup(object):
    def __init__(self):
        self.joints = []

    def empty(self):
        ode.LOG.append(('empty', [(j.contact.geoms[0].name, j.contact.geoms[1].name, j.bodies, dict(j.contact.set))
                                  for j in self.joints]))
        self.joints = []


class JointBase(object):
    axes = 0

    def __init__(self, world=None, group=None):
        self.bodies = [None, None]
        self.angle = [0.] * self.axes
        self.rate = [0.] * self.axes
        self.torque = [0.] * self.axes
        self.calls = []
        self.fixed = False
        if world is not None:
            world.joints.append(self)

    def attach(self, a, b):
        self.bodies = [a, b]

    def getBody(self, i):
        return self.bodies[i]

    def _step(self, dt):
        for i in range(self.axes):
            self.rate[i] += self.torque[i] * dt
            self.angle[i] += self.rate[i] * dt
            self.torque[i] = 0.

    def _add(self, *t):
        self.calls.append(t)
        for i in range(self.axes):
            self.torque[i] += t[i]


class BallJoint(JointBase):
    pass


class UniversalJoint(JointBase):
    pass


class FixedJoint(JointBase):
    def setFixed(self):
        self.fixed = True


class HingeJoint(JointBase):
    axes = 1

    def getAngle(self):
        return self.angle[0]

    def getAngleRate(self):
        return self.rate[0]

    def addTorque(self, t):
        self._add(t)


class SliderJoint(JointBase):
    axes = 1

    def getPosition(self):
        return self.angle[0]

    def getPositionRate(self):
        return self.rate[0]

    def addForce(self, t):
        self._add(t)


class Hinge2Joint(JointBase):
    axes = 2

    def getAngle1(self):
        return self.angle[0]

    def getAngle2(self):
        return self.angle[1]

    def getAngle1Rate(self):
        return self.rate[0]

    def getAngle2Rate(self):
        return self.rate[1]

    def addTorques(self, a, b):
        self._add(a, b)


class AMotor(JointBase):
    axes = 3
    n = 3
    mode = None

    def setMode(self, m):
        self.mode = m

    def getNumAxes(self):
        return self.n

    def setNumAxes(self, n):
        self.n = n

    def getAngle(self, i):
        return self.angle[i]

    def getAngleRate(self, i):
        return self.rate[i]

    def addTorques(self, a, b, c):
        self._add(a, b, c)


class ContactJoint(JointBase):
    def __init__(self, world, group, contact):
        JointBase.__init__(self)
        self.contact = contact
        group.joints.append(self)


def collide(a, b):
    return [Contact(a, b) for _ in range(ode.CONTACTS(a, b))]


class GeomBox(Geom): pass
class GeomSphere(Geom): pass
class GeomCCylinder(Geom): pass
class GeomCylinder(Geom): pass
class GeomPlane(Geom): pass


for k in (World, Body, Mass, Space, Contact, JointGroup, BallJoint, UniversalJoint, FixedJoint, HingeJoint,
          SliderJoint, Hinge2Joint, AMotor, ContactJoint, GeomBox, GeomSphere, GeomCCylinder, GeomCylinder,
          GeomPlane):
    setattr(ode, k.__name__, k)
ode.Joint = JointBase
ode.collide = collide
ode.environment = None
ode.AMotorEuler = 'euler'


class AncestorNotFoundError(Exception):
    pass


class Node(object):
    def __init__(self, name, parent, obj):
        self._name, self._parent, self._obj, self._children = name, parent, obj, []
        if parent is not None:
            parent._children.append(self)

    def getName(self):
        return self._name

    def getParent(self):
        return self._parent

    def getChildren(self):
        return self._children

    def getODEObject(self):
        return self._obj

    def namedChild(self, name):
        for c in self._children:
            if c._name == name:
                return c
            try:
                return c.namedChild(name)
            except KeyError:
                pass
        raise KeyError(name)

    def getFirstAncestor(self, kind):
        p = self._parent
        while p is not None:
            if isinstance(p._obj, kind):
                return p
            p = p._parent
        raise AncestorNotFoundError(kind)


class NRoot(Node): pass
class NWorld(Node): pass
class NSpace(Node): pass
class NBody(Node): pass
class NGeom(Node): pass
class NJoint(Node): pass


GEOMS = {'box': GeomBox, 'sphere': GeomSphere, 'cappedCylinder': GeomCCylinder, 'cylinder': GeomCylinder,
         'plane': GeomPlane}
JOINTS = {'hinge': HingeJoint, 'slider': SliderJoint, 'hinge2': Hinge2Joint, 'amotor': AMotor, 'ball': BallJoint,
          'universal': UniversalJoint, 'fixed': FixedJoint}


class Parser(object):
    def parseFile(self, f):
        el = ET.parse(f).getroot()
        root = NRoot(el.get('name'), None, None)
        late = []
        for c in el:
            if c.tag == 'world':
                w = World()
                self._fill(c, NWorld(c.get('name'), root, w), w, None, late)
        for joint, a, b in late:
            joint.attach(*[root.namedChild(x).getODEObject() if x is not None else None for x in (a, b)])
        return root

    def _fill(self, el, node, world, space, late):
        for c in el:
            if c.tag == 'space':
                s = Space()
                self._fill(c, NSpace(c.get('name'), node, s), world, s, late)
            elif c.tag == 'body':
                b = Body(world)
                p = c.find('transform/position')
                if p is not None:
                    b.setPosition([float(p.get(k)) for k in 'xyz'])
                self._fill(c, NBody(c.get('name'), node, b), world, space, late)
            elif c.tag == 'geom':
                shape = [s for s in c if s.tag in GEOMS][0]
                g = GEOMS[shape.tag](space, dict(shape.attrib))
                if isinstance(node, NBody):
                    g.setBody(node.getODEObject())
                NGeom(c.get('name'), node, g)
            elif c.tag == 'joint':
                kind = [s for s in c if s.tag in JOINTS][0]
                j = JOINTS[kind.tag](world)
                if kind.get('axes'):
                    j.n = int(kind.get('axes'))
                link = [c.find('link1'), c.find('link2')]
                late.append((j, *[x.get('body') if x is not None else None for x in link]))
                NJoint(c.get('name'), node, j)


def install():
    sys.modules['ode'] = ode
    sys.modules['xode'] = xode
    for name, what in (('parser', dict(Parser=Parser, World=NWorld, Space=NSpace)), ('body', dict(Body=NBody)),
                       ('geom', dict(Geom=NGeom)), ('joint', dict(Joint=NJoint)),
                       ('node', dict(AncestorNotFoundError=AncestorNotFoundError, TreeNode=Node))):
        m = types.ModuleType('xode.' + name)
        for k, v in what.items():
            setattr(m, k, v)
        setattr(xode, name, m)
        sys.modules['xode.' + name] = m
    xode.__path__ = []
