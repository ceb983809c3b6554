# Laws of the Python layer: NAME_is(parameters) uses the packages, NAME_should(parameters) states what
# has to come out. Parameters are symbols; draws of samplers are numbered per sampler.


# ------------------------------------------------------------------ entitynetwork
def lists_pair_is(a, b):
    from frackit.entitynetwork import EntityNetworkConstraints
    return not not EntityNetworkConstraints().evaluate(a, b)

def lists_pair_should(a, b):
    from frackit.entitynetwork import EntityNetworkConstraints
    c = EntityNetworkConstraints()
    return not not native("_EntityNetworkConstraints.evaluate")(c, a, b)

def lists_left_is(a1, a2, a3, b):
    from frackit.entitynetwork import EntityNetworkConstraints
    return EntityNetworkConstraints().evaluate([a1, a2, a3], b)

def lists_left_should(a1, a2, a3, b):
    from frackit.entitynetwork import EntityNetworkConstraints
    c = EntityNetworkConstraints()
    for a in [a1, a2, a3]:
        if not native("_EntityNetworkConstraints.evaluate")(c, a, b): return False
    return True

def lists_right_is(a, b1, b2, b3):
    from frackit.entitynetwork import EntityNetworkConstraints
    return EntityNetworkConstraints().evaluate(a, [b1, b2, b3])

def lists_right_should(a, b1, b2, b3):
    from frackit.entitynetwork import EntityNetworkConstraints
    c = EntityNetworkConstraints()
    for b in [b1, b2, b3]:
        if not native("_EntityNetworkConstraints.evaluate")(c, a, b): return False
    return True

def lists_both_is(a1, a2, b1, b2, b3):
    from frackit.entitynetwork import EntityNetworkConstraints
    return EntityNetworkConstraints().evaluate([a1, a2], [b1, b2, b3])

def lists_both_should(a1, a2, b1, b2, b3):
    from frackit.entitynetwork import EntityNetworkConstraints
    c = EntityNetworkConstraints()
    for a in [a1, a2]:
        for b in [b1, b2, b3]:
            if not native("_EntityNetworkConstraints.evaluate")(c, a, b): return False
    return True

def lists_empty_is(a, b1, b2):
    from frackit.entitynetwork import EntityNetworkConstraints
    c = EntityNetworkConstraints()
    return [c.evaluate([], a), c.evaluate(a, []), c.evaluate([], [b1, b2]), c.evaluate([b1, b2], []), c.evaluate([], [])]

def lists_empty_should(a, b1, b2):
    return [True, True, True, True, True]


# the result of a constraints object for a list and a candidate
def _ok(constraints, entities, candidate):
    return constraints.evaluate(entities, candidate)

def matrix_pair_is(c, e1, e2, e):
    from frackit.entitynetwork import EntityNetworkConstraintsMatrix
    m = EntityNetworkConstraintsMatrix()
    m.addConstraints(c, [1, 2])
    return m.evaluate({1: [e1], 2: [e2]}, e, 1)

def matrix_pair_should(c, e1, e2, e):
    return not not _ok(c, [e2], e)

def matrix_direction_is(c, e1, e2, e):
    from frackit.entitynetwork import EntityNetworkConstraintsMatrix
    m = EntityNetworkConstraintsMatrix()
    m.addConstraints(c, [1, 2])
    return m.evaluate({1: [e1], 2: [e2]}, e, 2)

def matrix_direction_should(c, e1, e2, e):
    return True

def matrix_self_is(c, d, e1, e2, e):
    from frackit.entitynetwork import EntityNetworkConstraintsMatrix
    m = EntityNetworkConstraintsMatrix()
    m.addConstraints(c, [[1, 1], [2, 2]])
    m.addConstraints(d, [[1, 2], [2, 1]])
    return m.evaluate({1: [e1], 2: [e2]}, e, 1)

def matrix_self_should(c, d, e1, e2, e):
    return not not (_ok(c, [e1], e) and _ok(d, [e2], e))

def matrix_self_should1(c, d, e1, e2, e):
    return not not (_ok(d, [e2], e) and _ok(c, [e1], e))

def matrix_column_is(c, d, e1, e2, e3, f3, e):
    from frackit.entitynetwork import EntityNetworkConstraintsMatrix
    m = EntityNetworkConstraintsMatrix()
    m.addConstraints(c, [[1, 1], [2, 2]])
    m.addConstraints(d, [1, 3])
    return m.evaluate({1: [e1], 2: [e2], 3: [e3, f3]}, e, 1)

def matrix_column_should(c, d, e1, e2, e3, f3, e):
    return not not (_ok(c, [e1], e) and _ok(d, [e3, f3], e))

def matrix_missing_is(c, d, e1, e):
    from frackit.entitynetwork import EntityNetworkConstraintsMatrix
    m = EntityNetworkConstraintsMatrix()
    m.addConstraints(c, [[1, 1], [2, 1], [1, 2]])
    return m.evaluate({1: [e1]}, e, 1)

def matrix_missing_should(c, d, e1, e):
    return not not _ok(c, [e1], e)

def matrix_skip_is(c, d, e1, e):
    from frackit.entitynetwork import EntityNetworkConstraintsMatrix
    m = EntityNetworkConstraintsMatrix()
    m.addConstraints(d, [[1, 2], [2, 2], [3, 1]])
    m.addConstraints(c, [1, 1])
    return m.evaluate({3: [e1], 1: [e1]}, e, 1)

def matrix_skip_should(c, d, e1, e):
    return not not _ok(c, [e1], e)

def matrix_unknown_is(c, e1, e):
    from frackit.entitynetwork import EntityNetworkConstraintsMatrix
    m = EntityNetworkConstraintsMatrix()
    m.addConstraints(c, [[1, 1], [2, 1]])
    return m.evaluate({1: [e1]}, e, 3)

def matrix_unknown_should(c, e1, e):
    return True

def matrix_taken_is(c, d):
    from frackit.entitynetwork import EntityNetworkConstraintsMatrix
    m = EntityNetworkConstraintsMatrix()
    m.addConstraints(c, [[1, 2], [2, 1]])
    m.addConstraints(d, [1, 2])
    return 0

def matrix_taken_should(c, d):
    raise RuntimeError("taken")

def matrix_short_is(c):
    from frackit.entitynetwork import EntityNetworkConstraintsMatrix
    EntityNetworkConstraintsMatrix().addConstraints(c, [1])
    return 0

def matrix_short_should(c):
    raise RuntimeError("pair")

def matrix_long_is(c):
    from frackit.entitynetwork import EntityNetworkConstraintsMatrix
    EntityNetworkConstraintsMatrix().addConstraints(c, [[1, 2], [1, 2, 3]])
    return 0

def matrix_long_should(c):
    raise RuntimeError("pair")


def builder_entities_is(a, b, c):
    from frackit.entitynetwork import EntityNetworkBuilder
    EntityNetworkBuilder().addEntities([a, b, c])

def builder_entities_should(a, b, c):
    from frackit.entitynetwork import EntityNetworkBuilder
    n = EntityNetworkBuilder()
    native("_EntityNetworkBuilderWrapper.addEntity")(n, a)
    native("_EntityNetworkBuilderWrapper.addEntity")(n, b)
    native("_EntityNetworkBuilderWrapper.addEntity")(n, c)

def builder_sub_is(a, b, id):
    from frackit.entitynetwork import EntityNetworkBuilder
    EntityNetworkBuilder().addSubDomainEntities([a, b], id)

def builder_sub_should(a, b, id):
    from frackit.entitynetwork import EntityNetworkBuilder
    n = EntityNetworkBuilder()
    native("_EntityNetworkBuilderWrapper.addSubDomainEntity")(n, a, id)
    native("_EntityNetworkBuilderWrapper.addSubDomainEntity")(n, b, id)

def builder_contained_is(a, b, id):
    from frackit.entitynetwork import ContainedEntityNetworkBuilder
    ContainedEntityNetworkBuilder().addSubDomainEntities([a, b], id)

def builder_contained_should(a, b, id):
    from frackit.entitynetwork import ContainedEntityNetworkBuilder
    n = ContainedEntityNetworkBuilder()
    native("_ContainedEntityNetworkBuilderWrapper.addSubDomainEntity")(n, a, id)
    native("_ContainedEntityNetworkBuilderWrapper.addSubDomainEntity")(n, b, id)


# ------------------------------------------------------------------ geometry
def point_numbers_is(x, y, z):
    from frackit.geometry import Point
    return [Point(x), Point(x, y), Point(x, y, z)]

def point_numbers_should(x, y, z):
    from frackit.geometry import Point_1, Point_2, Point_3
    return [Point_1(x), Point_2(x, y), Point_3(x, y, z)]

def point_list_is(x, y, z):
    from frackit.geometry import Point
    return [Point([x]), Point([x, y]), Point([x, y, z])]

def point_list_should(x, y, z):
    from frackit.geometry import Point_1, Point_2, Point_3
    return [Point_1([x]), Point_2([x, y]), Point_3([x, y, z])]

def point_none_is():
    from frackit.geometry import Point
    return Point()

def point_none_should():
    raise Exception("arguments")

def vector_numbers_is(x, y, z):
    from frackit.geometry import Vector
    return Vector(x, y, z)

def vector_numbers_should(x, y, z):
    from frackit.geometry import Vector_3
    return Vector_3(x, y, z)

def vector_list_is(x, y, z):
    from frackit.geometry import Vector
    return [Vector([x]), Vector([x, y]), Vector([x, y, z])]

def vector_list_should(x, y, z):
    from frackit.geometry import Vector_1, Vector_2, Vector_3
    return [Vector_1([x]), Vector_2([x, y]), Vector_3([x, y, z])]

def vector_points_is(p, q):
    from frackit.geometry import Vector
    return Vector(p, q)

def vector_points_should(p, q):
    from frackit.geometry import Vector_1, Vector_2, Vector_3
    try: dim = p.worldDimension
    except: return Vector_2(p, q)
    if dim == 1: return Vector_1(p, q)
    if dim == 2: return Vector_2(p, q)
    return Vector_3(p, q)

def vector_direction_is(d):
    from frackit.geometry import Vector
    return Vector(d)

def vector_direction_should(d):
    from frackit.geometry import Vector_1, Vector_2, Vector_3
    try: dim = d.worldDimension
    except: raise RuntimeError("vector")
    if dim == 1: return Vector_1(d)
    if dim == 2: return Vector_2(d)
    return Vector_3(d)

def vector_none_is():
    from frackit.geometry import Vector
    return Vector()

def vector_none_should():
    raise Exception("arguments")

def direction_is(v):
    from frackit.geometry import Direction
    return Direction(v)

def direction_should(v):
    from frackit.geometry import Direction_1, Direction_2, Direction_3
    try: dim = v.worldDimension
    except: raise RuntimeError("direction")
    if dim == 1: return Direction_1(v)
    if dim == 2: return Direction_2(v)
    return Direction_3(v)

def direction_args_is(v, w):
    from frackit.geometry import Direction
    return Direction(v, w)

def direction_args_should(v, w):
    raise RuntimeError("number of arguments")

def circle_is(c, n, r):
    from frackit.geometry import Circle
    return Circle(c, n, r)

def circle_should(c, n, r):
    from frackit.geometry import Circle_3
    try: dim = c.worldDimension
    except: raise RuntimeError("circle")
    if dim == 1: raise NotImplementedError("circle")
    if dim == 2: raise NotImplementedError("circle")
    return Circle_3(c, n, r)

def circle_args_is(c, n):
    from frackit.geometry import Circle
    return Circle(c, n)

def circle_args_should(c, n):
    raise RuntimeError("number of arguments")

def length_is(g):
    from frackit.geometry import computeLength
    return computeLength(g)

def length_should(g):
    try: dim = g.myDimension
    except: raise TypeError("dimension")
    if dim != 1: raise TypeError("dimension")
    return native("computeMagnitude", "geometry")(g)

def area_is(g):
    from frackit.geometry import computeArea
    return computeArea(g)

def area_should(g):
    try: dim = g.myDimension
    except: raise TypeError("dimension")
    if dim != 2: raise TypeError("dimension")
    return native("computeMagnitude", "geometry")(g)

def volume_is(g):
    from frackit.geometry import computeVolume
    return computeVolume(g)

def volume_should(g):
    try: dim = g.myDimension
    except: raise TypeError("dimension")
    if dim != 3: raise TypeError("dimension")
    return native("computeMagnitude", "geometry")(g)

def _distance(a, b):
    from frackit.occutilities import getShape, OCCShapeWrapper
    try: return native("computeDistance", "geometry")(a, b)
    except: return native("computeDistance", "geometry")(OCCShapeWrapper(getShape(a)), OCCShapeWrapper(getShape(b)))

def distance_is(a, b):
    from frackit.geometry import computeDistance
    return computeDistance(a, b)

def distance_should(a, b):
    return _distance(a, b)

def distance_list_is(a, b1, b2, b3):
    from frackit.geometry import computeDistance
    return computeDistance(a, [b1, b2, b3])

def distance_list_should(a, b1, b2, b3):
    return min(_distance(a, b1), _distance(a, b2), _distance(a, b3))

def boundary_is(a, b):
    from frackit.geometry import computeDistanceToBoundary
    return computeDistanceToBoundary(a, b)

def boundary_should(a, b):
    from frackit.occutilities import getShape, OCCShapeWrapper
    try: return native("computeDistanceToBoundary", "geometry")(a, b)
    except: return native("computeDistanceToBoundary", "geometry")(OCCShapeWrapper(getShape(a)), b)


# ------------------------------------------------------------------ occutilities
def _shape(g):
    from frackit.occutilities import OCCShapeWrapper
    try: return OCCShapeWrapper(native("getShape", "occutilities")(g))
    except: raise TypeError("no shape")

def cut_is(object, tool, eps):
    from frackit.occutilities import cut
    return cut(object, tool, eps)

def cut_should(object, tool, eps):
    return native("cut", "occutilities")(_shape(object), _shape(tool), eps)

def intersect_is(object, tool, eps):
    from frackit.occutilities import intersect
    return intersect(object, tool, eps)

def intersect_should(object, tool, eps):
    return native("intersect", "occutilities")(_shape(object), _shape(tool), eps)

def fragment_is(a, b, c, eps):
    from frackit.occutilities import fragment
    return fragment([a, b, c], eps)

def fragment_should(a, b, c, eps):
    return native("fragment", "occutilities")([_shape(a), _shape(b), _shape(c)], eps)

def fuse_is(a, b, c, eps):
    from frackit.occutilities import fuse
    return fuse([a, b, c], eps)

def fuse_should(a, b, c, eps):
    return native("fuse", "occutilities")([_shape(a), _shape(b), _shape(c)], eps)

def bbox_is(g):
    from frackit.occutilities import getBoundingBox
    return getBoundingBox(g)

def bbox_should(g):
    return native("getBoundingBox", "occutilities")(_shape(g))

def write_is(g, fileName):
    from frackit.occutilities import write
    write(g, fileName)

def write_should(g, fileName):
    native("write", "occutilities")(_shape(g), fileName)


# ------------------------------------------------------------------ sampling: points
def box_point_is(sx, sy, sz):
    from frackit.sampling import BoxPointSampler
    return BoxPointSampler(sx, sy, sz)()

def box_point_should(sx, sy, sz):
    from frackit.geometry import Point_3
    return Point_3(sx(), sy(), sz())

def box_again_is(sx, sy, sz):
    from frackit.sampling import BoxPointSampler
    s = BoxPointSampler(sx, sy, sz)
    return [s(), s()]

def box_again_should(sx, sy, sz):
    from frackit.geometry import Point_3
    return [Point_3(sx(), sy(), sz()), Point_3(sx(), sy(), sz())]

def _onCylinder(cylinder, r2, phi, z):
    from math import sqrt, sin, cos
    from frackit.geometry import Vector_3
    disk = cylinder.bottomFace()
    return disk.center() + sqrt(r2)*cos(phi)*Vector_3(disk.majorAxis()) + sqrt(r2)*sin(phi)*Vector_3(disk.minorAxis()) + z*Vector_3(disk.normal())

def cylinder_point_is(cylinder, s2, sphi, sz):
    from frackit.sampling import CylinderPointSampler
    return CylinderPointSampler(cylinder, s2, sphi, sz)()

def cylinder_point_should(cylinder, s2, sphi, sz):
    return _onCylinder(cylinder, s2(), sphi(), sz())

def cylinder_again_is(cylinder, s2, sphi, sz):
    from frackit.sampling import CylinderPointSampler
    s = CylinderPointSampler(cylinder, s2, sphi, sz)
    s()
    return s()

def cylinder_again_should(cylinder, s2, sphi, sz):
    _onCylinder(cylinder, s2(), sphi(), sz())
    return _onCylinder(cylinder, s2(), sphi(), sz())

def make_is(g, c1, c2, c3):
    from frackit.sampling import makePointSampler
    return makePointSampler(g, c1, c2, c3)()

def make_should(g, c1, c2, c3):
    import math
    from frackit.geometry import Point_3
    if g.name() == "Box":
        return Point_3(c1(g.xMin(), g.xMax())(), c2(g.yMin(), g.yMax())(), c3(g.zMin(), g.zMax())())
    if g.name() == "Cylinder":
        return _onCylinder(g, c1(0.0, g.radius()*g.radius())(), c2(0.0, 2.0*math.pi)(), c3(0.0, g.height())())
    if g.name() == "HollowCylinder":
        return _onCylinder(g.fullCylinder(), c1(g.innerRadius()*g.innerRadius(), g.outerRadius()*g.outerRadius())(), c2(0.0, 2.0*math.pi)(), c3(0.0, g.height())())
    raise NotImplementedError("sampler")

def make_default_is(g):
    from frackit.sampling import makePointSampler
    return makePointSampler(g)()

def make_default_should(g):
    import math, random
    from frackit.geometry import Point_3
    if g.name() == "Box":
        return Point_3(random.uniform(g.xMin(), g.xMax()), random.uniform(g.yMin(), g.yMax()), random.uniform(g.zMin(), g.zMax()))
    if g.name() == "Cylinder":
        return _onCylinder(g, random.uniform(0.0, g.radius()*g.radius()), random.uniform(0.0, 2.0*math.pi), random.uniform(0.0, g.height()))
    if g.name() == "HollowCylinder":
        return _onCylinder(g.fullCylinder(), random.uniform(g.innerRadius()*g.innerRadius(), g.outerRadius()*g.outerRadius()),
                           random.uniform(0.0, 2.0*math.pi), random.uniform(0.0, g.height()))
    raise NotImplementedError("sampler")

def interval_is(a, b):
    from frackit.sampling import uniformIntervalSamplerCreator
    s = uniformIntervalSamplerCreator()(a, b)
    return [s(), s()]

def interval_should(a, b):
    import random
    return [random.uniform(a, b), random.uniform(a, b)]


# ------------------------------------------------------------------ sampling: disks
def disk_is(spoint, smaj, smin, sa, sb, sg):
    from frackit.sampling import DiskSampler
    return DiskSampler(spoint, smaj, smin, sa, sb, sg)()

def disk_should(spoint, smaj, smin, sa, sb, sg):
    from frackit.geometry import Vector_3, Direction_3, Ellipse_3, Disk
    a = smaj()
    while a <= 0.0: a = smaj()
    b = smin()
    while b <= 0.0: b = smin()
    if b > a: b = a
    ex, ey, ez = Vector_3(1.0, 0.0, 0.0), Vector_3(0.0, 1.0, 0.0), Vector_3(0.0, 0.0, 1.0)
    major, minor = Vector_3(1.0, 0.0, 0.0), Vector_3(0.0, 1.0, 0.0)
    rot = native("rotate", "common")
    alpha, beta, gamma = sa(), sb(), sg()
    rot(minor, Direction_3(ex), alpha)
    for v in [major, minor]:
        rot(v, Direction_3(ey), beta)
        rot(v, Direction_3(ez), gamma)
    return Disk(Ellipse_3(spoint(), Direction_3(major), Direction_3(minor), a, b))


# ------------------------------------------------------------------ sampling: polygons
def _corners(n, xs, ys, spoint, sstrike, sdip, slen, sdlen):
    import math
    from frackit.geometry import Vector_3, Point_3, Direction_3

    def deltas(values):
        values = list(values)
        lo = min(values); values.remove(lo)
        hi = max(values); values.remove(hi)
        if lo > 0.1: lo = 0.0
        if hi < 0.9: hi = 1.0
        chains = [[lo], [lo]]
        for i in range(n-2): chains[i % 2].append(values[i])
        out = []
        for k in [0, 1]:
            c = sorted(chains[k]) + [hi]
            for i in range(len(c)-1):
                out.append(c[i+1] - c[i] if k == 0 else c[i] - c[i+1])
        return out

    dxs, dys = sorted(deltas(xs)), deltas(ys)
    r2 = max(dxs)*max(dxs) + max(dys)*max(dys)
    pairs = []
    for dx in dxs:
        best = None
        for dy in dys:
            diff = abs(r2 - dx*dx - dy*dy)
            if best is None or diff < best[0]: best = (diff, dy)
        pairs.append((dx, best[1]))
        dys.remove(best[1])

    length, dlength = slen(), sdlen()
    count = 0
    while length <= 0.0 and count < 100:
        length = slen()
        count += 1
    if length <= 0.0: raise RuntimeError("strike length")
    count = 0
    while dlength <= 0.0 and count < 100:
        dlength = sdlen()
        count += 1
    if dlength <= 0.0: raise RuntimeError("dip length")

    edges = [Vector_3(dx*dlength, dy*length, 0.0) for dx, dy in pairs]

    def angle(v):
        x, y = v.x(), v.y()
        if abs(y) < 1e-6: return 0.0 if x > 0.0 else math.pi
        if abs(x) < 1e-6: return math.pi/2.0 if y > 0.0 else 3.0*math.pi/2.0
        a = math.atan2(y, x)
        return 2.0*math.pi + a if y < 0.0 else a

    edges.sort(key=angle)
    rot = native("rotate", "common")
    dip, strike = sdip(), sstrike()
    axis = Direction_3(Vector_3(-math.sin(strike), math.cos(strike), 0.0))
    for v in edges:
        rot(v, Direction_3(Vector_3(0.0, 0.0, 1.0)), strike)
        rot(v, axis, dip)

    vertices = [Point_3(0.0, 0.0, 0.0)]
    for e in edges[:-1]: vertices.append(vertices[-1] + e)
    if not (vertices[-1] + edges[-1]).isEqual(vertices[0]): raise RuntimeError("not closed")

    def middle(values):
        values = [0.0] + values
        lo, hi = min(values), max(values)
        return lo + 0.5*(hi - lo)

    rest = vertices[1:]
    c = Point_3(middle([v.x() for v in rest]), middle([v.y() for v in rest]), middle([v.z() for v in rest]))
    shift = spoint() - c
    return [v + shift for v in vertices]

def polygon3_is(spoint, sstrike, sdip, slen, sdlen):
    from frackit.sampling import PolygonSampler
    return PolygonSampler(spoint, sstrike, sdip, slen, sdlen, lambda: 3)()

def polygon3_should(spoint, sstrike, sdip, slen, sdlen):
    import random
    from frackit.geometry import Polygon_3
    xs = [random.uniform(0.0, 1.0) for i in range(3)]
    ys = [random.uniform(0.0, 1.0) for i in range(3)]
    return Polygon_3(_corners(3, xs, ys, spoint, sstrike, sdip, slen, sdlen))

def polygon3_should1(spoint, sstrike, sdip, slen, sdlen):
    import random
    from frackit.geometry import Polygon_3
    xy = [[random.uniform(0.0, 1.0), random.uniform(0.0, 1.0)] for i in range(3)]
    return Polygon_3(_corners(3, [p[0] for p in xy], [p[1] for p in xy], spoint, sstrike, sdip, slen, sdlen))

def polygon5_is(spoint, sstrike, sdip, slen, sdlen):
    from frackit.sampling import PolygonSampler
    return PolygonSampler(spoint, sstrike, sdip, slen, sdlen, lambda: 5)()

def polygon5_should(spoint, sstrike, sdip, slen, sdlen):
    import random
    from frackit.geometry import Polygon_3
    xs = [random.uniform(0.0, 1.0) for i in range(5)]
    ys = [random.uniform(0.0, 1.0) for i in range(5)]
    return Polygon_3(_corners(5, xs, ys, spoint, sstrike, sdip, slen, sdlen))

def polygon5_should1(spoint, sstrike, sdip, slen, sdlen):
    import random
    from frackit.geometry import Polygon_3
    xy = [[random.uniform(0.0, 1.0), random.uniform(0.0, 1.0)] for i in range(5)]
    return Polygon_3(_corners(5, [p[0] for p in xy], [p[1] for p in xy], spoint, sstrike, sdip, slen, sdlen))

def quad_is(spoint, sstrike, sdip, slen):
    from frackit.sampling import QuadrilateralSampler
    return QuadrilateralSampler(spoint, sstrike, sdip, slen, lambda: 2.0)()

def quad_should(spoint, sstrike, sdip, slen):
    import random
    from frackit.geometry import Quadrilateral_3
    xs = [random.uniform(0.0, 1.0) for i in range(4)]
    ys = [random.uniform(0.0, 1.0) for i in range(4)]
    c = _corners(4, xs, ys, spoint, sstrike, sdip, slen, lambda: 2.0)
    return Quadrilateral_3(c[0], c[1], c[3], c[2])

def quad_should1(spoint, sstrike, sdip, slen):
    import random
    from frackit.geometry import Quadrilateral_3
    xy = [[random.uniform(0.0, 1.0), random.uniform(0.0, 1.0)] for i in range(4)]
    c = _corners(4, [p[0] for p in xy], [p[1] for p in xy], spoint, sstrike, sdip, slen, lambda: 2.0)
    return Quadrilateral_3(c[0], c[1], c[3], c[2])

def corners_number_is(spoint, sstrike, sdip, slen, sdlen, snum):
    from frackit.sampling import PolygonSampler
    # sequences of numbers of corners: the first admissible one is taken
    out = []
    for numbers in [[2, 3], [0, 1, 4, 3], [-1, 2, 2, 2, 5], [3, 6]]:
        rest = list(numbers)
        s = PolygonSampler(spoint, sstrike, sdip, lambda: 1.0, lambda: 1.0, lambda: rest.pop(0))
        out.append(len(s.sampleCorners()))
        out.append(len(rest))
    return out

def corners_number_should(spoint, sstrike, sdip, slen, sdlen, snum):
    return [3, 0, 4, 1, 5, 0, 3, 1]

def corners_few_is(spoint, sstrike, sdip, slen, sdlen):
    from frackit.sampling import PolygonSampler
    return PolygonSampler(spoint, sstrike, sdip, slen, sdlen, lambda: 2).sampleCorners()

def corners_few_should(spoint, sstrike, sdip, slen, sdlen):
    raise RuntimeError("corners")

def quad_old_is(spoint, sstrike, sdip, slen, eps):
    from frackit.sampling import QuadrilateralSampler
    return QuadrilateralSampler(spoint, sstrike, sdip, slen, 0.5)()

def _old(spoint, strike, dip, dx1, dx2, dy1, dy2):
    from frackit.geometry import Vector_3, Direction_3, Point_3, Quadrilateral_3
    rot = native("rotate", "common")
    a, b = Vector_3(1.0, 0.0, 0.0), Vector_3(0.0, 1.0, 0.0)
    rot(a, Direction_3(Vector_3(0.0, 0.0, 1.0)), strike)
    rot(b, Direction_3(Vector_3(0.0, 0.0, 1.0)), strike)
    rot(a, Direction_3(b), dip)
    c = spoint()
    p = Point_3(c.x(), c.y(), c.z())
    u, v = Vector_3(a.x(), a.y(), a.z()), Vector_3(b.x(), b.y(), b.z())
    return Quadrilateral_3(p - u*(dx1/2.0) - v*(dy1/2.0), p + u*(dx2/2.0) - v*(dy2/2.0),
                           p - u*(dx1/2.0) + v*(dy1/2.0), p + u*(dx2/2.0) + v*(dy2/2.0))

def quad_old_should(spoint, sstrike, sdip, slen, eps):
    strike, dip = sstrike(), sdip()
    dx1, dx2, dy1, dy2 = slen(), slen(), slen(), slen()
    while dx1 < 0.5: dx1 = slen()
    while dx2 < 0.5: dx2 = slen()
    while dy1 < 0.5: dy1 = slen()
    while dy2 < 0.5: dy2 = slen()
    return _old(spoint, strike, dip, dx1, dx2, dy1, dy2)

def quad_old_should1(spoint, sstrike, sdip, slen, eps):
    def draw():
        value = slen()
        while value < 0.5: value = slen()
        return value
    strike, dip = sstrike(), sdip()
    dx1, dx2, dy1, dy2 = draw(), draw(), draw(), draw()
    return _old(spoint, strike, dip, dx1, dx2, dy1, dy2)
