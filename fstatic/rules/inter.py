"""Intersections: the classified kernel results are assembled exactly (comparison with never-executed reference models)."""
from types import SimpleNamespace as Namespace
from ..api import *
from .. import terms as tm
from ..terms import fresh, size, show, subterms
from ..harness import loc
from .geo import Geo, DISK, QUAD, POLY, CSURF, P3, SEG

ALG = 'Frackit::IntersectionAlgorithms::'
REFN = {'intersect_plane_plane': 'plane_plane', 'intersect_plane_line': 'plane_line', 'intersect_planarGeometry_line': 'planar_line', 'intersect_segment_segment': 'segment_segment',
        'intersect_planarGeometry_planarGeometry': 'planar_planar', 'intersect_cylinderSurface_planarGeometry': 'cyl_planar', 'intersect_face_face_3d': 'face_face'}
ALIAS = {'Ref::' + v: ALG + k for k, v in REFN.items()}
SUB = set(ALIAS) | set(ALIAS.values())
OPN = ('Frackit::OCCUtilities::', 'Frackit::doIntersect', 'Frackit::getBoundingBox', 'Frackit::defaultEpsilon', 'Frackit::computeLength', 'Frackit::isRightHandSystem')
METH = {'contains', 'isEqual', 'projection', 'isConvex', 'center', 'corner', 'edge', 'supportingPlane', 'supportingLine', 'getPoint', 'majorAxisLength', 'minorAxisLength',
        'length', 'squaredLength', 'centerSegment', 'cylinder', 'numCorners', 'numEdges', 'direction', 'supportingPoint', 'normal', 'source', 'target', 'radius', 'base1', 'base2'}


def kernel(f):
    """what the intersections are built from: the geometry queries and the kernel calls"""
    b = f['b']
    if b.startswith(OPN):
        return True
    c, _, m = b.rpartition('::')
    if c.split('::')[-1] == m and m in ('EllipseArc', 'Ellipse', 'Line', 'Segment') and len(f['pt']) > 1:
        return True
    return m in METH and c.startswith('Frackit::') and not c.startswith(ALG[:-2]) and not f.get('ctor')


def modular(f):
    return f['b'] in SUB or kernel(f)


class Inter(Geo):
    def __init__(self, ck, tu='intersect', opaque=kernel):
        super().__init__(ck, tu, opaque=opaque)

    def evaluator(self):
        e = super().evaluator()
        e.alias = ALIAS
        return e

    def find(self, b, names, n):
        for f in self.p.byb.get(b, []):
            k = [short(x) for x in f['pt']]
            if k[:len(names)] == list(names) and len(k) == n and (f.get('body') is not None):
                return f
        raise Missing('%s(%s)' % (b, ', '.join(names)))


NAMES = 'abcdefgh'


# data of the shapes that the models never need: a result that depends on it is another one
INDEPENDENT = {'Frackit::EllipticalGeometry::minorAxisLength', 'Frackit::CylinderSurface::radius', 'Frackit::CylinderSurface::height', 'Frackit::Line::supportingPoint'}


def value(g, f, n, args=None):
    # numbers are tolerances and sizes, which are positive
    return g.run(f, args or [sym(NAMES[i] + ('+' if short(f['pt'][i]) == 'double' else '')) for i in range(n)]).full()


class Models:
    """which internal algorithms agree with their model (those may stay symbolic above)"""

    def __init__(self, ck):
        ck.load('intersect', 'ref')
        self.ck = ck
        self.g, self.h = Inter(ck, 'intersect'), Inter(ck, 'ref')
        self.state = {}
        for k in REFN:
            ck.limited(lambda: self.conforms(k))

    def sub(self, names):
        s = {ALG + k for k in names} | {'Ref::' + REFN[k] for k in names}
        return lambda f: f['b'] in s or kernel(f)

    def compare(self, f, rf, n, opq, args=None, rounds=400):
        g, h = Inter(self.ck, 'intersect', opq), Inter(self.ck, 'ref', opq)
        a, b = value(g, f, n, args), value(h, rf, n, args)
        return judge(a, [b], strong=INDEPENDENT, rounds=rounds)

    def instances(self, k):
        return [f for f in self.g.p.byb.get(ALG + k, []) if f.get('body') is not None]

    def refof(self, k, f):
        nm = [short(x) for x in f['pt']]
        return self.h.find('Ref::' + REFN[k], [x for x in nm if x != 'double'], len(nm))

    def one(self, f, rf, k=None):
        """compare with every conforming lower-level algorithm symbolic"""
        below = LEVEL[k] if k else list(REFN)
        ok = [x for x in below if self.conforms(x)]
        return self.compare(f, rf, len(f['pt']), self.sub(ok))

    def conforms(self, k):
        if k not in self.state:
            self.state[k] = None
            good = []
            for f in self.instances(k):
                try:
                    good.append(self.one(f, self.refof(k, f), k)[0] is True)
                except (Undecided, tm.TooBig, Missing):
                    good.append(False)
            self.state[k] = bool(good) and all(good)
        return self.state[k]


LEVEL = {'intersect_plane_plane': [], 'intersect_plane_line': [], 'intersect_segment_segment': [], 'intersect_planarGeometry_line': ['intersect_plane_line'],
         'intersect_planarGeometry_planarGeometry': ['intersect_plane_plane', 'intersect_planarGeometry_line', 'intersect_segment_segment'],
         'intersect_cylinderSurface_planarGeometry': ['intersect_plane_line'], 'intersect_face_face_3d': []}
SHAPES = [('Segment', 'Segment'), ('Plane', 'Plane'), ('Plane', 'Line'), ('Disk', 'Line'), ('Quadrilateral', 'Line'), ('Disk', 'Disk'), ('Quadrilateral', 'Quadrilateral'),
          ('Polygon', 'Polygon'), ('Quadrilateral', 'Disk'), ('Polygon', 'Disk'), ('CylinderSurface', 'Disk'), ('CylinderSurface', 'Quadrilateral'), ('CylinderSurface', 'Polygon'),
          ('CylinderSurface', 'TopoDS_Face'), ('TopoDS_Face', 'TopoDS_Face'), ('Disk', 'TopoDS_Face'), ('Quadrilateral', 'TopoDS_Face'), ('Polygon', 'TopoDS_Face')]


REVERSED = [(b, a) for a, b in SHAPES if a != b]
RULE6 = 'the result is the assembly of the classified parts: touching points, edges, faces, each once, nothing dropped'


def algorithms(md, names=None, rule=RULE6):
    """the algorithms below the public interface against their reference models"""
    for k in REFN:
        if names is not None and k not in names:
            continue
        for f in md.instances(k):
            nm = [short(x) for x in f['pt'] if short(x) != 'double']

            def go():
                ok, d = md.one(f, md.refof(k, f), k)
                if ok is False:
                    # the internal interface is free to change as long as the public functions agree
                    return None, 'internal algorithm differs from the model: ' + d, loc(f)
                return ok, d, loc(f)
            md.ck.ob('%s(%s)' % (k, ', '.join(nm)), go, rule=rule)


def public(md, pairs=SHAPES, rule=RULE6):
    for a, b in pairs:
        def go():
            f = md.g.find('Frackit::intersect', (a, b), 3)
            ok, d = md.one(f, md.h.find('Ref::isect', (a, b), 3))
            return ok, d, loc(f)
        md.ck.ob('intersect(%s, %s)' % (a, b), go, rule=rule)


def I06(ck):
    """The intersection of every supported pair is assembled from the classified kernel results exactly as the reference model prescribes."""
    md = Models(ck)
    algorithms(md)
    public(md)


# ------------------------------------------------------------------ order of the arguments, default tolerance, unsupported pairs
RULE1 = 'the order of the arguments is irrelevant; without tolerance the smaller of the two default tolerances is used; unsupported pairs throw'


def I01(ck):
    """Intersecting A with B and B with A is the same, without a tolerance the smaller default is used and unsupported pairs are refused."""
    md = Models(ck)

    def sub():
        return md.sub([x for x in REFN if md.conforms(x)])
    for a, b in SHAPES:
        if a != b:
            def rev():
                f, r = md.g.find('Frackit::intersect', (a, b), 3), md.g.find('Frackit::intersect', (b, a), 3)
                x, y, e = sym('x'), sym('y'), sym('eps')
                front = Inter.opq('Frackit::intersect', x, y, e)
                ok, d = judge(value(Inter(ck, 'intersect', kernel_and(f)), r, 3, [y, x, e]), [front])
                if ok is not True:
                    front, back = value(Inter(ck, 'intersect', sub()), f, 3, [x, y, e]), value(Inter(ck, 'intersect', sub()), r, 3, [y, x, e])
                    ok, d = judge(back, [front], rounds=400)
                    if ok is not True and md.one(r, md.h.find('Ref::isect', (b, a), 3))[0] is True:
                        ok, d = True, ''
                return ok, d, loc(r)
            ck.ob('intersect(%s, %s) = intersect(%s, %s)' % (b, a, a, b), rev, rule=RULE1)
    for a, b in SHAPES + REVERSED:
        def dflt():
            f = md.g.find('Frackit::intersect', (a, b), 2)
            r = md.h.find('Ref::isectd', (a, b), 2)
            three = lambda q: kernel(q) or (q['b'] == 'Frackit::intersect' and len(q['pt']) == 3)
            g, h = Inter(ck, 'intersect', three), Inter(ck, 'ref', three)
            ok, d = judge(value(g, f, 2), [value(h, r, 2)])
            if ok is not True:
                g, h = Inter(ck, 'intersect', sub()), Inter(ck, 'ref', sub())
                ok, d = judge(value(g, f, 2), [value(h, r, 2)])
            return ok, d, loc(f)
        ck.ob('intersect(%s, %s) without tolerance' % (a, b), dflt, rule=RULE1)

    def unsupported():
        f = md.g.find('Frackit::intersect', ('Quadrilateral', 'Polygon'), 3)
        r = md.g.run(f, [sym('x'), sym('y'), sym('eps')])
        return r.cond_throw == TRUE, 'an unsupported pair must be refused with an exception', loc(f)
    ck.ob('unsupported pair', unsupported, rule=RULE1)


def kernel_and(f0):
    key = (f0['b'], tuple(f0['pt']))
    return lambda f: kernel(f) or (f['b'], tuple(f['pt'])) == key


# ------------------------------------------------------------------ tolerances
RULE2 = 'the tolerance passed by the caller reaches every decision it reaches in the model'
EPS = 'Frackit::defaultEpsilon'


def tolerance_uses(t, eps):
    """the decisions taken with the tolerance: (what is asked, tolerance expression)"""
    out = set()
    for x in subterms(t):
        if x.op in ('call', 'fn'):
            for i, y in enumerate(x.a[1:]):
                if isinstance(y, tm.T) and (y == eps or (y.op in ('poly', 'num') and (y.op == 'num' or tm.occurs(y, eps)))):
                    if y.op == 'num' and y.int:
                        continue
                    out.add(('%s/%d@%d' % (x.a[0] if isinstance(x.a[0], str) else str(x.a[0])[:80], len(x.a), i), show(y)))
        elif x.op == 'lt0' and tm.occurs(x.a[0], eps):
            k = [c for m, c in (x.a[0].a[0] if x.a[0].op == 'poly' else ()) if any(z == eps for z, _ in m)]
            out.add(('comparison', str(sorted(abs(c) for c in k))))
    return out


SIZES = 'kernel precision times the characteristic length of the shape'


def I02(ck):
    """Every decision of an intersection uses the caller's tolerance; the default tolerance of a shape scales with its size."""
    md = Models(ck)
    for a, b in SHAPES:
        def go():
            f = md.g.find('Frackit::intersect', (a, b), 3)
            r = md.h.find('Ref::isect', (a, b), 3)
            ok, d = md.one(f, r)
            if ok is True:
                return True, '', loc(f)
            opq = md.sub([x for x in REFN if md.conforms(x)])
            eps = sym(NAMES[2])
            u = tolerance_uses(value(Inter(ck, 'intersect', opq), f, 3), eps)
            v = tolerance_uses(value(Inter(ck, 'ref', opq), r, 3), eps)
            if u == v:
                return True, '', loc(f)
            return False, 'tolerance used in %s, in the model %s' % (sorted(u - v)[:6], sorted(v - u)[:6]), loc(f)
        ck.ob('tolerance of intersect(%s, %s)' % (a, b), go, rule=RULE2)
    defaults(ck)


def defaults(ck):
    ck.load('intersect', 'ref', 'geometry')
    qs = lambda f: f['b'].startswith('Frackit::OCCUtilities::') or (f['b'].rpartition('::')[2] in ('length', 'area', 'radius', 'majorAxisLength', 'minorAxisLength', 'corner', 'height', 'bottomFace', 'boundingEllipse') and not f.get('ctor'))
    h = Inter(ck, 'ref', qs)
    seen = 0
    for r in h.p.byb.get('Ref::epsilonOf', []):
        if r.get('body') is None:
            continue
        k = short(r['pt'][0])

        def go():
            fs = [f for f in h.p.byb.get(EPS, []) if f.get('body') is not None and strip(f['pt'][0]) == strip(r['pt'][0])]
            if not fs:
                raise Missing('defaultEpsilon(%s)' % k)
            a, b = value(Inter(ck, 'ref', qs), fs[0], 1), value(h, r, 1)
            ok, d = judge(a, [b])
            if ok is not True:
                none = lambda f: f['b'].startswith('Frackit::OCCUtilities::')
                ok, d = judge(value(Inter(ck, 'ref', none), fs[0], 1), [value(Inter(ck, 'ref', none), r, 1)])
            return ok, d, loc(fs[0])
        seen += 1
        ck.ob('defaultEpsilon(%s) %s' % (k, strip(r['pt'][0]).replace('Frackit::', '')), go, rule=SIZES)
    ck.atleast('default tolerances', 12, seen)


# ------------------------------------------------------------------ bounding boxes
RULE3 = 'boxes overlap exactly if their intervals overlap in all three directions (within the tolerance); the box of a shape is the kernel box of its BRep'


def box(i):
    from .. import terms as t
    lo = [sym('l%s%d' % (c, i)) for c in 'xyz']
    return tuple(lo) + tuple(add(l, tm.absv(sym('w%s%d' % (c, i)))) for l, c in zip(lo, 'xyz'))


def I03(ck):
    """Bounding boxes: the early rejection never loses an intersection."""
    md = Models(ck)
    g, h = Inter(ck, 'ref', lambda f: f['b'].startswith(EPS)), Inter(ck, 'ref')
    B = 'Frackit::Box<double>'
    x, y = g.new(B, *box(1)), g.new(B, *box(2))

    def over3():
        f = g.find('Frackit::doIntersect', ('Box', 'Box'), 3)
        e = tm.absv(sym('eps'))
        ok, d = judge(value(g, f, 3, [x, y, e]), [value(h, h.find('Ref::doInt', ('Box', 'Box'), 3), 3, [x, y, e])], rounds=600)
        return ok, d, loc(f)
    ck.ob('doIntersect(box, box, eps)', over3, rule=RULE3)

    def over2():
        f = g.find('Frackit::doIntersect', ('Box', 'Box'), 2)
        de = lambda b: g.call(EPS, b, pt=('Box',)) if False else g.opq(EPS, b)
        e = mul(num(0.5), add(de(x), de(y)))
        e2 = [e]
        spec = value(h, h.find('Ref::doInt', ('Box', 'Box'), 3), 3, [x, y, e])
        ok, d = judge(value(g, f, 2, [x, y]), [spec], rounds=600)
        return ok, d, loc(f)
    ck.ob('doIntersect(box, box)', over2, rule=RULE3)
    for r in h.p.byb.get('Ref::bboxOf', []):
        if r.get('body') is None:
            continue
        k = short(r['pt'][0])

        def bb():
            f = [q for q in g.p.byb.get('Frackit::getBoundingBox', []) + g.p.byb.get('Frackit::OCCUtilities::getBoundingBox', []) if q.get('body') is not None and strip(q['pt'][0]) == strip(r['pt'][0])]
            if not f:
                raise Missing('getBoundingBox(%s)' % k)
            opq = lambda q: q['b'] == 'Frackit::OCCUtilities::getShape'
            ok, d = judge(value(Inter(ck, 'ref', opq), f[0], 1), [value(Inter(ck, 'ref', opq), r, 1)])
            return ok, d, loc(f[0])
        ck.ob('getBoundingBox(%s)' % k, bb, rule=RULE3)
    # only the pairs whose algorithm consults the boxes: rejection before the kernel is asked
    for a, b in SHAPES:
        def go():
            f = md.g.find('Frackit::intersect', (a, b), 3)
            r = md.h.find('Ref::isect', (a, b), 3)
            ok, d = md.one(f, r)
            if ok is True:
                return True, '', loc(f)
            opq = md.sub([x for x in REFN if md.conforms(x)])
            bx = lambda t: {show(z) for z in subterms(t) if z.op in ('call', 'fn') and 'doIntersect' in str(z.a[0])}
            u, v = bx(value(Inter(ck, 'intersect', opq), f, 3)), bx(value(Inter(ck, 'ref', opq), r, 3))
            return u <= v, 'rejection by %s' % sorted(u - v)[:2], loc(f)
        ck.ob('rejection in intersect(%s, %s)' % (a, b), go, rule=RULE3)


# ------------------------------------------------------------------ classification of results, angles
RULE5 = 'a result is empty exactly if all its parts are; the angle is the smallest angle between the tangent planes at the prescribed points of all parts'


def I05(ck):
    """Emptiness and intersection angles consider every part of an intersection."""
    ck.load('intersect', 'ref')
    md = Namespace(g=Inter(ck, 'intersect'), h=Inter(ck, 'ref'))
    pair = lambda f: kernel(f) or f['b'].rpartition('::')[2] == 'getTangentPlane'
    seen = 0
    for r in md.h.p.byb.get('Ref::isEmpty', []):
        if r.get('body') is None:
            continue

        def emp():
            fs = [f for f in md.h.p.byb.get('Frackit::isEmptyIntersection', []) if f.get('body') is not None and strip(f['pt'][0]) == strip(r['pt'][0])]
            if not fs:
                raise Missing('isEmptyIntersection(%s)' % r['pt'][0])
            ok, d = judge(value(Inter(ck, 'ref'), fs[0], 1), [value(Inter(ck, 'ref'), r, 1)])
            return ok, d, loc(fs[0])
        seen += 1
        ck.ob('isEmptyIntersection(%s)' % strip(r['pt'][0]).replace('Frackit::', '').replace('<double, 3>', '')[:110], emp, rule=RULE5)
    ck.atleast('emptiness of results', 8, seen)
    seen = 0
    OP = 'Frackit::IntersectionAngle::operator()'
    for f in md.g.p.byb.get(OP, []):
        if f.get('body') is None or len(f['pt']) != 3:
            continue
        key = [strip(x) for x in f['pt']]
        rs = [r for r in md.h.p.byb.get('Ref::angle', []) if r.get('body') is not None and [strip(x) for x in r['pt']] == key]
        if not rs:
            continue

        def an():
            g, h = Inter(ck, 'intersect', pair), Inter(ck, 'ref', pair)
            this = g.fresh_object('Frackit::IntersectionAngle<double>')
            a = g.run(f, [sym('a'), sym('b'), sym('r')], this).full()
            ok, d = judge(a, [value(h, rs[0], 3, [sym('a'), sym('b'), sym('r')])])
            return ok, d, loc(f)
        seen += 1
        nm = [short(k) for k in key[:2]] + [key[2].replace('Frackit::', '').replace('<double, 3>', '').replace('std::', '')[:70]]
        ck.ob('angle(%s)' % ', '.join(nm), an, rule=RULE5)
    ck.atleast('angles', 30, seen)
