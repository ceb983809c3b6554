"""Geometry: containment, topology tables, algebra, measures, parametrisation, derived geometry, type identity."""
from ..api import *
from .. import terms as tm
from ..terms import exists, forall, fresh, tsum, size, PI, show

P3, V3, D3 = 'Frackit::Point<double, 3>', 'Frackit::Vector<double, 3>', 'Frackit::Direction<double, 3>'
SEG, LINE, PLANE = 'Frackit::Segment<double, 3>', 'Frackit::Line<double, 3>', 'Frackit::Plane<double, 3>'
TRI, QUAD, POLY = 'Frackit::Triangle<double, 3>', 'Frackit::Quadrilateral<double, 3>', 'Frackit::Polygon<double, 3>'
CIRC, ELL, ARC, EG = 'Frackit::Circle<double, 3>', 'Frackit::Ellipse<double, 3>', 'Frackit::EllipseArc<double, 3>', 'Frackit::EllipticalGeometry<double, 3>'
DISK, CYL, CSURF, HCYL = 'Frackit::Disk<double>', 'Frackit::Cylinder<double>', 'Frackit::CylinderSurface<double>', 'Frackit::HollowCylinder<double>'
SPH, BOX = 'Frackit::Sphere<double>', 'Frackit::Box<double>'
CONF = None


def vec(n):
    return V(sym(n + c) for c in 'xyz')


class Geo(Api):
    def __init__(self, ck, tu='geometry', opaque=None):
        super().__init__(ck, tu, opaque)
        self._conf = None
        self._made = {}

    def new(self, cls, *args, pt=None):
        """objects are values: the same constructor call is analysed once"""
        k = (cls, args, pt)
        if k not in self._made:
            self._made[k] = (super().new(cls, *args, pt=pt), self.last)
        v, self.last = self._made[k]
        return v

    # ---- symbolic objects made by the public constructors
    def P(self, v):
        v = vec(v) if isinstance(v, str) else v
        return self.new(P3, *v, pt=('double',) * 3)

    def Vc(self, v):
        v = vec(v) if isinstance(v, str) else v
        return self.new(V3, *v, pt=('double',) * 3)

    def D(self, v):
        """a direction whose components are free symbols: the components of the normalised
        vector are replaced by symbols, so specifications need not know they are unit"""
        v = vec(v) if isinstance(v, str) else v
        if ('D', tuple(v)) in self._made:
            return self._made[('D', tuple(v))]
        d = self.new(D3, self.Vc(vec('$')), pt=('Vector',))
        comps = [self.m(D3, d, c) for c in 'xyz']
        out = tm.subst(d, dict(zip(comps, v)))
        if [self.m(D3, out, c) for c in 'xyz'] != list(v):
            raise Undecided('direction representation')
        self._made[('D', tuple(v))] = out
        return out

    def unitD(self, v):
        return self.new(D3, self.Vc(v), pt=('Vector',))

    def co(self, o, cls=P3):
        return V(self.m(cls, o, c) for c in 'xyz')

    def conf(self):
        if self._conf is None:
            self._conf = self.call('Frackit::Precision::confusion', full=[])
        return self._conf

    def angular(self):
        return self.call('Frackit::Precision::angular', full=[])

    def seg(self, a='a', b='b'):
        return self.new(SEG, self.P(a), self.P(b))

    def ell(self, cls=ELL, c='c', u='u', w='w', a='A', b='B'):
        e = self.new(EG, self.P(c), self.D(u), self.D(w), sym(a), sym(b))
        return e

    def circ(self, c='c', nn='n', r='r'):
        return self.new(CIRC, self.P(c), self.D(nn), sym(r))

    def box(self):
        return self.new(BOX, *[sym(x) for x in ('x0', 'y0', 'z0', 'x1', 'y1', 'z1')], pt=('double',) * 6)

    def poly(self):
        return self.new(POLY, sym('corners'), pt=('vector',))


def C(ck, g, name, rule, f, specs):
    """obligation: term f() equals one of specs()"""
    def go():
        got = f()
        w = g.last
        ss = specs() if callable(specs) else specs
        if isinstance(ss, T):
            ss = [ss]
        elif not (isinstance(ss, (list, tuple)) and ss and isinstance(ss[0], T) and not isinstance(ss, V)):
            ss = list(ss)
        ok, d = judge(got, ss)
        from ..harness import loc
        return ok, d, loc(w)
    ck.ob(name, go, rule=rule)


def same_point(g, name, ck, rule, f, spec, cls=P3):
    """obligation: the point/vector/direction f() has the coordinates spec() (a V)"""
    def go():
        got = f()
        w = g.last
        ok_all, det = True, ''
        sp = spec() if callable(spec) else spec
        for c, s in zip('xyz', sp):
            ok, d = judge(g.m(cls, got, c), [s])
            if ok is not True:
                ok_all = ok if ok_all is True or ok is False else ok_all
                det += 'coordinate %s: %s\n' % (c, d)
        from ..harness import loc
        return ok_all, det, loc(w)
    ck.ob(name, go, rule=rule)


def area3(p, q, r):
    return mul(num('1/2'), norm(cross(q - p, r - p)))


def in_seg(a, b, p, eps):
    u = unit(b - a)
    d1, d2 = u * (p - a), u * (p - b)
    s1, s2 = lt(d1, ZERO), lt(d2, ZERO)
    return lor(lnot(eqb(s1, s2)), lt(norm2(p - a), mul(eps, eps)), lt(norm2(p - b), mul(eps, eps)))


def eqb(x, y):
    return mk_ite(x, y, lnot(y))


def on_line(s, d, p, eps):
    proj = s + d * (d * (p - s))
    return lt(norm2(p - proj), mul(eps, eps))


def on_plane(s, nn, p, eps):
    return lt(absv((p - s) * nn), eps)


PTE = ('Point', 'double')
PTEB = ('Point', 'double', 'bool')
PTB = ('Point', 'bool')
EPS = sym('eps')
HALF = num('1/2')


def sq(x):
    return mul(x, x)


def ell_xy(c, u, w, p):
    d = p - c
    return d * u, d * w


def ell_angle(c, u, w, A, B, p, conf):
    x, y = ell_xy(c, u, w, p)
    ny, nx = lt(y, ZERO), lt(x, ZERO)
    at_ = tm.call('fn', ('atan', div(mul(y, div(A, B)), x)))
    return at_, x, y, nx, ny


def G01(ck):
    """Point membership of every shape is its defining inequality widened by the caller's tolerance; the overload without tolerance is the one with the shape's default tolerance."""
    g = Geo(ck)
    rule = 'contains(p, eps) computes the defining (in)equality of the shape with tolerance eps'
    drule = 'contains(p) equals contains(p, eps) with eps = confusion scaled by the size of the shape'
    p, a, b, c, u, w, nn = (vec(x) for x in 'pabcuwn')
    conf = lambda: g.conf()

    def both(name, cls, obj, spec, dflt, planeflag=False):
        """spec(eps) the defining condition, dflt() list of default tolerances; planeflag: (support condition)(eps) guarded by the flag"""
        if planeflag:
            for fl, n in ((TRUE, 'checked'), (FALSE, 'unchecked')):
                C(ck, g, '%s::contains(p,eps,%s)' % (name, n), rule, lambda: g.m(cls, obj(), 'contains', g.P('p'), EPS, fl, pt=PTEB),
                  lambda: [spec(EPS, fl is TRUE)])
                C(ck, g, '%s::contains(p,%s)' % (name, n), drule, lambda: g.m(cls, obj(), 'contains', g.P('p'), fl, pt=PTB),
                  lambda: [spec(e, fl is TRUE) for e in dflt()])
        else:
            C(ck, g, '%s::contains(p,eps)' % name, rule, lambda: g.m(cls, obj(), 'contains', g.P('p'), EPS, pt=PTE), lambda: [spec(EPS)])
            C(ck, g, '%s::contains(p)' % name, drule, lambda: g.m(cls, obj(), 'contains', g.P('p')), lambda: [spec(e) for e in dflt()])

    # point equality
    C(ck, g, 'Point::isEqual(q,eps)', 'points are equal iff closer than eps', lambda: g.m(P3, g.P('p'), 'isEqual', g.P('a'), EPS, pt=PTE),
      lambda: [lt(norm2(p - a), sq(EPS))])
    C(ck, g, 'Point::isEqual(q)', drule, lambda: g.m(P3, g.P('p'), 'isEqual', g.P('a')), lambda: [lt(norm2(p - a), sq(conf()))])
    # 1d
    both('Line', LINE, lambda: g.new(LINE, g.P('a'), g.D('u')), lambda e: on_line(a, u, p, e), lambda: [conf()])
    both('Segment', SEG, lambda: g.seg(), lambda e, fl: land(on_line(a, unit(b - a), p, e), in_seg(a, b, p, e)) if fl else in_seg(a, b, p, e),
         lambda: [mul(conf(), norm(b - a))], True)
    # planar
    C(ck, g, 'Plane::contains(p,eps)', rule, lambda: g.m(PLANE, g.new(PLANE, g.P('a'), g.D('n'), pt=('Point', 'Direction')), 'contains', g.P('p'), EPS), lambda: [on_plane(a, nn, p, EPS)])
    C(ck, g, 'Plane::contains(p)', drule, lambda: g.m(PLANE, g.new(PLANE, g.P('a'), g.D('n'), pt=('Point', 'Direction')), 'contains', g.P('p')), lambda: [on_plane(a, nn, p, conf())])

    def tri(e, fl):
        s = lt(absv(sub(area3(a, b, c), tsum_(area3(a, b, p), area3(b, c, p), area3(c, a, p)))), sq(e))
        return land(on_plane(a, unit(cross(b - a, c - a)), p, e), s) if fl else s
    both('Triangle', TRI, lambda: g.new(TRI, g.P('a'), g.P('b'), g.P('c')), tri,
         lambda: [mul(conf(), norm(x - y)) for x, y in ((a, b), (a, c), (b, c))], True)
    d = vec('d')

    def quad(e, fl):
        A = add(area3(a, b, d), area3(a, d, c))
        s = lt(absv(sub(A, tsum_(area3(a, b, p), area3(b, d, p), area3(d, c, p), area3(c, a, p)))), sq(e))
        return land(on_plane(a, unit(cross(unit(b - a), c - a)), p, e), s) if fl else s
    both('Quadrilateral', QUAD, lambda: g.new(QUAD, g.P('a'), g.P('b'), g.P('c'), g.P('d')), quad, lambda: [mul(conf(), norm(a - d))], True)

    THROW = raw('throw')
    cn = sym('corners')
    N = size(cn)

    def corner(i):
        return g.co(at(cn, i))

    def polyarea():
        f = fresh()
        return tsum(sub(N, num(2)), area3(corner(ZERO), corner(add(f, ONE)), corner(add(f, num(2)))), f)

    def convex():
        f = fresh()
        e = lambda i, j: unit(corner(j) - corner(i))
        t = cross(e(sub(N, ONE), ZERO), e(ZERO, ONE))
        m = lambda i: lt(cross(e(i, add(i, ONE)), e(add(i, ONE), add(i, num(2)))) * t, ZERO)
        bad = exists(sub(N, num(2)), m(f), f)
        # closing corner N-1: edges N-2 and N-1
        last = lt(cross(e(sub(N, num(2)), sub(N, ONE)), e(sub(N, ONE), ZERO)) * t, ZERO)
        return lnot(lor(bad, last))

    def polyspec(e, fl):
        f = fresh()
        A = add(tsum(sub(N, ONE), area3(corner(f), corner(add(f, ONE)), p), f), area3(corner(sub(N, ONE)), corner(ZERO), p))
        s = lt(absv(sub(sym('polyarea'), A)), sq(e))
        if fl:
            n_ = unit(cross(unit(corner(ONE) - corner(ZERO)), corner(num(2)) - corner(ZERO)))
            s = land(on_plane(corner(ZERO), n_, p, e), s)
        return s

    def center():
        f = fresh()
        i, j, k = corner(ZERO), corner(add(f, ONE)), corner(add(f, num(2)))
        w_ = [mul(area3(i, j, k), mul(num('1/3'), tsum_(i[x], j[x], k[x]))) for x in range(3)]
        return V(div(tsum(sub(N, num(2)), w_[x], f), polyarea()) for x in range(3))
    got = {}

    def polyob(name, r, call, spec):
        # the constructor's own precondition (at least three corners) is kept on both sides
        def go():
            pl = abs_poly(g)
            v = call(pl)
            w_ = g.last
            pre = lt(N, num(3))
            cv = sym('convex', 'b')
            from ..harness import loc
            A = [mk_ite(pre, THROW, mk_ite(cv, s, THROW)) for s in spec()]
            ok, dd = judge(mk_ite(pre, THROW, v), A)
            return ok, dd, loc(w_)
        ck.ob(name, go, rule=r)
    for fl, n in ((TRUE, 'checked'), (FALSE, 'unchecked')):
        polyob('Polygon::contains(p,eps,%s)' % n, rule, lambda pl: g.m(POLY, pl, 'contains', g.P('p'), EPS, fl, pt=PTEB), lambda: [polyspec(EPS, fl is TRUE)])
        polyob('Polygon::contains(p,%s)' % n, drule, lambda pl: g.m(POLY, pl, 'contains', g.P('p'), fl, pt=PTB),
               lambda: [polyspec(mul(conf(), norm(g.co(g.m(POLY, abs_poly(g), 'center')) - corner(ZERO))), fl is TRUE)])
    C(ck, g, 'Polygon::isConvex', 'a polygon is convex iff it turns the same way at every corner',
      lambda: mk_ite(lt(N, num(3)), THROW, g.m(POLY, g.poly(), 'isConvex')), lambda: [mk_ite(lt(N, num(3)), THROW, convex())])

    def qconvex():
        v1, v2, v3, v4 = b - a, d - b, c - d, a - c
        n1 = cross(v4, v1)
        return land(*[lnot(lt(n1 * cross(x, y), ZERO)) for x, y in ((v1, v2), (v2, v3), (v3, v4))])
    C(ck, g, 'Quadrilateral::isConvex', 'a quadrilateral is convex iff it turns the same way at every corner',
      lambda: g.m(QUAD, g.new(QUAD, g.P('a'), g.P('b'), g.P('c'), g.P('d')), 'isConvex'), lambda: [qconvex()])

    # elliptical
    A, B = sym('A'), sym('B')
    unn = lambda: unit(cross(u, w))

    def disk(e, fl):
        x, y = ell_xy(c, u, w, p)
        s = le(add(div(sq(x), sq(A)), div(sq(y), sq(B))), add(ONE, sq(e)))
        return land(on_plane(c, unn(), p, e), s) if fl else s

    def ellp(e, fl):
        x, y = ell_xy(c, u, w, p)
        s = lt(absv(sub(add(div(sq(x), sq(A)), div(sq(y), sq(B))), ONE)), e)
        return land(on_plane(c, unn(), p, e), s) if fl else s
    mkd = lambda: g.new(DISK, g.P('c'), g.D('u'), g.D('w'), A, B)
    mke = lambda: g.new(ELL, g.P('c'), g.D('u'), g.D('w'), A, B)
    both('Disk', DISK, lambda: g.ell(), disk, lambda: [conf()], True)
    both('Ellipse', ELL, lambda: g.ell(), ellp, lambda: [conf()], True)
    R = sym('r')

    def circ(e):
        o = g.new(EG, g.P('c'), g.D('u'), g.D('w'), R, R)
        return land(on_plane(c, unn(), p, e), lt(absv(sub(norm(c - p), R)), e))
    both('Circle', CIRC, lambda: g.new(EG, g.P('c'), g.D('u'), g.D('w'), R, R), circ, lambda: [mul(conf(), R)])

    # arcs: angles are those of Ellipse::getAngle
    ga = Geo(ck, opaque=lambda f: f['b'] == 'Frackit::Ellipse::getAngle')
    arcs = lambda: ga.new(ARC, g.ell(), g.P('a'), g.P('b'))

    def arcspec(e, fl):
        ar = arcs()
        sa, ta = ga.m(ARC, ar, 'sourceAngleOnEllipse'), ga.m(ARC, ar, 'targetAngleOnEllipse')
        full = ga.m(ARC, ar, 'isFullEllipse')
        ang = ga.opq('Frackit::Ellipse::getAngle', ar, g.P('p'), TRUE if fl else FALSE)
        inside = mk_ite(lt(ta, sa), lor(le(sub(sa, e), ang), le(ang, add(ta, e))), land(le(sub(sa, e), ang), le(ang, add(ta, e))))
        s = lor(full, inside)
        return land(ellp(e, True), s) if fl else s
    for fl, n in ((TRUE, 'checked'), (FALSE, 'unchecked')):
        C(ck, ga, 'EllipseArc::contains(p,eps,%s)' % n, rule, lambda: ga.m(ARC, arcs(), 'contains', g.P('p'), EPS, fl, pt=PTEB), lambda: [arcspec(EPS, fl is TRUE)])
        C(ck, ga, 'EllipseArc::contains(p,%s)' % n, drule, lambda: ga.m(ARC, arcs(), 'contains', g.P('p'), fl, pt=PTB), lambda: [arcspec(g.angular(), fl is TRUE)])

    # solids
    H, R = sym('h'), sym('r')

    def cylin(s, n_, e, cond):
        t = s + n_ * H
        ax = unit(t - s)
        pr = s + ax * (ax * (p - s))
        return land(in_seg2(s, t, pr, e), cond(pr))

    def in_seg2(s, t, q, e):
        return land(on_line(s, unit(t - s), q, e), in_seg(s, t, q, e))
    nu = cross(u, w)
    un = unit(nu)
    mkc = lambda: g.new(CYL, g.ell(a='r', b='r'), H, pt=('Disk', 'double'))
    both('Cylinder', CYL, mkc, lambda e: cylin(c, un, e, lambda pr: le(norm2(p - pr), add(sq(R), sq(e)))),
         lambda: [mul(tsum_(R, H), mul(HALF, conf()))])
    mks = lambda: csurf(g)
    both('CylinderSurface', CSURF, mks, lambda e: cylin2(g, e, lambda pr, p_: lt(absv(sub(norm(p_ - pr), R)), e)),
         lambda: [mul(tsum_(R, H), mul(HALF, conf()))])
    both('HollowCylinder', HCYL, lambda: hcyl(g), lambda e: hcylin(g, e), lambda: [mul(tsum_(sym('ro'), H), mul(HALF, conf()))])
    both('Sphere', SPH, lambda: g.new(SPH, g.P('c'), R), lambda e: lt(sub(norm2(p - c), sq(R)), sq(e)), lambda: [mul(R, conf())])

    def boxin(e):
        lo, hi = [sym(x) for x in ('x0', 'y0', 'z0')], [sym(x) for x in ('x1', 'y1', 'z1')]
        return land(*[land(lt(sub(l, e), q), lt(q, add(h, e))) for l, h, q in zip(lo, hi, p)])
    both('Box', BOX, lambda: g.box(), boxin,
         lambda: [mul(conf(), norm(V((sub(sym('x1'), sym('x0')), sub(sym('y1'), sym('y0')), sub(sym('z1'), sym('z0'))))))])


def abs_poly(g):
    """a polygon whose stored convexity flag and area are free symbols"""
    pl = g.poly()
    cv = g.m(POLY, pl, 'isConvex')
    d = {}
    if pl.op == 'obj':
        for f, v in pl.a[2]:
            if v is cv and cv.op == 'ite':
                d[f] = sym('convex', 'b')
            elif v.op not in ('obj', 'cat', 'arr', 'ite', 'sym') and 'sum' in {x.op for x in tm.subterms(v)} and v.op != 'st':
                d[f] = sym('polyarea')
    if len(d) != 2:
        raise Undecided('polygon representation')
    return tm.mkobj(pl.a[0], pl.a[1], {**dict(pl.a[2]), **d})


def csurf(g):
    return g.new(CSURF, g.ell(a='r', b='r'), sym('h'), pt=('Circle', 'double'))


def _axial(g, s, t, e, cond):
    p = vec('p')
    ax = unit(t - s)
    pr = s + ax * (ax * (p - s))
    on = land(on_line(s, ax, pr, e), in_seg(s, t, pr, e))
    return land(on, cond(pr, p))


def cylin2(g, e, cond):
    s = vec('c')
    return _axial(g, s, s + unit(cross(vec('u'), vec('w'))) * sym('h'), e, cond)


def hcyl(g):
    return g.new(HCYL, g.P('c'), g.D('n'), sym('ri'), sym('ro'), sym('h'))


def hcylin(g, e):
    c, nn = vec('c'), vec('n')
    return _axial(g, c, c + nn * sym('h'), e, lambda pr, p: land(le(norm2(p - pr), add(sq(sym('ro')), sq(e))), le(sub(sq(sym('ri')), sq(e)), norm2(p - pr))))


# ------------------------------------------------------------------------------------------------ G02
def G02(ck):
    """Corner, edge and face tables of boxes, triangles, quadrilaterals and polygons, and invalid indices."""
    g = Geo(ck)
    rule = 'the i-th corner/edge/face is the documented combination of the object\'s corners'
    lo, hi = [sym(x) for x in ('x0', 'y0', 'z0')], [sym(x) for x in ('x1', 'y1', 'z1')]
    bc = [V((hi if i >> k & 1 else lo)[k] for k in range(3)) for i in range(8)]
    n = lambda i: num(i)
    THROW = raw('throw')
    for i in range(8):
        same_point(g, 'Box::corner(%d)' % i, ck, rule, lambda: g.m(BOX, g.box(), 'corner', n(i)), bc[i])
    edges = [(0, 1), (0, 2), (1, 3), (2, 3), (0, 4), (1, 5), (2, 6), (3, 7), (4, 5), (4, 6), (5, 7), (6, 7)]
    faces = [(0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)]
    for i, (a, b) in enumerate(edges):
        for k, e in (('source', a), ('target', b)):
            same_point(g, 'Box::edge(%d).%s' % (i, k), ck, rule, lambda: g.m(SEG, g.m(BOX, g.box(), 'edge', n(i)), k), bc[e])
    for i, f in enumerate(faces):
        for k in range(4):
            same_point(g, 'Box::face(%d).corner(%d)' % (i, k), ck, rule, lambda: g.m(QUAD, g.m(BOX, g.box(), 'face', n(i)), 'corner', n(k)), bc[f[k]])
    for m, k in (('numCorners', 8), ('numEdges', 12), ('numFaces', 6)):
        C(ck, g, 'Box::' + m, rule, lambda: g.m(BOX, g.box(), m), [n(k)])
    C(ck, g, 'Box::Box(xmax<xmin)', 'a box whose upper bound is below its lower bound on any axis is rejected',
      lambda: mk_ite(tm.eq(g.newfull(BOX, *(lo + hi), pt=('double',) * 6), THROW), ONE, ZERO), lambda: [mk_ite(lor(*[lt(h, l) for l, h in zip(lo, hi)]), ONE, ZERO)])
    for k, l, h in zip('xyz', lo, hi):
        C(ck, g, 'Box::%sMin' % k, rule, lambda: g.m(BOX, g.box(), k + 'Min'), [l])
        C(ck, g, 'Box::%sMax' % k, rule, lambda: g.m(BOX, g.box(), k + 'Max'), [h])
        C(ck, g, 'Box(pMin,pMax)::%sMin' % k, rule, lambda: g.m(BOX, g.new(BOX, g.P('p'), g.P('q'), pt=('Point', 'Point')), k + 'Min'), [sym('p' + k)])
        C(ck, g, 'Box(pMin,pMax)::%sMax' % k, rule, lambda: g.m(BOX, g.new(BOX, g.P('p'), g.P('q'), pt=('Point', 'Point')), k + 'Max'), [sym('q' + k)])
    # triangle, quadrilateral
    a, b, c, d = (vec(x) for x in 'abcd')
    T_ = lambda: g.new(TRI, g.P('a'), g.P('b'), g.P('c'))
    Q_ = lambda: g.new(QUAD, g.P('a'), g.P('b'), g.P('c'), g.P('d'))
    for nm, cls, mk, cs, es in (('Triangle', TRI, T_, (a, b, c), ((0, 1), (1, 2), (2, 0))), ('Quadrilateral', QUAD, Q_, (a, b, c, d), ((0, 1), (1, 3), (0, 2), (2, 3)))):
        C(ck, g, nm + '::numCorners', rule, lambda: g.m(cls, mk(), 'numCorners'), [n(len(cs))])
        C(ck, g, nm + '::numEdges', rule, lambda: g.m(cls, mk(), 'numEdges'), [n(len(es))])
        for i in range(len(cs)):
            same_point(g, '%s::corner(%d)' % (nm, i), ck, rule, lambda: g.m(cls, mk(), 'corner', n(i)), cs[i])
        for i, (x, y) in enumerate(es):
            for k, e in (('source', x), ('target', y)):
                same_point(g, '%s::edge(%d).%s' % (nm, i, k), ck, rule, lambda: g.m(SEG, g.m(cls, mk(), 'edge', n(i)), k), cs[e])
    # invalid indices
    for nm, cls, mk, ms in (('Box', BOX, lambda: g.box(), (('corner', 8), ('edge', 12), ('face', 6))), ('Triangle', TRI, T_, (('edge', 3),)), ('Quadrilateral', QUAD, Q_, (('edge', 4),))):
        for m, k in ms:
            C(ck, g, '%s::%s(%d)' % (nm, m, k), 'an index past the end of a fixed table is rejected', lambda: g.m(cls, mk(), m, n(k)), [THROW])
    # polygon
    cn, N, i = sym('corners'), size(sym('corners')), sym('i', 'i')
    pre = lambda t: mk_ite(lt(N, num(3)), THROW, t)
    C(ck, g, 'Polygon::Polygon(<3 corners)', 'a polygon with fewer than three corners is rejected',
      lambda: mk_ite(tm.eq(g.newfull(POLY, cn, pt=('vector',)), THROW), ONE, ZERO), lambda: [mk_ite(lt(N, num(3)), ONE, ZERO)])
    C(ck, g, 'Polygon::numCorners', rule, lambda: pre(g.m(POLY, g.poly(), 'numCorners')), [pre(N)])
    C(ck, g, 'Polygon::numEdges', rule, lambda: pre(g.m(POLY, g.poly(), 'numEdges')), [pre(N)])
    C(ck, g, 'Polygon::corner(i)', rule, lambda: pre(g.m(POLY, g.poly(), 'corner', i)), [pre(at(cn, i))])
    C(ck, g, 'Polygon::edge(i).source', rule, lambda: pre(g.m(SEG, g.m(POLY, g.poly(), 'edge', i), 'source')), [pre(at(cn, i))])
    C(ck, g, 'Polygon::edge(i).target', rule, lambda: pre(g.m(SEG, g.m(POLY, g.poly(), 'edge', i), 'target')), [pre(at(cn, tm.mod(add(i, ONE), N)))])
    # triangulation: a fan of n-2 triangles
    tri = lambda: g.call('Frackit::triangulate', cn)
    mk = lambda t: mk_ite(lt(N, num(3)), ZERO, t)
    C(ck, g, 'triangulate: number of triangles', 'the triangulation of n corners has n-2 triangles', lambda: mk(size(tri())), lambda: [mk(sub(N, num(2)))])
    for k, idx in ((0, lambda f: ZERO), (1, lambda f: add(f, ONE)), (2, lambda f: add(f, num(2)))):
        for ax in 'xyz':
            def got():
                f = fresh()
                t = tri()
                w = g.last
                v = tsum(size(t), g.m(P3, g.m(TRI, at(t, f), 'corner', n(k)), ax), f)
                g.last = w
                return mk(v)

            def spec():
                f = fresh()
                return [mk(tsum(sub(N, num(2)), g.m(P3, at(cn, idx(f)), ax), f))]
            C(ck, g, 'triangulate: corner %d.%s' % (k, ax), 'triangle i of the fan has corners 0, i+1, i+2', got, spec)
    from .laws import laws, accessor
    laws(ck, 'lawdist', 'G02', 'triangle i of the fan has corners 0, i+1, i+2', [accessor], atleast=3)


# ------------------------------------------------------------------------------------------------ G03
def G03(ck):
    """Coordinates and axes are never mixed up: component-wise algebra, products, rotations, projections."""
    g = Geo(ck)
    rule = 'every component of the result is the textbook expression of the same components of the operands'
    s = sym('s')
    for d in (1, 2, 3):
        PT, VT, DT = ('Frackit::%s<double, %d>' % (x, d) for x in ('Point', 'Vector', 'Direction'))
        ax = 'xyz'[:d]
        vs = lambda n_: [sym(n_ + c) for c in ax]

        def mkp(n_):
            return g.new(PT, *vs(n_), pt=('double',) * d)

        def mkv(n_):
            return g.new(VT, *vs(n_), pt=('double',) * d)

        def mkd(n_):
            return g.new(DT, mkv(n_), pt=('Vector',))
        for i, c in enumerate(ax):
            pc, qc, vc, wc = sym('p' + c), sym('q' + c), sym('v' + c), sym('w' + c)
            t = '%dd.%s' % (d, c)
            C(ck, g, 'Point ' + t, rule, lambda: g.m(PT, mkp('p'), c), [pc])
            C(ck, g, 'Vector ' + t, rule, lambda: g.m(VT, mkv('v'), c), [vc])
            C(ck, g, 'Direction(v) ' + t, 'a direction is the normalised vector', lambda: g.m(DT, mkd('v'), c), lambda: [div(vc, norm(V(vs('v'))))])
            C(ck, g, 'Vector(p,q) ' + t, rule, lambda: g.m(VT, g.new(VT, mkp('p'), mkp('q'), pt=('Point', 'Point')), c), [sub(qc, pc)])
            C(ck, g, 'Vector(dir) ' + t, rule, lambda: g.m(VT, g.new(VT, mkd('v'), pt=('Direction',)), c), lambda: [div(vc, norm(V(vs('v'))))])
            C(ck, g, 'Point+=v ' + t, rule, lambda: g.m(PT, upd(g, PT, mkp('p'), 'operator+=', mkv('v')), c), [add(pc, vc)])
            C(ck, g, 'Point-=v ' + t, rule, lambda: g.m(PT, upd(g, PT, mkp('p'), 'operator-=', mkv('v')), c), [sub(pc, vc)])
            C(ck, g, 'Point+v ' + t, rule, lambda: g.m(PT, g.m(PT, mkp('p'), 'operator+', mkv('v')), c), [add(pc, vc)])
            C(ck, g, 'Point-v ' + t, rule, lambda: g.m(PT, g.m(PT, mkp('p'), 'operator-', mkv('v')), c), [sub(pc, vc)])
            C(ck, g, 'Vector+w ' + t, rule, lambda: g.m(VT, g.m(VT, mkv('v'), 'operator+', mkv('w')), c), [add(vc, wc)])
            C(ck, g, 'Vector-w ' + t, rule, lambda: g.m(VT, g.m(VT, mkv('v'), 'operator-', mkv('w')), c), [sub(vc, wc)])
            for op, f in (('operator*=', mul), ('operator/=', div)):
                C(ck, g, 'Point%s %s' % (op[8:], t), rule, lambda: g.m(PT, upd(g, PT, mkp('p'), op, s), c), [f(pc, s)])
                C(ck, g, 'Vector%s %s' % (op[8:], t), rule, lambda: g.m(VT, upd(g, VT, mkv('v'), op, s), c), [f(vc, s)])
            C(ck, g, 'Direction*a ' + t, rule, lambda: g.m(VT, g.m(DT, mkd('v'), 'operator*', s), c), lambda: [mul(s, div(vc, norm(V(vs('v')))))])
            C(ck, g, 'Direction::invert ' + t, rule, lambda: g.m(DT, upd(g, DT, mkd('v'), 'invert'), c), lambda: [neg(div(vc, norm(V(vs('v')))))])
        C(ck, g, 'Vector*w %dd' % d, 'scalar product', lambda: g.m(VT, mkv('v'), 'operator*', mkv('w'), pt=('Vector',)), lambda: [V(vs('v')) * V(vs('w'))])
        C(ck, g, 'Vector::squaredLength %dd' % d, rule, lambda: g.m(VT, mkv('v'), 'squaredLength'), lambda: [norm2(V(vs('v')))])
        C(ck, g, 'Vector::length %dd' % d, rule, lambda: g.m(VT, mkv('v'), 'length'), lambda: [norm(V(vs('v')))])
        if d == 1:
            C(ck, g, 'Vector::isParallel 1d', 'one-dimensional vectors are always parallel', lambda: g.m(VT, mkv('v'), 'isParallel', mkv('w'), EPS), [TRUE])
        else:
            def par():
                x, y = V(vs('v')), V(vs('w'))
                a, b = V([div(c, norm(x)) for c in x]), V([div(c, norm(y)) for c in y])
                # forms that resolve small angles (the arc cosine does not, and rounding takes it out of its domain)
                half = lambda c: lt(mul(num(2), raw_asin(div(c, num(2)))), EPS)
                near, far = norm(a - b), norm(a + b)
                forms = [half(tm.tmin(near, far)), lor(half(near), half(far))]
                if d == 3:
                    cr = norm(cross(x, y))
                    forms += [lt(raw_asin(div(cr, mul(norm(x), norm(y)))), EPS), lt(tm.call('fn', ('atan2', cr, absv(x * y))), EPS)]
                return forms
            C(ck, g, 'Vector::isParallel %dd' % d, 'parallel iff the enclosed angle is within eps of 0 or pi', lambda: g.m(VT, mkv('v'), 'isParallel', mkv('w'), EPS), par)
            domain(ck, g, 'Vector::isParallel %dd: rounding' % d, lambda: g.m(VT, mkv('v'), 'isParallel', mkv('w'), EPS))
    # lists of coordinates: missing ones are zero, surplus ones are ignored
    abcd = [sym(c) for c in 'abcd']
    for d in (1, 2, 3):
        for nm in ('Point', 'Vector'):
            G_ = 'Frackit::%s<double, %d>' % (nm, d)
            for k in range(-1, 5):
                fn = 'fromList%d' % k if k >= 0 else 'fromNothing'
                for i, c in enumerate('xyz'[:d]):
                    C(ck, g, '%s of %s %dd.%s' % (nm, 'a list of %d' % k if k >= 0 else 'nothing', d, c), 'missing coordinates are zero, surplus ones are ignored',
                      lambda: g.m(G_, g.run(g.func1(fn, G_), abcd[:max(k, 0)]).full(), c), [abcd[i] if i < k else ZERO])
    v, w, x = vec('v'), vec('w'), vec('x')
    same_point(g, 'crossProduct 3d', ck, rule, lambda: g.call('Frackit::crossProduct', g.Vc('v'), g.Vc('w'), full=[V3, V3]), lambda: cross(v, w), V3)
    V2 = 'Frackit::Vector<double, 2>'
    mk2 = lambda n_: g.new(V2, sym(n_ + 'x'), sym(n_ + 'y'), pt=('double',) * 2)
    C(ck, g, 'crossProduct 2d', rule, lambda: g.call('Frackit::crossProduct', mk2('v'), mk2('w'), full=[V2, V2]), lambda: [sub(mul(v[0], w[1]), mul(v[1], w[0]))])
    C(ck, g, 'boxProduct', rule, lambda: g.call('Frackit::boxProduct', g.Vc('v'), g.Vc('w'), g.Vc('x')), lambda: [v * cross(w, x)])
    C(ck, g, 'isRightHandSystem', 'right handed iff the box product is positive', lambda: g.call('Frackit::isRightHandSystem', g.Vc('v'), g.Vc('w'), g.Vc('x')), lambda: [lt(ZERO, v * cross(w, x))])
    C(ck, g, 'toDegrees', 'unit conversion', lambda: g.call('Frackit::toDegrees', s), lambda: [div(mul(s, num(180)), PI)])
    C(ck, g, 'toRadians', 'unit conversion', lambda: g.call('Frackit::toRadians', s), lambda: [div(mul(s, PI), num(180))])
    # intervals: bounds are ordered and the tolerance is not negative
    a0, da, b0, db, e = sym('a0'), absv(sym('da')), sym('b0'), absv(sym('db')), absv(sym('e'))
    C(ck, g, 'intervalsOverlap', 'intervals overlap iff each starts before the other ends (within eps)',
      lambda: g.call('Frackit::intervalsOverlap', raw('arr', a0, add(a0, da)), raw('arr', b0, add(b0, db)), e),
      lambda: [land(lt(a0, add(add(b0, db), e)), lt(sub(b0, e), add(a0, da)))])
    # rotations: Rodrigues' formula
    ang = sym('phi')
    co, si = tm.call('fn', ('cos', ang)), tm.call('fn', ('sin', ang))

    def rod(vv):
        n_ = vec('n')
        return vv * co + cross(n_, vv) * si + n_ * mul(n_ * vv, sub(ONE, co))
    same_point(g, 'rotate(v)', ck, 'rotation by Rodrigues\' formula', lambda: outarg(g, 'Frackit::rotate', 0, g.Vc('v'), g.D('n'), ang, pt=('Vector', 'Direction', 'double')), lambda: rod(v), V3)
    for ax in 'xyz':
        def got():
            f = fresh()
            r = outarg(g, 'Frackit::rotate', 0, sym('vs'), g.D('n'), ang, pt=('vector', 'Direction', 'double'))
            w_ = g.last
            t = tsum(size(sym('vs')), g.m(V3, at(r, f), ax), f)
            g.last = w_
            return t

        def spec():
            f = fresh()
            return [tsum(size(sym('vs')), rod(g.co(at(sym('vs'), f), V3))['xyz'.index(ax)], f)]
        C(ck, g, 'rotate(vectors).' + ax, 'every vector of the container is rotated', got, spec)
    # orthogonal vectors, projections
    C(ck, g, 'makeOrthogonalVector', 'the result is orthogonal to the argument', lambda: g.co(g.call('Frackit::makeOrthogonalVector', g.Vc('v')), V3) * v, [ZERO])
    C(ck, g, 'makeOrthogonalVector: not null', 'the result is not the null vector',
      lambda: mk_ite(land(*[tm.eq(c, ZERO) for c in g.co(g.call('Frackit::makeOrthogonalVector', g.Vc('v')), V3)]), ONE, ZERO), [ZERO])
    a, u, p = vec('a'), vec('u'), vec('p')
    same_point(g, 'Line::projection', ck, 'orthogonal projection', lambda: g.m(LINE, g.new(LINE, g.P('a'), g.D('u')), 'projection', g.P('p')), lambda: a + u * (u * (p - a)))
    PL = lambda: g.new(PLANE, g.P('a'), g.D('u'), pt=('Point', 'Direction'))
    pj = lambda q: q - u * (u * (q - a))
    same_point(g, 'Plane::projection(point)', ck, 'orthogonal projection', lambda: g.m(PLANE, PL(), 'projection', g.P('p'), pt=('Point',)), lambda: pj(p))
    b, c = vec('b'), vec('c')
    for k, q in (('source', b), ('target', c)):
        same_point(g, 'Plane::projection(segment).' + k, ck, 'orthogonal projection of both ends',
                   lambda: g.m(SEG, g.m(PLANE, PL(), 'projection', g.seg('b', 'c'), pt=('Segment',)), k), lambda: pj(q))
    LN = lambda: g.m(PLANE, PL(), 'projection', g.new(LINE, g.P('b'), g.D('w')), pt=('Line',))
    same_point(g, 'Plane::projection(line).support', ck, 'orthogonal projection', lambda: g.m(LINE, LN(), 'supportingPoint'), lambda: pj(b))

    def parallel():
        # direction of the projected line is parallel to the projected direction vector
        d_ = g.co(g.m(LINE, LN(), 'direction'), D3)
        wv = vec('w')
        q = wv - u * (u * wv)
        return norm2(cross(unitless(d_), q))
    C(ck, g, 'Plane::projection(line).direction', 'the projected line runs along the projected direction', parallel, [ZERO])


def unitless(v):
    return v


def domain(ck, g, name, f):
    """obligation: no arc cosine of a quotient that rounding takes beyond one"""
    def go():
        got = f()
        from ..harness import loc
        for t in tm.subterms(got):
            if t.op == 'fn' and t.a[0] == 'acos' and not clamped(t.a[1]):
                return False, 'the arc cosine of %s is undefined (NaN) if rounding makes its argument exceed one' % show(t.a[1]), loc(g.last)
        return True, '', loc(g.last)
    ck.ob(name, go, rule='the arc cosine is only taken of values clamped to its domain')


def clamped(t):
    return t.op in ('min', 'max', 'num', 'cos', 'ite')


def raw_acos(t):
    return tm.call('fn', ('acos', t))


def raw_asin(t):
    return tm.call('fn', ('asin', t))


def upd(g, cls, obj, meth, *args):
    """the object after a mutating method"""
    f = g.meth(cls, meth, len(args))
    r = g.run(f, args, obj)
    return r.this


def outarg(g, fn, i, *args, pt=None):
    f = g.func(fn, len(args), pt)
    r = g.run(f, args)
    return r.outs[i]


# ------------------------------------------------------------------------------------------------ G04
def G04(ck):
    """Closed-form length, area and volume of every shape, and the generic functions that forward to them."""
    g = Geo(ck)
    d = Geo(ck, 'distance')
    rule = 'the measure equals its closed form in the defining data of the shape'
    a, b, c, e = (vec(x) for x in 'abcd')
    r, h, A, B = sym('r'), sym('h'), sym('A'), sym('B')
    lo, hi = [sym(x) for x in ('x0', 'y0', 'z0')], [sym(x) for x in ('x1', 'y1', 'z1')]
    dv = [sub(y, x) for x, y in zip(lo, hi)]
    cn, N = sym('corners'), size(sym('corners'))

    def parea(cp):
        f = fresh()
        q = lambda i: g.co(at(cn, i))
        return tsum(sub(N, num(2)), area3(q(ZERO), q(add(f, ONE)), q(add(f, num(2)))), f)

    def shapes(g):
        return {
            'Segment': (SEG, lambda: g.seg(), 'length', [norm(b - a)]),
            'Triangle': (TRI, lambda: g.new(TRI, g.P('a'), g.P('b'), g.P('c')), 'area', [area3(a, b, c)]),
            'Quadrilateral': (QUAD, lambda: g.new(QUAD, g.P('a'), g.P('b'), g.P('c'), g.P('d')), 'area', [add(area3(a, b, e), area3(a, e, c)), add(area3(a, b, c), area3(b, e, c))]),
            'Disk': (DISK, lambda: g.ell(), 'area', [mul(PI, mul(A, B))]),
            'CylinderSurface': (CSURF, lambda: csurf(g), 'area', [mul(num(2), mul(PI, mul(r, h)))]),
            'Box': (BOX, lambda: g.box(), 'volume', [mul(dv[0], mul(dv[1], dv[2]))]),
            'Cylinder': (CYL, lambda: g.new(CYL, g.ell(a='r', b='r'), h, pt=('Disk', 'double')), 'volume', [mul(PI, mul(sq(r), h))]),
            'HollowCylinder': (HCYL, lambda: hcyl(g), 'volume', [mul(PI, mul(h, sub(sq(sym('ro')), sq(sym('ri')))))]),
            'Sphere': (SPH, lambda: g.new(SPH, g.P('c'), r), 'volume', [mul(num('4/3'), mul(PI, mul(r, sq(r))))]),
        }
    for nm, (cls, mk, meth, spec) in shapes(g).items():
        C(ck, g, '%s::%s' % (nm, meth), rule, lambda: g.m(cls, mk(), meth), spec)
    C(ck, g, 'Segment::squaredLength', rule, lambda: g.m(SEG, g.seg(), 'squaredLength'), lambda: [norm2(b - a)])
    THROW = raw('throw')
    pre = lambda t: mk_ite(lt(N, num(3)), ZERO, t)

    def conv(f):
        """the measure of a polygon: convex ones only, others are rejected"""
        def go():
            cv = g.m(POLY, g.poly(), 'isConvex')
            f_ = f()
            return pre(mk_ite(cv, f_, mk_ite(eq(f_, THROW), ONE, ZERO)))
        return go

    def pspec():
        cv = g.m(POLY, g.poly(), 'isConvex')
        return [pre(mk_ite(cv, parea(None), ONE)), pre(mk_ite(cv, parea(None), ZERO))]
    C(ck, g, 'Polygon::area', rule, conv(lambda: g.m(POLY, g.poly(), 'area')), pspec)
    for nm, mk, cls in (('Ellipse', lambda: g.ell(), ELL),):
        pass
    frule = 'the generic function returns the measure of the shape of its own dimension'
    short_ = {'length': 'computeLength', 'area': 'computeArea', 'volume': 'computeVolume'}
    for nm, (cls, mk, meth, spec) in shapes(g).items():
        for fn in (short_[meth], 'computeMagnitude'):
            C(ck, d, '%s(%s)' % (fn, nm), frule, lambda: d.call('Frackit::' + fn, mk(), full=[cls]), spec)
    for fn in ('computeArea', 'computeMagnitude'):
        C(ck, d, '%s(Polygon)' % fn, frule, conv(lambda: d.call('Frackit::' + fn, g.poly(), full=[POLY])), pspec)
    C(ck, d, 'computeMagnitude(Point)', 'points have no extent', lambda: d.call('Frackit::computeMagnitude', g.P('p'), full=[P3]), [ZERO])
    for fn in ('computeLength', 'computeMagnitude'):
        C(ck, d, '%s(Circle)' % fn, rule, lambda: d.call('Frackit::' + fn, g.circ(), full=[CIRC]), [mul(num(2), mul(PI, r))])


# ------------------------------------------------------------------------------------------------ G05
NAMES = {SEG: 'Segment_3d', LINE: 'Line_3d', PLANE: 'Plane_3d', TRI: 'Triangle_3d', QUAD: 'Quadrilateral_3d', POLY: 'Polygon_3d', CIRC: 'Circle_3d',
         ELL: 'Ellipse_3d', ARC: 'EllipseArc_3d', DISK: 'Disk', CYL: 'Cylinder', CSURF: 'CylinderSurface', HCYL: 'HollowCylinder', SPH: 'Sphere', BOX: 'Box',
         P3: 'Point_3d', V3: 'Vector_3d', D3: 'Direction_3d'}
DIMS = {P3: 0, V3: 1, D3: 1, SEG: 1, LINE: 1, CIRC: 1, ELL: 1, ARC: 1, PLANE: 2, TRI: 2, QUAD: 2, POLY: 2, DISK: 2, CSURF: 2, CYL: 3, HCYL: 3, SPH: 3, BOX: 3}
TOPO = {'TopoDS_Vertex': 0, 'TopoDS_Edge': 1, 'TopoDS_Wire': 1, 'TopoDS_Face': 2, 'TopoDS_Shell': 2, 'TopoDS_Solid': 3}


def G05(ck):
    """Every geometry type has its own name and dimension; dispatch on the name restores the concrete type."""
    from ..harness import loc
    g = Geo(ck)
    x = sym('g')
    s = lambda t: raw('str', t)
    for cls, nm in NAMES.items():
        C(ck, g, 'name of ' + short(cls), 'the name is unique to the type', lambda: g.m(cls, x, 'name'), [s(nm)])
        C(ck, g, 'geometryName(%s)' % short(cls), 'the free function returns the name of the geometry', lambda: g.call('Frackit::geometryName', x, full=[cls]), [s(nm)])
        C(ck, g, 'getDimension(%s)' % short(cls), 'the dimension of the type', lambda: g.call('Frackit::getDimension', x, full=[cls]), [num(DIMS[cls])])
        C(ck, g, 'getWorldDimension(%s)' % short(cls), 'the dimension of the space', lambda: g.call('Frackit::getWorldDimension', x, full=[cls]), [num(3)])
    for k in (1, 2):
        for cls in ('Point', 'Vector', 'Direction', 'Segment', 'Line'):
            f = 'Frackit::%s<double, %d>' % (cls, k)
            C(ck, g, 'name of %s %dd' % (cls, k), 'the name is unique to the type', lambda: g.m(f, x, 'name'), [s('%s_%dd' % (cls, k))])
    for t, dm in TOPO.items():
        C(ck, g, 'geometryName(%s)' % t, 'the name is unique to the type', lambda: g.call('Frackit::geometryName', x, full=[t]), [s(t)])
        C(ck, g, 'getDimension(%s)' % t, 'the dimension of the type', lambda: g.call('Frackit::getDimension', x, full=[t]), [num(dm)])
        C(ck, g, 'getWorldDimension(%s)' % t, 'the dimension of the space', lambda: g.call('Frackit::getWorldDimension', x, full=[t]), [num(3)])
    # planarity
    for t, v in [(DISK, 1), (QUAD, 1), (POLY, 1), (TRI, 1), (PLANE, 1), (CSURF, 0), ('TopoDS_Face', 0), ('TopoDS_Shell', 0), ('TopoDS_Solid', 0), (SEG, 0)]:
        C(ck, g, 'isPlanarGeometry(%s)' % short(t), 'only two-dimensional geometries that are flat by construction are planar', lambda: g.call('Frackit::isPlanarGeometry', x, full=[t]), [TRUE if v else FALSE])
    # assign: only the same type, the value is the pointed-to geometry
    P = sym('ptr')
    n = 0
    for f in g.p.byb.get('Frackit::assign', []):
        if f.get('body') is None:
            continue
        n += 1
        cls = strip(f['pt'][1])
        if cls not in NAMES:
            continue
        same_ = eq(tm.call('call', ('Frackit::Geometry::name', P)), s(NAMES[cls]))
        kind = short(f['pt'][0])

        def go():
            r = g.run(f, [P, sym('old')])
            # the dynamic cast succeeds whenever the name matches
            dyn = [q for q in tm.find(r.outs[1], lambda q: q.op == 'dyn')]
            up = lambda v: tm.restrict_all(v, {q: True for q in dyn}) if dyn else v
            okr, d1 = judge(up(r.full()), [same_])
            okv, d2 = judge(up(r.outs[1]), [mk_ite(same_, P, sym('old'))])
            bad = [q for q in dyn if q.a[1] != cls]
            return (okr and okv and not bad) if None not in (okr, okv) else None, d1 + d2 + str(bad), loc(f)
        ck.ob('assign(%s -> %s)' % (kind, short(cls)), go, rule='assignment succeeds exactly if the names agree and copies the pointed-to geometry')
    ck.atleast('overloads of assign', 15, n)
    # applyOnGeometry dispatches on the name
    n = 0
    for f in g.p.byb.get('Frackit::applyOnGeometry', []):
        if f.get('body') is None or 'Geometry' not in f['pt'][1]:
            continue
        n += 1

        def go():
            F, P = sym('f'), sym('ptr')
            r = g.run(f, [F, P])
            v = r.full()
            dyn = tm.find(v, lambda q: q.op == 'dyn')
            v = tm.restrict_all(v, {q: True for q in dyn})
            call = 'lambda::operator()'
            nm = tm.call('call', ('Frackit::Geometry::name', P))
            res = tm.call('call', (call, F, P))
            calls = [q.a[0] for q in tm.find(v, lambda q: q.op == 'call' and q.a[1:2] == (F,))]
            for cl in calls:
                res = tm.call('call', (cl, F, P))
            specs = []
            # disks and quadrilaterals are the documented minimum, polygons may be supported too
            for ext in ((), (POLY,)):
                spec = raw('throw')
                for cls in (DISK, QUAD) + ext:
                    spec = mk_ite(eq(nm, s(NAMES[cls])), res, spec)
                specs.append(spec)
            ok, dd = judge(v, specs)
            bad = [q for q in dyn if q.a[1] not in (DISK, QUAD, POLY)]
            return ok if not bad else False, dd, loc(f)
        ck.ob('applyOnGeometry(%s)' % short(f['pt'][1]), go, rule='the function is applied to the concrete disk or quadrilateral; unsupported types are rejected')
    ck.atleast('overloads of applyOnGeometry', 2, n)
    # identifiers
    I = 'Frackit::Id'
    i, j = sym('i', 'i'), sym('j', 'i')
    mk = lambda v: g.new(I, v, pt=('unsigned long',))
    C(ck, g, 'Id::get', 'an id keeps its number', lambda: g.m(I, mk(i), 'get'), [i])
    C(ck, g, 'Id::operator==', 'ids are equal iff their numbers are', lambda: g.m(I, mk(i), 'operator==', mk(j)), [eq(i, j)])
    IP = 'Frackit::IdPair'
    for k, v in (('first', i), ('second', j)):
        C(ck, g, 'IdPair::%s (ids)' % k, 'a pair keeps the order of its ids', lambda: g.m(I, g.m(IP, g.new(IP, mk(i), mk(j), pt=('Id', 'Id')), k), 'get'), [v])
        C(ck, g, 'IdPair::%s (numbers)' % k, 'a pair keeps the order of its ids', lambda: g.m(I, g.m(IP, g.new(IP, i, j, pt=('unsigned long', 'unsigned long')), k), 'get'), [v])


# ------------------------------------------------------------------------------------------------ G06
def G06(ck):
    """Parametrised points and the inverse angle/parameter maps of segments, circles, ellipses, arcs and disks."""
    g = Geo(ck)
    rule = 'the point for a parameter is the closed form of the curve or surface'
    t, t2, ang = sym('t'), sym('t2'), sym('phi')
    a, b, c, u, w, p, nn = (vec(x) for x in 'abcuwpn')
    A, B, R = sym('A'), sym('B'), sym('r')
    co, si = (lambda x: tm.call('fn', ('cos', x))), (lambda x: tm.call('fn', ('sin', x)))

    def ep(x):
        return c + u * mul(co(x), A) + w * mul(si(x), B)
    same_point(g, 'Segment::getPoint', ck, rule, lambda: g.m(SEG, g.seg(), 'getPoint', t), lambda: a + (b - a) * t)
    same_point(g, 'Segment::center', ck, rule, lambda: g.m(SEG, g.seg(), 'center'), lambda: a + (b - a) * HALF)
    same_point(g, 'Ellipse::getPointFromAngle', ck, rule, lambda: g.m(ELL, g.ell(), 'getPointFromAngle', ang), lambda: ep(ang))
    tau = lambda x: mul(num(2), mul(PI, x))
    same_point(g, 'Ellipse::getPoint', ck, rule, lambda: g.m(ELL, g.ell(), 'getPoint', t), lambda: ep(tau(t)))
    cir = lambda: g.new(EG, g.P('c'), g.D('u'), g.D('w'), R, R)
    cp = lambda x: c + u * mul(co(x), R) + w * mul(si(x), R)
    same_point(g, 'Circle::getPointFromAngle', ck, rule, lambda: g.m(CIRC, cir(), 'getPointFromAngle', ang), lambda: cp(ang))
    same_point(g, 'Circle::getPoint', ck, rule, lambda: g.m(CIRC, cir(), 'getPoint', t), lambda: cp(tau(t)))
    same_point(g, 'Disk::getPoint', ck, 'a disk point lies the given fraction of the way from the centre to the boundary point',
               lambda: g.m(DISK, g.ell(), 'getPoint', t, t2), lambda: c + (ep(tau(t)) - c) * t2)

    # angle of a point on the ellipse
    def angle(chk):
        x, y = ell_xy(c, u, w, p)
        nx, ny = lt(x, ZERO), lt(y, ZERO)
        conf = g.conf()
        at_ = tm.call('fn', ('atan', div(mul(y, div(A, B)), x)))
        gen = mk_ite(nx, add(PI, at_), mk_ite(ny, add(mul(num(2), PI), at_), at_))
        v = mk_ite(lt(absv(x), mul(A, conf)), mk_ite(ny, mul(num('3/2'), PI), mul(HALF, PI)),
                   mk_ite(lt(absv(y), mul(B, conf)), mk_ite(nx, PI, ZERO), gen))
        if not chk:
            return v
        un = unit(cross(u, w))
        on = land(on_plane(c, un, p, conf), lt(absv(sub(add(div(sq(x), sq(A)), div(sq(y), sq(B))), ONE)), conf))
        return mk_ite(on, v, raw('throw'))
    for fl, k in ((TRUE, True), (FALSE, False)):
        C(ck, g, 'Ellipse::getAngle(%s)' % ('checked' if k else 'unchecked'), 'the angle is the inverse of the parametrisation, points off the ellipse are rejected if asked',
          lambda: g.m(ELL, g.ell(), 'getAngle', g.P('p'), fl), lambda: [angle(k)])

        def par():
            return [mk_ite(eq(angle(k), raw('throw')), raw('throw'), div(angle(k), mul(num(2), PI)))] if False else \
                [tm.lift('par', lambda v: v if v.op == 'throw' else div(v, mul(num(2), PI)), angle(k))]
        C(ck, g, 'Ellipse::getParam(%s)' % ('checked' if k else 'unchecked'), 'the parameter is the angle in units of a full turn', lambda: g.m(ELL, g.ell(), 'getParam', g.P('p'), fl), par)
    # arcs
    ga = Geo(ck, opaque=lambda f: f['b'] == 'Frackit::Ellipse::getAngle')
    arc = lambda: ga.new(ARC, g.ell(), g.P('a'), g.P('b'))
    angof = lambda q: [x for x in (ga.opq('Frackit::Ellipse::getAngle', g.ell(), q, TRUE),)][0]
    tol = lambda: mul(A, g.conf())
    full = lambda: lt(norm2(a - b), sq(tol()))

    def angs():
        ar = arc()
        return ga.m(ARC, ar, 'sourceAngleOnEllipse'), ga.m(ARC, ar, 'targetAngleOnEllipse')
    C(ck, ga, 'EllipseArc::isFullEllipse', 'coinciding ends describe the full ellipse', lambda: ga.m(ARC, arc(), 'isFullEllipse'), lambda: [full()])

    def anames(v, q):
        """the arc angle is getAngle of its own end point (whatever state of the object the call sees)"""
        cs = tm.find(v, lambda x: x.op == 'call' and x.a[0] == 'Frackit::Ellipse::getAngle')
        return cs
    for nm, q, k in (('source', 'a', 0), ('target', 'b', 1)):
        same_point(ga, 'EllipseArc::' + nm, ck, rule, lambda: ga.m(ARC, arc(), nm), vec(q))

        def go():
            from ..harness import loc
            v = angs()[k]
            w_ = ga.last
            got = tm.find(v, lambda x: x.op == 'call' and x.a[0] == 'Frackit::Ellipse::getAngle')
            pts = {x.a[2] for x in got}
            want = {g.P(q)} | ({g.P('a')} if k else set())
            return bool(got) and pts <= want and g.P(q) in pts, 'angle of %s' % pts, loc(w_)
        ck.ob('EllipseArc::%sAngleOnEllipse' % nm, go, rule='the stored angle of an end is the ellipse angle of that end')

    def arcpt():
        s, e = angs()
        dl = mk_ite(lt(s, e), sub(e, s), add(sub(mul(num(2), PI), s), e))
        return ep(add(s, mul(dl, t)))
    same_point(ga, 'EllipseArc::getPoint', ck, 'the parameter runs from the source angle through increasing angles to the target angle', lambda: ga.m(ARC, arc(), 'getPoint', t), arcpt)


# ------------------------------------------------------------------------------------------------ G07
def G07(ck):
    """Derived geometry: faces, circles, axes, planes, normals and centres agree with the shape they are taken from."""
    g = Geo(ck)
    rule = 'the derived object is built from the corresponding data of the shape'
    for x in ('r', 'ri', 'ro', 'h'):
        tm.NONNEG.add(sym(x))       # radii and heights are admissible input
    tm.NONNEG.add(g.conf())
    a, b, c, d, u, w, p, nn = (vec(x) for x in 'abcduwpn')
    A, B, R, H = sym('A'), sym('B'), sym('r'), sym('h')
    un = lambda: unit(cross(u, w))
    ell = lambda: g.ell()

    def disklike(name, mk, cc, uu, ww, AA, BB, cls=DISK):
        same_point(g, name + '.center', ck, rule, lambda: g.m(cls, mk(), 'center'), cc)
        same_point(g, name + '.majorAxis', ck, rule, lambda: g.m(cls, mk(), 'majorAxis'), uu, D3)
        same_point(g, name + '.minorAxis', ck, rule, lambda: g.m(cls, mk(), 'minorAxis'), ww, D3)
        same_point(g, name + '.normal', ck, rule, lambda: g.m(cls, mk(), 'normal'), lambda: unit(cross(uu() if callable(uu) else uu, ww() if callable(ww) else ww)), D3)
        C(ck, g, name + '.majorAxisLength', rule, lambda: g.m(cls, mk(), 'majorAxisLength'), [AA])
        C(ck, g, name + '.minorAxisLength', rule, lambda: g.m(cls, mk(), 'minorAxisLength'), [BB])

    def circlike(name, mk, cc, nv, RR):
        same_point(g, name + '.center', ck, rule, lambda: g.m(CIRC, mk(), 'center'), cc)
        same_point(g, name + '.normal', ck, rule, lambda: unit(g.co(g.m(CIRC, mk(), 'normal'), D3)), lambda: unit(nv() if callable(nv) else nv), V3) if False else None
        C(ck, g, name + '.radius', rule, lambda: g.m(CIRC, mk(), 'radius'), [RR])

    disklike('EllipticalGeometry', ell, c, u, w, A, B, ELL)
    disklike('Disk(ellipse)', lambda: g.new(DISK, g.ell(), pt=('Ellipse',)), c, u, w, A, B)
    disklike('Disk::boundingEllipse', lambda: g.m(DISK, g.ell(), 'boundingEllipse'), c, u, w, A, B, ELL)

    def plane(name, mk, sp, b1, b2, n_):
        same_point(g, name + '.supportingPoint', ck, rule, lambda: g.m(PLANE, mk(), 'supportingPoint'), sp)
        for nm, v in (('base1', b1), ('base2', b2), ('normal', n_)):
            if v is not None:
                same_point(g, name + '.' + nm, ck, rule, lambda: g.m(PLANE, mk(), nm), v, D3)
    plane('Plane(p,b1,b2,n)', lambda: g.new(PLANE, g.P('a'), g.D('u'), g.D('w'), g.D('n')), a, u, w, nn)
    plane('EllipticalGeometry::supportingPlane', lambda: g.m(EG, g.ell(), 'supportingPlane'), c, u, w, un)
    e1 = lambda: unit(b - a)
    n3 = lambda: unit(cross(e1(), c - a))
    plane('Plane(p1,p2,p3)', lambda: g.new(PLANE, g.P('a'), g.P('b'), g.P('c')), a, e1, lambda: unit(cross(n3(), e1())), n3)
    plane('Plane(p,n)', lambda: g.new(PLANE, g.P('a'), g.D('n'), pt=('Point', 'Direction')), a, None, None, nn)

    def orth(nm):
        v = g.co(g.m(PLANE, g.new(PLANE, g.P('a'), g.D('n'), pt=('Point', 'Direction')), nm), D3)
        return v * nn
    for nm in ('base1', 'base2'):
        C(ck, g, 'Plane(p,n): %s orthogonal to n' % nm, 'the bases of a plane span it', lambda: orth(nm), [ZERO])
    T_ = lambda: g.new(TRI, g.P('a'), g.P('b'), g.P('c'))
    Q_ = lambda: g.new(QUAD, g.P('a'), g.P('b'), g.P('c'), g.P('d'))
    third = num('1/3')
    same_point(g, 'Triangle::center', ck, rule, lambda: g.m(TRI, T_(), 'center'), lambda: (a + b + c) * third)
    nt = lambda: unit(cross(b - a, c - a))
    same_point(g, 'Triangle::normal', ck, 'right-handed normal of the corners', lambda: g.m(TRI, T_(), 'normal'), nt, D3)
    plane('Triangle::supportingPlane', lambda: g.m(TRI, T_(), 'supportingPlane'), a, None, None, nt)
    plane('Quadrilateral::supportingPlane', lambda: g.m(QUAD, Q_(), 'supportingPlane'), a, None, None, n3)
    def qcenter(i, s):
        """area weighted mean of the two triangles on either side of a diagonal"""
        t1, t2 = s
        a1, a2 = area3(*t1), area3(*t2)
        m = lambda T: mul(third, tsum_(*[x[i] for x in T]))
        return div(add(mul(a1, m(t1)), mul(a2, m(t2))), add(a1, a2))
    for i, ax in enumerate('xyz'):
        C(ck, g, 'Quadrilateral::center.' + ax, 'the centre is the area-weighted mean of the two triangles', lambda: g.m(P3, g.m(QUAD, Q_(), 'center'), ax),
          lambda: [qcenter(i, ((a, b, d), (a, d, c))), qcenter(i, ((a, b, c), (b, d, c)))])
    cn, N = sym('corners'), size(sym('corners'))
    pre = lambda t: mk_ite(lt(N, num(3)), ZERO, t)
    q = lambda i: g.co(at(cn, i))
    pn = lambda: unit(cross(unit(q(ONE) - q(ZERO)), q(num(2)) - q(ZERO)))
    for i, ax in enumerate('xyz'):
        C(ck, g, 'Polygon::supportingPlane.normal.' + ax, rule, lambda: pre(g.m(D3, g.m(PLANE, g.m(POLY, g.poly(), 'supportingPlane'), 'normal'), ax)), lambda: [pre(pn()[i])])
        C(ck, g, 'Polygon::supportingPlane.point.' + ax, rule, lambda: pre(g.m(P3, g.m(PLANE, g.m(POLY, g.poly(), 'supportingPlane'), 'supportingPoint'), ax)), lambda: [pre(q(ZERO)[i])])

        def cen():
            f = fresh()
            x, y, z = q(ZERO), q(add(f, ONE)), q(add(f, num(2)))
            num_ = tsum(sub(N, num(2)), mul(area3(x, y, z), mul(third, tsum_(x[i], y[i], z[i]))), f)
            f2 = fresh()
            x, y, z = q(ZERO), q(add(f2, ONE)), q(add(f2, num(2)))
            return [pre(div(num_, tsum(sub(N, num(2)), area3(x, y, z), f2)))]
        C(ck, g, 'Polygon::center.' + ax, 'the centre is the area-weighted mean of the triangles', lambda: pre(g.m(P3, g.m(POLY, g.poly(), 'center'), ax)), cen)
    # lines and segments
    same_point(g, 'Line::supportingPoint', ck, rule, lambda: g.m(LINE, g.new(LINE, g.P('a'), g.D('u')), 'supportingPoint'), a)
    same_point(g, 'Line::direction', ck, rule, lambda: g.m(LINE, g.new(LINE, g.P('a'), g.D('u')), 'direction'), u, D3)
    same_point(g, 'Segment::direction', ck, rule, lambda: g.m(SEG, g.seg(), 'direction'), lambda: unit(b - a), D3)
    same_point(g, 'Segment::supportingLine.point', ck, rule, lambda: g.m(LINE, g.m(SEG, g.seg(), 'supportingLine'), 'supportingPoint'), a)
    same_point(g, 'Segment::supportingLine.direction', ck, rule, lambda: g.m(LINE, g.m(SEG, g.seg(), 'supportingLine'), 'direction'), lambda: unit(b - a), D3)
    for k, v in (('source', b), ('target', a)):
        same_point(g, 'Segment::getReversed.' + k, ck, rule, lambda: g.m(SEG, g.m(SEG, g.seg(), 'getReversed'), k), v)
    # circles built from a normal have orthonormal, right-handed axes
    cc = lambda: g.circ()
    same_point(g, 'Circle::center', ck, rule, lambda: g.m(CIRC, cc(), 'center'), c)
    C(ck, g, 'Circle::radius', rule, lambda: g.m(CIRC, cc(), 'radius'), [R])
    for nm in ('base1', 'base2'):
        C(ck, g, 'Circle: %s orthogonal to the normal' % nm, 'the axes of a circle lie in its plane', lambda: g.co(g.m(CIRC, cc(), nm), D3) * nn, [ZERO])
    C(ck, g, 'Circle: axes orthogonal', 'the axes of a circle are orthogonal', lambda: g.co(g.m(CIRC, cc(), 'base1'), D3) * g.co(g.m(CIRC, cc(), 'base2'), D3), [ZERO])

    def hand():
        return lt(ZERO, cross(g.co(g.m(CIRC, cc(), 'base1'), D3), g.co(g.m(CIRC, cc(), 'base2'), D3)) * nn)
    C(ck, g, 'Circle: right handed', 'axes and normal form a right-handed system', lambda: mk_ite(hand(), ONE, ZERO), [ONE])
    # cylinder
    cyl = lambda: g.new(CYL, g.ell(a='r', b='r'), H, pt=('Disk', 'double'))
    top = lambda: c + un() * H
    disklike('Cylinder(disk,h)::bottomFace', lambda: g.m(CYL, cyl(), 'bottomFace'), c, u, w, R, R)
    disklike('Cylinder(disk,h)::topFace', lambda: g.m(CYL, cyl(), 'topFace'), top, u, w, R, R)

    def axes(name, cls, mk, b1, b2, dr, dirname='direction'):
        for nm, v in (('base1', b1), ('base2', b2), ('base3', dr), (dirname, dr)):
            same_point(g, '%s::%s' % (name, nm), ck, rule, lambda: g.m(cls, mk(), nm), v, D3)

    def ends(name, cls, mk, s, t):
        for nm, v in (('source', s), ('target', t)):
            same_point(g, '%s::centerSegment.%s' % (name, nm), ck, rule, lambda: g.m(SEG, g.m(cls, mk(), 'centerSegment'), nm), v)
    axes('Cylinder', CYL, cyl, u, w, un)
    ends('Cylinder', CYL, cyl, c, top)
    C(ck, g, 'Cylinder::height', rule, lambda: g.m(CYL, cyl(), 'height'), [H])
    C(ck, g, 'Cylinder::radius', rule, lambda: g.m(CYL, cyl(), 'radius'), [R])
    lat = lambda: g.m(CYL, cyl(), 'lateralFace')
    C(ck, g, 'Cylinder::lateralFace.radius', rule, lambda: g.m(CSURF, lat(), 'radius'), [R])
    C(ck, g, 'Cylinder::lateralFace.height', rule, lambda: g.m(CSURF, lat(), 'height'), [H])
    same_point(g, 'Cylinder::lateralFace.lowerBoundingCircle.center', ck, rule, lambda: g.m(CIRC, g.m(CSURF, lat(), 'lowerBoundingCircle'), 'center'), c)

    def noncirc():
        v = g.newfull(CYL, g.ell(), H, pt=('Disk', 'double'))
        return mk_ite(eq(v, raw('throw')), ONE, ZERO)
    C(ck, g, 'Cylinder: non-circular base', 'a cylinder on a non-circular disk is rejected', noncirc, lambda: [mk_ite(lt(mul(A, g.conf()), absv(sub(A, B))), ONE, ZERO)])
    zo = sym('z')
    ex, ey, ez = V((ONE, ZERO, ZERO)), V((ZERO, ONE, ZERO)), V((ZERO, ZERO, ONE))
    c2 = lambda: g.new(CYL, R, H, zo, pt=('double',) * 3)
    disklike('Cylinder(r,h,z)::bottomFace', lambda: g.m(CYL, c2(), 'bottomFace'), V((ZERO, ZERO, zo)), ex, ey, R, R)
    disklike('Cylinder(r,h,z)::topFace', lambda: g.m(CYL, c2(), 'topFace'), V((ZERO, ZERO, add(zo, H))), ex, ey, R, R)
    C(ck, g, 'Cylinder(r,h,z)::height', rule, lambda: g.m(CYL, c2(), 'height'), [H])
    cE = lambda: g.new(CYL, g.new(EG, g.P('c'), g.D('u'), g.D('w'), R, R), H, pt=('Circle', 'double'))
    disklike('Cylinder(circle,h)::bottomFace', lambda: g.m(CYL, cE(), 'bottomFace'), c, u, w, R, R)
    disklike('Cylinder(circle,h)::topFace', lambda: g.m(CYL, cE(), 'topFace'), top, u, w, R, R)
    # cylinder surface
    cs = lambda: csurf(g)
    axes('CylinderSurface', CSURF, cs, u, w, un)
    ends('CylinderSurface', CSURF, cs, c, top)
    C(ck, g, 'CylinderSurface::height', rule, lambda: g.m(CSURF, cs(), 'height'), [H])
    C(ck, g, 'CylinderSurface::radius', rule, lambda: g.m(CSURF, cs(), 'radius'), [R])
    for nm, v in (('upperBoundingCircle', top), ('lowerBoundingCircle', c)):
        same_point(g, 'CylinderSurface::%s.center' % nm, ck, rule, lambda: g.m(CIRC, g.m(CSURF, cs(), nm), 'center'), v)
        C(ck, g, 'CylinderSurface::%s.radius' % nm, rule, lambda: g.m(CIRC, g.m(CSURF, cs(), nm), 'radius'), [R])
    cyc = lambda: g.m(CSURF, cs(), 'cylinder')
    disklike('CylinderSurface::cylinder.bottomFace', lambda: g.m(CYL, cyc(), 'bottomFace'), c, u, w, R, R)
    disklike('CylinderSurface::cylinder.topFace', lambda: g.m(CYL, cyc(), 'topFace'), top, u, w, R, R)
    C(ck, g, 'CylinderSurface::cylinder.height', rule, lambda: g.m(CYL, cyc(), 'height'), [H])
    cs2 = lambda: g.new(CSURF, R, H, pt=('double', 'double'))
    ends('CylinderSurface(r,h)', CSURF, cs2, V((ZERO, ZERO, ZERO)), V((ZERO, ZERO, H)))
    C(ck, g, 'CylinderSurface(r,h)::radius', rule, lambda: g.m(CSURF, cs2(), 'radius'), [R])

    def tangent():
        ax = un()
        tp, b_ = top(), c
        l = unit(tp - b_)
        pr = b_ + l * (l * (p - b_))
        return unit(p - pr)
    plane('CylinderSurface::getTangentPlane', lambda: g.m(CSURF, cs(), 'getTangentPlane', g.P('p')), p, None, None, tangent)
    # hollow cylinder
    hc = lambda: hcyl(g)
    ri, ro = sym('ri'), sym('ro')
    htop = lambda: c + nn * H
    ends('HollowCylinder', HCYL, hc, c, htop)
    for nm, v in (('innerRadius', ri), ('outerRadius', ro), ('height', H)):
        C(ck, g, 'HollowCylinder::' + nm, rule, lambda: g.m(HCYL, hc(), nm), [v])
    for nm, v, r_ in (('bottomInnerCircle', c, ri), ('topInnerCircle', htop, ri), ('bottomOuterCircle', c, ro), ('topOuterCircle', htop, ro)):
        same_point(g, 'HollowCylinder::%s.center' % nm, ck, rule, lambda: g.m(CIRC, g.m(HCYL, hc(), nm), 'center'), v)
        C(ck, g, 'HollowCylinder::%s.radius' % nm, rule, lambda: g.m(CIRC, g.m(HCYL, hc(), nm), 'radius'), [r_])
    for nm, r_ in (('innerLateralFace', ri), ('outerLateralFace', ro)):
        C(ck, g, 'HollowCylinder::%s.radius' % nm, rule, lambda: g.m(CSURF, g.m(HCYL, hc(), nm), 'radius'), [r_])
        C(ck, g, 'HollowCylinder::%s.height' % nm, rule, lambda: g.m(CSURF, g.m(HCYL, hc(), nm), 'height'), [H])
        same_point(g, 'HollowCylinder::%s.lowerBoundingCircle.center' % nm, ck, rule, lambda: g.m(CIRC, g.m(CSURF, g.m(HCYL, hc(), nm), 'lowerBoundingCircle'), 'center'), c)
    fc = lambda: g.m(HCYL, hc(), 'fullCylinder')
    C(ck, g, 'HollowCylinder::fullCylinder.radius', rule, lambda: g.m(CYL, fc(), 'radius'), [ro])
    C(ck, g, 'HollowCylinder::fullCylinder.height', rule, lambda: g.m(CYL, fc(), 'height'), [H])
    same_point(g, 'HollowCylinder::fullCylinder.bottomFace.center', ck, rule, lambda: g.m(DISK, g.m(CYL, fc(), 'bottomFace'), 'center'), c)
    C(ck, g, 'HollowCylinder: outer below inner radius', 'an outer radius below the inner radius is rejected',
      lambda: mk_ite(eq(g.newfull(HCYL, g.P('c'), g.D('n'), ri, ro, H), raw('throw')), ONE, ZERO), lambda: [mk_ite(lt(ro, ri), ONE, ZERO)])
    h2 = lambda: g.new(HCYL, ri, ro, H, pt=('double',) * 3)
    ends('HollowCylinder(ri,ro,h)', HCYL, h2, V((ZERO, ZERO, ZERO)), V((ZERO, ZERO, H)))
    for nm, v in (('innerRadius', ri), ('outerRadius', ro)):
        C(ck, g, 'HollowCylinder(ri,ro,h)::' + nm, rule, lambda: g.m(HCYL, h2(), nm), [v])
    S_ = lambda: g.new(SPH, g.P('c'), R)
    same_point(g, 'Sphere::center', ck, rule, lambda: g.m(SPH, S_(), 'center'), c)
    C(ck, g, 'Sphere::radius', rule, lambda: g.m(SPH, S_(), 'radius'), [R])
