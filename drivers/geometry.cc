// Instantiates every geometry class and the geometry-level utilities.
#include <frackit/geometry/point.hh>
#include <frackit/geometry/vector.hh>
#include <frackit/geometry/direction.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/line.hh>
#include <frackit/geometry/plane.hh>
#include <frackit/geometry/triangle.hh>
#include <frackit/geometry/triangulation.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/boundingbox.hh>
#include <frackit/geometry/dimension.hh>
#include <frackit/geometry/ctype.hh>
#include <frackit/common/math.hh>
#include <frackit/common/id.hh>
#include <frackit/common/idpair.hh>
#include <frackit/precision/precision.hh>
#include <frackit/precision/defaultepsilon.hh>
#include <frackit/geometryutilities/applyongeometry.hh>
#include <frackit/geometryutilities/assign.hh>
#include <frackit/geometryutilities/getboundingbox.hh>
#include <frackit/geometryutilities/isplanar.hh>
#include <frackit/geometryutilities/name.hh>
#include <frackit/intersection/bboxintersection.hh>
#include <frackit/intersection/emptyintersection.hh>
#include <lists.hh>
using namespace Frackit;
#define F(...) template class Frackit::__VA_ARGS__
F(Point<double,1>); F(Point<double,2>); F(Point<double,3>);
F(Vector<double,1>); F(Vector<double,2>); F(Vector<double,3>);
F(Direction<double,1>); F(Direction<double,2>); F(Direction<double,3>);
template class Frackit::PointBase<Frackit::Point<double,1>,double,1>;
template class Frackit::PointBase<Frackit::Point<double,2>,double,2>;
template class Frackit::PointBase<Frackit::Point<double,3>,double,3>;
template class Frackit::VectorBase<Frackit::Vector<double,1>,double,1>;
template class Frackit::VectorBase<Frackit::Vector<double,2>,double,2>;
template class Frackit::VectorBase<Frackit::Vector<double,3>,double,3>;
F(Segment<double,1>); F(Segment<double,2>); F(Segment<double,3>);
F(Line<double,1>); F(Line<double,2>); F(Line<double,3>);
F(Plane<double,3>); F(Triangle<double,3>); F(Quadrilateral<double,3>); F(Polygon<double,3>);
F(Circle<double,3>); F(Ellipse<double,3>); F(EllipseArc<double,3>); F(EllipticalGeometry<double,3>);
F(Disk<double>); F(Cylinder<double>); F(CylinderSurface<double>); F(HollowCylinder<double>);
F(Sphere<double>); F(Box<double>);
template struct Frackit::EmptyIntersection<1,double>; template struct Frackit::EmptyIntersection<2,double>;
template struct Frackit::EmptyIntersection<3,double>;
template struct Frackit::Precision<double>;

template<int d> void alg(Point<double,d> p, Vector<double,d> v, Direction<double,d> n)
{
    p += v; p -= v; auto q = p + v; q = p - v; q *= 2.0; q /= 2.0; (void)(v*v); auto w = v + v; w = v - v; w *= 2.0; w /= 2.0;
    Vector<double,d> a(p, q), b(n); Direction<double,d> m(a); (void)(m*2.0); std::cout << p << v << n;
}
template void alg<1>(Point<double,1>, Vector<double,1>, Direction<double,1>);
template void alg<2>(Point<double,2>, Vector<double,2>, Direction<double,2>);
template void alg<3>(Point<double,3>, Vector<double,3>, Direction<double,3>);

template<class G> void props(const G& g)
{
    (void) getDimension(g); (void) getWorldDimension(g); (void) geometryName(g);
}
template<class G> void assigns(G& g, Geometry* p, std::shared_ptr<Geometry> s)
{ assign(p, g); assign(s, g); assign(std::unique_ptr<Geometry>(), g); }

void all(Vector<double,3> v, Vector<double,2> v2, Direction<double,3> d, Point<double,3> p, Box<double> b,
         Segment<double,3> s, Line<double,3> l, Plane<double,3> pl, Triangle<double,3> t, Quadrilateral<double,3> q,
         Polygon<double,3> pg, Circle<double,3> c, Ellipse<double,3> e, EllipseArc<double,3> ea, Disk<double> dk,
         Cylinder<double> cy, CylinderSurface<double> cs, Sphere<double> sp, const HollowCylinder<double>& hc,
         TopoDS_Shape sh, TopoDS_Vertex ve, TopoDS_Edge ed, TopoDS_Wire wi, TopoDS_Face fa, TopoDS_Shell shl, TopoDS_Solid so, TopoDS_Compound co,
         std::vector<Vector<double,3>> vs, std::shared_ptr<Geometry> sg)
{
    pl.contains(p); crossProduct(v, v); crossProduct(v2, v2); boxProduct(v, v, v); isRightHandSystem(v, v, v);
    toDegrees(1.0); toRadians(1.0); rotate(v, d, 1.0); rotate(vs, d, 1.0); makeOrthogonalVector(v);
    intervalsOverlap<double>({0., 1.}, {0., 1.}, 0.1);
    Plane<double,3> pp(p, d); Polygon<double,3> pg2(std::vector<Point<double,3>>{p, p, p});
    triangulate(std::vector<Point<double,3>>{p, p, p});
    doIntersect(b, b, 0.1); doIntersect(b, b);
    props(p); props(v); props(d); props(s); props(l); props(pl); props(t); props(q); props(pg); props(c); props(e); props(ea);
    props(dk); props(cy); props(cs); props(sp); props(hc); props(b); props(ve); props(ed); props(wi); props(fa); props(shl); props(so);
    props(EmptyIntersection<3>());
    (void)geometryName(sh);
    assigns(dk, nullptr, sg); assigns(q, nullptr, sg); assigns(pg, nullptr, sg); assigns(b, nullptr, sg);
    assigns(t, nullptr, sg); assigns(cy, nullptr, sg); assigns(cs, nullptr, sg); assigns(s, nullptr, sg);
    auto ar = [] (const auto& g) { return g.area(); }; applyOnGeometry<decltype(ar)&>(ar, sg);
    applyOnGeometry(ar, sg.get());
    getBoundingBox(p); getBoundingBox(s); getBoundingBox(q); getBoundingBox(pg); getBoundingBox(dk); getBoundingBox(cs);
    getBoundingBox(cy); getBoundingBox(b); getBoundingBox(sp); getBoundingBox(c); getBoundingBox(e); getBoundingBox(ea);
    getBoundingBox(fa); getBoundingBox(so); getBoundingBox(shl); getBoundingBox(ed);
    isPlanarGeometry(dk); isPlanarGeometry(q); isPlanarGeometry(pg); isPlanarGeometry(cs); isPlanarGeometry(fa); isPlanarGeometry(t); isPlanarGeometry(pl); isPlanarGeometry(shl); isPlanarGeometry(so); isPlanarGeometry(s);
    defaultEpsilon(p); defaultEpsilon(s); defaultEpsilon(l); defaultEpsilon(pl); defaultEpsilon(t); defaultEpsilon(q); defaultEpsilon(pg); defaultEpsilon(c); defaultEpsilon(e);
    defaultEpsilon(ea); defaultEpsilon(dk); defaultEpsilon(cs); defaultEpsilon(cy); defaultEpsilon(b); defaultEpsilon(sp); defaultEpsilon(sh); defaultEpsilon(hc); defaultEpsilon(fa);
    Id i(1), j(2); (void)(i == j); IdPair ip(i, j), ip2(1, 2); ip.first(); ip.second(); (void)std::hash<Id>()(i); (void)std::hash<const Id>()(i);
}

#define LISTS(...) template __VA_ARGS__ fromNothing<__VA_ARGS__>(); template __VA_ARGS__ fromList0<__VA_ARGS__>(); template __VA_ARGS__ fromList1<__VA_ARGS__>(double); \
    template __VA_ARGS__ fromList2<__VA_ARGS__>(double, double); template __VA_ARGS__ fromList3<__VA_ARGS__>(double, double, double); \
    template __VA_ARGS__ fromList4<__VA_ARGS__>(double, double, double, double)
LISTS(Point<double,1>); LISTS(Point<double,2>); LISTS(Point<double,3>);
LISTS(Vector<double,1>); LISTS(Vector<double,2>); LISTS(Vector<double,3>);
