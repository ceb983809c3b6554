#include <frackit/distance/distance.hh>
#include <frackit/distance/distancetoboundary.hh>
#include <frackit/distance/pointonboundary.hh>
#include <frackit/distance/pointongeometry.hh>
#include <frackit/magnitude/magnitude.hh>
#include <frackit/magnitude/containedmagnitude.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/triangle.hh>
using namespace Frackit;
template<class D> void contained(const D& dom, Point<double,3> p, Segment<double,3> s, EllipseArc<double,3> ea, Circle<double,3> c, Ellipse<double,3> e, Quadrilateral<double,3> q, Polygon<double,3> pg, Disk<double> dk, TopoDS_Edge ed, TopoDS_Face fa, std::shared_ptr<Geometry> g)
{
    computeContainedMagnitude(p, dom); computeContainedMagnitude(s, dom); computeContainedMagnitude(ea, dom); computeContainedMagnitude(c, dom); computeContainedMagnitude(e, dom);
    computeContainedMagnitude(q, dom); computeContainedMagnitude(pg, dom); computeContainedMagnitude(dk, dom);
    computeContainedMagnitude(ed, dom); computeContainedMagnitude(fa, dom); computeContainedMagnitude(g, dom);
}
void all(Point<double,3> p, Box<double> b, Line<double,3> l,
         Segment<double,3> s, Quadrilateral<double,3> q, Polygon<double,3> pg, Circle<double,3> c, Ellipse<double,3> e, EllipseArc<double,3> ea, Disk<double> dk,
         Cylinder<double> cy, CylinderSurface<double> cs, Sphere<double> sp, Triangle<double,3> tr, const HollowCylinder<double>& hc,
         TopoDS_Shape sh, TopoDS_Vertex ve, TopoDS_Edge ed, TopoDS_Wire wi, TopoDS_Face fa, TopoDS_Shell shl, TopoDS_Solid so, Handle(Geom_Curve) cu,
         std::variant<Point<double,3>, Segment<double,3>> va, std::vector<Segment<double,3>> vs, std::vector<std::variant<Point<double,3>, Segment<double,3>>> vv, std::shared_ptr<Geometry> g)
{
    computeDistance(sh, sh); computeDistance(s, s); computeDistance(dk, q); computeDistance(q, pg); computeDistance(sh, dk); computeDistance(dk, sh); computeDistance(fa, dk);
    computeDistance(p, p); computeDistance(p, l); computeDistance(l, p); computeDistance(p, s); computeDistance(s, p); computeDistance(p, va); computeDistance(p, vs); computeDistance(p, vv);
    computeDistance(fa, fa); computeDistance(q, p);
    computeDistanceToBoundary(p, dk); computeDistanceToBoundary(s, dk); computeDistanceToBoundary(ea, dk); computeDistanceToBoundary(p, q); computeDistanceToBoundary(p, pg); computeDistanceToBoundary(p, b);
    computeDistanceToBoundary(p, cs); computeDistanceToBoundary(s, cs); computeDistanceToBoundary(ea, cs); computeDistanceToBoundary(e, cs);
    computeDistanceToBoundary(ed, dk); computeDistanceToBoundary(ed, fa); computeDistanceToBoundary(ed, q); computeDistanceToBoundary(ed, pg); computeDistanceToBoundary(p, fa); computeDistanceToBoundary(p, so);
    computeDistanceToBoundary(p, sp);
    pointOnGeometryBoundary(p, dk, 0.1); pointOnGeometryBoundary(p, q, 0.1); pointOnGeometryBoundary(p, pg, 0.1); pointOnGeometryBoundary(p, cs, 0.1); pointOnGeometryBoundary(p, fa, 0.1);
    pointOnGeometryBoundary(p, dk); pointOnGeometryBoundary(p, q); pointOnGeometryBoundary(p, pg); pointOnGeometryBoundary(p, cs); pointOnGeometryBoundary(p, fa);
    pointOnGeometry(p, s, 0.1); pointOnGeometry(p, fa, 0.1); pointOnGeometry(p, wi, 0.1); pointOnGeometry(p, dk, 0.1); pointOnGeometry(p, dk); pointOnGeometry(p, fa);
    computeLength(s); computeLength(cu); computeLength(ed); computeLength(wi); computeLength(c); computeLength(e); computeLength(ea);
    computeArea(q); computeArea(tr); computeArea(pg); computeArea(dk); computeArea(cs); computeArea(fa); computeArea(shl);
    computeVolume(b); computeVolume(cy); computeVolume(hc); computeVolume(sp); computeVolume(so);
    computeMagnitude(p); computeMagnitude(s); computeMagnitude(c); computeMagnitude(e); computeMagnitude(ea); computeMagnitude(q); computeMagnitude(tr); computeMagnitude(pg); computeMagnitude(dk); computeMagnitude(cs);
    computeMagnitude(b); computeMagnitude(cy); computeMagnitude(hc); computeMagnitude(sp);
    computeMagnitude(ed); computeMagnitude(wi); computeMagnitude(fa); computeMagnitude(shl); computeMagnitude(so);
    contained(b, p, s, ea, c, e, q, pg, dk, ed, fa, g); contained(cy, p, s, ea, c, e, q, pg, dk, ed, fa, g); contained(sp, p, s, ea, c, e, q, pg, dk, ed, fa, g); contained(so, p, s, ea, c, e, q, pg, dk, ed, fa, g);
}
