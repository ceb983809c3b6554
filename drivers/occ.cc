#include <frackit/occ/breputilities.hh>
#include <frackit/occ/geomutilities.hh>
#include <frackit/occ/gputilities.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/box.hh>
using namespace Frackit; using namespace Frackit::OCCUtilities;
template<class S> void parts(const S& s)
{ getVertices(s); getEdges(s); getWires(s); getFaces(s); getShells(s); getSolids(s); getBoundingBox(s); }
void all(Vector<double,3> v, Direction<double,3> d, Direction<double,2> d2, Direction<double,1> d1, Point<double,3> p, Point<double,2> p2, Point<double,1> p1, Box<double> b,
         Segment<double,3> s, Quadrilateral<double,3> q, Polygon<double,3> pg, Circle<double,3> c, Ellipse<double,3> e, EllipseArc<double,3> ea, Disk<double> dk,
         Cylinder<double> cy, CylinderSurface<double> cs, Sphere<double> sp, Triangle<double,3> tr,
         TopoDS_Shape sh, TopoDS_Vertex ve, TopoDS_Edge ed, TopoDS_Wire wi, TopoDS_Face fa, TopoDS_Shell shl, TopoDS_Solid so, TopoDS_Compound co, std::vector<TopoDS_Edge> es)
{
    point(p); point(p2); point(p1); point(gp_Pnt()); direction(d); direction(d2); direction(d1); direction(gp_Dir()); vector(v); vector(gp_Vec());
    point(ve); readShape(""); makeEdge(p, p);
    getShape(p); getShape(s); getShape(cy); getShape(cs); getShape(e); getShape(c); getShape(ea); getShape(q); getShape(pg); getShape(dk); getShape(b); getShape(sp);
    getShape(ve); getShape(ed); getShape(wi); getShape(fa); getShape(shl); getShape(so); getShape(co);
    parts(sh); parts(ed); parts(wi); parts(fa); parts(shl); parts(so); parts(co);
    translate(sh, v); cut(sh, sh, 0.1); OCCUtilities::intersect(sh, sh, 0.1); fragment(std::vector<TopoDS_Shape>{sh}, 0.1); fuse(std::vector<TopoDS_Shape>{sh}, 0.1);
    getOverlapEdges(es, es); getOverlapEdges(fa, fa);
    getGeomHandle(e); getGeomHandle(ea); getGeomHandle(ed); getGeomHandle(fa);
}
