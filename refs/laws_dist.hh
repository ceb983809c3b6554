// Laws of distances and magnitudes (never executed).
#ifndef VERIF_LAWS_DIST_HH
#define VERIF_LAWS_DIST_HH
#include <frackit/distance/distance.hh>
#include <frackit/distance/distancetoboundary.hh>
#include <frackit/distance/pointonboundary.hh>
#include <frackit/distance/pointongeometry.hh>
#include <frackit/magnitude/magnitude.hh>
#include <frackit/magnitude/containedmagnitude.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/triangle.hh>
#include <BRepExtrema_DistShapeShape.hxx>
#include <BRepTools.hxx>
#include <BRepClass3d.hxx>
#include <BRepGProp.hxx>
#include <GProp_GProps.hxx>
#include <GCPnts_AbscissaPoint.hxx>
#include <GeomAdaptor_Curve.hxx>
namespace Law {
using namespace Frackit;
namespace OU = Frackit::OCCUtilities;
using Pt = Point<double, 3>; using Sg = Segment<double, 3>; using Ln = Line<double, 3>; using Vc = Vector<double, 3>; using El = Ellipse<double, 3>; using Ea = EllipseArc<double, 3>; using Ci = Circle<double, 3>;
using Qu = Quadrilateral<double, 3>; using Po = Polygon<double, 3>; using Di = Disk<double>; using Cs = CylinderSurface<double>; using Cy = Cylinder<double>; using Sp = Sphere<double>; using Bx = Box<double>;
using Hc = HollowCylinder<double>; using Tr = Triangle<double, 3>;
using Sh = TopoDS_Shape; using So = TopoDS_Solid; using Fa = TopoDS_Face; using Ed = TopoDS_Edge; using Wi = TopoDS_Wire;
#define prec Frackit::Precision<double>::confusion()
// the kernel distance of two boundary representations
inline double kernel(const Sh& a, const Sh& b, double eps, Extrema_ExtFlag f, Extrema_ExtAlgo g)
{
    BRepExtrema_DistShapeShape m(a, b, eps, f, g);
    if (!m.IsDone()) throw std::runtime_error("distance");
    return m.Value();
}
inline double kernel(const Sh& a, const Sh& b) { return kernel(a, b, prec, Extrema_ExtFlag_MINMAX, Extrema_ExtAlgo_Grad); }
template<class G> Sh rep(const G& g) { return OU::getShape(g); }
inline Sh rep(const Sh& g) { return g; }
// ---- D01: distances
template<class A, class B> double D01_kernel_is(const A& a, const B& b) { return computeDistance(a, b); }
template<class A, class B> double D01_kernel_should(const A& a, const B& b) { return kernel(rep(a), rep(b)); }
template<class A, class B> double D01_kernelargs_is(const A& a, const B& b, double e, Extrema_ExtFlag f, Extrema_ExtAlgo g) { return computeDistance(a, b, e, f, g); }
template<class A, class B> double D01_kernelargs_should(const A& a, const B& b, double e, Extrema_ExtFlag f, Extrema_ExtAlgo g) { return kernel(rep(a), rep(b), e, f, g); }
template<class A, class B> void dk(const A& a, const B& b)
{
    D01_kernel_is(a, b); D01_kernel_should(a, b);
    D01_kernelargs_is(a, b, 0.1, Extrema_ExtFlag_MIN, Extrema_ExtAlgo_Grad); D01_kernelargs_should(a, b, 0.1, Extrema_ExtFlag_MIN, Extrema_ExtAlgo_Grad);
}
inline void kernelInstances(Pt p, Sg s, Qu q, Po po, Di d, Cs c, Cy cy, Ea ea, El e, Sh sh, Fa f, Ed ed)
{
    dk(sh, sh); dk(s, s); dk(d, q); dk(q, po); dk(sh, d); dk(d, sh); dk(d, d); dk(cy, q); dk(c, d); dk(ea, d); dk(e, q); dk(f, f); dk(f, d); dk(d, f); dk(p, d); dk(d, p); dk(p, f); dk(ed, ed); dk(s, d); dk(p, c);
}
inline double dist(const Pt& a, const Pt& b) { return std::sqrt((a.x()-b.x())*(a.x()-b.x()) + (a.y()-b.y())*(a.y()-b.y()) + (a.z()-b.z())*(a.z()-b.z())); }
inline double dist(const Point<double, 2>& a, const Point<double, 2>& b) { return std::sqrt((a.x()-b.x())*(a.x()-b.x()) + (a.y()-b.y())*(a.y()-b.y())); }
inline double dist(const Point<double, 1>& a, const Point<double, 1>& b) { return std::sqrt((a.x()-b.x())*(a.x()-b.x())); }
template<int n> double pointLine(const Point<double, n>& p, const Line<double, n>& l) { return dist(p, l.projection(p)); }
template<int n> double pointSegment(const Point<double, n>& p, const Segment<double, n>& s)
{
    const auto q = s.supportingLine().projection(p);
    if (s.contains(q)) return dist(p, q);
    return std::min(dist(p, s.source()), dist(p, s.target()));
}
template<int n> double D01_points_is(const Point<double, n>& p, const Point<double, n>& q) { return computeDistance(p, q); }
template<int n> double D01_points_should(const Point<double, n>& p, const Point<double, n>& q) { return dist(p, q); }
template<int n> double D01_line_is(const Point<double, n>& p, const Line<double, n>& l) { return computeDistance(p, l); }
template<int n> double D01_line_should(const Point<double, n>& p, const Line<double, n>& l) { return pointLine(p, l); }
template<int n> double D01_lineback_is(const Line<double, n>& l, const Point<double, n>& p) { return computeDistance(l, p); }
template<int n> double D01_lineback_should(const Line<double, n>& l, const Point<double, n>& p) { return pointLine(p, l); }
template<int n> double D01_segment_is(const Point<double, n>& p, const Segment<double, n>& s) { return computeDistance(p, s); }
template<int n> double D01_segment_should(const Point<double, n>& p, const Segment<double, n>& s) { return pointSegment(p, s); }
template<int n> double D01_segmentback_is(const Segment<double, n>& s, const Point<double, n>& p) { return computeDistance(s, p); }
template<int n> double D01_segmentback_should(const Segment<double, n>& s, const Point<double, n>& p) { return pointSegment(p, s); }
template<int n> void pd(Point<double, n> p, Line<double, n> l, Segment<double, n> s)
{
    D01_points_is(p, p); D01_points_should(p, p); D01_line_is(p, l); D01_line_should(p, l); D01_lineback_is(l, p); D01_lineback_should(l, p);
    D01_segment_is(p, s); D01_segment_should(p, s); D01_segmentback_is(s, p); D01_segmentback_should(s, p);
}
inline void pointInstances(Pt p, Ln l, Sg s, Point<double, 2> p2, Line<double, 2> l2, Segment<double, 2> s2, Point<double, 1> p1) { pd(p, l, s); pd(p2, l2, s2); D01_points_is(p1, p1); D01_points_should(p1, p1); }
template<class... T> double D01_variant_is(const Pt& p, const std::variant<T...>& v) { return computeDistance(p, v); }
template<class... T> double D01_variant_should(const Pt& p, const std::variant<T...>& v) { return std::visit([&] (const auto& g) { return computeDistance(p, g); }, v); }
template<class T> double D01_vector_is(const Pt& p, const std::vector<T>& v) { return computeDistance(p, v); }
template<class T> double D01_vector_should(const Pt& p, const std::vector<T>& v)
{
    double r = std::numeric_limits<double>::max();
    for (std::size_t i = 0; i < v.size(); ++i) { const double d = computeDistance(p, v[i]); if (d < r) r = d; }
    return r;
}
inline void manyInstances(Pt p, std::variant<Pt, Sg> a, std::variant<Sg, Di, Ea> b, std::vector<Sg> v, std::vector<std::variant<Pt, Sg>> w)
{ D01_variant_is(p, a); D01_variant_should(p, a); D01_variant_is(p, b); D01_variant_should(p, b); D01_vector_is(p, v); D01_vector_should(p, v); D01_vector_is(p, w); D01_vector_should(p, w); }
// ---- D01: distances to the boundary
inline double edges(const Sh& g, const Qu& q)
{
    double r = std::numeric_limits<double>::max();
    for (unsigned int i = 0; i < 4; ++i) r = std::min(r, kernel(g, rep(q.edge(i))));
    return r;
}
inline double edges(const Sh& g, const Po& q)
{
    double r = std::numeric_limits<double>::max();
    for (unsigned int i = 0; i < q.numEdges(); ++i) r = std::min(r, kernel(g, rep(q.edge(i))));
    return r;
}
template<class A> double D01_boundary_should(const A& a, const Di& d) { return kernel(rep(a), rep(d.boundingEllipse())); }
template<class A> double D01_boundary_should(const A& a, const Cs& c) { return std::min(kernel(rep(a), rep(c.lowerBoundingCircle())), kernel(rep(a), rep(c.upperBoundingCircle()))); }
template<class A> double D01_boundary_should(const A& a, const So& s) { return kernel(rep(a), BRepClass3d::OuterShell(s)); }
template<class A> double D01_boundary_should(const A& a, const Fa& f) { return kernel(rep(a), BRepTools::OuterWire(f)); }
template<class A> double D01_boundary_should(const A& a, const Qu& q) { return edges(rep(a), q); }
template<class A> double D01_boundary_should(const A& a, const Po& q) { return edges(rep(a), q); }
inline double D01_boundary_should(const Pt& p, const Qu& q)
{
    double r = std::numeric_limits<double>::max();
    for (unsigned int i = 0; i < 4; ++i) r = std::min(r, pointSegment(p, q.edge(i)));
    return r;
}
inline double D01_boundary_should(const Pt& p, const Po& q)
{
    double r = std::numeric_limits<double>::max();
    for (unsigned int i = 0; i < q.numEdges(); ++i) r = std::min(r, pointSegment(p, q.edge(i)));
    return r;
}
inline double D01_boundary_should(const Pt& p, const Bx& b)
{
    double r = std::numeric_limits<double>::max();
    for (unsigned int i = 0; i < 6; ++i) r = std::min(r, kernel(rep(b.face(i)), rep(p)));
    return r;
}
template<class A, class B> double D01_boundary_is(const A& a, const B& b) { return computeDistanceToBoundary(a, b); }
template<class A, class B> void db(const A& a, const B& b) { D01_boundary_is(a, b); D01_boundary_should(a, b); }
inline void boundaryInstances(Pt p, Sg s, Ea ea, El e, Di d, Cs c, Qu q, Po po, Bx b, Sh sh, Fa f, So so, Ed ed)
{
    db(p, d); db(s, d); db(ea, d); db(e, d); db(ed, d); db(p, c); db(s, c); db(ea, c); db(e, c); db(ed, c); db(p, q); db(ed, q); db(p, po); db(ed, po); db(p, b);
    db(p, f); db(s, f); db(ed, f); db(f, f); db(p, so); db(ed, so); db(s, so); db(sh, d); db(sh, c); db(sh, f); db(sh, so); db(sh, q); db(sh, po);
}
// ---- D01: points on shapes and their boundaries
template<class G> bool near(const Pt& p, const G& g, double eps) { return kernel(rep(p), rep(g)) < eps; }
template<class G> bool D01_on_should(const Pt& p, const G& g, double eps) { return computeDistance(p, g) < eps; }
inline bool D01_on2_should(const Point<double, 2>& p, const Segment<double, 2>& s, double eps) { return s.contains(p, eps); }
inline bool D01_on2_is(const Point<double, 2>& p, const Segment<double, 2>& s, double eps) { return pointOnGeometry(p, s, eps); }
template<class G> bool D01_on_is(const Pt& p, const G& g, double eps) { return pointOnGeometry(p, g, eps); }
template<class G> bool D01_ondefault_is(const Pt& p, const G& g) { return pointOnGeometry(p, g); }
template<class G> bool D01_ondefault_should(const Pt& p, const G& g) { return pointOnGeometry(p, g, defaultEpsilon(g)); }
template<class G> bool closer(const Pt& p, const G& g, double eps) { return computeDistance(p, g) < eps; }
inline bool D01_onboundary_should(const Pt& p, const Di& d, double eps) { return closer(p, d.boundingEllipse(), eps); }
inline bool D01_onboundary_should(const Pt& p, const Qu& q, double eps) { return closer(p, q.edge(0), eps) || closer(p, q.edge(1), eps) || closer(p, q.edge(2), eps) || closer(p, q.edge(3), eps); }
inline bool D01_onboundary_should(const Pt& p, const Po& q, double eps)
{
    bool r = false;
    for (unsigned int i = 0; i < q.numEdges(); ++i) r = r || closer(p, q.edge(i), eps);
    return r;
}
inline bool D01_onboundary_should(const Pt& p, const Cs& c, double eps) { return closer(p, c.lowerBoundingCircle(), eps) || closer(p, c.upperBoundingCircle(), eps); }
inline bool D01_onboundary_should(const Pt& p, const Fa& f, double eps) { return closer(p, BRepTools::OuterWire(f), eps); }
template<class G> bool D01_onboundary_is(const Pt& p, const G& g, double eps) { return pointOnGeometryBoundary(p, g, eps); }
template<class G> bool D01_onboundarydefault_is(const Pt& p, const G& g) { return pointOnGeometryBoundary(p, g); }
template<class G> bool D01_onboundarydefault_should(const Pt& p, const G& g) { return pointOnGeometryBoundary(p, g, defaultEpsilon(g)); }
template<class G> void on(const Pt& p, const G& g) { D01_on_is(p, g, 0.1); D01_on_should(p, g, 0.1); D01_ondefault_is(p, g); D01_ondefault_should(p, g); }
template<class G> void onb(const Pt& p, const G& g) { D01_onboundary_is(p, g, 0.1); D01_onboundarydefault_is(p, g); D01_onboundarydefault_should(p, g); }
inline void onInstances(Pt p, Sg s, Di d, Qu q, Po po, Cs c, Fa f, Wi w) { on(p, s); on(p, d); on(p, q); on(p, f); on(p, w); onb(p, d); onb(p, q); onb(p, po); onb(p, c); onb(p, f); }
// unsupported boundary distances are refused
inline double D01_unsupported_is(const Pt& p, const Sp& s) { return computeDistanceToBoundary(p, s); }
inline double D01_unsupported_should(const Pt&, const Sp&) { throw std::runtime_error("unsupported"); }
inline bool D01_unsupportedon_is(const Pt& p, const Sp& s, double eps) { return pointOnGeometryBoundary(p, s, eps); }
inline bool D01_unsupportedon_should(const Pt&, const Sp&, double) { throw std::runtime_error("unsupported"); }

// ---- M01: magnitudes
inline double curve(const Handle(Geom_Curve)& c)
{
    const double a = c->FirstParameter(), b = c->LastParameter();
    GeomAdaptor_Curve ad(c, a, b);
    return GCPnts_AbscissaPoint::Length(ad, a, b, prec);
}
inline double area(const Fa& f, double eps, const gp_Pnt& o) { GProp_GProps g(o); BRepGProp::SurfaceProperties(f, g, eps); return g.Mass(); }
inline double volume(const So& f, double eps, const gp_Pnt& o) { GProp_GProps g(o); BRepGProp::VolumeProperties(f, g, eps); return g.Mass(); }
inline double size(const Handle(Geom_Curve)& c) { return curve(c); }
inline double size(const Pt&) { return 0.0; }
inline double size(const Sg& s) { return s.length(); }
inline double size(const Ci& c) { return 2.0*M_PI*c.radius(); }
inline double size(const El& e) { return curve(OU::getGeomHandle(e)); }
inline double size(const Ea& a) { return a.isFullEllipse() ? size(a.supportingEllipse()) : curve(OU::getGeomHandle(a)); }
inline double size(const Ed& e) { return curve(OU::getGeomHandle(e)); }
inline double size(const Wi& w)
{
    double s = 0.0;
    for (const auto& e : OU::getEdges(w)) s += size(e);
    return s;
}
inline double size(const Qu& g) { return g.area(); }
inline double size(const Tr& g) { return g.area(); }
inline double size(const Po& g) { return g.area(); }
inline double size(const Di& g) { return g.area(); }
inline double size(const Cs& g) { return g.area(); }
inline double size(const Fa& f, double eps = prec, const gp_Pnt& o = gp_Pnt()) { return area(f, eps, o); }
inline double size(const TopoDS_Shell& s, double eps = prec, const gp_Pnt& o = gp_Pnt())
{
    double r = 0.0;
    for (const auto& f : OU::getFaces(s)) r += area(f, eps, o);
    return r;
}
inline double size(const Bx& g) { return g.volume(); }
inline double size(const Cy& g) { return g.volume(); }
inline double size(const Hc& g) { return g.volume(); }
inline double size(const Sp& g) { return g.volume(); }
inline double size(const So& g, double eps = prec, const gp_Pnt& o = gp_Pnt()) { return volume(g, eps, o); }
template<class G> double M01_length_is(const G& g) { return computeLength(g); }
template<class G> double M01_length_should(const G& g) { return size(g); }
template<class G> double M01_area_is(const G& g) { return computeArea(g); }
template<class G> double M01_area_should(const G& g) { return size(g); }
template<class G> double M01_volume_is(const G& g) { return computeVolume(g); }
template<class G> double M01_volume_should(const G& g) { return size(g); }
template<class G> double M01_magnitude_is(const G& g) { return computeMagnitude(g); }
template<class G> double M01_magnitude_should(const G& g) { return size(g); }
template<class G> double M01_magnitudewith_is(const G& g, double eps, const gp_Pnt& o) { return computeMagnitude(g, eps, o); }
template<class G> double M01_magnitudewith_should(const G& g, double eps, const gp_Pnt& o) { return size(g, eps, o); }
template<class G> void m1(const G& g) { M01_length_is(g); M01_length_should(g); M01_magnitude_is(g); M01_magnitude_should(g); }
template<class G> void m2(const G& g) { M01_area_is(g); M01_area_should(g); M01_magnitude_is(g); M01_magnitude_should(g); }
template<class G> void m3(const G& g) { M01_volume_is(g); M01_volume_should(g); M01_magnitude_is(g); M01_magnitude_should(g); }
template<class G> void mw(const G& g) { M01_magnitudewith_is(g, 0.1, gp_Pnt()); M01_magnitudewith_should(g, 0.1, gp_Pnt()); }
inline void sizeInstances(Pt p, Sg s, Ci c, El e, Ea ea, Ed ed, Wi w, Qu q, Tr t, Po po, Di d, Cs cs, Fa f, TopoDS_Shell sh, Bx b, Cy cy, const Hc& hc, Sp sp, So so, Handle(Geom_Curve) cu)
{
    M01_magnitude_is(p); M01_magnitude_should(p); M01_length_is(cu); M01_length_should(cu);
    m1(s); m1(c); m1(e); m1(ea); m1(ed); m1(w); m2(q); m2(t); m2(po); m2(d); m2(cs); m2(f); m2(sh); m3(b); m3(cy); m3(hc); m3(sp); m3(so); mw(f); mw(sh); mw(so);
}
// the part of a shape inside a domain
template<class G, class D> double M01_contained_is(const G& g, const D& d) { return computeContainedMagnitude(g, d); }
template<class D> double M01_contained_should(const Pt&, const D&) { return 0.0; }
template<class G, class D> double inside1(const G& g, const D& d)
{
    double r = 0.0;
    for (const auto& e : OU::getEdges(OU::intersect(OU::getShape(g), OU::getShape(d), defaultEpsilon(d)))) r += size(e);
    return r;
}
template<class G, class D> double inside2(const G& g, const D& d)
{
    double r = 0.0;
    for (const auto& f : OU::getFaces(OU::intersect(OU::getShape(g), OU::getShape(d), defaultEpsilon(d)))) r += area(f, defaultEpsilon(d), OU::point(g.center()));
    return r;
}
template<class D> double M01_contained_should(const Sg& g, const D& d) { return inside1(g, d); }
template<class D> double M01_contained_should(const Ea& g, const D& d) { return inside1(g, d); }
template<class D> double M01_contained_should(const Ci& g, const D& d) { return inside1(g, d); }
template<class D> double M01_contained_should(const El& g, const D& d) { return inside1(g, d); }
template<class D> double M01_contained_should(const Ed& g, const D& d) { return inside1(g, d); }
template<class D> double M01_contained_should(const Qu& g, const D& d) { return inside2(g, d); }
template<class D> double M01_contained_should(const Po& g, const D& d) { return inside2(g, d); }
template<class D> double M01_contained_should(const Di& g, const D& d) { return inside2(g, d); }
template<class D> double M01_contained_should(const Fa& g, const D& d)
{
    double r = 0.0;
    for (const auto& f : OU::getFaces(OU::intersect(g, OU::getShape(d), defaultEpsilon(d)))) r += area(f, prec, gp_Pnt());
    return r;
}
template<class D> double M01_contained_should(const Cs& g, const D& d)
{
    double r = 0.0;
    for (const auto& f : OU::getFaces(OU::intersect(OU::getShape(g), OU::getShape(d), defaultEpsilon(d)))) r += area(f, prec, gp_Pnt());
    return r;
}
template<class G, class D> void cm(const G& g, const D& d) { M01_contained_is(g, d); M01_contained_should(g, d); }
template<class D> void cms(const D& d, Pt p, Sg s, Ci c, El e, Ea ea, Ed ed, Qu q, Po po, Di di, Fa f, Cs cs)
{ cm(cs, d); cm(p, d); cm(s, d); cm(c, d); cm(e, d); cm(ea, d); cm(ed, d); cm(q, d); cm(po, d); cm(di, d); cm(f, d); }
inline void containedInstances(Bx b, Cy cy, Sp sp, So so, Pt p, Sg s, Ci c, El e, Ea ea, Ed ed, Qu q, Po po, Di di, Fa f, Cs cs)
{ cms(b, p, s, c, e, ea, ed, q, po, di, f, cs); cms(cy, p, s, c, e, ea, ed, q, po, di, f, cs); cms(sp, p, s, c, e, ea, ed, q, po, di, f, cs); cms(so, p, s, c, e, ea, ed, q, po, di, f, cs); }
// ---- G02: the fan of a polygon with many corners (nothing in the number of corners is special)
inline std::vector<Tr> G02_triangulate9_is(const Pt& a, const Pt& b, const Pt& c, const Pt& d, const Pt& e, const Pt& f, const Pt& g, const Pt& h, const Pt& i)
{ std::vector<Pt> v{a, b, c, d, e, f, g, h, i}; return triangulate(v); }
inline std::vector<Tr> G02_triangulate9_should(const Pt& a, const Pt& b, const Pt& c, const Pt& d, const Pt& e, const Pt& f, const Pt& g, const Pt& h, const Pt& i)
{ return {Tr(a, b, c), Tr(a, c, d), Tr(a, d, e), Tr(a, e, f), Tr(a, f, g), Tr(a, g, h), Tr(a, h, i)}; }
inline std::vector<Tr> G02_triangulate3_is(const Pt& a, const Pt& b, const Pt& c) { std::vector<Pt> v{a, b, c}; return triangulate(v); }
inline std::vector<Tr> G02_triangulate3_should(const Pt& a, const Pt& b, const Pt& c) { return {Tr(a, b, c)}; }
inline std::vector<Tr> G02_triangulate4_is(const Pt& a, const Pt& b, const Pt& c, const Pt& d) { std::vector<Pt> v{a, b, c, d}; return triangulate(v); }
inline std::vector<Tr> G02_triangulate4_should(const Pt& a, const Pt& b, const Pt& c, const Pt& d) { return {Tr(a, b, c), Tr(a, c, d)}; }
}
#endif
