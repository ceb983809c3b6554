// Reference model of the intersection angles (never executed).
#ifndef VERIF_ANGLE_REF_HH
#define VERIF_ANGLE_REF_HH
#include "intersect_ref.hh"
#include <frackit/intersection/intersectionangle.hh>
#include <frackit/intersection/emptyintersection.hh>
#include <frackit/geometryutilities/getboundingbox.hh>
#include <frackit/precision/defaultepsilon.hh>
#include <frackit/geometry/sphere.hh>
#include <GeomAPI_ProjectPointOnSurf.hxx>
#include <BRepBndLib.hxx>
#include <Bnd_Box.hxx>
namespace Ref {
inline double between(const Pl& a, const Pl& b) { return std::acos(std::min(1.0, std::abs(Vc(a.normal())*Vc(b.normal())))); }
inline Pl plane(const Di& d, const Pt&) { return d.supportingPlane(); }
inline Pl plane(const Qu& d, const Pt&) { return d.supportingPlane(); }
inline Pl plane(const Po& d, const Pt&) { return d.supportingPlane(); }
inline Pl plane(const Cs& c, const Pt& p) { return c.getTangentPlane(p); }
inline Pl plane(const Fa& f, const Pt& p)
{
    const auto s = OU::getGeomHandle(f);
    GeomAPI_ProjectPointOnSurf proj(OU::point(p), s);
    double u, v;
    proj.LowerDistanceParameters(u, v);
    gp_Pnt q;
    gp_Vec du, dv;
    s->D1(u, v, q, du, dv);
    return Pl(p, Dr(crossProduct(OU::vector(du), OU::vector(dv))));
}
template<class A, class B> double angle(const A& a, const B& b, const Pt& p) { return between(plane(a, p), plane(b, p)); }
template<class A, class B> double angle(const A& a, const B& b, const Sg& s) { return between(plane(a, s.source()), plane(b, s.source())); }
template<class A, class B> double angle(const A& a, const B& b, const Ea& arc)
{
    double r = std::numeric_limits<double>::max();
    for (unsigned int i = 0; i <= 4; ++i) r = std::min(r, angle(a, b, arc.getPoint(0.25*i)));
    return r;
}
template<class A, class B> double angle(const A& a, const B& b, const El& e)
{
    double r = std::numeric_limits<double>::max();
    for (unsigned int i = 0; i <= 8; ++i) r = std::min(r, angle(a, b, e.getPoint(0.125*i)));
    return r;
}
template<class A, class B> double angle(const A& a, const B& b, const TopoDS_Edge& e)
{
    const auto c = OU::getGeomHandle(e);
    const double t0 = c->FirstParameter(), t1 = c->LastParameter();
    double r = std::numeric_limits<double>::max();
    for (unsigned int i = 0; i <= 4; ++i) r = std::min(r, angle(a, b, OU::point(c->Value(t0 + 0.25*i*(t1 - t0)))));
    return r;
}
// a coplanar overlap of two planar shapes is refused by the intersection already
template<class A, class B> double angle(const A&, const B&, const Fa&)
{
    if (!std::is_same<A, Fa>::value && !std::is_same<B, Fa>::value) throw std::runtime_error("none");
    return 0.0;
}
template<class A, class B> double angle(const A&, const B&, const No&) { throw std::runtime_error("none"); }
template<class A, class B> double angle(const A&, const B&, const Po&) { throw std::runtime_error("none"); }
template<class A, class B, class... T> double angle(const A& a, const B& b, const std::variant<T...>& v)
{ return std::visit([&] (const auto& x) { return angle(a, b, x); }, v); }
template<class A, class B, class T> double angle(const A& a, const B& b, const std::vector<T>& v)
{
    double r = std::numeric_limits<double>::max();
    for (const auto& x : v) r = std::min(r, angle(a, b, x));
    return r;
}
template<class A, class B> void angs(const A& a, const B& b) { angle(a, b, intersect(a, b, 0.1)); angle(b, a, intersect(b, a, 0.1)); }
inline void angleInstances(const Di& d, const Qu& q, const Po& p, const Cs& c, const Fa& f)
{
    angs(d, d); angs(q, q); angs(p, p); angs(q, d); angs(p, d); angs(c, d); angs(c, q); angs(c, p); angs(f, f); angs(d, f); angs(q, f); angs(p, f);
}
inline bool doInt(const BoundingBox<double>& a, const BoundingBox<double>& b, double eps)
{
    return a.xMin() - eps <= b.xMax() && b.xMin() - eps <= a.xMax()
        && a.yMin() - eps <= b.yMax() && b.yMin() - eps <= a.yMax()
        && a.zMin() - eps <= b.zMax() && b.zMin() - eps <= a.zMax();
}
// ---- default tolerances: the kernel precision times the size of the shape
inline double prec() { return Frackit::Precision<double>::confusion(); }
template<int n> double epsilonOf(const Segment<double, n>& s) { return prec()*s.length(); }
inline double epsilonOf(const Circle<double, 3>& c) { return prec()*c.radius(); }
inline double epsilonOf(const El& e) { return prec()*0.5*(e.majorAxisLength() + e.minorAxisLength()); }
inline double epsilonOf(const Di& d) { return epsilonOf(d.boundingEllipse()); }
inline double epsilonOf(const Qu& q) { return prec()*0.5*std::sqrt(q.area()); }
inline double epsilonOf(const Po& q) { return prec()*0.5*std::sqrt(q.area()); }
inline double epsilonOf(const Cs& c) { return prec()*0.5*(c.radius() + c.height()); }
inline double epsilonOf(const Box<double>& b) { return prec()*Sg(b.corner(0), b.corner(7)).length(); }
inline double epsilonOf(const Sphere<double>& s) { return prec()*s.radius(); }
inline double epsilonOf(const TopoDS_Shape& s) { const auto b = OU::getBoundingBox(s); return prec()*Sg(b.corner(0), b.corner(7)).length(); }
inline double epsilonOf(const Pt&) { return prec(); }
inline double epsilonOf(const Ln&) { return prec(); }
inline double epsilonOf(const Pl&) { return prec(); }
inline double epsilonOf(const Cylinder<double>&) { return prec(); }
inline void epsInstances(Segment<double, 1> s1, Segment<double, 2> s2, Sg s3, TopoDS_Shape sh, Circle<double, 3> c, El e, Di d, Qu q, Po p, Cs cs, Box<double> b, Sphere<double> sp, Pt pt, Ln l, Pl pl, Cylinder<double> cy)
{
    epsilonOf(s1); epsilonOf(s2); epsilonOf(s3);
    defaultEpsilon(s1); defaultEpsilon(s2); defaultEpsilon(s3); defaultEpsilon(sh); defaultEpsilon(c); defaultEpsilon(e); defaultEpsilon(d); defaultEpsilon(q); defaultEpsilon(p);
    defaultEpsilon(cs); defaultEpsilon(b); defaultEpsilon(sp); defaultEpsilon(pt); defaultEpsilon(l); defaultEpsilon(pl); defaultEpsilon(cy);
}
// ---- bounding boxes
inline BoundingBox<double> kernelBox(const TopoDS_Shape& s)
{
    Bnd_Box box;
    BRepBndLib::Add(s, box);
    double x0, y0, z0, x1, y1, z1;
    box.Get(x0, y0, z0, x1, y1, z1);
    return BoundingBox<double>(x0, y0, z0, x1, y1, z1);
}
inline BoundingBox<double> bboxOf(const TopoDS_Shape& s) { return kernelBox(s); }
inline BoundingBox<double> bboxOf(const Di& s) { return kernelBox(OU::getShape(s)); }
inline BoundingBox<double> bboxOf(const Qu& s) { return kernelBox(OU::getShape(s)); }
inline BoundingBox<double> bboxOf(const Po& s) { return kernelBox(OU::getShape(s)); }
inline BoundingBox<double> bboxOf(const Cs& s) { return kernelBox(OU::getShape(s)); }
inline BoundingBox<double> bboxOf(const Cylinder<double>& s) { return kernelBox(OU::getShape(s)); }
inline BoundingBox<double> bboxOf(const Sphere<double>& s) { return kernelBox(OU::getShape(s)); }
inline void bbInstances(TopoDS_Shape sh, Di d, Qu q, Po p, Cs c, Cylinder<double> cy, Sphere<double> sp, Box<double> b)
{
    OU::getBoundingBox(sh); getBoundingBox(d); getBoundingBox(q); getBoundingBox(p); getBoundingBox(c); getBoundingBox(cy); getBoundingBox(sp);
    doIntersect(b, b, 0.1); doIntersect(b, b);
}
// ---- emptiness
template<class G> bool isEmpty(const G&) { return std::is_same<G, No>::value; }
template<class... T> bool isEmpty(const std::variant<T...>& v) { return std::visit([&] (const auto& x) { return isEmpty(x); }, v); }
template<class T> bool isEmpty(const std::vector<T>& v)
{
    bool e = true;
    for (const auto& x : v) e = e && isEmpty(x);
    return e;
}
template<class A, class B> void emp(const A& a, const B& b) { const auto r = intersect(a, b, 0.1); isEmpty(r); isEmptyIntersection(r); }
inline void emptyInstances(const Sg& s, const Ln& l, const Pl& pl, const Di& d, const Qu& q, const Po& p, const Cs& c, const Fa& f)
{
    emp(s, s); emp(pl, pl); emp(pl, l); emp(d, l); emp(q, l); emp(d, d); emp(q, q); emp(p, p); emp(q, d); emp(p, d); emp(c, d); emp(c, q); emp(c, p); emp(c, f); emp(f, f); emp(d, f);
}
}
#endif
