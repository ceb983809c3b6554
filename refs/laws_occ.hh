// Laws of the kernel wrappers: X_is is what the library computes, X_should what it has to compute (never executed).
#ifndef VERIF_LAWS_OCC_HH
#define VERIF_LAWS_OCC_HH
#include <frackit/occ/breputilities.hh>
#include <frackit/occ/geomutilities.hh>
#include <frackit/occ/gputilities.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/box.hh>
#include <BRepAlgoAPI_Cut.hxx>
namespace Law {
using namespace Frackit;
namespace OU = Frackit::OCCUtilities;
using Pt = Point<double, 3>; using Sg = Segment<double, 3>; using Vc = Vector<double, 3>; using Dr = Direction<double, 3>; using El = Ellipse<double, 3>; using Ea = EllipseArc<double, 3>;
using Qu = Quadrilateral<double, 3>; using Po = Polygon<double, 3>; using Di = Disk<double>; using Cs = CylinderSurface<double>; using Cy = Cylinder<double>; using Sp = Sphere<double>; using Bx = Box<double>;
using Ci = Circle<double, 3>;
// ---- O01: boundary representations of the shapes
inline gp_Pnt gp(const Pt& p) { return gp_Pnt(p.x(), p.y(), p.z()); }
inline gp_Dir gd(const Dr& p) { return gp_Dir(p.x(), p.y(), p.z()); }
inline TopoDS_Vertex vertex(const gp_Pnt& p)
{
    BRepBuilderAPI_MakeVertex m(p);
    m.Build();
    if (!m.IsDone()) throw std::runtime_error("vertex");
    return TopoDS::Vertex(m.Shape());
}
inline TopoDS_Edge straight(const gp_Pnt& a, const gp_Pnt& b)
{
    BRepBuilderAPI_MakeEdge m(a, b);
    m.Build();
    if (!m.IsDone()) throw std::runtime_error("edge");
    return TopoDS::Edge(m.Shape());
}
inline auto O01_shape_should(const Pt& p) { return vertex(OU::point(p)); }
inline auto O01_shape_should(const Point<double, 2>& p) { return vertex(OU::point(p)); }
inline auto O01_shape_should(const Point<double, 1>& p) { return vertex(OU::point(p)); }
inline auto O01_shape_should(const Sg& s) { return straight(OU::point(s.source()), OU::point(s.target())); }
inline auto O01_shape_should(const Segment<double, 2>& s) { return straight(OU::point(s.source()), OU::point(s.target())); }
inline auto cylinderMaker(const Cs& c)
{
    const Ci low = c.lowerBoundingCircle();
    return BRepPrimAPI_MakeCylinder(gp_Ax2(OU::point(low.center()), OU::direction(low.normal()), OU::direction(low.base1())), low.radius(), c.height(), 2.0*M_PI);
}
inline TopoDS_Solid O01_shape_should(const Cy& c)
{
    auto m = cylinderMaker(c.lateralFace());
    m.Build();
    if (!m.IsDone()) throw std::runtime_error("cylinder");
    return TopoDS::Solid(m.Shape());
}
inline TopoDS_Face O01_shape_should(const Cs& c)
{
    auto m = cylinderMaker(c);
    m.Build();
    if (!m.IsDone()) throw std::runtime_error("cylinder");
    return m.Cylinder().LateralFace();
}
inline gp_Elips elips(const El& e)
{ return gp_Elips(gp_Ax2(OU::point(e.center()), OU::direction(e.normal()), OU::direction(e.majorAxis())), e.majorAxisLength(), e.minorAxisLength()); }
inline TopoDS_Wire ring(const gp_Elips& e) { return BRepBuilderAPI_MakeWire(BRepBuilderAPI_MakeEdge(e)); }
inline TopoDS_Wire O01_shape_should(const El& e) { return ring(elips(e)); }
inline TopoDS_Wire O01_shape_should(const Ci& c) { return OU::getShape(El(c.center(), c.base1(), c.base2(), c.radius(), c.radius())); }
inline TopoDS_Edge O01_shape_should(const Ea& a) { return BRepBuilderAPI_MakeEdge(OU::getGeomHandle(a)); }
inline TopoDS_Face O01_shape_should(const Di& d)
{ return BRepBuilderAPI_MakeFace(ring(gp_Elips(gp_Ax2(OU::point(d.center()), OU::direction(d.normal()), OU::direction(d.majorAxis())), d.majorAxisLength(), d.minorAxisLength()))); }
inline TopoDS_Face O01_shape_should(const Qu& q)
{
    // the corners run around the shape in the order 0, 1, 3, 2; neighbouring edges share their vertex
    const TopoDS_Vertex a = OU::getShape(q.corner(0)), b = OU::getShape(q.corner(1)), c = OU::getShape(q.corner(3)), d = OU::getShape(q.corner(2));
    const TopoDS_Edge ab = BRepBuilderAPI_MakeEdge(a, b), bc = BRepBuilderAPI_MakeEdge(b, c), cd = BRepBuilderAPI_MakeEdge(c, d), da = BRepBuilderAPI_MakeEdge(d, a);
    const TopoDS_Wire w = BRepBuilderAPI_MakeWire(ab, bc, cd, da);
    return BRepBuilderAPI_MakeFace(w);
}
inline TopoDS_Face O01_shape_should(const Po& p)
{
    const auto n = p.numCorners();
    std::vector<TopoDS_Vertex> v;
    for (unsigned int i = 0; i < n; ++i) v.push_back(OU::getShape(p.corner(i)));
    const TopoDS_Edge first = BRepBuilderAPI_MakeEdge(v[0], v[1]);
    TopoDS_Wire w = BRepBuilderAPI_MakeWire(first);
    for (unsigned int i = 1; i < n; ++i)
    {
        const TopoDS_Edge e = BRepBuilderAPI_MakeEdge(v[i], v[(i + 1) % n]);
        w = BRepBuilderAPI_MakeWire(w, e);
    }
    return BRepBuilderAPI_MakeFace(w);
}
inline TopoDS_Solid O01_shape_should(const Bx& b)
{
    BRepPrimAPI_MakeBox m(gp_Pnt(b.xMin(), b.yMin(), b.zMin()), gp_Pnt(b.xMax(), b.yMax(), b.zMax()));
    m.Build();
    if (!m.IsDone()) throw std::runtime_error("box");
    return TopoDS::Solid(m.Shape());
}
inline TopoDS_Solid O01_shape_should(const Sp& s)
{
    BRepPrimAPI_MakeSphere m(OU::point(s.center()), s.radius());
    m.Build();
    if (!m.IsDone()) throw std::runtime_error("sphere");
    return TopoDS::Solid(m.Shape());
}
inline TopoDS_Vertex O01_shape_should(const TopoDS_Vertex& s) { return s; }
inline TopoDS_Edge O01_shape_should(const TopoDS_Edge& s) { return s; }
inline TopoDS_Wire O01_shape_should(const TopoDS_Wire& s) { return s; }
inline TopoDS_Face O01_shape_should(const TopoDS_Face& s) { return s; }
inline TopoDS_Shell O01_shape_should(const TopoDS_Shell& s) { return s; }
inline TopoDS_Solid O01_shape_should(const TopoDS_Solid& s) { return s; }
inline TopoDS_Compound O01_shape_should(const TopoDS_Compound& s) { return s; }
template<class G> auto O01_shape_is(const G& g) { return OU::getShape(g); }
inline void shapes(Pt p, Point<double, 2> p2, Point<double, 1> p1, Sg s, Segment<double, 2> s2, Cy c, Cs cs, El e, Ci ci, Ea ea, Di d, Qu q, Po po, Bx b, Sp sp,
                   TopoDS_Vertex a1, TopoDS_Edge a2, TopoDS_Wire a3, TopoDS_Face a4, TopoDS_Shell a5, TopoDS_Solid a6, TopoDS_Compound a7)
{
    O01_shape_is(p); O01_shape_is(p2); O01_shape_is(p1); O01_shape_is(s); O01_shape_is(s2); O01_shape_is(c); O01_shape_is(cs); O01_shape_is(e); O01_shape_is(ci); O01_shape_is(ea); O01_shape_is(d);
    O01_shape_is(q); O01_shape_is(po); O01_shape_is(b); O01_shape_is(sp); O01_shape_is(a1); O01_shape_is(a2); O01_shape_is(a3); O01_shape_is(a4); O01_shape_is(a5); O01_shape_is(a6); O01_shape_is(a7);
}
// ---- curves and surfaces
inline Handle(Geom_Curve) O01_curve_is(const El& e) { return OU::getGeomHandle(e); }
inline Handle(Geom_Curve) O01_curve_should(const El& e) { return new Geom_Ellipse(elips(e)); }
inline Handle(Geom_Curve) O01_curve_is(const Ea& a) { return OU::getGeomHandle(a); }
inline Handle(Geom_Curve) O01_curve_should(const Ea& a)
{
    const double s = a.sourceAngleOnEllipse(), t = a.targetAngleOnEllipse();
    return new Geom_TrimmedCurve(OU::getGeomHandle(a.supportingEllipse()), s, t < s ? t + 2.0*M_PI : t);
}
inline Handle(Geom_Curve) O01_curve_is(const TopoDS_Edge& e) { return OU::getGeomHandle(e); }
inline Handle(Geom_Curve) O01_curve_should(const TopoDS_Edge& e)
{
    double a, b;
    Handle(Geom_Curve) c = BRep_Tool::Curve(e, a, b);
    return new Geom_TrimmedCurve(c, a, b);
}
inline Handle(Geom_Surface) O01_surface_is(const TopoDS_Face& f) { return OU::getGeomHandle(f); }
inline Handle(Geom_Surface) O01_surface_should(const TopoDS_Face& f) { return BRep_Tool::Surface(f); }
// ---- conversions
inline gp_Pnt O01_topoint_is(const Pt& p) { return OU::point(p); }
inline gp_Pnt O01_topoint_should(const Pt& p) { return gp_Pnt(p.x(), p.y(), p.z()); }
inline gp_Pnt O01_topoint_is(const Point<double, 2>& p) { return OU::point(p); }
inline gp_Pnt O01_topoint_should(const Point<double, 2>& p) { return gp_Pnt(p.x(), p.y(), 0.0); }
inline gp_Pnt O01_topoint_is(const Point<double, 1>& p) { return OU::point(p); }
inline gp_Pnt O01_topoint_should(const Point<double, 1>& p) { return gp_Pnt(p.x(), 0.0, 0.0); }
inline Pt O01_frompoint_is(const gp_Pnt& p) { return OU::point(p); }
inline Pt O01_frompoint_should(const gp_Pnt& p) { return Pt(p.X(), p.Y(), p.Z()); }
inline Pt O01_frompoint_is(const TopoDS_Vertex& v) { return OU::point(v); }
inline Pt O01_frompoint_should(const TopoDS_Vertex& v) { const gp_Pnt p = BRep_Tool::Pnt(v); return Pt(p.X(), p.Y(), p.Z()); }
inline gp_Dir O01_todirection_is(const Dr& p) { return OU::direction(p); }
inline gp_Dir O01_todirection_should(const Dr& p) { return gp_Dir(p.x(), p.y(), p.z()); }
inline gp_Dir O01_todirection_is(const Direction<double, 2>& p) { return OU::direction(p); }
inline gp_Dir O01_todirection_should(const Direction<double, 2>& p) { return gp_Dir(p.x(), p.y(), 0.0); }
inline gp_Dir O01_todirection_is(const Direction<double, 1>& p) { return OU::direction(p); }
inline gp_Dir O01_todirection_should(const Direction<double, 1>& p) { return gp_Dir(p.x(), 0.0, 0.0); }
inline Dr O01_fromdirection_is(const gp_Dir& p) { return OU::direction(p); }
inline Dr O01_fromdirection_should(const gp_Dir& p) { return Dr(Vc(p.X(), p.Y(), p.Z())); }
inline gp_Vec O01_tovector_is(const Vc& p) { return OU::vector(p); }
inline gp_Vec O01_tovector_should(const Vc& p) { return gp_Vec(p.x(), p.y(), p.z()); }
inline Vc O01_fromvector_is(const gp_Vec& p) { return OU::vector(p); }
inline Vc O01_fromvector_should(const gp_Vec& p) { return Vc(p.X(), p.Y(), p.Z()); }
inline TopoDS_Edge O01_makeedge_is(const Pt& a, const Pt& b) { return OU::makeEdge(a, b); }
inline TopoDS_Edge O01_makeedge_should(const Pt& a, const Pt& b) { return straight(gp(a), gp(b)); }
// ---- parts of a boundary representation
template<class S> std::vector<TopoDS_Vertex> O01_vertices_is(const S& s) { return OU::getVertices(s); }
template<class S> std::vector<TopoDS_Vertex> O01_vertices_should(const S& s)
{ std::vector<TopoDS_Vertex> r; for (TopExp_Explorer e(s, TopAbs_VERTEX); e.More(); e.Next()) r.push_back(TopoDS::Vertex(e.Current())); return r; }
template<class S> std::vector<TopoDS_Edge> O01_edges_is(const S& s) { return OU::getEdges(s); }
template<class S> std::vector<TopoDS_Edge> O01_edges_should(const S& s)
{ std::vector<TopoDS_Edge> r; for (TopExp_Explorer e(s, TopAbs_EDGE); e.More(); e.Next()) r.push_back(TopoDS::Edge(e.Current())); return r; }
template<class S> std::vector<TopoDS_Wire> O01_wires_is(const S& s) { return OU::getWires(s); }
template<class S> std::vector<TopoDS_Wire> O01_wires_should(const S& s)
{ std::vector<TopoDS_Wire> r; for (TopExp_Explorer e(s, TopAbs_WIRE); e.More(); e.Next()) r.push_back(TopoDS::Wire(e.Current())); return r; }
template<class S> std::vector<TopoDS_Face> O01_faces_is(const S& s) { return OU::getFaces(s); }
template<class S> std::vector<TopoDS_Face> O01_faces_should(const S& s)
{ std::vector<TopoDS_Face> r; for (TopExp_Explorer e(s, TopAbs_FACE); e.More(); e.Next()) r.push_back(TopoDS::Face(e.Current())); return r; }
template<class S> std::vector<TopoDS_Shell> O01_shells_is(const S& s) { return OU::getShells(s); }
template<class S> std::vector<TopoDS_Shell> O01_shells_should(const S& s)
{ std::vector<TopoDS_Shell> r; for (TopExp_Explorer e(s, TopAbs_SHELL); e.More(); e.Next()) r.push_back(TopoDS::Shell(e.Current())); return r; }
template<class S> std::vector<TopoDS_Solid> O01_solids_is(const S& s) { return OU::getSolids(s); }
template<class S> std::vector<TopoDS_Solid> O01_solids_should(const S& s)
{ std::vector<TopoDS_Solid> r; for (TopExp_Explorer e(s, TopAbs_SOLID); e.More(); e.Next()) r.push_back(TopoDS::Solid(e.Current())); return r; }
template<class S> void parts(const S& s)
{
    O01_vertices_is(s); O01_edges_is(s); O01_wires_is(s); O01_faces_is(s); O01_shells_is(s); O01_solids_is(s);
    O01_vertices_should(s); O01_edges_should(s); O01_wires_should(s); O01_faces_should(s); O01_shells_should(s); O01_solids_should(s);
}
inline void partInstances(TopoDS_Shape s, TopoDS_Solid so, TopoDS_Face f) { parts(s); parts(so); parts(f); }
inline std::vector<TopoDS_Edge> O01_overlap_is(const std::vector<TopoDS_Edge>& a, const std::vector<TopoDS_Edge>& b) { return OU::getOverlapEdges(a, b); }
inline std::vector<TopoDS_Edge> O01_overlap_should(const std::vector<TopoDS_Edge>& a, const std::vector<TopoDS_Edge>& b)
{
    std::vector<TopoDS_Edge> r;
    for (const auto& e : a)
        if (std::any_of(b.begin(), b.end(), [&e] (const auto& f) { return f.IsSame(e); })) r.push_back(e);
    return r;
}
inline std::vector<TopoDS_Edge> O01_overlapfaces_is(const TopoDS_Face& a, const TopoDS_Face& b) { return OU::getOverlapEdges(a, b); }
inline std::vector<TopoDS_Edge> O01_overlapfaces_should(const TopoDS_Face& a, const TopoDS_Face& b) { return OU::getOverlapEdges(OU::getEdges(a), OU::getEdges(b)); }

// ---- O02: operations of the kernel
inline TopoDS_Shape O02_translate_is(const TopoDS_Shape& s, const Vc& v) { return OU::translate(s, v); }
inline TopoDS_Shape O02_translate_should(const TopoDS_Shape& s, const Vc& v)
{
    gp_Trsf t;
    t.SetTranslation(gp_Vec(v.x(), v.y(), v.z()));
    BRepBuilderAPI_Transform m(t);
    m.Perform(s, Standard_False);
    if (!m.IsDone()) throw std::runtime_error("translate");
    return m.Shape();
}
inline TopoDS_Shape O02_cut_is(const TopoDS_Shape& a, const TopoDS_Shape& b, double eps) { return OU::cut(a, b, eps); }
inline TopoDS_Shape O02_cut_should(const TopoDS_Shape& a, const TopoDS_Shape& b, double eps)
{
    BRepAlgoAPI_Cut m(a, b);
    m.SetFuzzyValue(eps);
    m.Build();
    if (!m.IsDone()) throw std::runtime_error("cut");
    return m.Shape();
}
inline TopoDS_Shape O02_common_is(const TopoDS_Shape& a, const TopoDS_Shape& b, double eps) { return OU::intersect(a, b, eps); }
inline TopoDS_Shape O02_common_should(const TopoDS_Shape& a, const TopoDS_Shape& b, double eps)
{
    BRepAlgoAPI_Common m(a, b);
    m.SetFuzzyValue(eps);
    m.Build();
    if (!m.IsDone()) throw std::runtime_error("common");
    return m.Shape();
}
inline TopTools_ListOfShape list(const std::vector<TopoDS_Shape>& v)
{
    TopTools_ListOfShape l;
    for (const auto& s : v) l.Append(s);
    return l;
}
inline TopoDS_Shape O02_fragment_is(const std::vector<TopoDS_Shape>& v, double eps) { return OU::fragment(v, eps); }
inline TopoDS_Shape O02_fragment_should(const std::vector<TopoDS_Shape>& v, double eps)
{
    BRepAlgoAPI_BuilderAlgo m;
    m.SetArguments(list(v));
    m.SetFuzzyValue(eps);
    m.Build();
    if (!m.IsDone()) throw std::runtime_error("fragment");
    return m.Shape();
}
inline TopoDS_Shape O02_fuse_is(const std::vector<TopoDS_Shape>& v, double eps) { return OU::fuse(v, eps); }
inline TopoDS_Shape O02_fuse_should(const std::vector<TopoDS_Shape>& v, double eps)
{
    BRepAlgoAPI_Fuse m;
    m.SetArguments(list(v));
    m.SetTools(list(v));
    m.SetFuzzyValue(eps);
    m.Build();
    if (!m.IsDone()) throw std::runtime_error("fuse");
    return m.Shape();
}
inline TopoDS_Shape O02_read_is(const std::string& n) { return OU::readShape(n); }
inline TopoDS_Shape O02_read_should(const std::string& n)
{
    TopoDS_Shape s;
    std::ifstream f(n);
    BRepTools::Read(s, f, BRep_Builder());
    if (s.IsNull()) throw std::runtime_error("read");
    return s;
}
}
#endif
