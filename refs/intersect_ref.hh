// Reference model of the intersection algorithms (never executed: the analysis compares
// the value terms of these functions with those of the library).
#ifndef VERIF_INTERSECT_REF_HH
#define VERIF_INTERSECT_REF_HH
#include <frackit/intersection/intersect.hh>
#include <GeomAPI_IntSS.hxx>
#include <GeomAPI_IntCS.hxx>
#include <GeomAPI_ProjectPointOnCurve.hxx>
#include <Geom_Plane.hxx>
#include <Geom_Line.hxx>
#include <TopExp_Explorer.hxx>
namespace Ref {
using namespace Frackit;
namespace OU = Frackit::OCCUtilities;
using Pt = Point<double, 3>; using Sg = Segment<double, 3>; using Ln = Line<double, 3>; using Pl = Plane<double, 3>; using Vc = Vector<double, 3>; using Dr = Direction<double, 3>;
using El = Ellipse<double, 3>; using Ea = EllipseArc<double, 3>; using No = EmptyIntersection<3>; using Cs = CylinderSurface<double>;

// ---- supporting planes and lines
inline Intersection<Pl, Pl> plane_plane(const Pl& a, const Pl& b, double eps)
{
    using R = Intersection<Pl, Pl>;
    const gp_Dir na = OU::direction(a.normal()), nb = OU::direction(b.normal());
    const bool parallel = gp_Vec(na).IsParallel(gp_Vec(nb), Frackit::Precision<double>::angular());
    if (parallel && a.contains(b.supportingPoint(), eps)) return R(a);
    if (parallel) return R(No());
    Handle(Geom_Plane) ga = new Geom_Plane(OU::point(a.supportingPoint()), na);
    Handle(Geom_Plane) gb = new Geom_Plane(OU::point(b.supportingPoint()), nb);
    GeomAPI_IntSS algo(ga, gb, eps);
    if (!algo.IsDone()) throw std::runtime_error("kernel failure");
    return R(Ln(OU::point(algo.Line(1)->Value(0.0)), OU::direction(algo.Line(1)->DN(0.0, 1))));
}
inline Intersection<Pl, Ln> plane_line(const Pl& pl, const Ln& l, double eps)
{
    using R = Intersection<Pl, Ln>;
    const gp_Dir d = OU::direction(l.direction()), n = OU::direction(pl.normal());
    if (d.IsNormal(n, Frackit::Precision<double>::angular()))
    {
        const Pt onPlane = pl.projection(l.supportingPoint());
        if (Vc(l.supportingPoint(), onPlane).length() <= eps) return R(l);
        return R(No());
    }
    Handle(Geom_Surface) gp = new Geom_Plane(OU::point(pl.supportingPoint()), n);
    Handle(Geom_Line) gl = new Geom_Line(OU::point(l.supportingPoint()), d);
    GeomAPI_IntCS algo(gl, gp);
    if (!algo.IsDone()) throw std::runtime_error("kernel failure");
    const Pt p = OU::point(algo.Point(1));
    if (!pl.contains(p, eps)) return R(No());
    return R(p);
}
// ---- a planar shape and a line: the point, or the part of the line inside the shape, or the touching point on its rim
template<class G>
Intersection<G, Ln> planar_line(const G& g, const Ln& l, double len, double containsEps, double eps)
{
    using R = Intersection<G, Ln>;
    const auto pi = plane_line(g.supportingPlane(), l, eps);
    if (std::holds_alternative<Pt>(pi))
    {
        const Pt p = std::get<Pt>(pi);
        if (g.contains(p, containsEps, false)) return R(p);
        return R(No());
    }
    if (std::holds_alternative<No>(pi)) return R(No());
    const Pt foot = l.projection(g.center());
    Vc reach(l.direction());
    reach *= 20.0*len;
    Pt from = foot; from += reach;
    Pt to = foot; to -= reach;
    const auto trial = OU::makeEdge(from, to);
    const auto shape = OU::getShape(g);
    const auto common = OU::getEdges(OU::intersect(trial, shape, eps*0.1));
    if (common.size() == 1)
    {
        const auto ends = OU::getVertices(common[0]);
        return R(Sg(OU::point(ends[0]), OU::point(ends[1])));
    }
    const auto rest = OU::getVertices(OU::cut(trial, shape, eps*0.1));
    if (rest.size() == 2) return R(No());
    for (const auto& v : rest)
    {
        const Pt p = OU::point(v);
        if (p.isEqual(from, eps) || p.isEqual(to, eps)) continue;
        return R(p);
    }
    throw std::runtime_error("unexpected");
}
// ---- two segments: their overlap, the crossing point or a common corner
inline Intersection<Sg, Sg> segment_segment(const Sg& a, const Sg& b, double eps)
{
    using R = Intersection<Sg, Sg>;
    const Pt a0 = a.source(), a1 = a.target(), b0 = b.source(), b1 = b.target();
    const Dr da(Vc(a0, a1)), db(Vc(b0, b1));
    if (gp_Vec(da.x(), da.y(), da.z()).IsParallel(gp_Vec(db.x(), db.y(), db.z()), Frackit::Precision<double>::angular()))
    {
        if (!a.supportingLine().contains(b0, eps)) return R(No());
        const bool b0In = a.contains(b0, eps, false), b1In = a.contains(b1, eps, false);
        const bool a0In = b.contains(a0, eps, false), a1In = b.contains(a1, eps, false);
        if (b0In && b1In) return R(b);
        if (a0In && a1In) return R(a);
        // a common stretch, or the corner in which they touch
        if (b0In && a0In) { if (b0.isEqual(a0, eps)) return R(b0); return R(Sg(b0, a0)); }
        if (b0In && a1In) { if (b0.isEqual(a1, eps)) return R(b0); return R(Sg(b0, a1)); }
        if (b1In && a0In) { if (b1.isEqual(a0, eps)) return R(b1); return R(Sg(b1, a0)); }
        if (b1In && a1In) { if (b1.isEqual(a1, eps)) return R(b1); return R(Sg(b1, a1)); }
    }
    std::vector<TopoDS_Shape> both;
    both.push_back(OU::makeEdge(a0, a1));
    both.push_back(OU::makeEdge(b0, b1));
    const auto pieces = OU::getEdges(OU::fragment(both, eps*0.1));
    if (pieces.size() == 3 || pieces.size() == 4)
    {
        for (const auto& e : pieces)
            for (TopExp_Explorer x(e, TopAbs_VERTEX); x.More(); x.Next())
            {
                const Pt p = OU::point(TopoDS::Vertex(x.Current()));
                if (a.contains(p, eps) && b.contains(p, eps)) return R(p);
            }
        throw std::runtime_error("no crossing point found");
    }
    if (a0.isEqual(b0, eps) || a0.isEqual(b1, eps)) return R(a0);
    if (a1.isEqual(b0, eps) || a1.isEqual(b1, eps)) return R(a1);
    return R(No());
}
// ---- two planar shapes
template<class A, class B>
Intersection<A, B> planar_planar(const A& a, const B& b, double len, double ceps1, double ceps2, double eps)
{
    using R = Intersection<A, B>;
    const auto pp = plane_plane(a.supportingPlane(), b.supportingPlane(), eps);
    if (std::holds_alternative<No>(pp)) return R(No());
    if (!std::holds_alternative<Ln>(pp)) throw std::runtime_error("coplanar shapes are not supported");
    const Ln l = std::get<Ln>(pp);
    const auto ia = planar_line(a, l, len, ceps1, eps);
    const auto ib = planar_line(b, l, len, ceps2, eps);
    const bool sa = std::holds_alternative<Sg>(ia), sb = std::holds_alternative<Sg>(ib);
    if (sa && sb)
    {
        const auto s = segment_segment(std::get<Sg>(ia), std::get<Sg>(ib), eps);
        if (std::holds_alternative<Pt>(s)) return R(std::get<Pt>(s));
        if (std::holds_alternative<Sg>(s)) return R(std::get<Sg>(s));
        return R(No());
    }
    if (sa && std::holds_alternative<Pt>(ib) && std::get<Sg>(ia).contains(std::get<Pt>(ib), eps)) return R(std::get<Pt>(ib));
    if (sb && std::holds_alternative<Pt>(ia) && std::get<Sg>(ib).contains(std::get<Pt>(ia), eps)) return R(std::get<Pt>(ia));
    if (std::holds_alternative<Pt>(ia) && std::holds_alternative<Pt>(ib) && std::get<Pt>(ia).isEqual(std::get<Pt>(ib), eps)) return R(std::get<Pt>(ia));
    return R(No());
}
// ---- a cylinder surface and a planar shape
inline std::pair<Pt, Pt> ends(const TopoDS_Wire& w)
{
    TopoDS_Vertex v1, v2;
    TopExp::Vertices(w, v1, v2);
    return std::make_pair(OU::point(v1), OU::point(v2));
}
inline Ea arcOf(const TopoDS_Wire& w, const El& el, double eps)
{
    const auto pq = ends(w);
    const Ea fwd(el, pq.first, pq.second), bwd(el, pq.second, pq.first);
    const auto mf = OU::point(fwd.getPoint(0.5));
    const auto mb = OU::point(bwd.getPoint(0.5));
    unsigned int which = 0;
    for (const auto& e : OU::getEdges(w))
    {
        auto c = OU::getGeomHandle(e);
        GeomAPI_ProjectPointOnCurve onF(mf, c);
        GeomAPI_ProjectPointOnCurve onB(mb, c);
        if (onF.NbPoints() > 0 && onF.LowerDistance() < eps) { which = 1; break; }
        if (onB.NbPoints() > 0 && onB.LowerDistance() < eps) { which = 2; break; }
    }
    if (which == 1) return fwd;
    return bwd;
}
template<class G>
Intersection<Cs, G> cyl_planar(const Cs& cs, const G& g, double len, double eps)
{
    using R = Intersection<Cs, G>;
    const auto& pl = g.supportingPlane();
    const gp_Vec n(OU::direction(pl.normal())), ax(OU::direction(cs.direction()));
    const bool parallel = n.IsNormal(ax, Frackit::Precision<double>::angular());
    const bool orthogonal = n.IsParallel(ax, Frackit::Precision<double>::angular());
    El el;
    if (orthogonal)
        el = El(pl.projection(cs.centerSegment().source()), cs.base1(), cs.base2(), cs.radius(), cs.radius());
    else if (!parallel)
    {
        Vc along(cs.direction());
        along *= len;
        Dr major(Vc(g.center(), pl.projection(g.center() + along)));
        Dr minor(crossProduct(Vc(pl.normal()), Vc(major)));
        if (!isRightHandSystem(Vc(major), Vc(minor), Vc(pl.normal()))) major.invert();
        const double a = std::abs(cs.radius()/std::cos(n.Angle(ax)));
        const auto c = std::get<Pt>(plane_line(pl, cs.centerSegment().supportingLine(), eps));
        el = El(c, major, minor, a, cs.radius());
    }
    const bool elliptic = orthogonal || !parallel;
    const auto shape = OU::getShape(g);
    const auto solid = OU::getShape(cs.cylinder());
    const auto mantle = OU::getShape(cs);
    const auto inside = OU::intersect(shape, solid, eps*0.1);
    const bool outside = OU::getFaces(inside).empty();
    const auto rim = OU::getWires(shape);
    if (outside)
    {
        const auto wires = OU::getWires(OU::intersect(rim[0], mantle, eps*0.1));
        if (!wires.empty())
        {
            R result;
            for (const auto& w : wires)
            {
                if (elliptic) result.push_back(arcOf(w, el, eps));
                else { const auto pq = ends(w); result.push_back(Sg(pq.first, pq.second)); }
            }
            return result;
        }
    }
    std::vector<Pt> touching;
    for (const auto& v : OU::getVertices(OU::cut(rim[0], mantle, eps*0.1)))
    {
        const Pt p = OU::point(v);
        bool known = false;
        for (const auto& t : touching) if (t.isEqual(p, eps)) known = true;
        if (cs.contains(p, eps) && !known) touching.push_back(p);
    }
    if (outside)
    {
        R result;
        for (const auto& p : touching) result.push_back(p);
        if (result.empty()) return R({No()});
        return result;
    }
    std::vector<Ea> arcs;
    std::vector<Sg> segments;
    const auto insideRim = OU::getWires(inside);
    for (const auto& w : OU::getWires(OU::intersect(insideRim[0], mantle, eps*0.1)))
    {
        if (BRep_Tool::IsClosed(w)) return R({el});
        if (elliptic) arcs.push_back(arcOf(w, el, eps));
        else { const auto pq = ends(w); segments.push_back(Sg(pq.first, pq.second)); }
    }
    R result;
    for (const auto& p : touching)
    {
        bool covered = false;
        for (const auto& s : segments) if (s.contains(p, eps)) covered = true;
        for (const auto& a : arcs) if (a.contains(p, eps)) covered = true;
        if (!covered) result.push_back(p);
    }
    for (const auto& s : segments) result.push_back(s);
    for (const auto& a : arcs) result.push_back(a);
    if (result.empty()) return R({No()});
    return result;
}
// ---- two faces: common faces, then edges of the remainder not on those, then touching points
inline Intersection<TopoDS_Face, TopoDS_Face> face_face(const TopoDS_Face& a, const TopoDS_Face& b, double eps)
{
    using R = Intersection<TopoDS_Face, TopoDS_Face>;
    const auto faces = OU::getFaces(OU::intersect(a, b, eps));
    std::vector<TopoDS_Edge> edges;
    for (const auto& rest : OU::getFaces(OU::cut(a, b, eps)))
        for (const auto& w : OU::getWires(rest))
            for (const auto& e : OU::getEdges(OU::intersect(w, b, eps)))
            {
                bool skip = false;
                for (const auto& f : faces) if (OU::getEdges(OU::intersect(e, f, eps)).size() > 0) skip = true;
                for (const auto& k : edges) if (e.IsSame(k)) skip = true;
                if (!skip) edges.push_back(e);
            }
    std::vector<Pt> known;
    for (const auto& f : faces) for (const auto& v : OU::getVertices(f)) known.push_back(OU::point(v));
    for (const auto& e : edges) for (const auto& v : OU::getVertices(e)) known.push_back(OU::point(v));
    std::vector<Pt> onB, onA;
    for (const auto& w : OU::getWires(a)) for (const auto& v : OU::getVertices(OU::cut(w, b, eps))) onB.push_back(OU::point(v));
    for (const auto& w : OU::getWires(b)) for (const auto& v : OU::getVertices(OU::cut(w, a, eps))) onA.push_back(OU::point(v));
    std::vector<Pt> cand;
    for (const auto& p : onB) if (!OU::getVertices(OU::intersect(OU::getShape(p), b, eps)).empty()) cand.push_back(p);
    for (const auto& p : onA) if (!OU::getVertices(OU::intersect(OU::getShape(p), a, eps)).empty()) cand.push_back(p);
    std::vector<Pt> points;
    for (const auto& p : cand)
    {
        bool skip = false;
        for (const auto& q : known) if (q.isEqual(p, eps)) skip = true;
        for (const auto& q : points) if (q.isEqual(p, eps)) skip = true;
        if (!skip) points.push_back(p);
    }
    R result;
    for (const auto& p : points) result.push_back(p);
    for (const auto& e : edges) result.push_back(e);
    for (const auto& f : faces) result.push_back(f);
    if (result.empty()) return R({No()});
    return result;
}
// ---- the extent of the shapes involved, which the trial segment has to exceed
inline double sq(const Disk<double>& d) { return d.majorAxisLength()*d.majorAxisLength(); }
inline double sq(const Quadrilateral<double, 3>& q)
{
    double r = 0.0;
    for (unsigned int i = 0; i < q.numEdges(); ++i) r = std::max(r, q.edge(i).squaredLength());
    return r;
}
inline double sq(const Polygon<double, 3>& p, double f)
{
    double r = 0.0;
    for (unsigned int i = 0; i < p.numCorners(); ++i) r = std::max(r, f*Sg(p.center(), p.corner(i)).squaredLength());
    return r;
}
using Di = Disk<double>; using Qu = Quadrilateral<double, 3>; using Po = Polygon<double, 3>; using Fa = TopoDS_Face;
inline bool convex(const Di&) { return true; }
inline bool convex(const Qu& q) { return q.isConvex(); }
inline bool convex(const Po& p) { return p.isConvex(); }
template<class A, class B> inline void check(const A& a, const B& b)
{ if (!convex(a) || !convex(b)) throw std::runtime_error("concave"); }
template<class A, class B> inline bool apart(const A& a, const B& b, double eps)
{ return !doIntersect(getBoundingBox(a), getBoundingBox(b), eps); }
// ---- the public interface
inline auto isect(const Sg& a, const Sg& b, double eps)
{
    using R = Intersection<Sg, Sg>;
    if (apart(a, b, eps)) return R{No()};
    return segment_segment(a, b, eps);
}
inline auto isect(const Pl& a, const Pl& b, double eps) { return plane_plane(a, b, eps); }
inline auto isect(const Pl& a, const Ln& b, double eps) { return plane_line(a, b, eps); }
inline auto isect(const Di& a, const Ln& b, double eps) { return planar_line(a, b, a.majorAxisLength(), Frackit::Precision<double>::confusion(), eps); }
inline auto isect(const Qu& a, const Ln& b, double eps)
{
    if (!convex(a)) throw std::runtime_error("concave");
    double len = 0.0;
    for (unsigned int i = 0; i < a.numEdges(); ++i) len = std::max(len, a.edge(i).length());
    return planar_line(a, b, len, eps, eps);
}
inline auto isect(const Di& a, const Di& b, double eps)
{
    using R = Intersection<Di, Di>;
    if (apart(a, b, eps)) return R{No()};
    return planar_planar(a, b, std::max(a.majorAxisLength(), b.majorAxisLength()), Frackit::Precision<double>::confusion(), Frackit::Precision<double>::confusion(), eps);
}
inline auto isect(const Qu& a, const Qu& b, double eps)
{
    using R = Intersection<Qu, Qu>;
    if (apart(a, b, eps)) return R{No()};
    check(a, b);
    return planar_planar(a, b, std::sqrt(std::max(sq(a), sq(b))), eps, eps, eps);
}
inline auto isect(const Po& a, const Po& b, double eps)
{
    using R = Intersection<Po, Po>;
    if (apart(a, b, eps)) return R{No()};
    check(a, b);
    return planar_planar(a, b, std::sqrt(std::max(sq(a, 2.0), sq(b, 2.0))), eps, eps, eps);
}
inline auto isect(const Qu& a, const Di& b, double eps)
{
    using R = Intersection<Qu, Di>;
    if (apart(a, b, eps)) return R{No()};
    check(a, b);
    return planar_planar(a, b, std::sqrt(std::max(sq(a), sq(b))), eps, eps, eps);
}
inline auto isect(const Po& a, const Di& b, double eps)
{
    using R = Intersection<Po, Di>;
    if (apart(a, b, eps)) return R{No()};
    check(a, b);
    return planar_planar(a, b, std::sqrt(std::max(sq(a, 1.0), sq(b))), eps, eps, eps);
}
inline auto isect(const Cs& a, const Di& b, double eps)
{
    using R = Intersection<Cs, Di>;
    if (apart(a, b, eps)) return R{No()};
    return cyl_planar(a, b, b.majorAxisLength(), eps);
}
inline auto isect(const Cs& a, const Qu& b, double eps)
{
    using R = Intersection<Cs, Qu>;
    if (apart(a, b, eps)) return R{No()};
    if (!convex(b)) throw std::runtime_error("concave");
    return cyl_planar(a, b, std::sqrt(sq(b)), eps);
}
inline auto isect(const Cs& a, const Po& b, double eps)
{
    using R = Intersection<Cs, Po>;
    if (apart(a, b, eps)) return R{No()};
    if (!convex(b)) throw std::runtime_error("concave");
    return cyl_planar(a, b, std::sqrt(sq(b, 2.0)), eps);
}
inline auto isect(const Fa& a, const Fa& b, double eps)
{
    using R = Intersection<Fa, Fa>;
    if (apart(a, b, eps)) return R{No()};
    return face_face(a, b, eps);
}
inline auto isect(const Cs& a, const Fa& b, double eps)
{
    using R = Intersection<Fa, Fa>;
    if (apart(a, b, eps)) return R{No()};
    return face_face(OU::getShape(a), b, eps);
}
inline auto isect(const Di& a, const Fa& b, double eps) { return isect(OU::getShape(a), b, eps); }
inline auto isect(const Qu& a, const Fa& b, double eps) { return isect(OU::getShape(a), b, eps); }
inline auto isect(const Po& a, const Fa& b, double eps) { return isect(OU::getShape(a), b, eps); }
inline auto isect(const Ln& a, const Pl& b, double eps) { return isect(b, a, eps); }
inline auto isect(const Ln& a, const Di& b, double eps) { return isect(b, a, eps); }
inline auto isect(const Ln& a, const Qu& b, double eps) { return isect(b, a, eps); }
inline auto isect(const Di& a, const Qu& b, double eps) { return isect(b, a, eps); }
inline auto isect(const Di& a, const Po& b, double eps) { return isect(b, a, eps); }
inline auto isect(const Di& a, const Cs& b, double eps) { return isect(b, a, eps); }
inline auto isect(const Qu& a, const Cs& b, double eps) { return isect(b, a, eps); }
inline auto isect(const Po& a, const Cs& b, double eps) { return isect(b, a, eps); }
inline auto isect(const Fa& a, const Cs& b, double eps) { return isect(b, a, eps); }
inline auto isect(const Fa& a, const Di& b, double eps) { return isect(b, a, eps); }
inline auto isect(const Fa& a, const Qu& b, double eps) { return isect(b, a, eps); }
inline auto isect(const Fa& a, const Po& b, double eps) { return isect(b, a, eps); }
template<class A, class B> inline auto isectd(const A& a, const B& b) { return intersect(a, b, std::min(defaultEpsilon(a), defaultEpsilon(b))); }
// instances
template<class A, class B> void both(const A& a, const B& b) { isectd(a, b); isectd(b, a); }
inline void instances(const Pl& pl, const Ln& l, const Sg& s, const Disk<double>& d, const Quadrilateral<double, 3>& q, const Polygon<double, 3>& p, const Cs& c, const TopoDS_Face& f, double e)
{
    plane_plane(pl, pl, e); plane_line(pl, l, e); segment_segment(s, s, e); face_face(f, f, e);
    planar_line(d, l, e, e, e); planar_line(q, l, e, e, e); planar_line(p, l, e, e, e);
    planar_planar(d, d, e, e, e, e); planar_planar(q, q, e, e, e, e); planar_planar(p, p, e, e, e, e); planar_planar(q, d, e, e, e, e); planar_planar(p, d, e, e, e, e);
    both(s, s); both(pl, pl); both(pl, l); both(d, l); both(q, l); both(d, d); both(q, q); both(p, p); both(q, d); both(p, d); both(c, d); both(c, q); both(c, p); both(c, f); both(f, f);
    both(d, f); both(q, f); both(p, f);
    cyl_planar(c, d, e, e); cyl_planar(c, q, e, e); cyl_planar(c, p, e, e);
}
}
#endif
