#include <frackit/intersection/intersect.hh>
#include <frackit/intersection/intersectionangle.hh>
#include <frackit/intersection/emptyintersection.hh>
using namespace Frackit;
template<class A, class B> void two(const A& a, const B& b)
{ auto r = intersect(a, b, 0.1); (void) isEmptyIntersection(r); auto r2 = intersect(a, b); auto r3 = intersect(b, a, 0.1); auto r4 = intersect(b, a); (void)r2; (void)r3; (void)r4; }
template<class A, class B> void ang(const A& a, const B& b)
{ IntersectionAngle<double> e; auto r = intersect(a, b, 0.1); (void) e(a, b, r); auto r2 = intersect(b, a, 0.1); (void) e(b, a, r2); }
void all(Line<double,3> l, Plane<double,3> pl, Segment<double,1> s1, Segment<double,2> s2, Segment<double,3> s, Quadrilateral<double,3> q, Polygon<double,3> pg, Disk<double> dk, CylinderSurface<double> cs, TopoDS_Face fa)
{
    two(s, s); two(pl, pl); two(pl, l); two(dk, l); two(q, l); two(dk, dk); two(q, q); two(pg, pg); two(q, dk); two(pg, dk); two(cs, dk); two(cs, q); two(cs, pg); two(cs, fa); two(fa, fa);
    two(dk, fa); two(q, fa); two(pg, fa);
    intersect(q, pg, 0.1);
    ang(dk, dk); ang(q, q); ang(pg, pg); ang(q, dk); ang(pg, dk); ang(cs, dk); ang(cs, q); ang(cs, pg); ang(cs, fa); ang(fa, fa); ang(dk, fa); ang(q, fa); ang(pg, fa);
    IntersectionAngle<double> e; e(pl, pl, intersect(pl, pl, 0.1));
}
