// Type-level witnesses of the public interface (never linked or executed): every block has to compile,
// and its static assertions have to hold. A block starts with "//@ name"; what precedes the first is common.
#include <memory>
#include <vector>
#include <string>
#include <variant>
#include <type_traits>
#include <TopoDS_Vertex.hxx>
#include <TopoDS_Edge.hxx>
#include <TopoDS_Wire.hxx>
#include <TopoDS_Face.hxx>
#include <TopoDS_Shell.hxx>
#include <TopoDS_Solid.hxx>
#include <TopoDS_Compound.hxx>
#include <TopoDS_Shape.hxx>
#include <frackit/geometry/point.hh>
#include <frackit/geometry/vector.hh>
#include <frackit/geometry/direction.hh>
#include <frackit/geometry/line.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/plane.hh>
#include <frackit/geometry/triangle.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/boundingbox.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/dimension.hh>
#include <frackit/geometry/ctype.hh>
using namespace Frackit;
using P = Point<double, 3>; using V = Vector<double, 3>; using Dir = Direction<double, 3>; using L = Line<double, 3>; using S = Segment<double, 3>;
using Pl = Plane<double, 3>; using T = Triangle<double, 3>; using Q = Quadrilateral<double, 3>; using Po = Polygon<double, 3>; using C = Circle<double, 3>;
using E = Ellipse<double, 3>; using A = EllipseArc<double, 3>; using D = Disk<double>; using Cy = Cylinder<double>; using Cs = CylinderSurface<double>;
using H = HollowCylinder<double>; using B = Box<double>; using Sp = Sphere<double>; using BB = BoundingBox<double>; using F = TopoDS_Face;
template<class X> X& val();
template<class X, class Y> constexpr bool same = std::is_same_v<X, Y>;

//@ intersect: result types
#include <frackit/intersection/intersect.hh>
// the same alternatives, in any order
template<class X, class Vr> struct Has;
template<class X, class... Xs> struct Has<X, std::variant<Xs...>> { static constexpr bool value = (std::is_same_v<X, Xs> || ...); };
template<class V1, class V2> struct Alike;
template<class... Xs, class V2> struct Alike<std::variant<Xs...>, V2>
{ static constexpr bool value = (Has<Xs, V2>::value && ...) && sizeof...(Xs) == std::variant_size_v<V2>; };
template<class V1, class V2> struct Alike<std::vector<V1>, std::vector<V2>> : Alike<V1, V2> {};
template<class V1, class V2> struct Alike<std::vector<V1>, V2> { static constexpr bool value = false; };
template<class X, class Y, class Res> void pair()
{
    using R1 = decltype(intersect(val<const X>(), val<const Y>(), 1e-6));
    using R2 = decltype(intersect(val<const Y>(), val<const X>(), 1e-6));
    static_assert(same<R1, Intersection<X, Y>> && same<R2, Intersection<Y, X>>, "intersect(a, b, eps) returns Intersection<A, B>");
    static_assert(same<decltype(intersect(val<const X>(), val<const Y>())), R1>, "the default tolerance does not change the type of the result");
    static_assert(same<decltype(intersect(val<const Y>(), val<const X>())), R2>, "the default tolerance does not change the type of the result");
    static_assert(same<R1, R2>, "the order of the arguments does not change the type of the result");
    static_assert(Alike<R1, Res>::value, "the result has exactly the documented alternatives");
    (void) intersect(val<const X>(), val<const Y>()); (void) intersect(val<const Y>(), val<const X>());
}
using No = EmptyIntersection<3>;
using Planar = std::variant<P, S, Po, No>; using PlanarF = std::variant<P, S, F, No>;
using Curved = std::vector<std::variant<P, S, A, E, No>>; using Face = std::vector<std::variant<P, TopoDS_Edge, F, No>>;
template void pair<S, S, std::variant<P, S, No>>();
template void pair<Pl, Pl, std::variant<L, Pl, No>>();
template void pair<Pl, L, std::variant<P, L, No>>();
template void pair<D, L, std::variant<P, S, No>>();
template void pair<Q, L, std::variant<P, S, No>>();
template void pair<D, D, Planar>();
template void pair<Q, Q, Planar>();
template void pair<Po, Po, Planar>();
template void pair<Q, D, PlanarF>();
template void pair<Po, D, PlanarF>();

//@ intersect: result types for cylinder surfaces
#include <frackit/intersection/intersect.hh>
template<class X, class Vr> struct Has;
template<class X, class... Xs> struct Has<X, std::variant<Xs...>> { static constexpr bool value = (std::is_same_v<X, Xs> || ...); };
template<class Vr, class... Ys> constexpr bool made = std::variant_size_v<Vr> == sizeof...(Ys) && (Has<Ys, Vr>::value && ...);
template<class X, class Y, class... Ys> void pair()
{
    using R1 = decltype(intersect(val<const X>(), val<const Y>(), 1e-6));
    using R2 = decltype(intersect(val<const Y>(), val<const X>(), 1e-6));
    static_assert(same<R1, Intersection<X, Y>> && same<R2, Intersection<Y, X>> && same<R1, R2>, "the result type does not depend on the order of the arguments");
    static_assert(same<R1, std::vector<typename R1::value_type>> && made<typename R1::value_type, Ys...>, "the result is a list of exactly the documented alternatives");
    (void) intersect(val<const X>(), val<const Y>()); (void) intersect(val<const Y>(), val<const X>());
}
template void pair<Cs, D, P, S, A, E, EmptyIntersection<3>>();
template void pair<Cs, Q, P, S, A, E, EmptyIntersection<3>>();
template void pair<Cs, Po, P, S, A, E, EmptyIntersection<3>>();
template void pair<Cs, F, P, TopoDS_Edge, F, EmptyIntersection<3>>();
template void pair<D, F, P, TopoDS_Edge, F, EmptyIntersection<3>>();
template void pair<Q, F, P, TopoDS_Edge, F, EmptyIntersection<3>>();
template void pair<Po, F, P, TopoDS_Edge, F, EmptyIntersection<3>>();
template void pair<F, F, P, TopoDS_Edge, F, EmptyIntersection<3>>();

//@ intersect: overlap of bounding boxes
#include <frackit/intersection/bboxintersection.hh>
bool boxes(const BB& a, const BB& b) { static_assert(same<decltype(doIntersect(a, b)), bool>, ""); return doIntersect(a, b) && doIntersect(a, b, 1e-6); }

//@ intersection angle: all pairs and results
#include <frackit/intersection/intersectionangle.hh>
#include <frackit/intersection/intersect.hh>
template<class X, class Y> void angle()
{
    IntersectionAngle<double> a;
    static_assert(same<decltype(a(val<const X>(), val<const Y>(), intersect(val<const X>(), val<const Y>()))), double>, "");
    (void) a(val<const X>(), val<const Y>(), intersect(val<const X>(), val<const Y>()));
    (void) a(val<const Y>(), val<const X>(), intersect(val<const Y>(), val<const X>()));
}
template void angle<D, D>(); template void angle<Q, Q>(); template void angle<Po, Po>(); template void angle<Q, D>(); template void angle<Po, D>();
template void angle<Cs, D>(); template void angle<Cs, Q>(); template void angle<Cs, Po>(); template void angle<Cs, F>();
template void angle<D, F>(); template void angle<Q, F>(); template void angle<Po, F>(); template void angle<F, F>();
double planes(const Pl& a, const Pl& b, const L& l) { return IntersectionAngle<double>()(a, b) + IntersectionAngle<double>()(a, b, l); }

//@ empty intersections are recognised
#include <frackit/intersection/intersect.hh>
static_assert(IsEmptyIntersection<EmptyIntersection<3>>::value && !IsEmptyIntersection<P>::value && !IsEmptyIntersection<F>::value, "");
static_assert(IsEmptyIntersection<EmptyIntersection<1>>::value && IsEmptyIntersection<EmptyIntersection<2>>::value, "");
template<class X, class Y> void empty() { static_assert(same<decltype(isEmptyIntersection(intersect(val<const X>(), val<const Y>()))), bool>, ""); (void) isEmptyIntersection(intersect(val<const X>(), val<const Y>())); }
template void empty<S, S>(); template void empty<D, D>(); template void empty<Q, D>(); template void empty<Cs, Q>(); template void empty<F, F>();
bool alone(const EmptyIntersection<3>& e, const P& p) { return isEmptyIntersection(e) && !isEmptyIntersection(p); }

//@ dimensions of geometries and shapes
#include <frackit/geometryutilities/isplanar.hh>
template<class X, int d, int w> void dim()
{
    static_assert(DimensionalityTraits<X>::geometryDimension() == d, "dimension of the geometry");
    static_assert(DimensionalityTraits<X>::worldDimension() == w, "dimension of the space");
    static_assert(same<typename CoordinateTypeTraits<X>::type, double>, "coordinate type");
    (void) getDimension(val<const X>()); (void) getWorldDimension(val<const X>());
}
template void dim<Point<double, 1>, 0, 1>(); template void dim<Point<double, 2>, 0, 2>(); template void dim<P, 0, 3>();
template void dim<Vector<double, 1>, 1, 1>(); template void dim<Vector<double, 2>, 1, 2>(); template void dim<V, 1, 3>();
template void dim<Direction<double, 1>, 1, 1>(); template void dim<Direction<double, 2>, 1, 2>(); template void dim<Dir, 1, 3>();
template void dim<Segment<double, 2>, 1, 2>(); template void dim<S, 1, 3>(); template void dim<Line<double, 2>, 1, 2>(); template void dim<L, 1, 3>();
template void dim<C, 1, 3>(); template void dim<E, 1, 3>(); template void dim<A, 1, 3>();
template void dim<Pl, 2, 3>(); template void dim<T, 2, 3>(); template void dim<Q, 2, 3>(); template void dim<Po, 2, 3>(); template void dim<D, 2, 3>(); template void dim<Cs, 2, 3>();
template void dim<Cy, 3, 3>(); template void dim<H, 3, 3>(); template void dim<B, 3, 3>(); template void dim<Sp, 3, 3>();
template void dim<TopoDS_Vertex, 0, 3>(); template void dim<TopoDS_Edge, 1, 3>(); template void dim<TopoDS_Wire, 1, 3>(); template void dim<TopoDS_Face, 2, 3>();
template void dim<TopoDS_Shell, 2, 3>(); template void dim<TopoDS_Solid, 3, 3>();
static_assert(DimensionalityTraits<TopoDS_Shape>::worldDimension() == 3 && DimensionalityTraits<TopoDS_Compound>::worldDimension() == 3, "");
template<class X> constexpr bool planar = IsPlanarGeometry<X>::value;
static_assert(planar<D> && planar<Q> && planar<Po> && planar<T> && planar<Pl>, "planar geometries");
static_assert(!planar<Cs> && !planar<F> && !planar<TopoDS_Shell> && !planar<S> && !planar<B> && !planar<P>, "geometries that are not planar");

//@ geometries are geometries, with default and copy construction
#include <frackit/geometry/geometry.hh>
template<class X> constexpr bool isGeo = std::is_base_of_v<Geometry, X> && std::is_convertible_v<X*, Geometry*> && std::is_copy_constructible_v<X> && std::is_copy_assignable_v<X>;
static_assert(isGeo<P> && isGeo<V> && isGeo<Dir> && isGeo<L> && isGeo<S> && isGeo<Pl> && isGeo<T> && isGeo<Q> && isGeo<Po>, "");
static_assert(isGeo<C> && isGeo<E> && isGeo<A> && isGeo<D> && isGeo<Cy> && isGeo<Cs> && std::is_base_of_v<Geometry, H> && std::is_move_constructible_v<H> && isGeo<B> && isGeo<Sp>, "");
static_assert(std::has_virtual_destructor_v<Geometry> && std::is_abstract_v<Geometry>, "geometries are deleted through the interface");

//@ distances between points, lines and segments in one to three dimensions
#include <frackit/distance/distance.hh>
template<int w> void dist()
{
    using P = Point<double, w>; using L = Line<double, w>; using S = Segment<double, w>;
    static_assert(same<decltype(computeDistance(val<const P>(), val<const P>())), double> && same<decltype(computeDistance(val<const S>(), val<const P>())), double>, "");
    (void) computeDistance(val<const P>(), val<const P>()); (void) computeDistance(val<const P>(), val<const L>()); (void) computeDistance(val<const L>(), val<const P>());
    (void) computeDistance(val<const P>(), val<const S>()); (void) computeDistance(val<const S>(), val<const P>());
}
template void dist<1>(); template void dist<2>(); template void dist<3>();

//@ distances between all geometries, shapes and lists of them
#include <frackit/distance/distance.hh>
template<class X, class Y> void dist()
{
    static_assert(same<decltype(computeDistance(val<const X>(), val<const Y>())), double> && same<decltype(computeDistance(val<const Y>(), val<const X>())), double>, "");
    (void) computeDistance(val<const X>(), val<const Y>()); (void) computeDistance(val<const Y>(), val<const X>());
    (void) computeDistance(val<const X>(), val<const std::vector<Y>>());
}
template<class X> void all() { dist<X, P>(); dist<X, S>(); dist<X, D>(); dist<X, Q>(); dist<X, Po>(); dist<X, A>(); dist<X, C>(); dist<X, E>(); dist<X, Cs>(); dist<X, B>(); dist<X, TopoDS_Face>(); dist<X, TopoDS_Edge>(); }
template void all<P>(); template void all<S>(); template void all<D>(); template void all<Q>(); template void all<Po>(); template void all<A>(); template void all<C>(); template void all<E>(); template void all<Cs>();
template void all<Cy>(); template void all<B>(); template void all<TopoDS_Vertex>(); template void all<TopoDS_Edge>(); template void all<TopoDS_Face>(); template void all<TopoDS_Solid>();

//@ distances to the boundary
#include <frackit/distance/distancetoboundary.hh>
template<class X> void toB()
{
    static_assert(same<decltype(computeDistanceToBoundary(val<const X>(), val<const D>())), double>, "");
    (void) computeDistanceToBoundary(val<const X>(), val<const D>()); (void) computeDistanceToBoundary(val<const X>(), val<const Q>()); (void) computeDistanceToBoundary(val<const X>(), val<const Po>());
    (void) computeDistanceToBoundary(val<const X>(), val<const Cs>()); (void) computeDistanceToBoundary(val<const X>(), val<const TopoDS_Face>());
}
template void toB<P>(); template void toB<S>(); template void toB<D>(); template void toB<A>(); template void toB<E>(); template void toB<TopoDS_Edge>(); template void toB<TopoDS_Face>();

//@ points on geometries and on their boundary
#include <frackit/distance/pointonboundary.hh>
#include <frackit/distance/pointongeometry.hh>
template<class X> void on() { static_assert(same<decltype(pointOnGeometry(val<const P>(), val<const X>())), bool>, ""); (void) pointOnGeometry(val<const P>(), val<const X>()); (void) pointOnGeometry(val<const P>(), val<const X>(), 1e-6); }
template<class X> void onB() { static_assert(same<decltype(pointOnGeometryBoundary(val<const P>(), val<const X>())), bool>, ""); (void) pointOnGeometryBoundary(val<const P>(), val<const X>()); (void) pointOnGeometryBoundary(val<const P>(), val<const X>(), 1e-6); }
template void on<S>(); template void on<C>(); template void on<E>(); template void on<A>(); template void on<D>(); template void on<Q>(); template void on<Po>(); template void on<Cs>();
template void on<Cy>(); template void on<B>(); template void on<Sp>(); template void on<TopoDS_Edge>(); template void on<TopoDS_Face>(); template void on<TopoDS_Solid>();
template void onB<D>(); template void onB<Q>(); template void onB<Po>(); template void onB<Cs>(); template void onB<TopoDS_Face>();
bool flat(const Point<double, 2>& p, const Segment<double, 2>& s) { return pointOnGeometry(p, s) && pointOnGeometry(p, s, 1e-6); }

//@ lengths, areas, volumes and magnitudes
#include <frackit/magnitude/magnitude.hh>
template<class X> void mag() { static_assert(same<decltype(computeMagnitude(val<const X>())), double>, ""); (void) computeMagnitude(val<const X>()); }
template void mag<P>(); template void mag<S>(); template void mag<C>(); template void mag<E>(); template void mag<A>(); template void mag<T>(); template void mag<Q>(); template void mag<Po>(); template void mag<D>(); template void mag<Cs>();
template void mag<Cy>(); template void mag<H>(); template void mag<B>(); template void mag<Sp>(); template void mag<TopoDS_Edge>(); template void mag<TopoDS_Wire>(); template void mag<TopoDS_Face>(); template void mag<TopoDS_Shell>(); template void mag<TopoDS_Solid>();
template<class X> void len() { (void) computeLength(val<const X>()); } template void len<S>(); template void len<C>(); template void len<E>(); template void len<A>(); template void len<TopoDS_Edge>(); template void len<TopoDS_Wire>();
template<class X> void area() { (void) computeArea(val<const X>()); } template void area<D>(); template void area<T>(); template void area<Q>(); template void area<Po>(); template void area<Cs>(); template void area<TopoDS_Face>(); template void area<TopoDS_Shell>();
template<class X> void vol() { (void) computeVolume(val<const X>()); } template void vol<Cy>(); template void vol<H>(); template void vol<B>(); template void vol<Sp>(); template void vol<TopoDS_Solid>();

//@ magnitude contained in a domain
#include <frackit/magnitude/containedmagnitude.hh>
template<class X, class Y> void in() { static_assert(same<decltype(computeContainedMagnitude(val<const X>(), val<const Y>())), double>, ""); (void) computeContainedMagnitude(val<const X>(), val<const Y>()); }
template<class X> void all() { in<X, Cy>(); in<X, B>(); in<X, Sp>(); in<X, TopoDS_Solid>(); }
template void all<S>(); template void all<A>(); template void all<D>(); template void all<Q>(); template void all<Po>(); template void all<Cs>(); template void all<TopoDS_Edge>(); template void all<TopoDS_Face>();
double dyn(std::shared_ptr<Geometry> g, const B& b, const TopoDS_Solid& s) { return computeContainedMagnitude(g, b) + computeContainedMagnitude(g, s); }

//@ shapes, bounding boxes, tolerances and names of all geometries
#include <frackit/occ/breputilities.hh>
#include <frackit/geometryutilities/getboundingbox.hh>
#include <frackit/geometryutilities/name.hh>
#include <frackit/precision/defaultepsilon.hh>
template<class X, class Y> void shape()
{
    static_assert(same<std::decay_t<decltype(OCCUtilities::getShape(val<const X>()))>, Y>, "the shape has the type that belongs to the geometry");
    static_assert(same<std::decay_t<decltype(getBoundingBox(val<const X>()))>, BB>, "");
    (void) getBoundingBox(val<const X>()); (void) defaultEpsilon(val<const X>());
    static_assert(same<decltype(geometryName(val<const X>())), std::string> && same<decltype(defaultEpsilon(val<const X>())), double>, "");
    (void) geometryName(val<const X>());
}
template void shape<P, TopoDS_Vertex>(); template void shape<S, TopoDS_Edge>(); template void shape<C, TopoDS_Wire>(); template void shape<E, TopoDS_Wire>(); template void shape<A, TopoDS_Edge>();
template void shape<D, TopoDS_Face>(); template void shape<Q, TopoDS_Face>(); template void shape<Po, TopoDS_Face>(); template void shape<Cs, TopoDS_Face>();
template void shape<Cy, TopoDS_Solid>(); template void shape<B, TopoDS_Solid>(); template void shape<Sp, TopoDS_Solid>();
template void shape<TopoDS_Vertex, TopoDS_Vertex>(); template void shape<TopoDS_Edge, TopoDS_Edge>(); template void shape<TopoDS_Wire, TopoDS_Wire>(); template void shape<TopoDS_Face, TopoDS_Face>();
template void shape<TopoDS_Shell, TopoDS_Shell>(); template void shape<TopoDS_Solid, TopoDS_Solid>();

//@ dynamic geometries
#include <frackit/geometryutilities/applyongeometry.hh>
#include <frackit/geometryutilities/assign.hh>
auto name(std::shared_ptr<Geometry> g) { auto f = [] (const auto& x) { return x.name(); }; return applyOnGeometry(f, g) + applyOnGeometry(f, g.get()) + applyOnGeometry([] (const auto& x) { return x.name(); }, g.get()); }
bool as(std::shared_ptr<Geometry> g, D& d, Q& q, Po& p) { return assign(g, d) || assign(g, q) || assign(g, p) || assign(g.get(), d) || assign(g.get(), q); }

//@ samplers of points
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/sampling/makepointsampler.hh>
template<class X> void pts()
{
    auto s = makeUniformPointSampler(val<const X>());
    static_assert(same<decltype(s()), P> && std::is_base_of_v<PointSampler<P>, decltype(s)>, "");
    (void) s(); auto t = makePointSampler<UniformPointSamplerTraits<double, 3>>(val<const X>()); (void) t();
}
template void pts<B>(); template void pts<Cy>(); template void pts<H>();

//@ samplers of geometries
#include <random>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/sampling/disksampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
#include <frackit/sampling/polygonsampler.hh>
#include <frackit/sampling/multigeometrysampler.hh>
#include <frackit/sampling/sequentialsamplingstrategy.hh>
#include <frackit/sampling/status.hh>
template<class X> void samplers(const X& domain, Id id)
{
    auto ps = makeUniformPointSampler(domain);
    std::normal_distribution<double> n; std::uniform_real_distribution<double> u; std::uniform_int_distribution<int> k;
    DiskSampler<double> d(ps, n, n, n, n, n); QuadrilateralSampler<3> q(ps, n, n, u, u); PolygonSampler<3> g(ps, n, n, u, u, k);
    static_assert(same<decltype(d()), D> && same<decltype(q()), Q> && same<decltype(g()), Po>, "");
    (void) d(); (void) q(); (void) g();
    MultiGeometrySampler<D, Q, Po> m; m.addGeometrySampler(d, id); m.addGeometrySampler(q, id); m.addGeometrySampler(g, id);
    Id next; static_assert(same<decltype(m(next)), std::shared_ptr<Geometry>>, ""); (void) m(next);
    SequentialSamplingStrategy st; m.setSamplingStrategy(st); MultiGeometrySampler<D, Q> m2(st);
    SamplingStatus s; s.setTargetCount(id, 3); s.increaseCounter(id); s.increaseRejectedCounter(); s.print(); s.print(true); s.resetCounter(id); s.resetCounters(); s.reset();
    (void) (s.finished() && s.finished(id)); (void) (s.getCount() + s.getCount(id));
}
template void samplers<B>(const B&, Id); template void samplers<Cy>(const Cy&, Id); template void samplers<H>(const H&, Id);

//@ constraints on pairs of entities and on lists
#include <frackit/entitynetwork/constraints.hh>
template<class X, class Y> void pairs(EntityNetworkConstraints<double>& c)
{
    static_assert(same<decltype(c.evaluate(val<const X>(), val<const Y>())), bool>, "");
    (void) c.evaluate(val<const X>(), val<const Y>()); (void) c.evaluate(val<const Y>(), val<const X>());
    (void) c.evaluate(val<const std::vector<X>>(), val<const Y>()); (void) c.evaluate(val<const X>(), val<const std::vector<Y>>());
}
template void pairs<D, D>(EntityNetworkConstraints<double>&); template void pairs<Q, Q>(EntityNetworkConstraints<double>&); template void pairs<Po, Po>(EntityNetworkConstraints<double>&);
template void pairs<Q, D>(EntityNetworkConstraints<double>&); template void pairs<Po, D>(EntityNetworkConstraints<double>&); template void pairs<Cs, D>(EntityNetworkConstraints<double>&);
template void pairs<Cs, Q>(EntityNetworkConstraints<double>&); template void pairs<Cs, Po>(EntityNetworkConstraints<double>&); template void pairs<Cs, F>(EntityNetworkConstraints<double>&);
template void pairs<D, F>(EntityNetworkConstraints<double>&); template void pairs<Q, F>(EntityNetworkConstraints<double>&); template void pairs<Po, F>(EntityNetworkConstraints<double>&); template void pairs<F, F>(EntityNetworkConstraints<double>&);
void settings(EntityNetworkConstraints<double>& c)
{
    c.setMinDistance(1.0); c.neglectMinDistance(); c.setMinIntersectingAngle(1.0); c.neglectMinIntersectionAngle(); c.setMinIntersectionMagnitude(1.0); c.neglectMinIntersectionMagnitude();
    c.setMinIntersectionDistance(1.0); c.neglectMinIntersectionDistance(); c.setIntersectionEpsilon(1e-6); c.setDefaultIntersectionEpsilon(); c.allowEquiDimensionalIntersections(true);
    auto d = makeDefaultConstraints(); static_assert(same<decltype(d), EntityNetworkConstraints<double>>, ""); (void) d;
}

//@ constraints matrices and sets of entities
#include <frackit/entitynetwork/constraintsmatrix.hh>
#include <frackit/entitynetwork/constraints.hh>
#include <frackit/entitynetwork/multigeometryentityset.hh>
#include <frackit/entitynetwork/networkbuilder.hh>
void matrix(MultiGeometryEntitySet<D, Q>& s, D d, Q q, std::shared_ptr<Geometry> g, Id i, EntityNetworkBuilder<double>& b, ContainedEntityNetworkBuilder<double>& cb)
{
    EntityNetworkConstraintsMatrix<EntityNetworkConstraints<double>> m; m.addConstraints(EntityNetworkConstraints<double>(), IdPair(i, i)); m.addConstraints(EntityNetworkConstraints<double>(), {IdPair(1, 2), IdPair(2, 1)});
    static_assert(same<decltype(m.evaluate(s, d, i)), bool>, ""); (void) (m.evaluate(s, d, i) && m.evaluate(s, q, i) && m.evaluate(s, g, i));
    s.addEntity(d, i); s.addEntity(q, i); s.addEntity(g, i); s.applyOnSet(i, [] (const auto& v) { (void) v.size(); });
    s.exportEntitySets(b); s.exportEntitySets(cb, i); s.exportEntitySets({i, i}, cb, i);
}

//@ networks and their output
#include <frackit/entitynetwork/networkbuilder.hh>
#include <frackit/io/brepwriter.hh>
#include <frackit/io/gmshwriter.hh>
void net(EntityNetworkBuilder<double>& b, ContainedEntityNetworkBuilder<double>& c, Id i, D d, Q q, Po p, F f, B bx, Cy cy, H h, Sp sp, TopoDS_Solid so)
{
    b.addEntity(d); b.addEntity(q); b.addEntity(p); b.addEntity(f); b.addEntities(std::vector<D>()); b.addEntities(std::vector<F>());
    b.addConfiningSubDomain(bx, i); b.addSubDomain(cy, i); b.addSubDomainEntity(d, i); b.addSubDomainEntities(std::vector<Q>(), i); b.setEpsilon(1e-6); b.setDefaultEpsilon(); b.clear();
    c.addSubDomain(bx, i); c.addConfiningSubDomain(cy, i); c.addConfiningSubDomain(sp, i); c.addConfiningSubDomain(so, i); c.addSubDomainEntity(p, i); c.addSubDomainEntity(f, i); c.addSubDomainEntities(std::vector<D>(), i);
    c.setEpsilon(1e-6); c.setDefaultEpsilon(); c.clear();
    const EntityNetwork& n = b.build(); const ContainedEntityNetwork& cn = c.build();
    BRepWriter w(n), cw(cn); w.write("x"); GmshWriter g(n), cg(cn); g.write("x", 1.0); g.write("x", 1.0, 1.0); cg.write("x", 1.0); cg.write("x", 1.0, 1.0);
}

//@ promotion: arithmetic on two number types
#include <frackit/common/promotedtype.hh>
template<class X, class Y> constexpr bool promotes = same<PromotedType<X, Y>, decltype(val<X>() + val<Y>())> && same<PromotedType<Y, X>, decltype(val<Y>() + val<X>())>;
static_assert(promotes<double, double> && promotes<float, float> && promotes<long double, long double>, "equal types are kept");
static_assert(promotes<int, double> && promotes<float, double> && promotes<double, long double> && promotes<int, float> && promotes<int, long>, "the wider type is taken, in either order");
