// Laws of the samplers: X_is is what the library computes, X_should what it has to compute (never executed).
#ifndef VERIF_LAWS_SAMP_HH
#define VERIF_LAWS_SAMP_HH
#include <frackit/sampling/boxpointsampler.hh>
#include <frackit/sampling/cylinderpointsampler.hh>
#include <frackit/sampling/disksampler.hh>
#include <frackit/sampling/makepointsampler.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/sampling/multigeometrysampler.hh>
#include <frackit/sampling/polygonsampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
#include <frackit/sampling/sequentialsamplingstrategy.hh>
#include <frackit/sampling/status.hh>
#include <cmath>
#include <random>
namespace Law {
using namespace Frackit;
using Di = Disk<double>; using Bx = Box<double>; using Qu = Quadrilateral<double, 3>; using Cy = Cylinder<double>; using HC = HollowCylinder<double>; using Pg = Polygon<double, 3>;
using P3 = Point<double, 3>; using V3 = Vector<double, 3>; using D3 = Direction<double, 3>;
using Nd = std::normal_distribution<double>; using Ud = std::uniform_real_distribution<double>; using Kd = std::uniform_int_distribution<int>;
using BT = UniformPointSamplerTraits<double, 3>;
using Gen = std::default_random_engine;
struct MixedTraits { using DistributionBase1 = Ud; using DistributionBase2 = Ud; using DistributionBase3 = Ud; };
inline V3 xyz(const P3& p) { return V3(p.x(), p.y(), p.z()); }
// ---- S01: points in boxes and cylinders
inline P3 boxPoint(Ud x, Ud y, Ud z)
{
    Gen g(std::random_device{}());
    const double a = x(g), b = y(g), c = z(g);
    return P3(a, b, c);
}
inline P3 cylPoint(const Cy& c, Ud r2, Ud phi, Ud h)
{
    Gen g(std::random_device{}());
    const double f = phi(g), r = std::sqrt(r2(g)), z = h(g);
    const auto e1 = c.base1(), e2 = c.base2(), e3 = c.base3();
    const auto o = c.bottomFace().center();
    const double u = r*std::cos(f), v = r*std::sin(f);
    return P3(o.x() + u*e1.x() + v*e2.x() + z*e3.x(), o.y() + u*e1.y() + v*e2.y() + z*e3.y(), o.z() + u*e1.z() + v*e2.z() + z*e3.z());
}
inline V3 S01_boxSampler_is(const Ud& x, const Ud& y, const Ud& z) { BoxPointSampler<double, BT> s(x, y, z); return xyz(s()); }
inline V3 S01_boxSampler_should(const Ud& x, const Ud& y, const Ud& z) { return xyz(boxPoint(x, y, z)); }
inline V3 S01_cylinderSampler_is(const Cy& c, const Ud& r, const Ud& f, const Ud& h) { CylinderPointSampler<double, BT> s(c, r, f, h); return xyz(s()); }
inline V3 S01_cylinderSampler_should(const Cy& c, const Ud& r, const Ud& f, const Ud& h) { return xyz(cylPoint(c, r, f, h)); }
inline V3 S01_inBox_is(const Bx& b) { auto s = makePointSampler<BT>(b); return xyz(s()); }
inline V3 S01_inBox_should(const Bx& b) { return xyz(boxPoint(Ud(b.xMin(), b.xMax()), Ud(b.yMin(), b.yMax()), Ud(b.zMin(), b.zMax()))); }
inline V3 S01_inCylinder_is(const Cy& c) { auto s = makePointSampler<BT>(c); return xyz(s()); }
inline V3 S01_inCylinder_should(const Cy& c) { return xyz(cylPoint(c, Ud(0, c.radius()*c.radius()), Ud(0, 2*M_PI), Ud(0, c.height()))); }
inline V3 S01_inHollowCylinder_is(const HC& c) { auto s = makePointSampler<BT>(c); return xyz(s()); }
inline V3 S01_inHollowCylinder_should(const HC& c)
{ return xyz(cylPoint(c.fullCylinder(), Ud(c.innerRadius()*c.innerRadius(), c.outerRadius()*c.outerRadius()), Ud(0, 2*M_PI), Ud(0, c.fullCylinder().height()))); }
template<class G> P3 uniform(const G& g) { auto s = makeUniformPointSampler(g); return s(); }
inline V3 S01_uniform_is(const Bx& b) { return xyz(uniform(b)); }
inline V3 S01_uniform_is(const Cy& b) { return xyz(uniform(b)); }
inline V3 S01_uniform_is(const HC& b) { return xyz(uniform(b)); }
inline V3 S01_uniform_should(const Bx& b) { return S01_inBox_should(b); }
inline V3 S01_uniform_should(const Cy& b) { return S01_inCylinder_should(b); }
inline V3 S01_uniform_should(const HC& b) { return S01_inHollowCylinder_should(b); }
// ---- S02: geometry samplers
inline V3 rotX(const V3& v, double a) { return V3(v.x(), std::cos(a)*v.y() - std::sin(a)*v.z(), std::sin(a)*v.y() + std::cos(a)*v.z()); }
inline V3 rotY(const V3& v, double a) { return V3(std::cos(a)*v.x() + std::sin(a)*v.z(), v.y(), std::cos(a)*v.z() - std::sin(a)*v.x()); }
inline V3 rotZ(const V3& v, double a) { return V3(std::cos(a)*v.x() - std::sin(a)*v.y(), std::sin(a)*v.x() + std::cos(a)*v.y(), v.z()); }
using Ps = BoxPointSampler<double, BT>;
template<class F> double positive(F draw) { double a = draw(); while (a <= 0.0) a = draw(); return a; }
inline Di S02_disk_is(const Ps& p, const Nd& a, const Nd& b, const Nd& x, const Nd& y, const Nd& z) { DiskSampler<double> s(p, a, b, x, y, z); return s(); }
inline Di S02_disk_should(Ps p, Nd A, Nd B, Nd X, Nd Y, Nd Z)
{
    Gen g(std::random_device{}());
    const double a = positive([&] () { return A(g); });
    const double b = positive([&] () { return B(g); });
    const double x = X(g), y = Y(g), z = Z(g);
    const V3 maj = rotZ(rotY(V3(1.0, 0.0, 0.0), y), z);
    const V3 min = rotZ(rotY(rotX(V3(0.0, 1.0, 0.0), x), y), z);
    PointSampler<P3>& ps = p;
    return Di(ps(), D3(maj), D3(min), a, b > a ? a : b);
}
struct Quad { V3 a, b, c, d; };
inline Quad S02_oldQuadrilateral_is(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m)
{
    QuadrilateralSampler<3> q(p, s, d, e, m);
    const auto r = q();
    return {xyz(r.corner(0)), xyz(r.corner(1)), xyz(r.corner(2)), xyz(r.corner(3))};
}
template<int i, int j, int k, int l> Quad oldQuadrilateral(Ps p, Nd S, Nd D, Nd E, double m)
{
    Gen g(std::random_device{}());
    const double s = S(g), d = D(g);
    // strike: rotation of the x-y plane around z; dip: rotation of the first axis around the rotated second one
    const V3 e1(std::cos(s)*std::cos(d), std::sin(s)*std::cos(d), -std::sin(d));
    const V3 e2(-std::sin(s), std::cos(s), 0.0);
    auto edge = [&] () { double x = E(g); while (x < m) x = E(g); return x; };
    const double e[] = {edge(), edge(), edge(), edge()};
    const double x1 = e[i], x2 = e[j], y1 = e[k], y2 = e[l];
    PointSampler<P3>& ps = p;
    const P3 c = ps();
    auto at = [&] (double u, double v) { return V3(c.x() + u*e1.x() + v*e2.x(), c.y() + u*e1.y() + v*e2.y(), c.z() + u*e1.z() + v*e2.z()); };
    return {at(-0.5*x1, -0.5*y1), at(0.5*x2, -0.5*y2), at(-0.5*x1, 0.5*y1), at(0.5*x2, 0.5*y2)};
}
// the four edge lengths may be drawn in any order
inline Quad S02_oldQuadrilateral_should(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<0, 1, 2, 3>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should1(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<0, 1, 3, 2>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should2(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<0, 2, 1, 3>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should3(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<0, 2, 3, 1>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should4(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<0, 3, 1, 2>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should5(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<0, 3, 2, 1>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should6(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<1, 0, 2, 3>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should7(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<1, 0, 3, 2>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should8(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<1, 2, 0, 3>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should9(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<1, 2, 3, 0>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should10(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<1, 3, 0, 2>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should11(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<1, 3, 2, 0>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should12(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<2, 0, 1, 3>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should13(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<2, 0, 3, 1>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should14(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<2, 1, 0, 3>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should15(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<2, 1, 3, 0>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should16(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<2, 3, 0, 1>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should17(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<2, 3, 1, 0>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should18(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<3, 0, 1, 2>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should19(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<3, 0, 2, 1>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should20(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<3, 1, 0, 2>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should21(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<3, 1, 2, 0>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should22(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<3, 2, 0, 1>(p, s, d, e, m); }
inline Quad S02_oldQuadrilateral_should23(const Ps& p, const Nd& s, const Nd& d, const Nd& e, double m) { return oldQuadrilateral<3, 2, 1, 0>(p, s, d, e, m); }
struct QT : public DefaultQuadrilateralSamplerTraits<double, 3> { using NumCornersDistribution = Kd; };
inline Qu S02_quadrilateral_is(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl) { QuadrilateralSampler<3> q(p, s, d, sl, dl); return q(); }
inline Qu S02_quadrilateral_should(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl)
{
    PolygonSampler<3, double, QT> q(p, s, d, sl, dl, Kd{4, 4});
    const auto c = q.sampleCorners();       // in the order of the boundary
    return Qu(c[0], c[1], c[3], c[2]);
}
inline Pg S02_polygon_is(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl, const Kd& k) { PolygonSampler<3> q(p, s, d, sl, dl, k); return q(); }
inline Pg S02_polygon_should(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl, const Kd& k) { PolygonSampler<3> q(p, s, d, sl, dl, k); return Pg(q.sampleCorners()); }
using Corners = std::vector<P3>;
template<int n> struct Fixed { int operator()(Gen&) { return n; } };
template<int n> struct FixedTraits : public DefaultPolygonSamplerTraits<double, 3> { using NumCornersDistribution = Fixed<n>; };
template<int n> Corners someCorners(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl) { PolygonSampler<3, double, FixedTraits<n>> q(p, s, d, sl, dl, Fixed<n>()); return q.sampleCorners(); }
inline Corners S02_corners_is(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl, const Kd& k) { PolygonSampler<3> q(p, s, d, sl, dl, k); return q.sampleCorners(); }
template<int order, class K> Corners corners(Ps p, Nd S, Nd D, Ud SL, Ud DL, K k)
{
    Gen g(std::random_device{}());
    Ud unit(0.0, 1.0);
    int n = 0;
    for (int t = 0; n < 3 && t < 100; ++t) n = k(g);
    if (n < 3) throw std::runtime_error("corners");
    std::vector<double> xs, ys;
    if (order == 1) for (int i = 0; i < n; ++i) ys.push_back(unit(g));
    for (int i = 0; i < n; ++i) { xs.push_back(unit(g)); if (order == 2) ys.push_back(unit(g)); }
    if (order == 0) for (int i = 0; i < n; ++i) ys.push_back(unit(g));
    auto take = [] (std::vector<double>& v, auto it) { const double r = *it; v.erase(it); return r; };
    double x0 = take(xs, std::min_element(xs.begin(), xs.end())), y0 = take(ys, std::min_element(ys.begin(), ys.end()));
    double x1 = take(xs, std::max_element(xs.begin(), xs.end())), y1 = take(ys, std::max_element(ys.begin(), ys.end()));
    if (x0 > 0.1) x0 = 0.0;
    if (y0 > 0.1) y0 = 0.0;
    if (x1 < 0.9) x1 = 1.0;
    if (y1 < 0.9) y1 = 1.0;
    // the chains from the smallest to the largest value and back
    auto chains = [&] (const std::vector<double>& v, double lo, double hi)
    {
        std::array<std::vector<double>, 2> c;
        c[0].push_back(lo); c[1].push_back(lo);
        for (int i = 0; i < n - 2; ++i) c[i % 2].push_back(v[i]);
        std::vector<double> d;
        for (int j = 0; j < 2; ++j)
        {
            std::sort(c[j].begin(), c[j].end());
            c[j].push_back(hi);
            std::adjacent_difference(c[j].begin(), c[j].end(), c[j].begin());
        }
        std::for_each(c[1].begin(), c[1].end(), [] (auto& x) { x *= -1.0; });
        for (int j = 0; j < 2; ++j) std::move(c[j].begin() + 1, c[j].end(), std::back_inserter(d));
        return d;
    };
    auto dX = chains(xs, x0, x1), dY = chains(ys, y0, y1);
    std::sort(dX.begin(), dX.end());
    const double mx = dX.back(), my = *std::max_element(dY.begin(), dY.end());
    std::vector<std::pair<double, double>> ds;
    for (auto dx : dX)
    {
        const double tmp = mx*mx + my*my - dx*dx;
        auto it = std::min_element(dY.begin(), dY.end(), [&] (auto& u, auto& v) { return std::abs(tmp - u*u) < std::abs(tmp - v*v); });
        ds.emplace_back(std::make_pair(dx, *it));
        dY.erase(it);
    }
    auto sl = SL(g), dl = DL(g);
    for (int t = 0; sl <= 0.0 && t < 100; ++t) sl = SL(g);
    if (sl <= 0.0) throw std::runtime_error("strike");
    for (int t = 0; dl <= 0.0 && t < 100; ++t) dl = DL(g);
    if (dl <= 0.0) throw std::runtime_error("dip");
    std::vector<V3> es;
    for (auto e : ds) es.emplace_back(V3{e.first*dl, e.second*sl, 0.0});
    auto angle = [] (const auto& v)
    {
        if (std::abs(v.y()) < 1e-6) return v.x() > 0 ? 0 : M_PI;
        if (std::abs(v.x()) < 1e-6) return v.y() > 0 ? M_PI/2.0 : 3.0*M_PI/2.0;
        const double a = std::atan(v.y()/v.x());
        if (v.x() > 0.0) return a < 0.0 ? 2.0*M_PI + a : a;
        return M_PI + a;
    };
    std::sort(es.begin(), es.end(), [&] (const auto& a, const auto& b) { return angle(a) < angle(b); });
    const double s = S(g), d = D(g);
    rotate(es, D3(V3(0.0, 0.0, 1.0)), s);
    rotate(es, D3(V3(-std::sin(s), std::cos(s), 0.0)), d);
    Corners v;
    v.emplace_back();
    x0 = x1 = y0 = y1 = 0.0;
    double z0 = 0.0, z1 = 0.0;
    for (unsigned int i = 0; i < es.size() - 1; ++i)
    {
        v.emplace_back(v.back() + es[i]);
        x0 = std::min(x0, v.back().x()); x1 = std::max(x1, v.back().x());
        y0 = std::min(y0, v.back().y()); y1 = std::max(y1, v.back().y());
        z0 = std::min(z0, v.back().z()); z1 = std::max(z1, v.back().z());
    }
    PointSampler<P3>& ps = p;
    const V3 shift(P3(0.5*(x0 + x1), 0.5*(y0 + y1), 0.5*(z0 + z1)), ps());
    for (auto& x : v) x += shift;
    return v;
}
inline Corners S02_corners_should(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl, const Kd& k) { return corners<0>(p, s, d, sl, dl, k); }
inline Corners S02_corners_should1(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl, const Kd& k) { return corners<1>(p, s, d, sl, dl, k); }
inline Corners S02_corners_should2(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl, const Kd& k) { return corners<2>(p, s, d, sl, dl, k); }
inline Corners S02_corners3_is(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl) { return someCorners<3>(p, s, d, sl, dl); }
inline Corners S02_corners3_should(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl) { return corners<0>(p, s, d, sl, dl, Fixed<3>()); }
inline Corners S02_corners3_should1(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl) { return corners<1>(p, s, d, sl, dl, Fixed<3>()); }
inline Corners S02_corners3_should2(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl) { return corners<2>(p, s, d, sl, dl, Fixed<3>()); }
inline Corners S02_corners5_is(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl) { return someCorners<5>(p, s, d, sl, dl); }
inline Corners S02_corners5_should(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl) { return corners<0>(p, s, d, sl, dl, Fixed<5>()); }
inline Corners S02_corners5_should1(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl) { return corners<1>(p, s, d, sl, dl, Fixed<5>()); }
inline Corners S02_corners5_should2(const Ps& p, const Nd& s, const Nd& d, const Ud& sl, const Ud& dl) { return corners<2>(p, s, d, sl, dl, Fixed<5>()); }
// ---- S03: bookkeeping of a sampling run
struct Counts { std::size_t a, b, all; bool doneA, doneB, done; };
inline Counts counts(SamplingStatus& s, Id a, Id b) { return {s.getCount(a), s.getCount(b), s.getCount(), s.finished(a), s.finished(b), s.finished()}; }
inline Counts model(std::size_t na, std::size_t nb, std::size_t ta, std::size_t tb) { return {na, nb, na + nb, na >= ta, nb >= tb, na >= ta && nb >= tb}; }
using N = std::size_t;
inline Counts S03_run_is(Id a, Id b, N ta, N tb)
{
    SamplingStatus s;
    s.setTargetCount(a, ta);
    s.increaseCounter(a);
    s.setTargetCount(b, tb);
    s.increaseCounter(b);
    s.increaseRejectedCounter();
    s.increaseCounter(b);
    return counts(s, a, b);
}
inline Counts S03_run_should(Id a, Id b, N ta, N tb)
{
    if (a == b) return {3, 3, 3, 3 >= tb, 3 >= tb, 3 >= tb};
    return model(1, 2, ta, tb);
}
// ids whose target is set or not, in any order
inline bool S03_unknown_is(Id a, Id b, N n) { SamplingStatus s; s.setTargetCount(a, n); return s.finished(b); }
inline bool S03_unknown_should(Id a, Id b, N n) { if (a == b) return 0 >= n; throw std::runtime_error("unknown"); }
inline N S03_unknownCount_is(Id a, Id b, N n) { SamplingStatus s; s.setTargetCount(a, n); s.increaseCounter(a); return s.getCount(b); }
inline N S03_unknownCount_should(Id a, Id b, N) { return a == b ? 1 : 0; }
// asking for or resetting the counter of an id without target changes nothing
inline bool S03_countKeeps_is(Id a, Id b, N n) { SamplingStatus s; s.setTargetCount(a, n); s.increaseCounter(a); s.getCount(b); return s.finished(); }
inline bool S03_countKeeps_should(Id, Id, N n) { return 1 >= n; }
inline bool S03_resetKeeps_is(Id a, Id b, N n) { SamplingStatus s; s.setTargetCount(a, n); s.increaseCounter(a); s.resetCounter(b); return s.finished(); }
inline bool S03_resetKeeps_should(Id a, Id b, N n) { return (a == b ? 0 : 1) >= n; }
inline bool S03_resetUnknown_is(Id a, Id b, N n) { SamplingStatus s; s.setTargetCount(a, n); s.resetCounter(b); return s.finished(b); }
inline bool S03_resetUnknown_should(Id a, Id b, N n) { if (a == b) return 0 >= n; throw std::runtime_error("unknown"); }
inline bool S03_countUnknown_is(Id a, Id b, N n) { SamplingStatus s; s.setTargetCount(a, n); s.getCount(b); return s.finished(b); }
inline bool S03_countUnknown_should(Id a, Id b, N n) { if (a == b) return 0 >= n; throw std::runtime_error("unknown"); }
inline N S03_resetCounter_is(Id a, Id b, Id c, N n) { SamplingStatus s; s.setTargetCount(a, n); s.increaseCounter(a); s.setTargetCount(b, n); s.increaseCounter(b); s.resetCounter(c); return s.getCount(a); }
inline N S03_resetCounter_should(Id a, Id b, Id c, N) { return a == c ? 0 : a == b ? 2 : 1; }
inline N S03_reset_is(Id a, Id b, N n) { SamplingStatus s; s.setTargetCount(a, n); s.increaseCounter(a); s.reset(); return s.getCount(b) + s.getCount(); }
inline N S03_reset_should(Id, Id, N) { return 0; }
inline bool S03_resetForgets_is(Id a, Id b, N n) { SamplingStatus s; s.setTargetCount(a, n); s.reset(); return s.finished(b); }
inline bool S03_resetForgets_should(Id, Id, N) { throw std::runtime_error("unknown"); }
inline bool S03_resetFinished_is(Id a, N n) { SamplingStatus s; s.setTargetCount(a, n); s.reset(); return s.finished(); }
inline bool S03_resetFinished_should(Id, N) { return true; }
// a new target keeps the count reached so far
inline Counts S03_retarget_is(Id a, Id b, N ta, N tb, N tc)
{
    SamplingStatus s;
    s.setTargetCount(a, ta);
    s.increaseCounter(a);
    s.increaseCounter(a);
    s.setTargetCount(b, tb);
    s.setTargetCount(a, tc);
    return counts(s, a, b);
}
inline Counts S03_retarget_should(Id a, Id b, N, N tb, N tc)
{
    if (a == b) return {2, 2, 2, 2 >= tc, 2 >= tc, 2 >= tc};
    return model(2, 0, tc, tb);
}
// after the counters are set back, the targets are those of before
inline Counts S03_again_is(Id a, Id b, N ta, N tb)
{
    SamplingStatus s;
    s.setTargetCount(a, ta);
    s.setTargetCount(b, tb);
    s.increaseCounter(a);
    s.increaseCounter(b);
    s.resetCounters();
    s.increaseCounter(a);
    return counts(s, a, b);
}
inline Counts S03_again_should(Id a, Id b, N ta, N tb)
{
    if (a == b) return {1, 1, 1, 1 >= tb, 1 >= tb, 1 >= tb};
    return model(1, 0, ta, tb);
}
inline bool S03_finished_is(Id a, Id b, Id c, N ta, N tb, N tc)
{
    SamplingStatus s;
    s.setTargetCount(a, ta);
    s.setTargetCount(b, tb);
    s.setTargetCount(c, tc);
    s.increaseCounter(c);
    return s.finished();
}
inline bool S03_finished_should(Id a, Id b, Id c, N ta, N tb, N tc)
{
    if (c == a || c == b)
    {
        if (a == b) return 1 >= tc;
        return 1 >= tc && 0 >= (c == a ? tb : ta);
    }
    return 1 >= tc && 0 >= tb && (a == b || 0 >= ta);
}
// ---- S04: which sampler is used next
struct Ids { Id a, b, c, d; };
inline Ids S04_cycle_is(Id a, Id b, Id c)
{
    SequentialSamplingStrategy s;
    s.addId(a); s.addId(b); s.addId(c);
    const Id i = s.getNextId(), j = s.getNextId(), k = s.getNextId(), l = s.getNextId();
    return {i, j, k, l};
}
inline Ids S04_cycle_should(Id a, Id b, Id c)
{
    if (a == b) { if (c == a) return {a, a, a, a}; return {a, c, a, c}; }
    if (c == a || c == b) return {a, b, a, b};
    return {a, b, c, a};
}
inline Ids S04_addLater_is(Id a, Id b)
{
    SequentialSamplingStrategy s;
    s.addId(a);
    const Id i = s.getNextId();
    s.addId(b);
    const Id j = s.getNextId(), k = s.getNextId(), l = s.getNextId();
    return {i, j, k, l};
}
inline Ids S04_addLater_should(Id a, Id b) { if (a == b) return {a, a, a, a}; return {a, a, b, a}; }
inline Id S04_empty_is() { SequentialSamplingStrategy s; return s.getNextId(); }
inline Id S04_empty_should() { throw std::runtime_error("empty"); }
inline bool S04_hasId_is(Id a, Id b, Id c) { SequentialSamplingStrategy s; s.addId(a); s.addId(b); return s.hasId(c); }
inline bool S04_hasId_should(Id a, Id b, Id c) { return c == a || c == b; }
using M = MultiGeometrySampler<Di, Qu, Pg>;
using Ds = DiskSampler<double>; using Qs = QuadrilateralSampler<3>; using Gs = PolygonSampler<3>;
struct Got { Id id; std::shared_ptr<Geometry> geo; };
template<class S> std::shared_ptr<Geometry> sampled(S& s) { GeometrySampler<typename S::Geometry>& b = s; return std::make_shared<typename S::Geometry>(b()); }
template<int n> Got multi(Ds& d, Qs& q, Gs& g, Id a, Id b, Id c)
{
    M m;
    m.addGeometrySampler(d, a);
    m.addGeometrySampler(q, b);
    m.addGeometrySampler(g, c);
    Id i;
    std::shared_ptr<Geometry> r;
    for (int k = 0; k < n; ++k) r = m(i);
    return {i, r};
}
inline void different(Id a, Id b, Id c) { if (a == b || a == c || b == c) throw std::runtime_error("taken"); }
inline Got S04_multi1_is(Ds& d, Qs& q, Gs& g, Id a, Id b, Id c) { return multi<1>(d, q, g, a, b, c); }
inline Got S04_multi1_should(Ds& d, Qs&, Gs&, Id a, Id b, Id c) { different(a, b, c); return {a, sampled(d)}; }
inline Got S04_multi2_is(Ds& d, Qs& q, Gs& g, Id a, Id b, Id c) { return multi<2>(d, q, g, a, b, c); }
inline Got S04_multi2_should(Ds&, Qs& q, Gs&, Id a, Id b, Id c) { different(a, b, c); return {b, sampled(q)}; }
inline Got S04_multi3_is(Ds& d, Qs& q, Gs& g, Id a, Id b, Id c) { return multi<3>(d, q, g, a, b, c); }
inline Got S04_multi3_should(Ds&, Qs&, Gs& g, Id a, Id b, Id c) { different(a, b, c); return {c, sampled(g)}; }
inline Got S04_multi4_is(Ds& d, Qs& q, Gs& g, Id a, Id b, Id c) { return multi<4>(d, q, g, a, b, c); }
inline Got S04_multi4_should(Ds& d, Qs&, Gs&, Id a, Id b, Id c) { different(a, b, c); return {a, sampled(d)}; }
// two samplers of one kind
inline Got S04_same_is(Ds& d, Ds& e, Id a, Id b) { M m; m.addGeometrySampler(d, a); m.addGeometrySampler(e, b); Id i; m(i); auto g = m(i); return {i, g}; }
inline Got S04_same_should(Ds&, Ds& e, Id a, Id b) { if (a == b) throw std::runtime_error("taken"); return {b, sampled(e)}; }
// several samplers of one kind next to others
template<int n> Got several(Ds& d, Ds& e, Ds& f, Qs& q)
{
    M m;
    m.addGeometrySampler(d, Id(5)); m.addGeometrySampler(e, Id(3)); m.addGeometrySampler(q, Id(4)); m.addGeometrySampler(f, Id(9));
    Id i;
    std::shared_ptr<Geometry> r;
    for (int k = 0; k < n; ++k) r = m(i);
    return {i, r};
}
inline Got S04_several1_is(Ds& d, Ds& e, Ds& f, Qs& q) { return several<1>(d, e, f, q); }
inline Got S04_several1_should(Ds& d, Ds&, Ds&, Qs&) { return {Id(5), sampled(d)}; }
inline Got S04_several2_is(Ds& d, Ds& e, Ds& f, Qs& q) { return several<2>(d, e, f, q); }
inline Got S04_several2_should(Ds&, Ds& e, Ds&, Qs&) { return {Id(3), sampled(e)}; }
inline Got S04_several3_is(Ds& d, Ds& e, Ds& f, Qs& q) { return several<3>(d, e, f, q); }
inline Got S04_several3_should(Ds&, Ds&, Ds&, Qs& q) { return {Id(4), sampled(q)}; }
inline Got S04_several4_is(Ds& d, Ds& e, Ds& f, Qs& q) { return several<4>(d, e, f, q); }
inline Got S04_several4_should(Ds&, Ds&, Ds& f, Qs&) { return {Id(9), sampled(f)}; }
// a sampler that is added while sampling
inline Got S04_joined_is(Ds& d, Ds& e, Qs& q) { M m; m.addGeometrySampler(d, Id(7)); m.addGeometrySampler(q, Id(2)); Id i; m(i); m.addGeometrySampler(e, Id(1)); m(i); auto g = m(i); return {i, g}; }
inline Got S04_joined_should(Ds&, Ds& e, Qs& q) { return {Id(1), sampled(e)}; }
inline int S04_takenOther_is(Ds& d, Qs& q) { M m; m.addGeometrySampler(d, Id(7)); m.addGeometrySampler(q, Id(7)); return 1; }
inline int S04_takenOther_should(Ds&, Qs&) { throw std::runtime_error("taken"); }
inline Got S04_none_is() { M m; Id i; auto g = m(i); return {i, g}; }
inline Got S04_none_should() { throw std::runtime_error("empty"); }
// a strategy that knows ids without a sampler
inline Got S04_strategy_is(Ds& d, Id a, Id b) { SequentialSamplingStrategy s; s.addId(a); M m(s); m.addGeometrySampler(d, b); Id i; auto g = m(i); return {i, g}; }
inline Got S04_strategy_should(Ds& d, Id a, Id b) { if (a == b) throw std::runtime_error("taken"); throw std::runtime_error("no sampler"); }
}
#endif
