// Laws of the network builders and writers: X_is is what the library computes, X_should what it has to compute (never executed).
#ifndef VERIF_LAWS_NET_HH
#define VERIF_LAWS_NET_HH
#include <frackit/entitynetwork/networkbuilder.hh>
#include <frackit/entitynetwork/multigeometryentityset.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/sphere.hh>
#include <BRepAlgoAPI_BuilderAlgo.hxx>
#include <BRepAlgoAPI_Common.hxx>
namespace Law {
using namespace Frackit;
namespace OU = Frackit::OCCUtilities;
using Di = Disk<double>; using Bx = Box<double>; using Qu = Quadrilateral<double, 3>; using Cy = Cylinder<double>; using Sg = Segment<double, 3>; using Sp = Sphere<double>;
using List = TopTools_ListOfShape; using Map = TopTools_DataMapOfShapeInteger;
using B = EntityNetworkBuilder<double>; using C = ContainedEntityNetworkBuilder<double>;
// the order of the parts does not matter (interpreted by the analyser)
template<class T> T bag(const T&);
// ---- the model of the builders: entities with their running number, confined, then fragmented together
struct Net { List shapes; Map numbers; };
template<class Algo>
void addParts(Algo& algo, const TopoDS_Shape& s, int number, Net& r)
{
    const List mod = algo.Modified(s);
    if (mod.Extent() == 0 && !algo.IsDeleted(s)) { r.shapes.Append(s); r.numbers.Bind(s, number); }
    for (const auto& x : mod) if (!r.numbers.IsBound(x)) { r.shapes.Append(x); r.numbers.Bind(x, number); }
}
template<class Algo>
Net parts(Algo& algo, const Net& n)
{
    Net r;
    for (const auto& s : n.shapes) addParts(algo, s, n.numbers.Find(s), r);
    return r;
}
inline Net net(const TopoDS_Shape& a) { Net n; n.shapes.Append(a); n.numbers.Bind(a, 1); return n; }
inline Net net(const TopoDS_Shape& a, const TopoDS_Shape& b) { Net n = net(a); n.shapes.Append(b); n.numbers.Bind(b, 2); return n; }
inline Net net(const TopoDS_Shape& a, const TopoDS_Shape& b, const TopoDS_Shape& c) { Net n = net(a, b); n.shapes.Append(c); n.numbers.Bind(c, 3); return n; }
inline void run(BRepAlgoAPI_BuilderAlgo& algo, const List& all, double eps)
{
    algo.SetArguments(all);
    algo.SetFuzzyValue(eps);
    algo.Build();
    if (!algo.IsDone()) throw std::runtime_error("fragments");
}
inline Net fragments(const Net& n, double eps)
{
    if (n.shapes.Extent() == 1) return n;
    BRepAlgoAPI_BuilderAlgo algo;
    run(algo, n.shapes, eps);
    return parts(algo, n);
}
inline void runCommon(BRepAlgoAPI_Common& algo, const Net& n, const TopoDS_Shape& domain, double eps)
{
    List tools;
    tools.Append(domain);
    algo.SetArguments(n.shapes);
    algo.SetTools(tools);
    algo.SetFuzzyValue(eps);
    algo.Build();
    if (!algo.IsDone()) throw std::runtime_error("confine");
}
inline Net confined(const Net& n, const TopoDS_Shape& domain, double eps)
{
    BRepAlgoAPI_Common algo;
    runCommon(algo, n, domain, eps);
    return parts(algo, n);
}
template<class... S>
TopoDS_Shape united(double eps, const S&... s) { return OU::fuse(std::vector<TopoDS_Shape>{s...}, eps); }
// two networks fragmented together; entities of the second are numbered after those of the first
inline void together(const Net& m, const Net& n, int offset, double eps, Net& all)
{
    List shapes;
    for (const auto& s : m.shapes) shapes.Append(s);
    for (const auto& s : n.shapes) shapes.Append(s);
    Net mm = m, nn = n;
    if (shapes.Extent() != 1)
    {
        BRepAlgoAPI_BuilderAlgo algo;
        run(algo, shapes, eps);
        mm = parts(algo, m), nn = parts(algo, n);
    }
    all.shapes = mm.shapes;
    for (const auto& s : nn.shapes) all.shapes.Append(s);
    for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(mm.numbers); it.More(); it.Next()) all.numbers.Bind(it.Key(), it.Value());
    for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(nn.numbers); it.More(); it.Next()) all.numbers.Bind(it.Key(), it.Value() + offset);
}
inline auto shapes(const EntityNetwork& n) { return bag(n.entityFragments()); }
inline auto numbers(const EntityNetwork& n) { return n.entityFragmentsIndexMap(); }
// every law is stated for the fragments and for their numbers
#define BOTH(PID, NAME, SIG, ...) \
inline auto PID##_##NAME##Fragments_is SIG { B b; __VA_ARGS__ return shapes(b.build()); } \
inline auto PID##_##NAME##Numbers_is SIG { B b; __VA_ARGS__ return numbers(b.build()); }
#define WANT(PID, NAME, SIG, ...) \
inline List PID##_##NAME##Fragments_should SIG { Net r; __VA_ARGS__ return bag(r.shapes); } \
inline Map PID##_##NAME##Numbers_should SIG { Net r; __VA_ARGS__ return r.numbers; }
template<class T> TopoDS_Shape S(const T& t) { return OU::getShape(t); }
template<class... T>
double tolerance(const T&... t) { return std::min({std::numeric_limits<double>::max(), defaultEpsilon(S(t))...}); }
// ---- N01: networks without domain
BOTH(N01, one, (const Di& a), b.addEntity(a);)
WANT(N01, one, (const Di& a), r = fragments(net(S(a)), tolerance(a));)
BOTH(N01, two, (const Di& a, const Qu& c), b.addEntity(a); b.addEntity(c);)
WANT(N01, two, (const Di& a, const Qu& c), r = fragments(net(S(a), S(c)), tolerance(a, c));)
BOTH(N01, three, (const Di& a, const Qu& c, const Di& d), b.addEntity(a); b.addEntity(c); b.addEntity(d);)
WANT(N01, three, (const Di& a, const Qu& c, const Di& d), r = fragments(net(S(a), S(c), S(d)), tolerance(a, c, d));)
BOTH(N01, list, (const Di& a, const Di& c), std::vector<Di> v; v.push_back(a); v.push_back(c); b.addEntities(v);)
WANT(N01, list, (const Di& a, const Di& c), r = fragments(net(S(a), S(c)), tolerance(a, c));)
BOTH(N01, listSub, (const Di& a, const Di& c, const Di& d), std::vector<Di> v; v.push_back(a); v.push_back(c); b.addSubDomainEntities(v, Id(3)); b.addSubDomainEntity(d, Id(3));)
WANT(N01, listSub, (const Di& a, const Di& c, const Di& d), r = fragments(net(S(a), S(c), S(d)), tolerance(a, c, d));)
BOTH(N01, line, (const Sg& a, const Sg& c), b.addEntity(a); b.addEntity(c);)
WANT(N01, line, (const Sg& a, const Sg& c), r = fragments(net(S(a), S(c)), tolerance(a, c));)
// a second build only depends on the data
BOTH(N01, again, (const Di& a, const Di& c), b.addEntity(a); b.build(); b.addEntity(c);)
WANT(N01, again, (const Di& a, const Di& c), fragments(net(S(a)), tolerance(a)); r = fragments(net(S(a), S(c)), tolerance(a, c));)
// networks of sub-domains without confinement (no such sub-domain, or not to be confined)
BOTH(N01, nodomain, (const Di& a, const Di& c, const Di& d), b.addSubDomainEntity(a, Id(1)); b.addSubDomainEntity(c, Id(1)); b.addSubDomainEntity(d, Id(2));)
WANT(N01, nodomain, (const Di& a, const Di& c, const Di& d), together(net(S(a), S(c)), net(S(d)), 2, tolerance(a, c, d), r);)
BOTH(N01, mixed, (const Di& a, const Di& c, const Di& d), b.addEntity(a); b.addSubDomainEntity(c, Id(5)); b.addEntity(d);)
WANT(N01, mixed, (const Di& a, const Di& c, const Di& d), together(net(S(a), S(d)), net(S(c)), 2, tolerance(a, c, d), r);)
BOTH(N03, free, (const Bx& x, const Bx& y, const Di& a, const Di& c),
     b.addSubDomain(x, Id(1)); b.addSubDomain(y, Id(2)); b.addSubDomainEntity(a, Id(1)); b.addSubDomainEntity(c, Id(2)); b.setConfineToSubDomainUnion(false);)
WANT(N03, free, (const Bx& x, const Bx& y, const Di& a, const Di& c), together(net(S(a)), net(S(c)), 1, tolerance(x, y), r);)
// ---- N03: confinement
BOTH(N03, own, (const Bx& x, const Di& a, const Di& c), b.addConfiningSubDomain(x, Id(1)); b.addSubDomainEntity(a, Id(1)); b.addSubDomainEntity(c, Id(1));)
WANT(N03, own, (const Bx& x, const Di& a, const Di& c), r = fragments(confined(net(S(a), S(c)), S(x), tolerance(x)), tolerance(x));)
BOTH(N03, whole, (const Bx& x, const Di& a), b.addSubDomain(x, Id(1)); b.addSubDomainEntity(a, Id(1));)
WANT(N03, whole, (const Bx& x, const Di& a), r = fragments(confined(net(S(a)), S(x), tolerance(x)), tolerance(x));)
BOTH(N03, united, (const Bx& x, const Cy& y, const Di& a, const Di& c), b.addSubDomain(x, Id(1)); b.addSubDomain(y, Id(2)); b.addSubDomainEntity(a, Id(1)); b.addSubDomainEntity(c, Id(2));)
WANT(N03, united, (const Bx& x, const Cy& y, const Di& a, const Di& c),
     const double e = tolerance(x, y); const TopoDS_Shape u = united(e, S(x), S(y)); together(confined(net(S(a)), u, e), confined(net(S(c)), u, e), 1, e, r);)
BOTH(N03, owns, (const Bx& x, const Cy& y, const Di& a, const Di& c), b.addConfiningSubDomain(x, Id(1)); b.addConfiningSubDomain(y, Id(2)); b.addSubDomainEntity(c, Id(2)); b.addSubDomainEntity(a, Id(1));)
WANT(N03, owns, (const Bx& x, const Cy& y, const Di& a, const Di& c),
     const double e = tolerance(x, y); together(confined(net(S(a)), S(x), e), confined(net(S(c)), S(y), e), 1, e, r);)
BOTH(N03, partly, (const Bx& x, const Cy& y, const Di& a, const Di& c), b.addConfiningSubDomain(x, Id(1)); b.addSubDomain(y, Id(2)); b.addSubDomainEntity(c, Id(2)); b.addSubDomainEntity(a, Id(1));)
WANT(N03, partly, (const Bx& x, const Cy& y, const Di& a, const Di& c),
     const double e = tolerance(x, y); together(confined(net(S(a)), S(x), e), confined(net(S(c)), united(e, S(x), S(y)), e), 1, e, r);)
BOTH(N03, partlyFree, (const Bx& x, const Cy& y, const Di& a, const Di& c),
     b.addConfiningSubDomain(x, Id(1)); b.addSubDomain(y, Id(2)); b.addSubDomainEntity(c, Id(2)); b.addSubDomainEntity(a, Id(1)); b.setConfineToSubDomainUnion(false);)
WANT(N03, partlyFree, (const Bx& x, const Cy& y, const Di& a, const Di& c),
     const double e = tolerance(x, y); together(confined(net(S(a)), S(x), e), net(S(c)), 1, e, r);)
// entities of no sub-domain stay as they are; numbering counts the entities, also if some of them vanish
BOTH(N03, outside, (const Bx& x, const Di& a, const Di& c, const Di& d), b.addConfiningSubDomain(x, Id(1)); b.addSubDomainEntity(a, Id(1)); b.addSubDomainEntity(c, Id(1)); b.addSubDomainEntity(d, Id(2));)
WANT(N03, outside, (const Bx& x, const Di& a, const Di& c, const Di& d), const double e = tolerance(x); together(confined(net(S(a), S(c)), S(x), e), net(S(d)), 2, e, r);)
// the union is that of the current sub-domains
BOTH(N03, later, (const Bx& x, const Cy& y, const Di& a), b.addSubDomain(x, Id(1)); b.addSubDomainEntity(a, Id(1)); b.build(); b.addSubDomain(y, Id(2));)
WANT(N03, later, (const Bx& x, const Cy& y, const Di& a),
     fragments(confined(net(S(a)), S(x), tolerance(x)), tolerance(x));
     const double e = tolerance(x, y); Net n = confined(net(S(a)), united(e, S(x), S(y)), e); r = fragments(n, e);)
// ---- N03: contained networks; the sub-domains are fragmented together with the entities
inline auto cshapes(const ContainedEntityNetwork& n, int id) { return bag(n.subDomainEntityFragments(Id(id))); }
inline auto cnumbers(const ContainedEntityNetwork& n, int id) { return n.subDomainEntityFragmentsIndexMap(Id(id)); }
inline auto cdomain(const ContainedEntityNetwork& n, int id) { return bag(n.subDomainFragments(Id(id))); }
inline void model(const Bx& x, const Cy& y, const Net& m, const Net& n, double e, List& dx, List& dy, Net& mm, Net& nn)
{
    List all;
    for (const auto& s : m.shapes) all.Append(s);
    for (const auto& s : n.shapes) all.Append(s);
    all.Append(S(x));
    all.Append(S(y));
    BRepAlgoAPI_BuilderAlgo algo;
    run(algo, all, e);
    mm = parts(algo, m);
    nn = parts(algo, n);
    dx = parts(algo, net(S(x))).shapes;
    dy = parts(algo, net(S(y))).shapes;
}
#define CBUILD C b; b.addConfiningSubDomain(x, Id(1)); b.addSubDomain(y, Id(2)); b.addSubDomainEntity(a, Id(1)); b.addSubDomainEntity(c, Id(1)); b.addSubDomainEntity(d, Id(2)); const auto& n = b.build();
#define CARGS (const Bx& x, const Cy& y, const Di& a, const Di& c, const Di& d)
#define CMODEL const double e = tolerance(x, y); List dx, dy; Net mm, nn; \
    model(x, y, confined(net(S(a), S(c)), S(x), e), confined(net(S(d)), united(e, S(x), S(y)), e), e, dx, dy, mm, nn);
inline auto N03_containedEntities1_is CARGS { CBUILD return cshapes(n, 1); }
inline auto N03_containedEntities2_is CARGS { CBUILD return cshapes(n, 2); }
inline auto N03_containedNumbers1_is CARGS { CBUILD return cnumbers(n, 1); }
inline auto N03_containedNumbers2_is CARGS { CBUILD return cnumbers(n, 2); }
inline auto N03_containedDomain1_is CARGS { CBUILD return cdomain(n, 1); }
inline auto N03_containedDomain2_is CARGS { CBUILD return cdomain(n, 2); }
inline List N03_containedEntities1_should CARGS { CMODEL return bag(mm.shapes); }
inline List N03_containedEntities2_should CARGS { CMODEL return bag(nn.shapes); }
inline Map N03_containedNumbers1_should CARGS { CMODEL return mm.numbers; }
inline Map N03_containedNumbers2_should CARGS { CMODEL return nn.numbers; }
inline List N03_containedDomain1_should CARGS { CMODEL return bag(dx); }
inline List N03_containedDomain2_should CARGS { CMODEL return bag(dy); }
inline auto N03_containedAgain_is CARGS { CBUILD b.build(); return cshapes(b.build(), 1); }
inline auto N03_containedAgain_should CARGS { CMODEL return bag(mm.shapes); }
inline auto N03_containedDomainAgain_is CARGS { CBUILD b.build(); return cdomain(b.build(), 1); }
inline auto N03_containedDomainAgain_should CARGS { CMODEL return bag(dx); }
#define FBUILD C b; b.addSubDomain(x, Id(1)); b.addSubDomain(y, Id(2)); b.setConfineToSubDomainUnion(false); b.addSubDomainEntity(a, Id(1)); b.addSubDomainEntity(c, Id(2)); b.addSubDomainEntity(d, Id(2)); const auto& n = b.build();
#define FMODEL const double e = tolerance(x, y); List dx, dy; Net mm, nn; model(x, y, net(S(a)), net(S(c), S(d)), e, dx, dy, mm, nn);
inline auto N03_containedFree1_is CARGS { FBUILD return cshapes(n, 1); }
inline auto N03_containedFree1_should CARGS { FMODEL return bag(mm.shapes); }
inline auto N03_containedFree2_is CARGS { FBUILD return cnumbers(n, 2); }
inline auto N03_containedFree2_should CARGS { FMODEL return nn.numbers; }
inline auto N03_containedIds_is CARGS { CBUILD std::size_t s = 0; for (auto id : n.subDomainIds()) s += id.get() == 1 ? 10 : (id.get() == 2 ? 1 : 100); return s; }
inline std::size_t N03_containedIds_should CARGS { CMODEL return 11; }
inline int N03_containedEmpty_is(const Bx& x, const Cy& y, const Di& a)
{
    C b;
    b.addConfiningSubDomain(x, Id(1));
    b.addConfiningSubDomain(y, Id(2));
    b.addSubDomainEntity(a, Id(1));
    const auto& n = b.build();
    return n.subDomainEntityFragments(Id(2)).Extent() + n.subDomainEntityFragmentsIndexMap(Id(2)).Extent();
}
inline int N03_containedEmpty_should(const Bx& x, const Cy& y, const Di& a)
{
    const double e = tolerance(x, y);
    List dx, dy;
    Net mm, nn;
    model(x, y, confined(net(S(a)), S(x), e), Net(), e, dx, dy, mm, nn);
    return 0;
}
// ---- N02: rules of use
#define RULE(NAME, SIG, ACTIONS) inline int N02_##NAME##_is SIG { B b; ACTIONS return 1; }
#define CRULE(NAME, SIG, ACTIONS) inline int N02_##NAME##_is SIG { C b; ACTIONS return 1; }
#define FAILS(NAME, SIG) inline int N02_##NAME##_should SIG { throw std::runtime_error("rule"); }
#define FINE(NAME, SIG) inline int N02_##NAME##_should SIG { return 1; }
RULE(otherDimension, (const Di& a, const Sg& s), b.addEntity(a); b.addEntity(s);) FAILS(otherDimension, (const Di& a, const Sg& s))
RULE(sameDimension, (const Di& a, const Qu& s), b.addEntity(a); b.addEntity(s); b.addSubDomainEntity(a, Id(2));) FINE(sameDimension, (const Di& a, const Qu& s))
RULE(otherDimensionSub, (const Di& a, const Sg& s), b.addEntity(a); b.addSubDomainEntity(s, Id(1));) FAILS(otherDimensionSub, (const Di& a, const Sg& s))
RULE(otherDimensionSub2, (const Di& a, const Sg& s), b.addSubDomainEntity(s, Id(1)); b.addSubDomainEntity(a, Id(1));) FAILS(otherDimensionSub2, (const Di& a, const Sg& s))
CRULE(otherDimensionSub3, (const Di& a, const Sg& s), b.addSubDomainEntity(s, Id(1)); b.addSubDomainEntity(a, Id(2));) FAILS(otherDimensionSub3, (const Di& a, const Sg& s))
RULE(entityInFace, (const Di& a, const Qu& s), b.addSubDomain(s, Id(1)); b.addEntity(a);) FAILS(entityInFace, (const Di& a, const Qu& s))
RULE(entityInFaceSub, (const Di& a, const Qu& s), b.addSubDomain(s, Id(1)); b.addSubDomainEntity(a, Id(1));) FAILS(entityInFaceSub, (const Di& a, const Qu& s))
RULE(domainTooSmall, (const Di& a, const Qu& s), b.addEntity(a); b.addSubDomain(s, Id(1));) FAILS(domainTooSmall, (const Di& a, const Qu& s))
RULE(domainTooSmallConfining, (const Di& a, const Qu& s), b.addSubDomainEntity(a, Id(1)); b.addConfiningSubDomain(s, Id(1));) FAILS(domainTooSmallConfining, (const Di& a, const Qu& s))
RULE(lineInFace, (const Di& a, const Sg& s), b.addEntity(s); b.addSubDomain(a, Id(1)); b.addSubDomainEntity(s, Id(1));) FINE(lineInFace, (const Di& a, const Sg& s))
RULE(faceInSolid, (const Di& a, const Bx& s), b.addSubDomain(s, Id(1)); b.addEntity(a); b.addSubDomainEntity(a, Id(1));) FINE(faceInSolid, (const Di& a, const Bx& s))
RULE(sameId, (const Bx& a, const Cy& s), b.addSubDomain(a, Id(3)); b.addSubDomain(s, Id(3));) FAILS(sameId, (const Bx& a, const Cy& s))
RULE(sameIdConfining, (const Bx& a, const Cy& s), b.addSubDomain(a, Id(3)); b.addConfiningSubDomain(s, Id(3));) FAILS(sameIdConfining, (const Bx& a, const Cy& s))
RULE(sameIdConfining2, (const Bx& a, const Cy& s), b.addConfiningSubDomain(a, Id(3)); b.addSubDomain(s, Id(3));) FAILS(sameIdConfining2, (const Bx& a, const Cy& s))
RULE(otherId, (const Bx& a, const Cy& s, const Sp& t), b.addSubDomain(a, Id(3)); b.addConfiningSubDomain(s, Id(4)); b.addSubDomain(t, Id(0));) FINE(otherId, (const Bx& a, const Cy& s, const Sp& t))
RULE(otherDomainDimension, (const Bx& a, const Qu& s), b.addSubDomain(a, Id(3)); b.addSubDomain(s, Id(4));) FAILS(otherDomainDimension, (const Bx& a, const Qu& s))
RULE(notBuilt, (const Di& a), b.addEntity(a); b.network();) FAILS(notBuilt, (const Di& a))
CRULE(notBuiltContained, (const Di& a), b.addSubDomainEntity(a, Id(1)); b.network();) FAILS(notBuiltContained, (const Di& a))
RULE(cleared, (const Di& a), b.addEntity(a); b.build(); b.clear(); b.network();)
inline int N02_cleared_should(const Di& a) { fragments(net(S(a)), tolerance(a)); throw std::runtime_error("rule"); }
RULE(clearedLater, (const Di& a, const Di& c), b.addEntity(a); b.build(); b.clear(); b.addEntity(c); b.network();)
inline int N02_clearedLater_should(const Di& a, const Di& c) { fragments(net(S(a)), tolerance(a)); throw std::runtime_error("rule"); }
RULE(otherDomainDimensionNet, (const Sg& g, const Bx& a, const Qu& s), b.addEntity(g); b.addSubDomain(a, Id(3)); b.addConfiningSubDomain(s, Id(4));) FAILS(otherDomainDimensionNet, (const Sg& g, const Bx& a, const Qu& s))
RULE(otherDimensionNet, (const Bx& x, const Sg& g, const Qu& s), b.addSubDomain(x, Id(3)); b.addEntity(g); b.addEntity(s);) FAILS(otherDimensionNet, (const Bx& x, const Sg& g, const Qu& s))
RULE(otherDimensionNetSub, (const Bx& x, const Sg& g, const Qu& s), b.addSubDomain(x, Id(3)); b.addSubDomainEntity(g, Id(3)); b.addEntity(s);) FAILS(otherDimensionNetSub, (const Bx& x, const Sg& g, const Qu& s))
RULE(sameIdNet, (const Bx& a, const Cy& s, const Di& d), b.addEntity(d); b.addSubDomain(a, Id(3)); b.addSubDomainEntity(d, Id(3)); b.addSubDomain(s, Id(3));) FAILS(sameIdNet, (const Bx& a, const Cy& s, const Di& d))
RULE(domainTooSmallLater, (const Bx& x, const Di& a, const Qu& s), b.addSubDomain(x, Id(1)); b.addEntity(a); b.clear(); b.addEntity(a); b.addSubDomain(s, Id(1));) FAILS(domainTooSmallLater, (const Bx& x, const Di& a, const Qu& s))
CRULE(entityInFaceContained, (const Di& a, const Qu& s), b.addConfiningSubDomain(s, Id(1)); b.addSubDomainEntity(a, Id(1));) FAILS(entityInFaceContained, (const Di& a, const Qu& s))
CRULE(solidInSolid, (const Bx& a, const Cy& s), b.addConfiningSubDomain(s, Id(1)); b.addSubDomainEntity(a, Id(2));) FAILS(solidInSolid, (const Bx& a, const Cy& s))
CRULE(clearedContained, (const Bx& x, const Di& a), b.addConfiningSubDomain(x, Id(1)); b.addSubDomainEntity(a, Id(1)); b.build(); b.clear(); b.network();) FAILS(clearedContained, (const Bx& x, const Di& a))
RULE(clearedDimension, (const Di& a, const Bx& x, const Sg& s, const Qu& q), b.addEntity(a); b.addSubDomain(x, Id(1)); b.clear(); b.addSubDomain(q, Id(1)); b.addEntity(s); b.addSubDomainEntity(s, Id(1));)
FINE(clearedDimension, (const Di& a, const Bx& x, const Sg& s, const Qu& q))
inline bool N02_builtNo_is(const Di& a) { B b; b.addEntity(a); return b.isBuilt(); }
inline bool N02_builtNo_should(const Di& a) { return false; }
inline bool N02_builtYes_is(const Di& a) { B b; b.addEntity(a); b.build(); return b.isBuilt(); }
inline bool N02_builtYes_should(const Di& a) { fragments(net(S(a)), tolerance(a)); return true; }
inline bool N02_builtCleared_is(const Di& a) { B b; b.addEntity(a); b.build(); b.clear(); return b.isBuilt(); }
inline bool N02_builtCleared_should(const Di& a) { fragments(net(S(a)), tolerance(a)); return false; }
// data added before clear() does not show in later networks
BOTH(N02, clear, (const Bx& x, const Di& a, const Di& c), b.addConfiningSubDomain(x, Id(0)); b.addEntity(a); b.clear(); b.addEntity(c);)
WANT(N02, clear, (const Bx& x, const Di& a, const Di& c), r = fragments(net(S(c)), tolerance(c));)
BOTH(N02, clearBuilt, (const Bx& x, const Di& a, const Di& c), b.addConfiningSubDomain(x, Id(0)); b.addEntity(a); b.build(); b.clear(); b.addSubDomainEntity(c, Id(4));)
WANT(N02, clearBuilt, (const Bx& x, const Di& a, const Di& c), fragments(confined(net(S(a)), S(x), tolerance(x)), tolerance(x)); r = fragments(net(S(c)), tolerance(c));)
// the tolerance: that of the user, otherwise the smallest default of the sub-domains or, without sub-domains, of the entities
BOTH(N02, tolerance, (const Di& a, double e), b.setEpsilon(e); b.addEntity(a);)
WANT(N02, tolerance, (const Di& a, double e), r = fragments(net(S(a)), e);)
BOTH(N02, toleranceConfined, (const Bx& x, const Di& a, double e), b.addConfiningSubDomain(x, Id(1)); b.addSubDomainEntity(a, Id(1)); b.setEpsilon(e);)
WANT(N02, toleranceConfined, (const Bx& x, const Di& a, double e), r = fragments(confined(net(S(a)), S(x), e), e);)
BOTH(N02, toleranceUnited, (const Bx& x, const Cy& y, const Di& a, double e), b.setEpsilon(e); b.addSubDomain(x, Id(1)); b.addSubDomain(y, Id(2)); b.addSubDomainEntity(a, Id(1));)
WANT(N02, toleranceUnited, (const Bx& x, const Cy& y, const Di& a, double e), r = fragments(confined(net(S(a)), united(e, S(x), S(y)), e), e);)
BOTH(N02, toleranceDefault, (const Bx& x, const Cy& y, const Di& a, double e), b.setEpsilon(e); b.addConfiningSubDomain(x, Id(1)); b.addSubDomain(y, Id(2)); b.addSubDomainEntity(a, Id(1)); b.setDefaultEpsilon();)
WANT(N02, toleranceDefault, (const Bx& x, const Cy& y, const Di& a, double e), r = fragments(confined(net(S(a)), S(x), tolerance(x, y)), tolerance(x, y));)
BOTH(N02, toleranceSubs, (const Di& a, const Di& c), b.addSubDomainEntity(a, Id(1)); b.addSubDomainEntity(c, Id(2));)
WANT(N02, toleranceSubs, (const Di& a, const Di& c), together(net(S(a)), net(S(c)), 1, tolerance(a, c), r);)
BOTH(N02, toleranceCleared, (const Di& a, const Di& c, double e), b.setEpsilon(e); b.addEntity(a); b.clear(); b.addEntity(c);)
WANT(N02, toleranceCleared, (const Di& a, const Di& c, double e), r = fragments(net(S(c)), e);)
BOTH(N02, toleranceLater, (const Di& a, double e), b.addEntity(a); b.build(); b.setEpsilon(e);)
WANT(N02, toleranceLater, (const Di& a, double e), fragments(net(S(a)), tolerance(a)); r = fragments(net(S(a)), e);)
BOTH(N02, toleranceDomains, (const Bx& x, const Cy& y, const Di& a), b.addSubDomainEntity(a, Id(4)); b.addSubDomain(x, Id(1)); b.addConfiningSubDomain(y, Id(2));)
WANT(N02, toleranceDomains, (const Bx& x, const Cy& y, const Di& a), r = fragments(net(S(a)), tolerance(x, y));)
BOTH(N02, toleranceTwice, (const Di& a, double e, double f), b.setEpsilon(e); b.addEntity(a); b.build(); b.setEpsilon(f);)
WANT(N02, toleranceTwice, (const Di& a, double e, double f), fragments(net(S(a)), e); r = fragments(net(S(a)), f);)
BOTH(N02, toleranceGrowing, (const Bx& x, const Di& a, const Di& c), b.addEntity(a); b.build(); b.addSubDomain(x, Id(1)); b.addEntity(c);)
WANT(N02, toleranceGrowing, (const Bx& x, const Di& a, const Di& c), fragments(net(S(a)), tolerance(a)); r = fragments(net(S(a), S(c)), tolerance(x));)
inline auto N02_dimension_is(const Sg& a) { B b; b.addEntity(a); return b.build().entityDimension(); }
inline int N02_dimension_should(const Sg& a) { fragments(net(S(a)), tolerance(a)); return 1; }
inline auto N02_dimensions_is(const Bx& x, const Di& a) { C b; b.addConfiningSubDomain(x, Id(1)); b.addSubDomainEntity(a, Id(1)); const auto& n = b.build(); return 10*n.entityDimension() + n.domainDimension(); }
inline int N02_dimensions_should(const Bx& x, const Di& a)
{
    const double e = tolerance(x);
    const Net m = confined(net(S(a)), S(x), e);
    List all;
    for (const auto& s : m.shapes) all.Append(s);
    all.Append(S(x));
    BRepAlgoAPI_BuilderAlgo algo;
    if (all.Extent() != 1) run(algo, all, e);
    return 23;
}
// ---- N02: entity sets
using M = MultiGeometryEntitySet<Di, Qu>;
inline void fill(M& m, const Di& a, const Di& c, const Qu& d) { m.addEntity(a, Id(1)); m.addEntity(d, Id(2)); m.addEntity(c, Id(3)); m.addEntity(a, Id(3)); }
// records what a set passes to a builder
struct Recorder
{
    std::vector<std::pair<double, std::size_t>> log;
    template<class V> void addSubDomainEntities(const V& v, Id id) { for (const auto& e : v) log.emplace_back(defaultEpsilon(e), id.get()); }
    template<class V> void addEntities(const V& v) { for (const auto& e : v) log.emplace_back(defaultEpsilon(e), 77); }
};
inline auto N04_exportAll_is(const Di& a, const Di& c, const Qu& d) { M m; fill(m, a, c, d); Recorder r; m.exportEntitySets(r); return bag(r.log); }
inline auto N04_exportAll_should(const Di& a, const Di& c, const Qu& d)
{ Recorder r; r.log.emplace_back(defaultEpsilon(a), 77); r.log.emplace_back(defaultEpsilon(c), 77); r.log.emplace_back(defaultEpsilon(a), 77); r.log.emplace_back(defaultEpsilon(d), 77); return bag(r.log); }
inline auto N04_exportDomain_is(const Di& a, const Di& c, const Qu& d) { M m; fill(m, a, c, d); Recorder r; m.exportEntitySets(r, Id(9)); return bag(r.log); }
inline auto N04_exportDomain_should(const Di& a, const Di& c, const Qu& d)
{ Recorder r; r.log.emplace_back(defaultEpsilon(a), 9); r.log.emplace_back(defaultEpsilon(c), 9); r.log.emplace_back(defaultEpsilon(a), 9); r.log.emplace_back(defaultEpsilon(d), 9); return bag(r.log); }
inline auto N04_exportSome_is(const Di& a, const Di& c, const Qu& d) { M m; fill(m, a, c, d); Recorder r; m.exportEntitySets({Id(2), Id(3)}, r, Id(9)); return bag(r.log); }
inline auto N04_exportSome_should(const Di& a, const Di& c, const Qu& d)
{ Recorder r; r.log.emplace_back(defaultEpsilon(c), 9); r.log.emplace_back(defaultEpsilon(a), 9); r.log.emplace_back(defaultEpsilon(d), 9); return bag(r.log); }
inline auto N04_exportOne_is(const Di& a, const Di& c, const Qu& d) { M m; fill(m, a, c, d); Recorder r; m.exportEntitySets({Id(1), Id(8)}, r, Id(5)); return bag(r.log); }
inline auto N04_exportOne_should(const Di& a, const Di& c, const Qu& d) { Recorder r; r.log.emplace_back(defaultEpsilon(a), 5); return bag(r.log); }
inline auto N04_counts_is(const Di& a, const Di& c, const Qu& d) { M m; fill(m, a, c, d); return 1000*m.numEntities() + 100*m.numEntities(Id(1)) + 10*m.numEntities(Id(2)) + m.numEntities(Id(3)) + 10000*m.numEntities(Id(4)); }
inline std::size_t N04_counts_should(const Di& a, const Di& c, const Qu& d) { return 4112; }
inline int N04_otherType_is(const Di& a, const Qu& d) { M m; m.addEntity(a, Id(1)); m.addEntity(d, Id(1)); return 1; }
inline int N04_otherType_should(const Di& a, const Qu& d) { throw std::runtime_error("type"); }
inline auto N04_applied_is(const Di& a, const Di& c, const Qu& d)
{ M m; fill(m, a, c, d); double s = 0.0; m.applyOnSet(Id(3), [&] (const auto& v) { for (const auto& e : v) s += defaultEpsilon(e); }); return s; }
inline double N04_applied_should(const Di& a, const Di& c, const Qu& d) { return defaultEpsilon(a) + defaultEpsilon(c); }
// the order in which entities of a set were added is kept
inline double N04_order_is(const Di& a, const Di& c, const Qu& d)
{ M m; m.addEntity(c, Id(1)); m.addEntity(a, Id(1)); m.addEntity(c, Id(1)); double s = 0.0; m.applyOnSet(Id(1), [&] (const auto& v) { double f = 1.0; for (const auto& e : v) { s += f*defaultEpsilon(e); f *= 10.0; } }); return s; }
inline double N04_order_should(const Di& a, const Di& c, const Qu& d) { return defaultEpsilon(c) + 10.0*defaultEpsilon(a) + 100.0*defaultEpsilon(c); }
// naming an id twice, or with a set that grew in between, makes no difference
inline auto N04_exportTwice_is(const Di& a, const Di& c, const Qu& d) { M m; fill(m, a, c, d); Recorder r; m.exportEntitySets({Id(2), Id(3), Id(2)}, r, Id(9)); return bag(r.log); }
inline auto N04_exportTwice_should(const Di& a, const Di& c, const Qu& d) { Recorder r; r.log.emplace_back(defaultEpsilon(d), 9); r.log.emplace_back(defaultEpsilon(c), 9); r.log.emplace_back(defaultEpsilon(a), 9); return bag(r.log); }
inline auto N04_exportAgain_is(const Di& a, const Di& c, const Qu& d) { M m; m.addEntity(a, Id(1)); Recorder q, r; m.exportEntitySets(q); m.addEntity(c, Id(1)); m.addEntity(d, Id(2)); m.exportEntitySets(r); return bag(r.log); }
inline auto N04_exportAgain_should(const Di& a, const Di& c, const Qu& d) { Recorder r; r.log.emplace_back(defaultEpsilon(a), 77); r.log.emplace_back(defaultEpsilon(c), 77); r.log.emplace_back(defaultEpsilon(d), 77); return bag(r.log); }
inline auto N04_exportNone_is(const Di& a, const Di& c, const Qu& d) { M m; fill(m, a, c, d); Recorder r; m.exportEntitySets({}, r, Id(9)); return bag(r.log); }
inline auto N04_exportNone_should(const Di& a, const Di& c, const Qu& d) { Recorder r; return bag(r.log); }
// entities given by a pointer to their base class
inline void fillPointers(M& m, const Di& a, const Di& c, const Qu& d)
{
    std::shared_ptr<Geometry> pa = std::make_shared<Di>(a), pc = std::make_shared<Di>(c), pd = std::make_shared<Qu>(d);
    m.addEntity(pd, Id(2)); m.addEntity(pa, Id(1)); m.addEntity(pc, Id(1)); m.addEntity(pa, Id(3));
}
inline auto N04_pointers_is(const Di& a, const Di& c, const Qu& d) { M m; fillPointers(m, a, c, d); Recorder r; m.exportEntitySets({Id(1), Id(2)}, r, Id(9)); return bag(r.log); }
inline auto N04_pointers_should(const Di& a, const Di& c, const Qu& d) { Recorder r; r.log.emplace_back(defaultEpsilon(d), 9); r.log.emplace_back(defaultEpsilon(a), 9); r.log.emplace_back(defaultEpsilon(c), 9); return bag(r.log); }
inline std::size_t N04_pointerCounts_is(const Di& a, const Di& c, const Qu& d) { M m; fillPointers(m, a, c, d); return 1000*m.numEntities() + 100*m.numEntities(Id(1)) + 10*m.numEntities(Id(2)) + m.numEntities(Id(3)); }
inline std::size_t N04_pointerCounts_should(const Di& a, const Di& c, const Qu& d) { return 4211; }
inline int N04_pointerOther_is(const Di& a, const Bx& x) { M m; std::shared_ptr<Geometry> p = std::make_shared<Bx>(x); m.addEntity(p, Id(1)); return 1; }
inline int N04_pointerOther_should(const Di& a, const Bx& x) { throw std::runtime_error("type"); }
inline int N04_pointerOtherType_is(const Di& a, const Qu& d) { M m; m.addEntity(a, Id(1)); std::shared_ptr<Geometry> p = std::make_shared<Qu>(d); m.addEntity(p, Id(1)); return 1; }
inline int N04_pointerOtherType_should(const Di& a, const Qu& d) { throw std::runtime_error("type"); }
inline int N04_otherTypeLater_is(const Di& a, const Di& c, const Qu& d) { M m; fill(m, a, c, d); m.addEntity(d, Id(3)); return 1; }
inline int N04_otherTypeLater_should(const Di& a, const Di& c, const Qu& d) { throw std::runtime_error("type"); }
inline bool N04_unknown_is(const Di& a, const Di& c, const Qu& d) { M m; fill(m, a, c, d); return m.applyOnSet(Id(6), [&] (const auto& v) {}); }
inline bool N04_unknown_should(const Di& a, const Di& c, const Qu& d) { return false; }
}
#endif
