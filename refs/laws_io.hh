// Laws of the writers: X_is is what the library computes, X_should what it has to compute (never executed).
#ifndef VERIF_LAWS_IO_HH
#define VERIF_LAWS_IO_HH
#include <frackit/io/brepwriter.hh>
#include <frackit/io/gmshwriter.hh>
#include <frackit/entitynetwork/entitynetwork.hh>
#include <frackit/entitynetwork/containedentitynetwork.hh>
namespace Law {
using namespace Frackit;
namespace OU = Frackit::OCCUtilities;
using List = TopTools_ListOfShape; using Map = TopTools_DataMapOfShapeInteger; using Index = TopTools_IndexedMapOfShape;
using Groups = std::unordered_map<std::size_t, std::vector<std::size_t>>;
template<class T> T bag(const T&);
struct Writer : public BRepWriter
{
    using BRepWriter::BRepWriter;
    Groups entities() const { return entityToFragmentsMap(); }
    Groups intersections() const { return entityIntersectionsToFragmentsMap(); }
    Groups domains() const { return domainToFragmentsMap(); }
};
template<class T> T sets(const T&);            // the order of the parts in a group does not matter
template<class T> T groups(const T&);          // nor which group has which of the numbers in use
// ---- the model: every part of every fragment, numbered in the order of a traversal of the fragments
struct Parts { Index solids, shells, faces, wires, edges, vertices; };
inline void faceParts(const TopoDS_Shape& s, Parts& p)
{
    for (TopExp_Explorer f(s, TopAbs_FACE); f.More(); f.Next())
    {
        p.faces.Add(f.Current());
        for (TopExp_Explorer w(f.Current(), TopAbs_WIRE); w.More(); w.Next())
        {
            p.wires.Add(w.Current());
            for (TopExp_Explorer e(w.Current(), TopAbs_EDGE); e.More(); e.Next())
            {
                p.edges.Add(e.Current());
                for (TopExp_Explorer v(e.Current(), TopAbs_VERTEX); v.More(); v.Next()) p.vertices.Add(v.Current());
            }
        }
    }
}
inline void solidParts(const TopoDS_Shape& s, Parts& p)
{
    for (TopExp_Explorer t(s, TopAbs_SOLID); t.More(); t.Next())
    {
        p.solids.Add(t.Current());
        for (TopExp_Explorer h(t.Current(), TopAbs_SHELL); h.More(); h.Next())
        {
            p.shells.Add(h.Current());
            faceParts(h.Current(), p);
        }
    }
}
// the faces of the network and the number of their entity
inline Groups entityGroups(const Parts& p, const Map& m)
{
    Groups g;
    for (int i = 1; i <= p.faces.Extent(); ++i)
        if (m.IsBound(p.faces(i))) g[m.Find(p.faces(i))].push_back(i);
    return g;
}
inline void number(Map& m, const TopoDS_Shape& s, int n) { for (TopExp_Explorer e(s, TopAbs_FACE); e.More(); e.Next()) m.Bind(e.Current(), n); }
inline EntityNetwork network(const TopoDS_Shape& a, const TopoDS_Shape& b)
{
    List l; Map m;
    l.Append(a); l.Append(b);
    number(m, a, 3); number(m, b, 5);
    return EntityNetwork(2, std::move(l), std::move(m));
}
// the shape that is written holds the parts of each kind in the order of their numbers
inline TopoDS_Compound compound(const Parts& p)
{
    TopoDS_Compound c;
    BRep_Builder b;
    b.MakeCompound(c);
    for (int i = 1; i <= p.vertices.Extent(); ++i) b.Add(c, p.vertices(i));
    for (int i = 1; i <= p.edges.Extent(); ++i) b.Add(c, p.edges(i));
    for (int i = 1; i <= p.wires.Extent(); ++i) b.Add(c, p.wires(i));
    for (int i = 1; i <= p.faces.Extent(); ++i) b.Add(c, p.faces(i));
    for (int i = 1; i <= p.shells.Extent(); ++i) b.Add(c, p.shells(i));
    for (int i = 1; i <= p.solids.Extent(); ++i) b.Add(c, p.solids(i));
    return c;
}
inline int written(const Parts& p, const std::string& name)
{
    if (!BRepTools::Write(compound(p), (name + ".brep").c_str())) throw std::runtime_error("file");
    return 1;
}
// the lists of edges in which two entity fragments meet, every edge being listed once
inline void keys(List& l, const Map& m) { for (TopTools_DataMapIteratorOfDataMapOfShapeInteger x(m); x.More(); x.Next()) l.Append(x.Key()); }
inline Groups intersectionGroups(const Parts& p, const List& l)
{
    std::vector<Index> groups;
    Index known;
    for (const auto& x : l)
        for (const auto& y : l)
        {
            if (x.IsSame(y)) continue;
            Index g;
            for (const auto& e : OU::getOverlapEdges(TopoDS::Face(x), TopoDS::Face(y)))
                if (known.FindIndex(e) < 1) g.Add(e);
            for (int i = 1; i <= g.Extent(); ++i) known.Add(g(i));
            if (g.Extent() > 0) groups.push_back(g);
        }
    Groups r;
    for (std::size_t k = 0; k < groups.size(); ++k)
        for (int i = 1; i <= p.edges.Extent(); ++i)
            if (groups[k].FindIndex(p.edges(i)) > 0) r[k+1].push_back(i);
    return r;
}
#define NET Parts p; Map m; number(m, a, 3); number(m, b, 5); faceParts(a, p); faceParts(b, p);
#define ARGS (const TopoDS_Shape& a, const TopoDS_Shape& b)
inline Groups W01_entities_is ARGS { Writer w(network(a, b)); return sets(w.entities()); }
inline Groups W01_entities_should ARGS { NET return sets(entityGroups(p, m)); }
inline Groups W01_intersections_is ARGS { Writer w(network(a, b)); return groups(w.intersections()); }
inline Groups W01_intersections_should ARGS { NET List l; keys(l, m); return groups(intersectionGroups(p, l)); }
inline std::size_t W01_domains_is ARGS { Writer w(network(a, b)); return w.domains().size(); }
inline std::size_t W01_domains_should ARGS { return 0; }
inline int W01_compound_is(const TopoDS_Shape& a, const TopoDS_Shape& b, const std::string& name) { Writer w(network(a, b)); w.write(name); return 1; }
inline int W01_compound_should(const TopoDS_Shape& a, const TopoDS_Shape& b, const std::string& name) { NET return written(p, name); }
// ---- networks of entities in sub-domains
#define CARGS (const TopoDS_Shape& s, const TopoDS_Shape& t, const TopoDS_Shape& a, const TopoDS_Shape& b)
inline ContainedEntityNetwork contained CARGS
{
    std::unordered_map<std::size_t, List> d, e; std::unordered_map<std::size_t, Map> n;
    d[4].Append(s); d[7].Append(t);
    e[4].Append(a); e[7].Append(b);
    number(n[4], a, 3); number(n[7], b, 2);
    return ContainedEntityNetwork(2, 3, std::move(d), std::move(e), std::move(n));
}
inline int largest(const Map& m) { int r = 0; for (TopTools_DataMapIteratorOfDataMapOfShapeInteger x(m); x.More(); x.Next()) r = std::max(r, x.Value()); return r; }
inline void numberAfter(Map& all, const Map& m, int n) { for (TopTools_DataMapIteratorOfDataMapOfShapeInteger x(m); x.More(); x.Next()) all.Bind(x.Key(), x.Value() + n); }
#define CNET Parts p; solidParts(s, p); solidParts(t, p); faceParts(a, p); faceParts(b, p); Map m, n, l; number(m, a, 3); number(n, b, 2); numberAfter(l, m, 0); numberAfter(l, n, largest(m));
inline Groups W01_containedEntities_is CARGS { Writer w(contained(s, t, a, b)); return sets(w.entities()); }
inline Groups W01_containedEntities_should CARGS { CNET return sets(entityGroups(p, l)); }
inline Groups W01_containedIntersections_is CARGS { Writer w(contained(s, t, a, b)); return groups(w.intersections()); }
inline Groups W01_containedIntersections_should CARGS { CNET List e; keys(e, m); keys(e, n); return groups(intersectionGroups(p, e)); }
inline int W01_containedCompound_is(const TopoDS_Shape& s, const TopoDS_Shape& t, const TopoDS_Shape& a, const TopoDS_Shape& b, const std::string& name) { Writer w(contained(s, t, a, b)); w.write(name); return 1; }
inline int W01_containedCompound_should(const TopoDS_Shape& s, const TopoDS_Shape& t, const TopoDS_Shape& a, const TopoDS_Shape& b, const std::string& name) { CNET return written(p, name); }
inline Groups W01_containedDomains_is CARGS { Writer w(contained(s, t, a, b)); return sets(w.domains()); }
inline Groups W01_containedDomains_should CARGS
{
    Parts p, q; Groups g;
    solidParts(s, p);
    solidParts(s, q); solidParts(t, q);
    for (int i = 1; i <= q.solids.Extent(); ++i) g[i <= p.solids.Extent() ? 4 : 7].push_back(i);
    return sets(g);
}
// ---- rules of use
#define RULE(NAME, D, E) inline int W01_##NAME##_is() { Writer w(ContainedEntityNetwork(E, D, std::unordered_map<std::size_t, List>(), std::unordered_map<std::size_t, List>(), std::unordered_map<std::size_t, Map>())); return 1; }
#define FAILS(NAME) inline int W01_##NAME##_should() { throw std::runtime_error("dimension"); }
RULE(lines, 2, 1) FAILS(lines)
RULE(linesInSolids, 3, 1) FAILS(linesInSolids)
RULE(facesInFaces, 2, 2) FAILS(facesInFaces)
RULE(facesInSolids, 3, 2) inline int W01_facesInSolids_should() { return 1; }
inline int W01_lineNetwork_is() { Writer w(EntityNetwork(1, List(), Map())); return 1; } FAILS(lineNetwork)
inline int W01_solidNetwork_is() { Writer w(EntityNetwork(3, List(), Map())); return 1; } FAILS(solidNetwork)
// ---- W02: the mesh file
inline void group(std::ofstream& f, const std::string& kind, std::size_t id, const std::vector<std::size_t>& v)
{
    f << "Physical " << kind << "(" << id << ") = {";
    for (std::size_t i = 0; i < v.size(); ++i) { if (i > 0) f << ", "; f << v[i]; }
    f << "};\n";
}
inline void meshSize(std::ofstream& f, const std::string& kind, const std::vector<std::size_t>& v, const std::string& size)
{
    f << "Characteristic Length{ PointsOf{" << kind << "{";
    for (std::size_t i = 0; i < v.size(); ++i) { if (i > 0) f << ", "; f << v[i]; }
    f << "};} } = " << size << ";\n";
}
template<class T>
int mesh(const Parts& p, const Groups& domains, const Groups& entities, const Groups& intersections, const std::string& name, T h, T g)
{
    written(p, name);
    std::ofstream f(name + ".geo");
    f << "Merge \"" << name << ".brep" << "\";\n";
    f << "sizeAtEntities = " << h << ";\n" << "sizeAtBoundary = " << g << ";\n";
    // sizes set later prevail
    for (const auto& x : domains) { group(f, "Volume", x.first, x.second); meshSize(f, "Volume", x.second, "sizeAtBoundary"); }
    for (const auto& x : entities) { group(f, "Surface", x.first, x.second); meshSize(f, "Surface", x.second, "sizeAtEntities"); }
    for (const auto& x : intersections) group(f, "Line", x.first, x.second);
    f.close();
    if (f.fail()) throw std::runtime_error("file");
    return 1;
}
inline int W02_network_is(const TopoDS_Shape& a, const TopoDS_Shape& b, const std::string& name, double h, double g) { GmshWriter w(network(a, b)); w.write(name, h, g); return 1; }
inline int W02_network_should(const TopoDS_Shape& a, const TopoDS_Shape& b, const std::string& name, double h, double g)
{ NET List e; keys(e, m); return mesh(p, Groups(), entityGroups(p, m), intersectionGroups(p, e), name, h, g); }
inline int W02_oneSize_is(const TopoDS_Shape& a, const TopoDS_Shape& b, const std::string& name, double h) { GmshWriter w(network(a, b)); w.write(name, h); return 1; }
inline int W02_oneSize_should(const TopoDS_Shape& a, const TopoDS_Shape& b, const std::string& name, double h)
{ NET List e; keys(e, m); return mesh(p, Groups(), entityGroups(p, m), intersectionGroups(p, e), name, h, h); }
inline int W02_contained_is(const TopoDS_Shape& s, const TopoDS_Shape& t, const TopoDS_Shape& a, const TopoDS_Shape& b, const std::string& name, double h, double g)
{ GmshWriter w(contained(s, t, a, b)); w.write(name, h, g); return 1; }
inline int W02_contained_should(const TopoDS_Shape& s, const TopoDS_Shape& t, const TopoDS_Shape& a, const TopoDS_Shape& b, const std::string& name, double h, double g)
{
    CNET
    List e; keys(e, m); keys(e, n);
    Parts q; Groups d;
    solidParts(s, q);
    for (int i = 1; i <= p.solids.Extent(); ++i) d[i <= q.solids.Extent() ? 4 : 7].push_back(i);
    return mesh(p, d, entityGroups(p, l), intersectionGroups(p, e), name, h, g);
}
}
#endif
