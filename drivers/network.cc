#include <frackit/entitynetwork/constraints.hh>
#include <frackit/entitynetwork/constraintsmatrix.hh>
#include <frackit/entitynetwork/multigeometryentityset.hh>
#include <frackit/entitynetwork/networkbuilder.hh>
#include <frackit/io/brepwriter.hh>
#include <frackit/io/gmshwriter.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/sphere.hh>
using namespace Frackit;
template class Frackit::EntityNetworkConstraints<double>;
using C = EntityNetworkConstraints<double>;
template class Frackit::EntityNetworkConstraintsMatrix<C>;
template class Frackit::EntityNetworkBuilderBase<double>;
template class Frackit::EntityNetworkBuilder<double>;
template class Frackit::ContainedEntityNetworkBuilder<double>;
using M = MultiGeometryEntitySet<Disk<double>, Quadrilateral<double,3>>;
using D = Disk<double>; using Q = Quadrilateral<double,3>; using P = Polygon<double,3>; using CS = CylinderSurface<double>;
void constraints(C& c, D d, Q q, P p, CS cs, TopoDS_Face f, std::shared_ptr<Geometry> g)
{
    c = makeDefaultConstraints(); c = makeDefaultConstraints<double>();
    c.evaluate(d, d); c.evaluate(q, q); c.evaluate(p, p); c.evaluate(q, d); c.evaluate(d, q); c.evaluate(p, d); c.evaluate(d, p);
    c.evaluate(cs, d); c.evaluate(d, cs); c.evaluate(cs, q); c.evaluate(q, cs); c.evaluate(cs, p); c.evaluate(p, cs); c.evaluate(cs, f); c.evaluate(f, cs); c.evaluate(f, f);
    c.evaluate(d, f); c.evaluate(f, d); c.evaluate(q, f); c.evaluate(f, q); c.evaluate(p, f); c.evaluate(f, p);
    c.evaluate(g, d); c.evaluate(d, g); c.evaluate(g, g);
    std::vector<D> ds; std::vector<Q> qs; std::vector<TopoDS_Face> fs;
    c.evaluate(ds, d); c.evaluate(d, ds); c.evaluate(ds, ds); c.evaluate(ds, qs); c.evaluate(qs, ds); c.evaluate(fs, d); c.evaluate(d, fs); c.evaluate(qs, d); c.evaluate(d, qs);
    c.evaluate(ds, g); c.evaluate(g, ds);
}
void matrix(EntityNetworkConstraintsMatrix<C>& m, C c, M s, D d, Q q, std::shared_ptr<Geometry> g, Id i)
{
    m.addConstraints(c, IdPair(i, i)); m.addConstraints(c, {IdPair(i, i), IdPair(i, i)});
    m.evaluate(s, d, i); m.evaluate(s, q, i); m.evaluate(s, g, i);
}

void sets(M& s, D d, Q q, std::shared_ptr<Geometry> g, Id i) { s.addEntity(d, i); s.addEntity(q, i); s.addEntity(g, i); }

void sets2(M& s, Id i, EntityNetworkBuilder<double>& b, ContainedEntityNetworkBuilder<double>& cb)
{
    s.applyOnSet(i, [] (const auto& v) { (void) v.size(); }); s.numEntities(i); s.numEntities();
    s.exportEntitySets(b); s.exportEntitySets(cb, i); s.exportEntitySets({i, i}, cb, i);
}
void builders(EntityNetworkBuilder<double>& b, ContainedEntityNetworkBuilder<double>& cb, Id i, D d, Q q, P p, CS cs, Box<double> bx, Cylinder<double> cy, Sphere<double> sp, TopoDS_Solid so, TopoDS_Face f)
{
    b.addEntity(d); b.addEntity(q); b.addEntity(p); b.addEntity(f); std::vector<D> ds; b.addEntities(ds); std::vector<Q> qs; b.addEntities(qs);
    b.addSubDomain(bx, i); b.addSubDomain(cy, i); b.addSubDomain(sp, i); b.addSubDomain(so, i); b.addConfiningSubDomain(bx, i); b.addConfiningSubDomain(so, i);
    b.addSubDomainEntity(d, i); b.addSubDomainEntities(ds, i); b.addSubDomainEntities(qs, i);
    cb.addSubDomain(bx, i); cb.addConfiningSubDomain(bx, i); cb.addSubDomainEntity(d, i); cb.addSubDomainEntity(f, i); cb.addSubDomainEntities(ds, i);
}
void io(const EntityNetwork& n, const ContainedEntityNetwork& cn)
{
    BRepWriter w(n), w2(cn); w.write(""); GmshWriter g(n), g2(cn); g.write("", 0.1, 0.1); g.write("", 0.1); g2.write("", 0.1, 0.1); g2.write("", 0.1);
}
