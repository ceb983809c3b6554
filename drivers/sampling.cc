#include <frackit/sampling/boxpointsampler.hh>
#include <frackit/sampling/cylinderpointsampler.hh>
#include <frackit/sampling/disksampler.hh>
#include <frackit/sampling/makepointsampler.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include <frackit/sampling/multigeometrysampler.hh>
#include <frackit/sampling/polygonsampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
#include <frackit/sampling/sequentialsamplingstrategy.hh>
#include <frackit/sampling/status.hh>
using namespace Frackit;
using BT = UniformPointSamplerTraits<double,3>;
template class Frackit::BoxPointSampler<double, BT>;
template class Frackit::CylinderPointSampler<double, BT>;
template class Frackit::DiskSampler<double>;
template class Frackit::QuadrilateralSampler<3, double>;
template class Frackit::PolygonSampler<3, double>;
template class Frackit::MultiGeometrySampler<Disk<double>, Quadrilateral<double,3>, Polygon<double,3>>;
void all(Box<double> b, Cylinder<double> c, const HollowCylinder<double>& h, Id i)
{
    makePointSampler<BT>(b); makePointSampler<BT>(c); makePointSampler<BT>(h);
    makeUniformPointSampler(b); makeUniformPointSampler(c); makeUniformPointSampler(h);
    auto ps = makeUniformPointSampler(b); auto pc = makeUniformPointSampler(c);
    std::normal_distribution<double> n; std::uniform_real_distribution<double> u; std::uniform_int_distribution<int> k;
    DiskSampler<double> ds(ps, n, n, n, n, n); DiskSampler<double> dc(pc, n, n, n, n, n);
    QuadrilateralSampler<3> qs(ps, n, n, u, u);
    QuadrilateralSampler<3> qo(ps, n, n, n, 0.1);
    PolygonSampler<3> pg(ps, n, n, u, u, k);
    MultiGeometrySampler<Disk<double>, Quadrilateral<double,3>, Polygon<double,3>> m; SequentialSamplingStrategy st;
    MultiGeometrySampler<Disk<double>, Quadrilateral<double,3>, Polygon<double,3>> m2(st); m.setSamplingStrategy(st);
    m.addGeometrySampler(ds, i); m.addGeometrySampler(qs, i); m.addGeometrySampler(pg, i); m(i); st.getNextId();
    SamplingStatus s; s.print(); s.finished(); s.finished(i); s.getCount(); s.getCount(i);
}
