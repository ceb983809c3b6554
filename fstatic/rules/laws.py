"""Laws: what the library computes (X_is) has the value term of what it has to compute (X_should)."""
import re
from ..api import *
from .. import terms as tm
from ..terms import subterms
from ..harness import loc

ACC = {'center', 'corner', 'edge', 'supportingPlane', 'supportingLine', 'supportingEllipse', 'getPoint', 'majorAxis', 'minorAxis', 'majorAxisLength', 'minorAxisLength', 'length', 'area', 'volume',
       'centerSegment', 'cylinder', 'numCorners', 'numEdges', 'direction', 'supportingPoint', 'normal', 'source', 'target', 'radius', 'height', 'base1', 'base2', 'base3', 'boundingEllipse',
       'lowerBoundingCircle', 'upperBoundingCircle', 'lateralFace', 'bottomFace', 'topFace', 'xMin', 'xMax', 'yMin', 'yMax', 'zMin', 'zMax', 'sourceAngleOnEllipse', 'targetAngleOnEllipse'}
STRONG = set()          # opaque library functions: a call of one is never equivalent to anything else
OUP = 'Frackit::OCCUtilities::'


def accessor(f):
    """geometry accessors"""
    c, _, m = f['b'].rpartition('::')
    return m in ACC and c.startswith('Frackit::') and not f.get('ctor')


def none(f):
    return False


def agree(ck, tu, f, r, levels, args=None, rounds=240):
    """equality of the two functions at the first level of abstraction at which they agree; the last level decides"""
    if not isinstance(r, list):
        r = [r]
    args = args or [sym('abcdefghijklmnop'[i]) for i in range(len(f['pt']))]
    last = None
    for opq in levels:
        def one(x):
            a = Api(ck, tu, opaque=opq)
            return a.run(x, args).full()
        try:
            got = one(f)
            tm.LOG = used = set()
            try:
                want = [one(x) for x in r]
            finally:
                tm.LOG = None
            ok, d = judge(got, want, strong=used | {x.a[0] for x in subterms(got) if x.op in ('call', 'fn') and x.a[0] in STRONG}, rounds=rounds)
            last = (ok, d)
            if ok is True:
                return True, ''
        except (Undecided, tm.TooBig) as x:
            last = (None, '%s %s' % (type(x).__name__, x))
    return last


def callees(p, f):
    """the library functions a law calls directly"""
    out = []

    def walk(x):
        if isinstance(x, dict):
            i = x.get('fn') or x.get('id')
            i = i.get('id') if isinstance(i, dict) else i
            if isinstance(i, (int, str)) and i in p.fns and p.fns[i]['b'].startswith('Frackit::') and p.fns[i] not in out:
                out.append(p.fns[i])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(f.get('body'))
    return out


def laws(ck, tu, pid, rule, levels, atleast=1, only=None, where=None):
    p = ck.prog(tu)
    n = 0
    for b in sorted(p.byb):
        if not (b.startswith('Law::%s_' % pid) and b.endswith('_is')):
            continue
        name = b[len('Law::%s_' % pid):-3]
        if only is not None and name not in only:
            continue
        for f in p.byb[b]:
            if f.get('body') is None:
                continue
            # X_should1, ... are other admissible results
            rs = [r for q in sorted(p.byb) if re.fullmatch(re.escape(b[:-3]) + r'_should\d*', q) for r in p.byb[q] if r.get('body') is not None and [strip(x) for x in r['pt']] == [strip(x) for x in f['pt']]]
            if not rs:
                continue

            def go():
                r = agree(ck, tu, f, rs, levels)
                cs = callees(p, f)
                return r + ((where or {}).get(name, loc(cs[-1] if cs else f)),)
            n += 1
            ck.ob('%s(%s)' % (name, ', '.join(short(x) + ('' if not x.rstrip('&> ').endswith((', 2', ', 1')) else x.rstrip('&> ')[-1]) for x in f['pt'])), go, rule=rule)
    ck.atleast('laws of %s' % pid, atleast, n)


def conversion(f):
    return accessor(f) or (f['b'] in (OUP + 'point', OUP + 'direction', OUP + 'vector', OUP + 'getGeomHandle'))


O1 = 'the boundary representation and the kernel curve of a shape are built from the data of the shape; explorers return all parts of their kind'


def O01(ck):
    """Conversions to and from the kernel preserve the data of the shapes."""
    inner = lambda f: conversion(f) or f['b'] == OUP + 'getShape' and 'Point' in short(f['pt'][0]) or f['b'] == OUP + 'getEdges'
    laws(ck, 'lawocc', 'O01', O1, [lambda f: accessor(f), inner, none], atleast=50)


O2 = 'kernel operations are given all operands and the tolerance of the caller, and their failure raises an exception'


def O02(ck):
    """Kernel operations: operands, tolerance, failure."""
    laws(ck, 'lawocc', 'O02', O2, [none], atleast=6)


KD = {'Frackit::OCCUtilities::getShape', 'Frackit::OCCUtilities::getGeomHandle', 'Frackit::OCCUtilities::getEdges', 'Frackit::OCCUtilities::getFaces', 'Frackit::OCCUtilities::intersect',
      'Frackit::OCCUtilities::point', 'Frackit::defaultEpsilon'}
STRONG |= KD
QUERIES = {'contains', 'projection', 'numFaces', 'face', 'supportingLine', 'isFullEllipse', 'center', 'isEqual'}


def kern(f):
    """kernel wrappers (the representation of a representation is itself)"""
    return f['b'] in KD and not (f['b'] == OUP + 'getShape' and short(f['pt'][0]).startswith('TopoDS_'))


def geometric(f):
    return accessor(f) or kern(f) or (f['b'].rpartition('::')[2] in QUERIES and f['b'].startswith('Frackit::') and not f.get('ctor'))


D1 = 'the distance is the smallest one over all parts of the shape or boundary, with the parameters of the caller; kernel failures raise an exception'


def D01(ck):
    """Distances, boundary distances and boundary incidence consider every part."""
    meas = lambda f: kern(f) or f['b'].rpartition('::')[2] in ('contains', 'projection', 'edge', 'face', 'boundingEllipse', 'lowerBoundingCircle', 'upperBoundingCircle', 'numEdges', 'corner', 'numCorners')
    dist = lambda f: geometric(f) or f['b'] == 'Frackit::computeDistance'
    part = lambda f: kern(f) or f['b'] == 'Frackit::computeDistance'
    laws(ck, 'lawdist', 'D01', D1, [dist, part, geometric, meas, kern], atleast=80)


M1 = 'the magnitude is the length, area or volume of the shape; the contained magnitude sums all parts inside the domain'


def M01(ck):
    """Magnitudes and contained magnitudes."""
    laws(ck, 'lawdist', 'M01', M1, [geometric, kern], atleast=60)


def building(f):
    """what the builders take as given"""
    return f['b'] in (OUP + 'getShape', OUP + 'fuse', 'Frackit::defaultEpsilon')


N1 = 'every part of an entity is in the network and carries the number of the entity it stems from'


def N01(ck):
    """Fragments and their numbering."""
    laws(ck, 'lawnet', 'N01', N1, [building], atleast=18)


N2 = 'the builder refuses data of wrong dimensions, repeated ids and access before building, forgets cleared data and uses the tolerance of the user'


def N02(ck):
    """Rules of use of the builders."""
    laws(ck, 'lawnet', 'N02', N2, [building], atleast=38)


N3 = 'entities are confined to their own sub-domain if it confines, else to the union of the sub-domains if this is enabled, else not at all'


def N03(ck):
    """Confinement of the networks."""
    laws(ck, 'lawnet', 'N03', N3, [building], atleast=22)


N4 = 'an entity set passes each of its entities, and those of the selected ids only, to the builder'


def N04(ck):
    """Entity sets."""
    laws(ck, 'lawnet', 'N04', N4, [building], atleast=8)


STRONG |= {'Frackit::PointSampler::operator()', 'Frackit::GeometrySampler::operator()'}
S1 = 'the sampled points lie in the geometry: each coordinate is drawn from the range of the axis it is used for'


def S01(ck):
    """Points sampled in boxes, cylinders and hollow cylinders."""
    laws(ck, 'lawsamp', 'S01', S1, [accessor, none], atleast=8)


S2 = 'the sampled geometry is built from one draw of each of the distributions of the user, in the documented roles'


def S02(ck):
    """Sampled disks and quadrilaterals."""
    laws(ck, 'lawsamp', 'S02', S2, [lambda f: f['b'].endswith('::sampleCorners'), none], atleast=5)
STRONG.add('Frackit::PolygonSampler::sampleCorners')


S3 = 'counts, targets and the end of sampling are kept per id'


def S03(ck):
    """Bookkeeping of a sampling run."""
    laws(ck, 'lawsamp', 'S03', S3, [none], atleast=10)


S4 = 'samplers are used in turn, each under its own id'


def S04(ck):
    """Sampling strategies and samplers of several kinds of geometries."""
    laws(ck, 'lawsamp', 'S04', S4, [none], atleast=11)


W1 = 'the written shape holds every part of the network; entities, sub-domains and intersections refer to the numbers of their parts'


def W01(ck):
    """Numbering of the parts of the written networks."""
    ck.OBTIME = 60
    laws(ck, 'lawio', 'W01', W1, [none], atleast=14)


W2 = 'the mesh file names every group of parts with its number, sets the mesh sizes of the user and fails with an exception'


def W02(ck):
    """Mesh files."""
    ck.OBTIME = 120
    laws(ck, 'lawio', 'W02', W2, [none], atleast=3)
