#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
IN, CF, HI, PR, FA = 'inputs', 'configurations', 'histories', 'programs', 'fault_sequences'
NOTE = ('Decided from the typed syntax tree of every instantiation clang resolves in the analysed units, for all argument values. '
        'Trusted: clang\'s front end, the term semantics of the analyser, reals in place of floating point numbers, and the documented behaviour of '
        'OpenCASCADE and pybind11 functions, which stay opaque. Term equality is decided by normal forms and, where these differ, by randomised interpretation '
        '(Schwartz-Zippel): one-sided error of negligible probability. Undecided obligations are listed in the evidence and never alarm. ')
P = []


def prop(pid, title, statement, over, q, why, files, mech, state=(), obs=(), tech='', note='', na=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, state=state, obs=obs, tech=tech, note=note, na=na))


VN = 'static analysis: gated value numbering (abstract interpretation of the typed syntax tree in a term domain) of the public functions against their defining formulas'
prop('G01', 'Containment queries accept exactly the points of the shape',
     'For every shape, tolerance and query point, asking whether a shape contains a point answers yes exactly if the point lies within the given tolerance of the mathematical point set of that shape (flat shapes: near the plane and inside the boundary; solids: inside, including the surface). The default tolerance and the optional plane check behave like passing the corresponding value explicitly.',
     [IN], 'all shapes with admissible data, all tolerances, all query points',
     'The tests probe a few points of axis-aligned shapes; containment depends on the orientation of the local axes, on the position relative to every edge and on tolerances, a continuum of cases.',
     ['frackit/geometry/point.hh', 'frackit/geometry/line.hh', 'frackit/geometry/segment.hh', 'frackit/geometry/plane.hh', 'frackit/geometry/ellipse.hh', 'frackit/geometry/ellipsearc.hh', 'frackit/geometry/disk.hh', 'frackit/geometry/triangle.hh', 'frackit/geometry/quadrilateral.hh', 'frackit/geometry/polygon.hh', 'frackit/geometry/box.hh', 'frackit/geometry/cylinder.hh', 'frackit/geometry/cylindersurface.hh', 'frackit/geometry/hollowcylinder.hh', 'frackit/geometry/sphere.hh'],
     [('containment predicates', 'contains() of every geometry class'), ('pointOnGeometry', 'frackit/intersection/algorithms, occ/breputilities.hh')], tech=VN)
prop('G02', 'Corners, edges and faces enumerate the boundary exactly once',
     'For every shape that enumerates parts, the corners, edges and faces returned for the admissible indices are exactly the distinct parts of its boundary, each built from the right data of the shape, numbered consistently, and their number is the reported number. Consecutive parts of a closed boundary share their end points.',
     [IN], 'all shapes, all admissible indices',
     'Tests compare a few corners of one axis-aligned instance, on which exchanged or mirrored parts often coincide.',
     ['frackit/geometry/box.hh', 'frackit/geometry/triangle.hh', 'frackit/geometry/quadrilateral.hh', 'frackit/geometry/polygon.hh', 'frackit/geometry/segment.hh'],
     [('corner/edge/face tables', 'corner(), edge(), face() of the geometry classes')], tech=VN)
prop('G03', 'Coordinates, axes and components are never mixed up or dropped',
     'Every operation on points, vectors, directions and planes (construction, arithmetic, products, lengths, comparison, projection, parallelism, conversion to and from the kernel types) treats the coordinates in their order, for every dimension, with the sign and scale of its mathematical definition. Parallelism does not depend on rounding errors of scalar products (no arc cosine of an unbounded argument).',
     [IN], 'all coordinate values, dimensions 1 to 3',
     'Tests use unit vectors and points with equal or zero coordinates, for which exchanged or dropped coordinates cannot be seen.',
     ['frackit/geometry/point.hh', 'frackit/geometry/vector.hh', 'frackit/geometry/direction.hh', 'frackit/geometry/plane.hh', 'frackit/geometry/line.hh', 'frackit/common/math.hh', 'frackit/occ/gputilities.hh'],
     [('vector algebra', 'geometry/{point,vector,direction}*.hh, common/math.hh'), ('kernel conversion', 'occ/gputilities.hh')], tech=VN)
prop('G04', 'Lengths, areas and volumes equal their closed form',
     'For every shape with a closed form, the reported length, area or volume equals the textbook formula in the defining data of the shape, and the generic magnitude functions return exactly that value for the shape.',
     [IN], 'all admissible shape data',
     'Tests check single instances whose radii or edge lengths coincide or are one.',
     ['frackit/geometry', 'frackit/magnitude/length.hh', 'frackit/magnitude/area.hh', 'frackit/magnitude/volume.hh'],
     [('member measures', 'length(), area(), volume() of the geometry classes'), ('forwarders', 'magnitude/{length,area,volume,magnitude}.hh')], tech=VN)
prop('G05', 'Type identity: names, dimensions and dispatch by type agree',
     'Every geometry type has its own name, reports its own dimensions, and can be recovered from the abstract interface: casting or dispatching an abstract geometry yields exactly the concrete type it was made from and never another one.',
     [PR, IN], 'all geometry types',
     'Tests exercise the dispatch for two or three types; a wrong entry for any other type silently selects the wrong algorithm.',
     ['frackit/geometry', 'frackit/geometryutilities'],
     [('names', 'name() of the geometry classes'), ('dispatch', 'geometryutilities/{name,dimension,applyongeometry,assign}.hh')], tech=VN + '; query over the resolved names')
prop('G06', 'Parametrised points and their parameters are inverse to each other',
     'For every curve or surface with parametrised points, the point for a parameter follows the parametrisation (end points at the ends, linear in between for segments, elliptic for ellipses), and points from angles and from normalised parameters agree.',
     [IN], 'all curves and parameters', 'Tests check parameters 0, 0.5 and 1 of one instance.',
     ['frackit/geometry/segment.hh', 'frackit/geometry/ellipse.hh', 'frackit/geometry/ellipsearc.hh', 'frackit/geometry/circle.hh', 'frackit/geometry/disk.hh', 'frackit/geometry/line.hh'],
     [('parametrisation', 'getPoint(), getPointFromAngle(), getAngle(), getParam()')], tech=VN)
prop('G07', 'Derived geometry agrees with the shape it is taken from',
     'Faces, bounding circles, axes, planes, normals, centres and surfaces obtained from a shape are built from that shape\'s own data (position, orientation, radius, height), for every way of constructing the shape; inconsistent construction data is rejected.',
     [IN], 'all shapes and constructors', 'Tests compare derived geometry of upright instances at the origin, for which swapped top/bottom data or axes coincide.',
     ['frackit/geometry/cylinder.hh', 'frackit/geometry/cylindersurface.hh', 'frackit/geometry/hollowcylinder.hh', 'frackit/geometry/disk.hh', 'frackit/geometry/ellipticalgeometry.hh', 'frackit/geometry/plane.hh', 'frackit/geometry/triangle.hh', 'frackit/geometry/quadrilateral.hh', 'frackit/geometry/polygon.hh', 'frackit/geometry/sphere.hh'],
     [('derived parts', 'accessors and constructors of the geometry classes')], tech=VN)
exec(open(os.path.join(HERE, 'tools/spec_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools/spec_more.py')) else None

if __name__ == '__main__':
    from fstatic.rules import TABLE
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            assert len([x for x in p['statement'].split('. ') if x.strip()]) <= 3, p['id']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                                            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']],
                                            'observe_at': list(p['obs']), 'hook_needed': None}}) + '\n')
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    assert not [t for t in TABLE if t not in ids], [t for t in TABLE if t not in ids]
    m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'FRACKIT_VERIF', 'enable': 'no hooks are used: the checks analyse the unmodified sources', 'source_commits': []},
         'checks': [{'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'], 'thorough_cmd': './run.sh %s thorough' % p['id'],
                     'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['tech'], 'level': 'other', 'level_note': NOTE + p['note']}
                    for p in P if p['id'] in TABLE and not p['na']],
         'not_applicable': [{'property': p['id'], 'reason': p['na'] or 'no check has been built for this property yet'} for p in P if p['na'] or p['id'] not in TABLE],
         'notes': 'Static analysis only: nothing of frackit is run. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(m['checks']), 'checks')
