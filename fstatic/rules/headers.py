"""The headers as a library: every header stands alone, may be included anywhere and in several units (H01),
and the public interface accepts the documented combinations of types (H02)."""
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from ..harness import REPO, VERIF

CLANG = os.environ.get('FSTATIC_CLANG', 'clang++')
BASE = ['-x', 'c++', '-std=c++17', '-w', '-ferror-limit=6', '-I' + REPO, '-isystem', '/usr/include/opencascade']


def clang(src, *opts):
    r = subprocess.run([CLANG] + BASE + list(opts) + ['-'], input=src, capture_output=True, text=True, cwd=tempfile.gettempdir())
    errs = [l.replace(REPO + '/', '') for l in r.stderr.splitlines() if ' error: ' in l or ' fatal error: ' in l]
    if r.returncode and not errs:
        errs = ['compiler failure: ' + r.stderr.strip()[:200]]
    return errs, r


def headers():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'frackit')):
        ds[:] = sorted(x for x in ds if not (x == 'python' and d == os.path.join(REPO, 'frackit')))
        out += [os.path.relpath(os.path.join(d, f), REPO) for f in fs if f.endswith('.hh')]
    return sorted(out)


# what a user of a single header can do with it: name and instantiate its classes
def instances():
    r = {}

    def w(h, x):
        r.setdefault('frackit/' + h, []).append('template class Frackit::%s;' % x)
    for d in (1, 2, 3):
        for n in ('Point', 'Vector', 'Direction', 'Line', 'Segment'):
            w('geometry/%s.hh' % n.lower(), '%s<double, %d>' % (n, d))
    for n in 'Plane Triangle Quadrilateral Polygon Circle Ellipse EllipseArc'.split():
        w('geometry/%s.hh' % n.lower(), '%s<double, 3>' % n)
    for n in 'Disk Cylinder CylinderSurface HollowCylinder Box Sphere'.split():
        w('geometry/%s.hh' % n.lower(), '%s<double>' % n)
    w('sampling/disksampler.hh', 'DiskSampler<double>')
    w('sampling/quadrilateralsampler.hh', 'QuadrilateralSampler<3>')
    w('sampling/polygonsampler.hh', 'PolygonSampler<3>')
    w('entitynetwork/constraints.hh', 'EntityNetworkConstraints<double>')
    w('entitynetwork/networkbuilder.hh', 'EntityNetworkBuilder<double>')
    w('entitynetwork/networkbuilder.hh', 'ContainedEntityNetworkBuilder<double>')
    w('intersection/intersectionangle.hh', 'IntersectionAngle<double>')
    w('intersection/emptyintersection.hh', 'EmptyIntersection<3, double>')
    return r


def guard(h):
    """the macro that keeps the header from being read twice ('' for a pragma), None without one"""
    txt = open(os.path.join(REPO, h), errors='replace').read()
    txt = re.sub(r'/\*.*?\*/', ' ', txt, flags=re.S)
    txt = re.sub(r'//[^\n]*', '', txt)
    ds = [l.strip() for l in txt.splitlines() if l.strip().startswith('#')]
    if any(re.match(r'#\s*pragma\s+once', l) for l in ds):
        return ''
    a = re.match(r'#\s*(?:ifndef\s+(\w+)|if\s+!\s*defined\s*\(?\s*(\w+))', ds[0]) if ds else None
    b = re.match(r'#\s*define\s+(\w+)', ds[1]) if len(ds) > 1 else None
    if a and b and (a.group(1) or a.group(2)) == b.group(1):
        return b.group(1)
    return None


def H01(ck):
    """Every header compiles on its own, twice, together with all others in any order, and defines nothing that two units may not both define."""
    hs = headers()
    known = set(open(os.path.join(VERIF, 'refs/headers.txt')).read().split())
    inst = instances()
    for h in hs:
        ck.progs[h] = None

    def alone(h):
        two = '#include <%s>\n' % h * 2
        e, _ = clang(two, '-fsyntax-only')
        if e:
            return h, e, 'included first (twice)'
        if h in inst:
            e, _ = clang(two + '\n'.join(inst[h]) + '\n', '-fsyntax-only')
            # a class that is named differently now is not judged
            if e and not any('no template named' in x or 'no member named' in x and '<stdin>' in x or 'type alias' in x for x in e):
                return h, e, 'its classes instantiated with only this header included'
        return h, [], ''
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(alone, hs))
    guards = {}
    for h in hs:
        guards.setdefault(guard(h), []).append(h)
    for h, e, how in res:
        def f(h=h, e=e, how=how):
            g = guard(h)
            if e:
                return (False if h in known else None), '%s: %s' % (how, ' | '.join(e[:3])), (re.match(r'(frackit/[^:]+:\d+)', e[0]) or [h])[0]
            if g is not None and g != '' and len(guards[g]) > 1:
                return False, 'the include guard %s is also used by %s: whichever is included second is empty' % (g, ', '.join(x for x in guards[g] if x != h)), h + ':1'
            return True, ''
        o = ck.ob('stands alone: ' + h, f, where=h, rule='the header compiles as the first and only include, also if included twice; its guard is its own')
        ck.functions.add(h)
    for name, order in (('in alphabetical order', hs), ('in reverse order', hs[::-1])):
        def f(order=order):
            e, _ = clang(''.join('#include <%s>\n' % h for h in order), '-fsyntax-only')
            return not e, ' | '.join(e[:3])
        ck.ob('all headers ' + name, f, where='frackit/', rule='headers may be combined in any order')

    # definitions with external linkage: intermediate representation of a unit that consists of includes only
    def strong():
        e, r = clang(''.join('#include <%s>\n' % h for h in hs), '-S', '-emit-llvm', '-O0', '-gline-tables-only', '-o', '-')
        if e:
            return None, ' | '.join(e[:3])
        ir = r.stdout
        files = {m[0]: os.path.join(m[2], m[1]) for m in re.findall(r'^(!\d+) = !DIFile\(filename: "([^"]*)", directory: "([^"]*)"', ir, re.M)}
        subs = {m[0]: m[1:] for m in re.findall(r'^(!\d+) = distinct !DISubprogram\(name: "([^"]*)".*?file: (!\d+), line: (\d+)', ir, re.M)}
        bad, n = [], 0
        for l in re.findall(r'^define .*$', ir, re.M):
            n += 1
            head = l.split('@')[0]
            if re.search(r'\b(linkonce_odr|linkonce|weak_odr|weak|internal|private|available_externally|extern_weak)\b', head):
                continue
            m = re.search(r'!dbg (!\d+)', l)
            s = subs.get(m.group(1)) if m else None
            p = os.path.normpath(files.get(s[1], '?')) if s else '?'
            if s and '/frackit/' in p:
                bad.append('%s defined at %s:%s' % (s[0], p.replace(REPO + '/', ''), s[2]))
        for l in re.findall(r'^@(\S+) = (.*)$', ir, re.M):
            n += 1
            if re.match(r'(dso_local )?(local_unnamed_addr )?(global|constant) ', l[1]) and 'Frackit' in l[0]:
                bad.append('variable %s' % l[0])
        ck.counts = n
        return not bad, '; '.join(bad[:6]) + (' would be defined by every unit that includes the header' if bad else ''), (re.search(r'frackit/\S+:\d+', bad[0]) or ['frackit/'])[0] if bad else 'frackit/'
    ck.ob('no strong definitions', strong, rule='functions and variables defined in headers are templates, inline or of internal linkage')
    ck.atleast('headers', 80, len(hs))
    return H01.__doc__


def H02(ck):
    """Type-level witnesses: every documented combination of the public interface compiles and has the documented type."""
    src = open(os.path.join(VERIF, 'refs/witness.cc')).read()
    parts = re.split(r'^//@ (.*)\n', src, flags=re.M)
    common, blocks = parts[0], list(zip(parts[1::2], parts[2::2]))

    def text(b):
        inc = [l for l in b.splitlines() if l.startswith('#include')]
        rest = [l for l in b.splitlines() if not l.startswith('#include')]
        return '\n'.join(inc) + '\n' + common + '\n' + '\n'.join(rest) + '\n'
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda b: clang(text(b[1]), '-fsyntax-only', '-fno-caret-diagnostics'), blocks))
    for (n, b), (e, r) in zip(blocks, res):
        ck.progs['witness: ' + n] = None
        for l in re.findall(r'#include <(frackit/[^>]+)>', b):
            ck.functions.add(l)

        def f(b=b, e=e, r=r):
            if not e:
                return True, '%d instantiations and assertions' % (b.count('template ') + b.count('static_assert') + b.count('(void)'))
            notes = [l.replace(REPO + '/', '') for l in r.stderr.splitlines() if 'requested here' in l or ' note: ' in l]
            w = next((m.group(1) for x in e + notes for m in [re.search(r'(frackit/[\w/]+\.hh:\d+)', x)] if m), (re.findall(r'#include <(frackit/[^>]+)>', b) or [''])[-1])
            return False, ' | '.join(e[:3] + notes[:3]), w
        ck.ob(n, f, rule='the block of type-level witnesses compiles against the current headers')
    ck.atleast('blocks of witnesses', 18, len(blocks))
    return H02.__doc__
