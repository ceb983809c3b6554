"""Network constraints: what an accepted pair of entities satisfies."""
from ..api import *
from .. import terms as tm
from ..terms import exists, forall, fresh, size, show, subterms, cat, elem
from ..harness import loc
from .geo import Geo, DISK, QUAD, POLY, CSURF, P3, SEG, NAMES

OPQ = {'Frackit::intersect', 'Frackit::computeDistance', 'Frackit::computeDistanceToBoundary', 'Frackit::pointOnGeometryBoundary',
       'Frackit::computeMagnitude', 'Frackit::IntersectionAngle::operator()'}
FACE, EDGE = 'TopoDS_Face', 'TopoDS_Edge'
DIMS = {'Point': 0, 'Segment': 1, 'Line': 1, 'Ellipse': 1, 'EllipseArc': 1, 'Circle': 1, 'TopoDS_Edge': 1, 'TopoDS_Wire': 1, 'TopoDS_Face': 2, 'Disk': 2, 'Polygon': 2,
        'Quadrilateral': 2, 'Plane': 2, 'Triangle': 2, 'TopoDS_Shell': 2, 'TopoDS_Vertex': 0}
CLS = {'Disk': DISK, 'Quadrilateral': QUAD, 'Polygon': POLY, 'CylinderSurface': CSURF, 'TopoDS_Face': FACE}
PAIRS = [('Disk', 'Disk'), ('Quadrilateral', 'Quadrilateral'), ('Polygon', 'Polygon'), ('Quadrilateral', 'Disk'), ('Disk', 'Quadrilateral'), ('Polygon', 'Disk'),
         ('Disk', 'Polygon'), ('CylinderSurface', 'Disk'), ('Disk', 'CylinderSurface'), ('CylinderSurface', 'Quadrilateral'), ('Quadrilateral', 'CylinderSurface'),
         ('CylinderSurface', 'Polygon'), ('Polygon', 'CylinderSurface'), ('CylinderSurface', 'TopoDS_Face'), ('TopoDS_Face', 'CylinderSurface'), ('TopoDS_Face', 'TopoDS_Face'),
         ('Disk', 'TopoDS_Face'), ('TopoDS_Face', 'Disk'), ('Quadrilateral', 'TopoDS_Face'), ('TopoDS_Face', 'Quadrilateral'), ('Polygon', 'TopoDS_Face'), ('TopoDS_Face', 'Polygon')]
SET = {'D': ('setMinDistance', 'md'), 'A': ('setMinIntersectingAngle', 'ma'), 'M': ('setMinIntersectionMagnitude', 'mm'), 'I': ('setMinIntersectionDistance', 'mi'),
       'E': ('setIntersectionEpsilon', 'me')}
NEG = {'D': 'neglectMinDistance', 'A': 'neglectMinIntersectionAngle', 'M': 'neglectMinIntersectionMagnitude', 'I': 'neglectMinIntersectionDistance', 'E': 'setDefaultIntersectionEpsilon'}


def plain(t):
    """drop defaulted trailing arguments and the receiver of the angle engine from the opaque calls"""
    memo = {}

    def isdef(x):
        return (x.op in ('call', 'fn') and 'onfusion' in str(x.a[0])) or (x.op == 'enum' and 'Extrema' in str(x.a)) or x.op == 'new' or 'new gp_Pnt' in show(x)[:40]

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = tm.rebuild(x, go)
        if r.op == 'call' and r.a[0] in OPQ:
            a = list(r.a)
            if a[0].endswith('operator()') and len(a) == 5:
                a.pop(1)
            while len(a) > 2 and isinstance(a[-1], T) and isdef(a[-1]):
                a.pop()
            r = raw('call', *a)
        memo[x] = r
        return r
    return go(t)


def nofaces(t):
    """assume that no two-dimensional shape occurs in the intersection (its distance to a boundary is documented as not implemented)"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == 'ite' and x.a[0].op == 'holds' and DIMS.get(short(x.a[0].a[1])) == 2:
                r = go(x.a[2])
            else:
                r = tm.rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


class Cons(Geo):
    def __init__(self, ck, tu='network'):
        super().__init__(ck, tu, opaque=lambda f: f['b'] in OPQ)
        self.cls = 'Frackit::EntityNetworkConstraints<double, Frackit::IntersectionAngle<double>>'

    def setter(self, o, name, *a):
        r = self.run(self.meth(self.cls, name, len(a)), a, o)
        if r.cond_throw is not FALSE:
            raise Undecided('setter throws')
        return r.this

    def make(self, flags, allow=None):
        o = self.run(self.ctor(self.cls, 0), []).value
        for c in flags:
            o = self.setter(o, SET[c][0], sym(SET[c][1]))
        if allow is not None:
            o = self.setter(o, 'allowEquiDimensionalIntersections', TRUE if allow else FALSE)
        return o

    def evaluator_fn(self, n1, n2):
        for f in self.p.byq.get(self.cls + '::evaluate', []):
            if len(f['pt']) == 2 and [short(x) for x in f['pt']] == [n1, n2]:
                return f
        raise Missing('evaluate(%s, %s)' % (n1, n2))

    def rtype(self, n1, n2):
        for f in self.p.byb.get('Frackit::intersect', []):
            if [short(x) for x in f['pt'][:2]] == [n1, n2]:
                return strip(f['rt'])
        raise Missing('intersect(%s, %s)' % (n1, n2))

    # ------------------------------------------------------------ specification
    def over(self, ty, x, f):
        """f(type, term) over the alternatives/elements of a result of type ty (conjunction over elements)"""
        s = short(ty)
        if s == 'variant':
            al = targs(ty)
            r = None
            for a in reversed(al):
                v = self.over(a, raw('get', x, a), f)
                r = v if r is None else mk_ite(tm.holds(x, a, al), v, r)
            return r
        if s == 'vector':
            i = fresh()
            return forall(size(x), self.over(targs(ty)[0], at(x, i), f), i)
        return f(ty, x)

    def empty(self, ty, x):
        return self.over(ty, x, lambda t, y: TRUE if short(t) == 'EmptyIntersection' else FALSE)

    def cdb(self, x, g):
        return raw('call', 'Frackit::computeDistanceToBoundary', x, g)

    def pob(self, x, g):
        return raw('call', 'Frackit::pointOnGeometryBoundary', x, g)

    def pt_ok(self, p, g):
        return lor(self.pob(p, g), le(sym('mi'), self.cdb(p, g)))

    def dist_ok(self, t, x, g):
        s = short(t)
        mi = sym('mi')
        if s == 'EmptyIntersection':
            return TRUE
        if s == 'Point':
            return self.pt_ok(x, g)
        if s == 'Segment':
            return land(*[self.pt_ok(self.m(t, x, k), g) for k in ('source', 'target')])
        if s == 'Ellipse':
            return le(mi, self.cdb(x, g))
        if s == 'EllipseArc':
            ps = [self.m(t, x, k) for k in ('source', 'target')]
            on = [tobool_(self.pob(p, g)) for p in ps]
            ends = land(*[self.pt_ok(p, g) for p in ps])
            pts = [self.m(t, x, 'getPoint', num(q)) for q in ('0', '1/4', '1/2', '3/4', '1')]
            return mk_ite(lor(*on), ends, land(*[le(mi, self.cdb(p, g)) for p in pts]))
        if s == 'TopoDS_Edge':
            ps = []
            for k in ('FirstVertex', 'LastVertex'):
                v = tm.call('call', ('TopExp::' + k, x, FALSE))
                ps.append(self.call('Frackit::OCCUtilities::point', v, pt=('TopoDS_Vertex',)))
            return land(*[self.pt_ok(p, g) for p in ps])
        return raw('throw')

    def spec(self, ty, g1, g2, flags, allow):
        if not set(flags) & set('DMAI'):
            return TRUE
        is_ = raw('call', 'Frackit::intersect', g1, g2, *([sym('me')] if 'E' in flags else []))
        cs = []
        if not allow:
            cs.append(self.over(ty, is_, lambda t, x: TRUE if DIMS.get(short(t), 0) <= 1 else FALSE))
        if 'M' in flags:
            cs.append(self.over(ty, is_, lambda t, x: TRUE if short(t) in ('EmptyIntersection', 'Point') else le(sym('mm'), raw('call', 'Frackit::computeMagnitude', x))))
        if 'A' in flags:
            cs.append(le(sym('ma'), raw('call', 'Frackit::IntersectionAngle::operator()', g1, g2, is_)))
        if 'I' in flags:
            for g in (g1, g2):
                cs.append(self.over(ty, is_, lambda t, x: self.dist_ok(t, x, g)))
        far = le(sym('md'), raw('call', 'Frackit::computeDistance', g1, g2)) if 'D' in flags else TRUE
        e = self.empty(ty, is_)
        return mk_ite(e, far, land(*cs))


def tobool_(t):
    return tm.tobool(t)


SYM = ('Frackit::intersect', 'Frackit::computeDistance', 'Frackit::IntersectionAngle::operator()')


def unordered(t):
    """the pair operations do not depend on the order of their two arguments (property I01)"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = tm.rebuild(x, go)
            if r.op == 'call' and r.a[0] in SYM and len(r.a) >= 3 and r.a[1].key > r.a[2].key:
                r = raw('call', r.a[0], r.a[2], r.a[1], *r.a[3:])
            memo[x] = r
        return r
    return go(t)


def decided(got, spec, flags):
    got, spec = unordered(plain(got)), unordered(plain(spec))
    if 'I' in flags:
        got, spec = nofaces(got), nofaces(spec)
    return judge(got, [spec], strong=OPQ, rounds=800)


def label(flags, allow):
    n = {'D': 'distance', 'M': 'magnitude', 'A': 'angle', 'I': 'boundary distance', 'E': 'user tolerance'}
    return ('+'.join(n[c] for c in flags) or 'none') + (', equi-dimensional allowed' if allow else '')


def C01(ck):
    """For every supported pair of entity types and every combination of active constraints, the evaluation equals the conjunction of
    exactly the active constraints over every part of the intersection and both entities."""
    g = Cons(ck)
    g1, g2 = sym('g1'), sym('g2')
    rule = 'accepted iff every active constraint holds for the whole intersection and both entities'
    import itertools
    every = [''.join(c) for k in range(6) for c in itertools.combinations('DMAIE', k)]
    some = ['D', 'M', 'A', 'I', 'ME', 'IE', 'DMA', 'DMAI'] if ck.tier == 'quick' else every
    for n1, n2 in PAIRS:
        for flags in (every if (n1, n2) == ('Disk', 'Disk') else some):
            for allow in (False, True):
                if allow and not (set(flags) & set('MAD')):
                    continue

                def go():
                    f = g.evaluator_fn(n1, n2)
                    o = g.make(flags, allow or None)
                    r = g.run(f, [g1, g2], o)
                    ok, d = decided(r.full(), g.spec(g.rtype(n1, n2), g1, g2, flags, allow), flags)
                    return ok, d, loc(f)
                ck.ob('evaluate(%s, %s) with %s' % (n1, n2, label(flags, allow)), go, rule=rule)


def C02(ck):
    """Every constraint is switched on, changed and off on its own: the last call wins and no other constraint is touched."""
    g = Cons(ck)
    g1, g2 = sym('g1'), sym('g2')
    rule = 'the evaluation depends on the last setting of every constraint only'
    n1 = n2 = 'Disk'

    def check(name, o, vals, flags, allow):
        f = g.evaluator_fn(n1, n2)
        r = g.run(f, [g1, g2], o)
        spec = g.spec(g.rtype(n1, n2), g1, g2, flags, allow)
        spec = tm.subst(spec, {sym(SET[c][1]): v for c, v in vals.items()})
        return decided(r.full(), spec, flags)

    EMPTY = {}
    # initial states
    def init(kind):
        def go():
            if kind == 'default constructor':
                o = g.fresh_object(g.cls)
            elif kind == 'constructor with an angle engine':
                o = g.run(g.ctor(g.cls, 1, pt=('IntersectionAngle',)), [sym('engine')]).value
            else:
                o = g.call('Frackit::makeDefaultConstraints')
            r = g.run(g.evaluator_fn(n1, n2), [g1, g2], o)
            ok, d = judge(r.full(), [TRUE], strong=OPQ)
            if not ok:
                return ok, d
            for c in 'DMAI':
                q = g.setter(o, SET[c][0], sym(SET[c][1]))
                ok, d = check('', q, EMPTY, c, False)
                if not ok:
                    return ok, 'after %s: %s' % (SET[c][0], d), loc(g.meth(g.cls, SET[c][0], 1))
            return ok, d, loc(g.evaluator_fn(n1, n2))
        ck.ob('initial state (%s)' % kind, go, rule='no constraint is active initially, equi-dimensional intersections are not admissible, the default tolerance is used')
    for k in ('default constructor', 'constructor with an angle engine', 'makeDefaultConstraints'):
        init(k)
    # the engine handed over is the one that is used
    def eng():
        o = g.run(g.ctor(g.cls, 1, pt=('IntersectionAngle',)), [sym('engine')]).value
        o = g.setter(o, SET['A'][0], sym('ma'))
        r = g.run(g.evaluator_fn(n1, n2), [g1, g2], o)
        c = tm.find(r.full(), lambda q: q.op == 'call' and q.a[0] == 'Frackit::IntersectionAngle::operator()')
        bad = [q for q in c if len(q.a) == 5 and q.a[1] is not sym('engine')]
        return bool(c) and not bad, str(bad)[:300], loc(g.ctor(g.cls, 1, pt=('IntersectionAngle',)))
    ck.ob('the given angle engine is used', eng, rule='angles are computed by the engine passed to the constructor')
    # transitions
    starts = ['', 'DMAIE'] + list('DMAIE')
    for st in starts:
        for c in 'DMAIE':
            for op in ('set', 'neglect'):
                def go():
                    o = g.make(st)
                    vals = {}
                    if op == 'set':
                        f = g.meth(g.cls, SET[c][0], 1)
                        o = g.setter(o, SET[c][0], sym('new'))
                        fl = ''.join(x for x in 'DMAIE' if x in st or x == c)
                        vals = {c: sym('new')}
                    else:
                        f = g.meth(g.cls, NEG[c], 0)
                        o = g.setter(o, NEG[c])
                        fl = st.replace(c, '')
                    ok, d = check('', o, vals, fl, False)
                    return ok, d, loc(f)
                ck.ob('%s after [%s]' % (SET[c][0] if op == 'set' else NEG[c], label(st, False)), go, rule=rule)
        for v in (True, False):
            def go():
                o = g.make(st, not v)
                o = g.setter(o, 'allowEquiDimensionalIntersections', TRUE if v else FALSE)
                ok, d = check('', o, EMPTY, st, v)
                return ok, d, loc(g.meth(g.cls, 'allowEquiDimensionalIntersections', 1))
            ck.ob('allowEquiDimensionalIntersections(%s) after [%s]' % (str(v).lower(), label(st, False)), go, rule=rule)


MX = 'Frackit::EntityNetworkConstraintsMatrix<Frackit::EntityNetworkConstraints<double, Frackit::IntersectionAngle<double>>>'
MS = 'Frackit::MultiGeometryEntitySet<Frackit::Disk<double>, Frackit::Quadrilateral<double, 3>>'
EVAL = 'Frackit::EntityNetworkConstraints::evaluate'


def dobj(cls, n):
    return raw('dobj', cls, n if isinstance(n, T) else sym(n))


def C03(ck):
    """Sets, sets of sets and abstract geometries: a set is admissible iff every element is, each relation of a matrix is
    evaluated against the set it was registered for, abstract geometries behave like the geometry they point to."""
    g = Cons(ck)
    a, b = sym('a'), sym('b')
    n = 0
    # --- the overloads for sets and pointers
    for f in g.p.byq.get(g.cls + '::evaluate', []):
        kinds = [short(x) for x in f['pt']]
        if not set(kinds) & {'vector', 'shared_ptr'} or f.get('body') is None:
            continue
        n += 1
        for c1 in ((DISK, QUAD) if kinds[0] == 'shared_ptr' else (None,)):
            for c2 in ((DISK, QUAD) if kinds[1] == 'shared_ptr' else (None,)):
                def arg(k, ty, v, c):
                    """(argument, element class, element terms)"""
                    if k == 'shared_ptr':
                        return dobj(c, v), c
                    if k == 'vector':
                        return v, targs(strip(ty))[0]
                    return v, strip(ty)
                nm = 'evaluate(%s, %s)' % tuple('%s<%s>' % (k, short(targs(strip(t))[0])) if k == 'vector' else ('pointer to %s' % short(c) if c else k)
                                                for k, t, c in zip(kinds, f['pt'], (c1, c2)))

                def go():
                    for flags in ('D', 'M', 'DI') if 'TopoDS_Face' not in str(f['pt']) else ('D', 'M'):
                        A, t1 = arg(kinds[0], f['pt'][0], a, c1)
                        B, t2 = arg(kinds[1], f['pt'][1], b, c2)
                        o = g.make(flags)
                        r = g.run(f, [A, B], o)
                        i, j = fresh(), fresh()
                        e1 = at(A, i) if kinds[0] == 'vector' else A
                        e2 = at(B, j) if kinds[1] == 'vector' else B
                        try:
                            ty = g.rtype(short(t1), short(t2))
                        except Missing:
                            ty = g.rtype(short(t2), short(t1))
                        sp = g.spec(ty, e1, e2, flags, False)
                        if kinds[1] == 'vector':
                            sp = forall(size(B), sp, j)
                        if kinds[0] == 'vector':
                            sp = forall(size(A), sp, i)
                        got = r.full()
                        ok, d = decided(got, sp, flags)
                        if not ok and kinds[0] == kinds[1] == 'vector':
                            # the order of the two nested traversals is irrelevant
                            i, j = fresh(), fresh()
                            sp = g.spec(ty, at(A, i), at(B, j), flags, False)
                            sp = forall(size(B), forall(size(A), sp, i), j)
                            ok, d = decided(got, sp, flags)
                        if not ok:
                            return ok, d, loc(f)
                    return ok, d, loc(f)
                ck.ob(nm, go, rule='admissible iff every element of the set(s) is; a pointer is evaluated like the geometry it points to')
    ck.atleast('evaluate overloads for sets and pointers', 12, n)
    # --- the matrix and the entity set
    g.opaque = lambda f: f['b'] == EVAL
    I = lambda k: g.new('Frackit::Id', num(k), pt=('unsigned long',))
    PR = lambda x, y: g.new('Frackit::IdPair', I(x), I(y), pt=('Id', 'Id'))
    names = {'d': 'Disk', 'q': 'Quadrilateral'}

    def put(S, e, k, ptr=False):
        c = {'d': DISK, 'q': QUAD}[e[0]]
        if ptr:
            r = g.run(g.meth(MS, 'addEntity', 2, pt=('shared_ptr', None)), [dobj(c, e), I(k)], S)
        else:
            r = g.run(g.meth(MS, 'addEntity', 2, pt=(names[e[0]], None)), [sym(e), I(k)], S)
        if r.cond_throw is TRUE:
            return None
        if r.cond_throw is not FALSE:
            raise Undecided('conditional throw ' + show(r.cond_throw)[:100])
        return r.this

    def fill(seq, ptr=False):
        S = g.fresh_object(MS)
        for e, k in seq:
            S = put(S, e, k, ptr)
            if S is None:
                return None
        return S

    def relate(M, c, pairs):
        if len(pairs) == 1:
            r = g.run(g.meth(MX, 'addConstraints', 2, pt=(None, 'IdPair')), [sym(c), PR(*pairs[0])], M)
        else:
            r = g.run(g.meth(MX, 'addConstraints', 2, pt=(None, 'initializer_list')), [sym(c), raw('arr', *[PR(*x) for x in pairs])], M)
        if r.cond_throw is TRUE:
            return None
        if r.cond_throw is not FALSE:
            raise Undecided('conditional throw ' + show(r.cond_throw)[:100])
        return r.this

    def matrix(rels):
        M = g.fresh_object(MX)
        for c, ps in rels:
            M = relate(M, c, ps) if M is not None else None
        return M

    def lst(*es):
        return cat(*[elem(e) for e in es])

    def undo(t):
        """elements added through a pointer are the pointed-to geometries"""
        return t

    hist = [('single entity', [('d1', 1)]),
            ('two sets of one type', [('d1', 1), ('d2', 2), ('d3', 1)]),
            ('two types', [('d1', 1), ('d2', 1), ('q1', 2)]),
            ('interleaved', [('q1', 2), ('d1', 1), ('q2', 3), ('d2', 1), ('q3', 2), ('d3', 7)])]
    for hn, seq in hist:
        def where():
            return loc(g.meth(MS, 'addEntity', 2, pt=('Disk', None)))
        sets = {}
        for e, k in seq:
            sets.setdefault(k, []).append(e)
        for ptr in (False, True):
            E = (lambda e: dobj({'d': DISK, 'q': QUAD}[e[0]], e)) if ptr else sym

            def go():
                S = fill(seq, ptr)
                if S is None:
                    return False, 'adding %s throws' % seq, where()
                for k in (1, 2, 3, 7, 9):
                    ok, d = judge(g.m(MS, S, 'numEntities', I(k)), [num(len(sets.get(k, [])))])
                    if not ok:
                        return ok, 'numEntities(%d): %s' % (k, d), where()
                ok, d = judge(g.m(MS, S, 'numEntities'), [num(len(seq))])
                if not ok:
                    return ok, 'numEntities(): %s' % d, where()
                return ok, d, where()
            ck.ob('set: counts after %s%s' % (hn, ' (pointers)' if ptr else ''), go, rule='every added entity is in the set of its id and in no other')

            def go():
                # the elements a function is applied to
                S = fill(seq, ptr)
                if S is None:
                    return False, 'adding %s throws' % seq, where()
                M = matrix([('c%d' % k, [(5, k)]) for k in (1, 2, 3, 7)])
                for f in g.p.byb.get('Frackit::EntityNetworkConstraintsMatrix::evaluate', []):
                    if f.get('body') is None:
                        continue
                    want = land(*[tm.tobool(raw('call', EVAL, sym('c%d' % k), lst(*[E(e) for e in es]), sym('cand'))) for k, es in sorted(sets.items())])
                    got = g.run(f, [S, sym('cand'), I(5)], M).full()
                    ok, d = judge(got, [want], strong={EVAL})
                    if not ok:
                        return ok, d, loc(f)
                return ok, d, loc(f)
            ck.ob('matrix: applied to the sets after %s%s' % (hn, ' (pointers)' if ptr else ''), go, rule='each related set is evaluated completely, with the constraints of the relation')

    def mism():
        return fill([('d1', 1), ('q1', 1)]) is None and fill([('q1', 1), ('q2', 1), ('d1', 1)]) is None and fill([('q1', 1), ('d1', 1)], True) is None
    ck.ob('set: mixed types under one id are rejected', lambda: (mism(), '', loc(g.meth(MS, 'addEntity', 2, pt=('Disk', None)))), rule='a set holds entities of one geometry type')

    rels = [('cA', [(1, 2)]), ('cB', [(1, 3)]), ('cC', [(2, 1)]), ('cD', [(3, 1), (3, 2)]), ('cE', [(4, 4)])]
    seq = [('d1', 1), ('d2', 1), ('q1', 2), ('q2', 4)]
    want = {1: [('cA', ['q1'])], 2: [('cC', ['d1', 'd2'])], 3: [('cD', ['d1', 'd2']), ('cD', ['q1'])], 4: [('cE', ['q2'])]}
    import itertools
    orders = [rels, rels[::-1]] + ([list(x) for x in itertools.permutations(rels)][::7] if ck.tier != 'quick' else [])
    for k in sorted(want):
        def go():
            for rs in orders:
                M, S = matrix(rs), fill(seq)
                if M is None or S is None:
                    return False, 'a first definition throws', loc(g.meth(MX, 'addConstraints', 2, pt=(None, 'IdPair')))
                for f in g.p.byb.get('Frackit::EntityNetworkConstraintsMatrix::evaluate', []):
                    if f.get('body') is None:
                        continue
                    sp = land(*[tm.tobool(raw('call', EVAL, sym(c), lst(*[sym(e) for e in es]), sym('cand'))) for c, es in want[k]])
                    ok, d = judge(g.run(f, [S, sym('cand'), I(k)], M).full(), [sp], strong={EVAL})
                    if not ok:
                        return ok, d, loc(f)
            return ok, d, loc(f)
        ck.ob('matrix: relations of id %d' % k, go, rule='exactly the relations (id, other) are evaluated, against the set of the other id; empty sets are skipped')

    def dup():
        M = matrix(rels)
        r = [relate(M, 'x', [(1, 2)]) is None, relate(M, 'x', [(3, 2)]) is None, relate(M, 'x', [(2, 2)]) is not None, relate(M, 'x', [(2, 3)]) is not None,
             relate(M, 'x', [(5, 5), (5, 5)]) is None]
        return all(r), str(r), loc(g.meth(MX, 'addConstraints', 2, pt=(None, 'IdPair')))
    ck.ob('matrix: a relation is defined once', dup, rule='a second definition of a relation is rejected, the reverse relation is independent')

    def unknown():
        M, S = matrix(rels), fill(seq)
        for f in g.p.byb.get('Frackit::EntityNetworkConstraintsMatrix::evaluate', []):
            if f.get('body') is not None:
                ok, d = judge(g.run(f, [S, sym('cand'), I(8)], M).full(), [raw('throw'), TRUE], strong={EVAL})
                if not ok:
                    return ok, d, loc(f)
        return ok, d, loc(f)
    ck.ob('matrix: id without relations', unknown, rule='no constraint is evaluated for an unknown id')
