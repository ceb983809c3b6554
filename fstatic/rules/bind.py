"""Python bindings: every registered name does what the C++ function of that name does."""
import json
import os
import re
from .. import terms as tm
from ..terms import T, raw, sym, call, TRUE, FALSE
from ..program import strip, targs, is_int, Missing
from ..evalr import Evaluator, Undecided
from ..expr import base
from ..interp import judge
from ..harness import loc

MODS = ('common', 'precision', 'geometry', 'occutilities', 'entitynetwork', 'io', 'sampling')
WRAP = re.compile(r'^Frackit::Python::BRepWrapper<')


class Rec:
    """one registration: a name, the C++ callable, keywords with defaults"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def key(self):
        return '%s%s %s(%s)%s' % (self.kind + ' ' if self.kind != 'method' else '', self.owner, self.name or '', ', '.join(self.sig), ' kw=' + ','.join(str(k) + ('=' + tm.show(d) if isinstance(d, T) and d.op in ('num', 'true', 'false', 'str') else '') for k, d in self.kw) if self.kw else '')


def norm(t):
    t = strip(t)
    if is_int(t):
        return 'int'
    t = t.replace('Frackit::Python::', '').replace('Frackit::', '').replace('<double, 3>', '').replace('<double>', '')
    t = re.sub(r'std::(__cxx11::)?basic_string<char(, [^<>]*(<[^<>]*>)?)*>', 'std::string', t)
    return t.replace('pybind11::', 'py::')


class Collect(Evaluator):
    """evaluates a module initialisation and records the registrations"""

    def __init__(self, prog):
        super().__init__(prog)
        self.recs = []
        self.types = {}

    def uninterpreted(self, e, f, b, L, recv, args, fr, env):
        if b in ('pybind11::class_::def', 'pybind11::class_::def_static', 'pybind11::module_::def', 'pybind11::class_::def_property_readonly_static', 'pybind11::class_::def_property_readonly',
                 'pybind11::class_::def_readwrite', 'pybind11::class_::def_readonly', 'pybind11::module_::attr'):
            self.record(e, f, b, recv, args, fr, env)
            return recv[0] if recv else raw('opaque', 'def')
        if b.startswith(('pybind11::operator""', 'pybind11::arg::')) or b.startswith('pybind11::init') or b.startswith('pybind11::detail::overload_cast'):
            vs = [self.ev(a, fr, env) for a in args]
            return raw('pycall', b, f.get('ta') or '', f.get('rt') or '', *(list(recv) + vs))
        return super().uninterpreted(e, f, b, L, recv, args, fr, env)

    def x_call(self, e, fr, env, wantlv=False):
        f = e.get('f')
        if f is not None and f['b'] == 'pybind11::arg::operator=' and len(e.get('a') or ()) == 1 and strip(f.get('rt', '')) == 'pybind11::arg_v':
            return raw('argv', self.ev(e['o'], fr, env), self.ev(e['a'][0], fr, env))
        return super().x_call(e, fr, env, wantlv)

    def where(self, fr):
        return fr.fn.get('file') if getattr(fr, 'fn', None) else None

    def record(self, e, f, b, recv, args, fr, env):
        kind = {'def': 'method', 'def_static': 'static', 'def_property_readonly_static': 'property', 'def_property_readonly': 'property'}.get(base(b), base(b))
        owner, cls = 'module', None
        r = recv[0] if recv else None
        for x in (tm.subterms(r) if r is not None else ()):
            if x.op == 'call' and str(x.a[0]).startswith('new pybind11::class_<'):
                names = [y.a[0] for y in x.a[1:] if isinstance(y, T) and y.op == 'str']
                owner = names[0] if names else '?'
        if b.startswith('pybind11::class_'):
            cls = f['q'].rpartition('::')[0]
        pts = f.get('pt') or []
        first = strip(pts[0]) if pts else ''
        name, fun, sig, rest = None, None, [], args
        if first.startswith('pybind11::detail::op_<'):
            kind, name, rest = 'operator', first[len('pybind11::detail::op_'):], args[1:]
            sig = []
        elif first.startswith('pybind11::detail::initimpl::'):
            fun = self.ev(args[0], fr, env)
            kind, rest = 'init', args[1:]
            name = ''
            if first.startswith('pybind11::detail::initimpl::constructor<'):
                sig = [norm(x) for x in targs(first)]
            else:
                cl = [x for x in tm.subterms(fun) if x.op == 'clo']
                fun = cl[0] if cl else None
        else:
            nm = self.ev(args[0], fr, env)
            name = nm.a[0] if nm.op == 'str' else None
            fun = self.ev(args[1], fr, env)
            rest = args[2:]
        fn = self.target(fun)
        if fn is not None:
            sig = [norm(x) for x in fn['pt']]
        kw, policy = [], None
        for a, pt in zip(rest, pts[-len(rest):] if rest else []):
            pt = strip(pt)
            if pt == 'pybind11::return_value_policy':
                policy = self.ev(a, fr, env)
            if pt not in ('pybind11::arg', 'pybind11::arg_v'):
                continue
            d = None
            if pt == 'pybind11::arg_v':
                v = self.ev(a, fr, env)
                if v.op != 'argv':
                    kw.append((None, v))
                    continue
                v, d = v.a
            else:
                v = self.ev(a, fr, env)
            s = [x for x in tm.subterms(v) if x.op == 'str']
            kw.append((s[0].a[0] if s else None, d))
        self.recs.append(Rec(owner=owner or '?', cls=cls, kind=kind, name=name, fun=fun, fn=fn, sig=sig, kw=kw, policy=policy, line=e.get('l'), file=self.where(fr), ev=self))

    def target(self, v):
        """the C++ function a registered value refers to"""
        if v is None:
            return None
        while v.op == 'pycall' and 'overload_cast' in v.a[0]:
            v = [x for x in v.a[3:] if isinstance(x, T) and x.op in ('fnref', 'clo')][0]
        if v.op == 'fnref':
            return self.p.fns.get(v.a[0])
        if v.op == 'clo':
            ops = [self.p.fns[i] for i in self.clos[v.a[1]].node['ops'] if i in self.p.fns]
            return ops[0] if len(ops) == 1 else None
        return None


def collect(ck, mod):
    p = ck.prog('py_' + mod)
    fs = [f for f in p.fns.values() if f['q'] == 'pybind11_init__' + mod]
    if not fs:
        raise Missing('initialisation of the Python module ' + mod)
    ev = Collect(p)
    ev.call_fn(fs[0], [sym('module')], None)
    return ev


# ------------------------------------------------------------------ what a name has to do
OCC = 'Frackit::OCCUtilities::'
PARTS = {'TopoDS_Vertex': 'getVertices', 'TopoDS_Edge': 'getEdges', 'TopoDS_Wire': 'getWires', 'TopoDS_Face': 'getFaces', 'TopoDS_Shell': 'getShells', 'TopoDS_Solid': 'getSolids'}
DUNDER = {'__call__': 'operator()'}


def inlib(b):
    return b.startswith('Frackit::') and not b.startswith('Frackit::Python::')


def wrapped(t):
    """the kernel type inside a wrapper type"""
    t = strip(t)
    return targs(t)[0] if WRAP.match(t) else None


def unwrap(x, t):
    """the argument the library gets for an argument of Python"""
    t = strip(t)
    k = wrapped(t)
    if k:
        return tm.fld(x, 'compound_' if k == 'TopoDS_Compound' else 'shape_')
    if t.startswith('std::vector<') and wrapped(targs(t)[0]):
        ph = tm.fresh()
        return tm.cat(tm.mapcat(tm.size(x), tm.cat(tm.elem(unwrap(tm.at(x, ph), targs(t)[0]))), ph))
    return x


def rewrap(x, t):
    """a variant, or a list of variants, whose alternatives are put into their wrappers"""
    t = strip(t)
    if t.startswith('std::variant<'):
        alts = tuple(targs(t))
        alts = tuple(wrapped(a) or a for a in alts)
        get = lambda a: tm.alt(a, raw('get', x, a))
        v = get(alts[-1])
        for a in reversed(alts[:-1]):
            v = tm.mk_ite(tm.holds(x, a, alts), get(a), v)
        return v
    if t.startswith('std::vector<') and strip(targs(t)[0]).startswith('std::variant<'):
        ph = tm.fresh()
        return tm.cat(tm.mapcat(tm.size(x), tm.cat(tm.elem(rewrap(tm.at(x, ph), targs(t)[0]))), ph))
    return x


def bare(t):
    """a result without its wrappers"""
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        r = memo.get(id(x))
        if r is None:
            if x.op == 'obj' and isinstance(x.a[0], str) and x.a[0].split('::')[-1].startswith('BRepWrapper<'):
                c = [f for f in ('compound_', 'shape_') if f in dict(x.a[2] if len(x.a) > 2 else ())]
                y = tm.fld(x, 'compound_' if 'Compound' in x.a[0] else 'shape_')
                r = go(y)
            elif x.op == 'cat' and len(x.a) == 1 and x.a[0].op == 'all':
                r = go(x.a[0].a[0])
            elif x.op == 'alt' and isinstance(x.a[0], str) and wrapped(x.a[0]):
                r = tm.alt(wrapped(x.a[0]), go(x.a[1]))
            else:
                r = tm.rebuild(x, go)
                if r is not x:
                    r = go(r) if isinstance(r, T) and (r.op == 'cat' or r.op == 'alt') else r
            memo[id(x)] = r
        return r
    return go(t)


def value(ev, r, opaque, args, this):
    ev.opaque = opaque
    if r.fn.get('ctor'):
        this = None
    x = ev.call_fn(r.fn, args, this)
    return x


def matches(got, specs):
    try:
        got = bare(got)
        specs = [bare(s) for s in specs]
    except (AttributeError, TypeError, KeyError):
        pass
    return judge(got, specs, strong={x.a[0] for x in tm.subterms(got) if x.op in ('call', 'fn') and isinstance(x.a[0], str) and inlib(x.a[0])})


def fidelity(ck, r):
    """the callable of a registration computes what the library function of its name computes"""
    ev, fn = r.ev, r.fn
    name = DUNDER.get(r.name, r.name)
    if r.kind == 'init':
        return initlist(r)
    if inlib(fn['b']) and base(fn['b']) == name:
        return True, ''
    pts = fn['pt']
    ps = [sym('a%d' % i) for i in range(len(pts))]
    where = loc(fn)
    if fn['b'].startswith('Frackit::Python::BRepWrapper'):
        this = sym('o')
        x = value(ev, r, lambda f: base(f['b']) == 'geometryName', ps, this)
        if name == 'name':
            k = wrapped(fn['q'].rpartition('::')[0])
            return matches(x.full(), [raw('str', k + '_Wrapper'), raw('strcat', call('call', ('Frackit::geometryName', tm.fld(this, 'shape_'))), raw('str', '_Wrapper'))]) + (where,)
        if name == 'add':
            want = [y for y in ev.calls if y[0] == 'TopoDS_Builder::Add']
            ok = bool(want) and want[-1][2] == [tm.fld(this, 'compound_'), unwrap(ps[0], pts[0])]
            return ok, 'adds %s' % (want[-1][2] if want else 'nothing'), where
        return None, 'unknown method of a wrapper'
    if r.kind == 'property':
        x = value(ev, r, lambda f: False, ps, None).full()
        want = propval(r)
        if want is None:
            return None, 'no expectation'
        return matches(x, want) + (where,)
    if name == '__repr__':
        return reprtext(r)
    method = r.owner != 'module'
    this = sym('o') if method else None
    ua = [unwrap(p, t) for p, t in zip(ps, pts)]
    if name == 'write' and not method:
        x = value(ev, r, lambda f: False, ps, None).full()
        w = [y for y in tm.subterms(x) if y.op == 'call' and y.a[0] == 'BRepTools::Write']
        if not w:
            return (False if not [y for y in tm.subterms(x) if y.op == 'call'] else None), 'the shape is not written', where
        return matches(x, [tm.mk_ite(tm.tobool(w[0]), raw('void'), raw('throw'))])[:1] + ('result %s' % tm.show(x)[:200], where) if list(w[0].a[1:3]) == ua[:2] else (False, 'writes %s' % (w[0],), where)
    if name == 'getShape' and wrapped(pts[0]):
        x = value(ev, r, lambda f: False, ps, None).full()
        return matches(x, [ps[0], ua[0]]) + (where,)
    opq = lambda f: inlib(f['b']) and (base(f['b']) == name or base(f['b']) in PARTS.values())
    alts = {name}
    if name == 'addEntity':
        alts.add('addSubDomainEntity')
        opq = lambda f: inlib(f['b']) and base(f['b']) in alts
    n0 = len(ev.calls)
    x = value(ev, r, opq, ps, this)
    made = [c for c in ev.calls[n0:] if inlib(c[0]) and base(c[0]) in alts]
    if not made:
        # the name is not used: compare with the function of the name itself
        cands = [f for f in ev.p.fns.values() if inlib(f['b']) and base(f['b']) == name and [norm(a) for a in f['pt']] == [norm(wrapped(t) or t) for t in pts] and f.get('body') is not None]
        if method:
            cands = [f for f in cands if f['b'].startswith(fn['b'].rpartition('::')[0]) or True]
        if not cands:
            return False, '%s does not call %s' % (fn['q'], name), where
        got = value(ev, r, lambda f: False, ps, this)
        want = ev.call_fn(cands[0], ua, this)
        ok, d = matches(got.full(), [want.full()])
        if ok and method:
            ok, d = matches(got.this, [want.this])
        return ok, d or '%s is not %s' % (fn['q'], name), where
    if method and strip(fn.get('rt', '')) == 'void':
        want = []
        for c in made[-1:]:
            if base(c[0]) == name:
                want.append(tm.event(this, c[0], *ua))
            else:
                want.append(tm.event(this, c[0], *(ua + [raw('ID0')])))
        got = x.this
        if name == 'addEntity' and base(made[-1][0]) != name:
            v = made[-1][2]
            ok = len(v) == 2 and v[0] == ua[0] and [y.a[0] for y in tm.subterms(v[1]) if y.op == 'num'] == [0] and len(made) == 1
            return ok, 'calls %s' % (v,), where
        if len(made) != 1:
            return False, '%s is called %d times' % (name, len(made)), where
        return matches(got, want) + (where,)
    want = []
    for b, more in sorted({(c[0], tail(ev, c, len(ua) + method)) for c in made}, key=str):
        args = ([this] if method else []) + ua + list(more)
        c = ev.typed(call('call', (b,) + tuple(args)), fn.get('rt', ''))
        want.append(c)
        if name in ('intersect', 'computeDistance', 'evaluate') and len(ua) >= 2 and (b != OCC + name):
            want.append(ev.typed(call('call', (b,) + tuple(([this] if method else []) + [ua[1], ua[0]] + ua[2:])), fn.get('rt', '')))
    k = wrapped(fn.get('rt', ''))
    if name == 'translate' and k in PARTS:
        l = call('call', (OCC + PARTS[k], want[0]))
        s = tm.size(l)
        want = [tm.mk_ite(tm.eq(s, tm.ONE), tm.at(l, tm.ZERO), raw('throw')), tm.mk_ite(tm.eq(s, tm.ZERO), raw('throw'), tm.at(l, tm.ZERO)), tm.mk_ite(tm.lt(s, tm.ONE), raw('throw'), tm.at(l, tm.ZERO))]
    if name == 'intersect':
        want += [rewrap(w, fn['rt']) for w in want]
    return matches(x.full(), want) + (where,)


def tail(ev, c, n):
    """the defaults of the parameters behind the first n"""
    vs = list(c[2])
    if len(vs) <= n:
        return ()
    for f in ev.p.byb.get(c[0], []):
        if len(f['params']) == len(vs) and all(q.get('def') is not None for q in f['params'][n:]):
            d = tuple(default(ev, f, i) for i in range(n, len(vs)))
            if list(d) == vs[n:]:
                return d
    return ()


def default(ev, f, i):
    from ..evalr import Frame
    e = {}
    L = ev.defarg(f, i, Frame(f), e)
    return ev.read(L, e) if isinstance(L, tuple) else L


def propval(r):
    n = r.name
    T_ = re.sub(r'^pybind11::class_<', '', r.cls or '')
    t = targs(r.cls)[0] if r.cls else ''
    if n in ('confusion', 'angular'):
        return [call('call', ('Frackit::Precision::' + n,)), call('call', ('Precision::' + n.capitalize(),))] + [x.full() for x in [r.ev.call_fn(f, [], None) for f in r.ev.p.fns.values() if f['b'] == 'Frackit::Precision::' + n and f.get('body') is not None]]
    w = wrapped(t)
    dims = {'TopoDS_Vertex': 0, 'TopoDS_Edge': 1, 'TopoDS_Wire': 1, 'TopoDS_Face': 2, 'TopoDS_Shell': 2, 'TopoDS_Solid': 3}
    if n == 'worldDimension':
        m = [a for a in targs(t) if re.fullmatch(r'\d', a)] if '<' in t else []
        d = int(m[0]) if m else 3
        return [tm.num(d), call('call', ('Frackit::DimensionalityTraits::worldDimension',)), call('call', ('Frackit::DimensionalityTraits::worldDim',))]
    if n == 'myDimension':
        own = {'Point': 0, 'PointBase': 0, 'Vector': 1, 'VectorBase': 1, 'Direction': 1, 'Segment': 1, 'Line': 1, 'Ellipse': 1, 'EllipseArc': 1, 'Circle': 1, 'Plane': 2, 'Triangle': 2, 'Quadrilateral': 2, 'Polygon': 2,
               'Disk': 2, 'CylinderSurface': 2, 'Cylinder': 3, 'HollowCylinder': 3, 'Box': 3, 'Sphere': 3}
        b = t.split('<')[0].split('::')[-1]
        if b == 'EmptyIntersection':
            return [tm.ZERO]
        d = dims.get(w) if w else own.get(b)
        if d is None:
            return None
        return [tm.num(d)]
    return None


def reprtext(r):
    """the representation names the type, and the coordinates in order"""
    x = value(r.ev, r, lambda f: False, [sym('a0')], None).full()
    parts = list(x.a) if x.op == 'strcat' else [x]
    if not all(y.op == 'str' or (y.op == 'call' and str(y.a[0]).endswith('to_string')) for y in parts):
        return None, 'representation %s' % tm.show(x)[:300]
    text = ''.join(y.a[0] for y in parts if y.op == 'str')
    root = r.owner.partition('_')[0]
    if root not in text and not wrapped(r.fn['pt'][0]):
        return False, 'the representation of %s is "%s"' % (r.owner, text), loc(r.fn)
    m = re.match(r'(Point|Vector|Direction)_(\d)$', r.owner)
    if m:
        cs = [y.a[-1] for y in parts if y.op == 'call']
        want = [tm.at(tm.fld(sym('a0'), 'coordinates_'), tm.num(i)) for i in range(int(m.group(2)))]
        return cs == want, 'prints %s' % tm.show(x)[:300], loc(r.fn)
    return True, ''


def initlist(r):
    """a constructor from a list takes its entries in order and zero where there is none"""
    if r.sig != ['py::list']:
        return None, 'no expectation'
    x = value(r.ev, r, lambda f: False, [sym('a0')], None).full()
    n = re.search(r', (\d)>', r.cls)
    n = int(n.group(1)) if n else 3
    if x.op != 'obj':
        return None, 'no expectation'
    a0 = sym('a0')
    get = [y for y in tm.subterms(x) if y.op == 'call' and 'accessor' in str(y.a[0])]
    if not get:
        return False, 'does not read the list'
    bad = [y for y in get if len(y.a) < 2]
    if bad:
        return None, ''
    sz = [y for y in tm.subterms(x) if y.op == 'call' and y.a[0] == 'pybind11::list::size']
    if not sz:
        return None, 'the size of the list is not used'
    cast, size = get[0].a[0], sz[0]
    item = lambda i: r.ev.typed(call('call', (cast, call('call', ('pybind11::list::operator[]', a0, tm.num(i))))), 'double')
    spec = tm.raw('arr', *[tm.mk_ite(tm.lt(tm.num(i), size), item(i), tm.ZERO) for i in range(n)])
    got = tm.fld(x, 'coordinates_')
    return judge(tm.raw('arr', *[tm.at(got, tm.num(i)) for i in range(n)]), [spec])


# ------------------------------------------------------------------ keywords and completeness
def params(r):
    """names and defaults of the C++ parameters a registration refers to"""
    if r.fn is not None and r.fn.get('params') is not None:
        return r.fn
    if r.kind == 'init' and r.cls:
        t = targs(r.cls)[0]
        todo, seen = [t], []
        while todo:
            t = todo.pop(0)
            seen.append(t)
            todo += [strip(b['t'] if isinstance(b, dict) else b) for b in (r.ev.p.recq.get(t) or {}).get('bases') or ()]
        cs = [f for f in r.ev.p.fns.values() if f.get('ctor') and f.get('clsname') in seen]
        cs.sort(key=lambda f: seen.index(f['clsname']))
        for n in (None, len(r.sig)):
            for f in cs:
                if [norm(a) for a in f['pt']][:n] == r.sig:
                    return f
    return None


def keywords(r):
    f = params(r)
    if f is None:
        return None, 'no C++ parameters found'
    names = [q.get('name') or '' for q in f['params']]
    kws = [k for k, d in r.kw]
    if None in kws:
        return None, 'keyword is not a literal'
    if len(kws) != len(r.sig):
        return False, '%d keywords for %d parameters' % (len(kws), len(r.sig))
    low = [n.lower().rstrip('_') for n in names]
    ks = [k.lower() for k in kws]
    if [k for k in ks if k in low] != [n for n in low if n in ks]:
        return False, 'keywords %s stand for the parameters %s' % (', '.join(kws), ', '.join(names)), loc(f)
    return True, ''


def defaults(r):
    f = params(r)
    if f is None:
        return None, 'no C++ parameters found'
    for i, (k, d) in enumerate(r.kw):
        if d is None:
            continue
        if i < len(f['params']) and f['params'][i].get('def') is not None:
            r.ev.opaque = lambda f: False
            w = default(r.ev, f, i)
            ok, det = judge(d, [w])
            if ok is not True:
                return ok, 'default of %s is %s, of the C++ parameter %s' % (k, d, w), loc(f)
    return True, ''


TABLE = os.path.join(os.path.dirname(__file__), 'bindings.json')
RB1 = 'a function registered in Python calls the library function of its name with all arguments in their order and returns its result'
RB2 = 'keywords stand for the parameters they name, defaults are those of C++'
RB3 = 'every class, function and constructor of the Python interface is registered'


def regs(ck):
    ck.load(*['py_' + m for m in MODS])
    for m in MODS:
        for r in collect(ck, m).recs:
            f = r.file or ''
            i = f.find('/frackit/python/')
            yield m, r, '%s:%s' % (f[i + 1:] if i >= 0 else f, r.line)


RB4 = 'a reference handed to Python is a copy or keeps its owner alive'


def policy(r):
    p = str(r.policy.a[0]) if r.policy.op == 'enum' else None
    if p is None:
        return None, 'policy %s' % (r.policy,)
    p = p.split('::')[-1]
    if p in ('reference', 'take_ownership', 'automatic_reference') and '*' not in r.fn['rt'] or p in ('reference', 'take_ownership'):
        return False, 'the result of %s is handed out with the policy %s' % (r.fn['q'], p), loc(r.fn)
    return True, ''


def B01(ck):
    """Fidelity of the bindings."""
    n = 0
    for m, r, where in regs(ck):
        if r.kind == 'operator' or (r.kind == 'init' and r.fn is None):
            continue
        n += 1
        if r.fn is None or r.name is None:
            ck.ob('%s: %s' % (m, r.key()), lambda: (None, 'the registered function is not known'), where=where, rule=RB1)
        else:
            ck.functions.add(r.fn['q'])
            ck.ob('%s: %s' % (m, r.key()), lambda: fidelity(ck, r), where=where, rule=RB1)
    ck.atleast('registered functions', 500, n)


def B02(ck):
    """Keywords, defaults and completeness of the bindings."""
    want = json.load(open(TABLE))
    have = {m: {} for m in MODS}
    n = 0
    for m, r, where in regs(ck):
        have[m].setdefault(r.key(), where)
        if r.kw:
            n += 1
            ck.ob('keywords of %s: %s' % (m, r.key()), lambda: keywords(r), where=where, rule=RB2)
            if any(d is not None for k, d in r.kw):
                ck.ob('defaults of %s: %s' % (m, r.key()), lambda: defaults(r), where=where, rule=RB2)
        if r.cls and not r.owner.startswith('_'):
            have[m].setdefault('class %s: %s' % (r.owner, norm(r.cls)), where)
        if r.fn is not None and strip(r.fn.get('rt') or '') != (r.fn.get('rt') or '') and r.policy is not None:
            ck.ob('lifetime of the result of %s: %s' % (m, r.key()), lambda: policy(r), where=where, rule=RB4)
    for m in MODS:
        dark = [k for k in have[m] if 'None' in k or '?' in k]
        miss = [k for k in want.get(m, []) if k not in have[m]]
        ck.ob('registrations of %s are complete' % m, lambda: (True if not miss else None if dark else False, 'not registered: ' + '; '.join(miss[:8])), where='python/frackit/%s/_%s.cc' % (m, m), rule=RB3)
    ck.atleast('registrations with keywords', 100, n)
