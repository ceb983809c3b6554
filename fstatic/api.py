"""Specification helpers: build objects through their public constructors, call public methods."""
from . import terms as tm
from .terms import T, sym, num, add, sub, mul, div, neg, fld, at, raw, ZERO, ONE, TRUE, FALSE, UNDEF, lt, le, eq, land, lor, lnot, sqrt, absv, mk_ite
from .program import is_int, is_bool, strip, targs, Missing
from .evalr import Evaluator, Undecided
from .interp import judge


def short(t):
    t = strip(t)
    i = t.find('<')
    return (t[:i] if i > 0 else t).split('::')[-1]


def lastargs(q):
    """split 'Frackit::Box<double>' -> ('Frackit::Box<double>', 'Box')"""
    d = 0
    cut = 0
    for i, c in enumerate(q):
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif c == ':' and d == 0:
            cut = i + 1
    n = q[cut:]
    return n.split('<')[0]


class Api:
    def __init__(self, ck, tu, opaque=None):
        self.ck, self.p = ck, ck.prog(tu)
        self.opaque = opaque
        self.ev = None
        self.last = None

    def evaluator(self):
        return Evaluator(self.p, opaque=self.opaque)

    def pick(self, cands, nargs, pt, what):
        ok = []
        for f in cands:
            if f.get('body') is None and not f.get('inits') and not f.get('defaulted'):
                continue
            n = len(f['pt'])
            if n < nargs:
                continue
            if any(f['params'][i].get('def') is None for i in range(nargs, n)):
                continue
            if pt is not None:
                ss = [short(x) for x in f['pt'][:len(pt)]]
                if len(f['pt']) != len(pt) or any(x is not None and x != y for x, y in zip(pt, ss)):
                    continue
            ok.append((n, f))
        if not ok:
            raise Missing(what)
        ok.sort(key=lambda x: x[0])
        return ok[0][1]

    def ctor(self, cls, nargs, pt=None):
        n = lastargs(cls)
        c = [f for f in self.p.byq.get(cls + '::' + n, []) if f.get('ctor') and not f.get('copy') and not f.get('move')]
        return self.pick(c, nargs, pt, 'constructor %s(%s)' % (cls, nargs if pt is None else ','.join(map(str, pt))))

    def meth(self, cls, name, nargs, pt=None):
        seen = []
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.append(c)
            fs = self.p.byq.get(c + '::' + name, [])
            if fs:
                try:
                    return self.pick(fs, nargs, pt, '')
                except Missing:
                    pass
            r = self.p.recq.get(c)
            if r:
                todo += r.get('bases', [])
        raise Missing('method %s::%s(%s)' % (cls, name, nargs if pt is None else ','.join(map(str, pt))))

    def func(self, b, nargs, pt=None, full=None):
        fs = self.p.byb.get(b, [])
        if full is not None:
            fs = [f for f in fs if len(f['pt']) == len(full) and all(x is None or strip(y) == x for x, y in zip(full, f['pt']))]
        return self.pick(fs, nargs, pt, 'function %s(%s)' % (b, full or pt or nargs))

    def func1(self, b, rt):
        """the instance of a function template with the given return type"""
        fs = [f for f in self.p.byb.get(b, []) if strip(f['rt']) == rt]
        if len(fs) != 1:
            raise Missing('function %s -> %s' % (b, rt))
        return fs[0]

    def run(self, f, args, this=None):
        self.ck.functions.add('%s (%s)' % (f['q'], ', '.join(short(x) for x in f['pt'])))
        ev = self.evaluator()
        self.last = f
        self.ev = ev
        r = ev.call_fn(f, list(args), this)
        return r

    def new(self, cls, *args, pt=None):
        r = self.run(self.ctor(cls, len(args), pt), args)
        v = r.value
        if v.op == 'obj' and v.a[0] in ('', None):
            pass
        return v

    def fresh_object(self, cls):
        """a default constructed object"""
        try:
            f = self.ctor(cls, 0)
        except Missing:
            if cls not in self.p.recq:
                raise
            return self.evaluator().defobj(cls)
        return self.run(f, []).value

    @staticmethod
    def opq(b, *args):
        """the value of a call of an opaque function"""
        return tm.call('call', (b,) + args)

    def newfull(self, cls, *args, pt=None):
        return self.run(self.ctor(cls, len(args), pt), args).full()

    def m(self, cls, obj, name, *args, pt=None):
        f = self.meth(cls, name, len(args), pt)
        return self.run(f, args, obj).full()

    def call(self, b, *args, pt=None, full=None):
        return self.run(self.func(b, len(args), pt, full), args).full()


# ------------------------------------------------------------------ vector algebra for specifications
class V(tuple):
    def __add__(self, o):
        return V(add(a, b) for a, b in zip(self, o))

    def __sub__(self, o):
        return V(sub(a, b) for a, b in zip(self, o))

    def __mul__(self, k):
        if isinstance(k, V):
            return tm_sum([mul(a, b) for a, b in zip(self, k)])
        return V(mul(a, k) for a in self)

    def __neg__(self):
        return V(neg(a) for a in self)


def tm_sum(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def tsum_(*xs):
    return tm_sum(xs)


def cross(a, b):
    return V((sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))))


def norm2(a):
    return a * a


def norm(a):
    return sqrt(a * a)


def unit(a):
    return a * div(ONE, norm(a))


def n(x):
    return num(x)
