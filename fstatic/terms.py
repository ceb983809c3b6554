"""Hash-consed value terms with a canonical normal form.

Every value computed by the analysed code is represented by one interned term:
  * numbers: sparse polynomials with rational coefficients over atoms (exact, division by
    monomials is a negative exponent, other divisors are `inv` atoms);
  * conditions and conditional values: reduced ordered decision diagrams over opaque
    boolean atoms (so any regrouping of if/else, early returns, ternaries or boolean
    operators has the same normal form);
  * loops: order independent folds (`sum`, `exists`, `minover`, `map`, ...) with bound
    variables numbered by height, so the spelling of the loop does not matter.
Terms are only ever compared structurally: nothing is evaluated on concrete inputs.
"""
import hashlib
import sys
from fractions import Fraction
from functools import lru_cache

sys.setrecursionlimit(100000)


class T:
    __slots__ = ('op', 'a', 'key', 'ht', 'int', '_ph', '_atoms', 'fb')

    def __repr__(self):
        return show(self)


_tab = {}


def _k(x):
    if isinstance(x, T):
        return x.key
    if isinstance(x, tuple):
        return b'(' + b','.join(_k(y) for y in x) + b')'
    return repr(x).encode()


BINDERS = {'exists', 'sum', 'minover', 'maxover', 'map', 'fold', 'first', 'evloop', 'argmin', 'argmax', 'until', 'prod', 'count', 'lastof'}
INTOPS = {'cnt', 'size', 'idiv', 'mod', 'findidx', 'count', 'argmin', 'argmax', 'trunc'}


def _iter_terms(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _iter_terms(x)


LOG = None     # names of the calls that occur while a law's model is evaluated (also of those that do not reach its value)


def raw(op, *a):
    if LOG is not None and (op == 'call' or op == 'fn') and a and isinstance(a[0], str):
        LOG.add(a[0])
    k = (op,) + a
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.key = hashlib.md5(op.encode() + b'|' + b','.join(_k(x) for x in a)).digest()
    ht = 0
    ph = frozenset()
    fb = frozenset()
    for x in _iter_terms(a):
        if x.ht > ht:
            ht = x.ht
        if x.fb:
            fb = fb | x.fb
        if x._ph:
            ph = ph | x._ph
    if op in BINDERS and a[0] > ht:
        ht = a[0]
    if op == 'bv':
        fb = frozenset([a[0]])
    elif op == 'acc':
        fb = frozenset([a[1]])
    elif op == 'other':
        fb = frozenset([a[0]])
    elif op in BINDERS and fb:
        fb = fb - {a[0]}
    t.fb = fb
    t.ht = ht
    if op == 'ph':
        ph = frozenset([t])
    t._ph = ph
    t._atoms = None
    if op == 'num':
        t.int = a[0].denominator == 1
    elif op == 'poly':
        t.int = all(c.denominator == 1 and all(x.int and e > 0 for x, e in m) for m, c in a[0])
    elif op in ('sym', 'call', 'fld', 'ph', 'bv', 'at', 'out', 'undef'):
        t.int = bool(a) and a[-1] == 'i'
    elif op in ('min', 'max'):
        t.int = all(x.int for x in a)
    elif op == 'abs':
        t.int = a[0].int
    elif op == 'ite':
        t.int = a[1].int and a[2].int
    elif op in ('sum', 'minover', 'maxover'):
        t.int = a[2].int
    else:
        t.int = op in INTOPS
    _tab[k] = t
    return t


TRUE = raw('true')
FALSE = raw('false')
UNDEF = raw('undef')
NULL = raw('null')
PI = raw('sym', 'pi')


def num(x):
    if isinstance(x, float):
        import math
        if x == math.pi:
            return PI
        x = Fraction(repr(x))
    return raw('num', Fraction(x))


ZERO = num(0)
ONE = num(1)


def sym(name, kind=None):
    """kind: 'i' integer valued, 'b' boolean (returned as a decision node), None other"""
    if kind == 'b':
        return atom(raw('sym', name))
    return raw('sym', name, 'i') if kind == 'i' else raw('sym', name)


# ------------------------------------------------------------------ polynomials
def topoly(t):
    if t.op == 'num':
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'poly':
        return dict(t.a[0])
    return {((t, 1),): Fraction(1)}


def _mkey(m):
    return tuple((x.key, e) for x, e in m)


def frompoly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return raw('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return raw('poly', tuple(sorted(p.items(), key=lambda mc: _mkey(mc[0]))))


def _mulmono(m1, m2):
    d = {}
    for x, e in m1 + m2:
        d[x] = d.get(x, 0) + e
    extra = None
    for x in list(d):
        if x.op == 'sqrt' and abs(d[x]) >= 2:
            n = abs(d[x]) // 2
            s = 1 if d[x] > 0 else -1
            d[x] -= s * 2 * n
            f = powi(x.a[0], s * n)
            extra = f if extra is None else mul(extra, f)
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda q: q[0].key)), extra


def is_ite(t):
    return t.op == 'ite'


class TooBig(Exception):
    pass


_liftmemo = {}
LIMIT = 20000


def lift(name, f, *args):
    """apply f leafwise over the decision diagrams of args"""
    memo = _liftmemo.setdefault(name, {})
    cnt = [0]

    def go(as_):
        if not any(x.op == 'ite' for x in as_):
            return f(*as_)
        r = memo.get(as_)
        if r is not None:
            return r
        cnt[0] += 1
        if cnt[0] > LIMIT:
            raise TooBig(name)
        top = min((x.a[0] for x in as_ if x.op == 'ite'), key=lambda t: t.key)
        hi = go(tuple(x.a[1] if x.op == 'ite' and x.a[0] is top else x for x in as_))
        lo = go(tuple(x.a[2] if x.op == 'ite' and x.a[0] is top else x for x in as_))
        r = node(top, hi, lo)
        memo[as_] = r
        return r
    return go(tuple(args))


def _numlike(t):
    return t


def _b2n(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return t


def _add(a, b):
    a, b = _b2n(a), _b2n(b)
    p = topoly(a)
    for m, c in topoly(b).items():
        p[m] = p.get(m, 0) + c
    return frompoly(p)


def add(a, b):
    return lift('add', _add, a, b)


def _scale(a, k):
    a = _b2n(a)
    return frompoly({m: c * k for m, c in topoly(a).items()})


def scale(a, k):
    return lift(('scale', k), lambda x: _scale(x, k), a)


def neg(a):
    return scale(a, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def _mul(a, b):
    a, b = _b2n(a), _b2n(b)
    p = {}
    rest = None
    if a.op == 'poly' and b.op == 'poly' and len(a.a[0]) * len(b.a[0]) > MAXMONO:
        # keep large products as factors (normalised to leading coefficient one)
        ka, kb = leadcoef(a), leadcoef(b)
        x, y = _atomize(_scale(a, 1 / ka)), _atomize(_scale(b, 1 / kb))
        return _scale(_mul(x, y), ka * kb)
    for m1, c1 in topoly(a).items():
        for m2, c2 in topoly(b).items():
            m, extra = _mulmono(m1, m2)
            if extra is not None:
                tm = mul(frompoly({m: c1 * c2}), extra)
                rest = tm if rest is None else add(rest, tm)
            else:
                p[m] = p.get(m, 0) + c1 * c2
    r = frompoly(p)
    return r if rest is None else add(r, rest)


MAXMONO = 150


def _atomize(a):
    return raw('grp', a) if a.op == 'poly' else a


def mul(a, b):
    return lift('mul', _mul, a, b)


def leadcoef(t):
    p = topoly(t)
    ms = [m for m in p if m]
    if not ms:
        return p.get((), Fraction(0))
    m = min(ms, key=_mkey)
    return p[m]


def _inv(a):
    a = _b2n(a)
    p = topoly(a)
    if len(p) == 1:
        (m, c), = p.items()
        return frompoly({tuple((x, -e) for x, e in m): 1 / c})
    if not p:
        return raw('inv', ZERO)
    k = leadcoef(a)
    return _scale(raw('inv', _scale(a, 1 / k)), 1 / k)


def inv(a):
    return lift('inv', _inv, a)


def div(a, b, integer=False):
    if integer:
        def f(x, y):
            if x.op == 'num' and y.op == 'num' and y.a[0]:
                q = abs(x.a[0]) // abs(y.a[0])
                return num(q if (x.a[0] >= 0) == (y.a[0] >= 0) else -q)
            if y is ONE:
                return x
            return raw('idiv', x, y)
        return lift('idiv', f, a, b)
    return mul(a, inv(b))


def mod(a, b):
    def f(x, y):
        if x.op == 'num' and y.op == 'num' and y.a[0]:
            return num(x.a[0] % y.a[0])
        if x is y:
            return ZERO
        if y.op not in ('num', 'poly') and x.op == 'poly':
            c = topoly(x).get(((y, 1),))
            if c is not None and c.denominator == 1 and len(topoly(x)) <= 3:
                return mod(_add(x, _scale(y, -c)), y)
        return raw('mod', x, y)
    return lift('mod', f, a, b)


def powi(a, n):
    r = ONE
    b = a if n >= 0 else inv(a)
    for _ in range(abs(n)):
        r = mul(r, b)
    return r


def _sqrt(a):
    if a.op == 'num':
        from math import isqrt
        n, d = a.a[0].numerator, a.a[0].denominator
        if n >= 0 and isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
            return num(Fraction(isqrt(n), isqrt(d)))
    return raw('sqrt', a)


def sqrt(a):
    return lift('sqrt', _sqrt, a)


def _abs(a):
    if a.op == 'num':
        return num(abs(a.a[0]))
    if a.op in ('poly',) and leadcoef(a) < 0:
        a = _scale(a, Fraction(-1))
    if a.op == 'abs':
        return a
    p = topoly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if abs(c) != 1:
            return _scale(raw('abs', frompoly({m: Fraction(1)})), abs(c))
        a = frompoly({m: Fraction(1)})
    if a.op in ('sqrt', 'size'):
        return a
    return raw('abs', a)


def absv(a):
    return lift('abs', _abs, a)


def _minmax(op):
    def f(*xs):
        out = set()
        n = None
        for x in xs:
            ys = x.a if x.op == op else (x,)
            for y in ys:
                if y.op == 'num':
                    n = y if n is None else (y if (y.a[0] < n.a[0]) == (op == 'min') else n)
                else:
                    out.add(y)
        if n is not None:
            out.add(n)
        if len(out) == 1:
            return next(iter(out))
        if op == 'max' and len(out) == 2:
            x, y = out
            if _add(x, y) is ZERO:
                return _abs(x)
        if op == 'min' and len(out) == 2:
            x, y = out
            if _add(x, y) is ZERO:
                return _scale(_abs(x), Fraction(-1))
        return raw(op, *sorted(out, key=lambda t: t.key))
    return f


def tmin(*xs):
    return lift('min', _minmax('min'), *xs)


def tmax(*xs):
    return lift('max', _minmax('max'), *xs)


# ------------------------------------------------------------------ conditions
def atom(t):
    """boolean decision node testing opaque boolean term t"""
    if t in (TRUE, FALSE) or t.op == 'ite':
        return t
    return raw('ite', t, TRUE, FALSE)


def atoms_of(t):
    """boolean atoms tested anywhere in decision diagram t"""
    if t.op != 'ite':
        return frozenset()
    if t._atoms is None:
        t._atoms = frozenset([t.a[0]]) | atoms_of(t.a[1]) | atoms_of(t.a[2])
    return t._atoms


def _split_const(p):
    d = topoly(p)
    c = d.pop((), Fraction(0))
    return frompoly(d), c


_linmemo = {}


def _linform(t):
    """t = lead * normal form + constant"""
    r = _linmemo.get(t)
    if r is None:
        p, c = _split_const(t)
        k = leadcoef(p)
        r = _linmemo[t] = (_scale(p, 1 / k) if k else p, k, c)
    return r


def _implied(at, val, other):
    """truth value of atom `other` if atom `at` has value val, or None"""
    if at is other:
        return val
    if at.op == 'lt0' and other.op == 'lt0':
        P, kp, k = _linform(at.a[0])
        Q, kq, l = _linform(other.a[0])
        if P is not Q or kp == 0:
            return None
        r = kq / kp
        # at: p < -k ; other: r*p < -l
        if r > 0:
            if val and -l / r >= -k:
                return True
            if not val and -l / r <= -k:
                return False
        else:
            # other: p > -l/r
            if val and -l / r >= -k:
                return False
            if not val and -l / r < -k:
                return True
        return None
    if at.op == 'eq' and other.op == 'eq' and val:
        for i in (0, 1):
            for j in (0, 1):
                if at.a[i] is other.a[j]:
                    x, y = at.a[1 - i], other.a[1 - j]
                    if x is not y and is_const(x) and is_const(y):
                        return False
    if at.op == 'holds' and other.op == 'holds' and val and at.a[0] is other.a[0] and at.a[1] != other.a[1]:
        return False
    return None


def is_const(t):
    return t.op in ('num', 'enum', 'str', 'null', 'true', 'false')


_restrict_memo = {}


def restrict(t, at, val):
    if t.op != 'ite':
        return t
    if not _relevant(t, at, val):
        return t
    k = (t, at, val)
    r = _restrict_memo.get(k)
    if r is not None:
        return r
    v = _implied(at, val, t.a[0])
    if v is True:
        r = restrict(t.a[1], at, val)
    elif v is False:
        r = restrict(t.a[2], at, val)
    else:
        hi, lo = restrict(t.a[1], at, val), restrict(t.a[2], at, val)
        r = node(t.a[0], hi, lo)
    _restrict_memo[k] = r
    return r


def restrict_all(t, m):
    """t under the assumption that the boolean atoms in m have the given values"""
    for a, v in m.items():
        t = restrict(t, a, v)
    return t


def _relevant(t, at, val):
    return any(_implied(at, val, o) is not None for o in atoms_of(t))


def node(at, hi, lo):
    if hi is lo:
        return hi
    hi = restrict(hi, at, True)
    lo = restrict(lo, at, False)
    if hi is lo:
        return hi
    # merge structured values fieldwise
    if hi.op != 'ite' and lo.op != 'ite':
        r = _merge_struct(at, hi, lo)
        if r is not None:
            return r
        if at.op == 'lt0' and _isnum(hi) and _isnum(lo):
            d = _add(hi, _scale(lo, Fraction(-1)))
            p = at.a[0]
            kd, kp = leadcoef(d), leadcoef(p)
            if kp and kd and topoly(d).keys() - {()}:
                c = kd / kp
                rem = _add(d, _scale(p, -c))
                if rem is ZERO or (p.int and d.int and rem.op == 'num' and rem.a[0] in (c,)):
                    return tmin(hi, lo) if c > 0 else tmax(hi, lo)
    return raw('ite', at, hi, lo)


def _isnum(t):
    return t.op not in ('true', 'false', 'null', 'obj', 'arr', 'cat', 'st', 'str', 'enum', 'undef', 'throw', 'alt', 'iter', 'clo', 'void', 'adr', 'lv')


def _merge_struct(at, hi, lo):
    if hi.op == 'obj' or lo.op == 'obj':
        if hi.op == 'obj' and lo.op == 'obj' and hi.a[0] == lo.a[0] and hi.a[1] is lo.a[1]:
            base = hi.a[1]
        elif hi.op == 'obj' and hi.a[1] is lo:
            base = lo
        elif lo.op == 'obj' and lo.a[1] is hi:
            base = hi
        else:
            return None
        cls = hi.a[0] if hi.op == 'obj' else lo.a[0]
        dh = dict(hi.a[2]) if hi.op == 'obj' else {}
        dl = dict(lo.a[2]) if lo.op == 'obj' else {}
        out = {}
        for f in set(dh) | set(dl):
            vh = dh.get(f)
            vl = dl.get(f)
            if vh is None:
                vh = fld(base, f)
            if vl is None:
                vl = fld(base, f)
            out[f] = mk_ite(atom(at), vh, vl)
        return mkobj(cls, base, out)
    if hi.op == 'arr' and lo.op == 'arr' and len(hi.a) == len(lo.a):
        return raw('arr', *[mk_ite(atom(at), x, y) for x, y in zip(hi.a, lo.a)])
    return None


_itememo = {}


def mk_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op != 'ite':
        c = atom(c)
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _itememo.get(k)
    if r is not None:
        return r
    top = c.a[0]
    for x in (a, b):
        if x.op == 'ite' and x.a[0].key < top.key:
            top = x.a[0]

    def cof(x, i):
        return x.a[i] if x.op == 'ite' and x.a[0] is top else x
    hi = mk_ite(cof(c, 1), cof(a, 1), cof(b, 1))
    lo = mk_ite(cof(c, 2), cof(a, 2), cof(b, 2))
    r = node(top, hi, lo)
    _itememo[k] = r
    return r


def tobool(t):
    if t in (TRUE, FALSE):
        return t
    if t.op == 'ite':
        return mk_ite(atom(t.a[0]), tobool(t.a[1]), tobool(t.a[2]))
    if t.op == 'num':
        return FALSE if t.a[0] == 0 else TRUE
    if t.op == 'null':
        return FALSE
    if t.int:
        return lnot(eq(t, ZERO))
    if t.op in ('obj', 'st', 'cat', 'adr'):
        return TRUE
    return atom(t)


def lnot(t):
    return mk_ite(tobool(t), FALSE, TRUE)


def land(*ts):
    r = TRUE
    for t in ts:
        r = mk_ite(tobool(t), r, FALSE) if r is not TRUE else tobool(t)
    return r


def lor(*ts):
    r = FALSE
    for t in ts:
        r = mk_ite(tobool(t), TRUE, r)
    return r


def implies(a, b):
    return lor(lnot(a), b) is TRUE


NONNEG = set()          # terms assumed not negative (radii, heights, tolerances)


def nonneg(p):
    """no monomial of p can be negative"""
    for m, c in topoly(p).items():
        if c < 0:
            return False
        for x, e in m:
            if e % 2 and not (x in NONNEG or x.op in ('sqrt', 'abs', 'size')):
                return False
    return True


def _lt(a, b):
    a, b = _b2n(a), _b2n(b)
    p = _add(a, _scale(b, Fraction(-1)))
    if p.op == 'num':
        return TRUE if p.a[0] < 0 else FALSE
    if not p.int and NONNEG and nonneg(p):
        return FALSE
    if p.op == 'poly' or True:
        k = leadcoef(p)
        if p.int:
            g = 0
            from math import gcd
            for m, c in topoly(p).items():
                if m:
                    g = gcd(g, int(c))
            if k < 0:
                # p<0  <=> not (-p <= 0) <=> not(-p-1 < 0)
                q = _add(_scale(p, Fraction(-1)), num(-1))
                return raw('ite', raw('lt0', q), FALSE, TRUE)
            s = topoly(p)
            # sizes are never negative
            if len(s) == 1 and p.op == 'size':
                return FALSE
            return raw('ite', raw('lt0', p), TRUE, FALSE)
        p = _scale(p, 1 / abs(k))
        return raw('ite', raw('lt0', p), TRUE, FALSE)


def lt(a, b):
    return lift('lt', _lt, a, b)


def le(a, b):
    return lnot(lt(b, a))


def _eq(a, b):
    if a is b:
        return TRUE
    if a in (TRUE, FALSE) and b in (TRUE, FALSE):
        return FALSE
    if a in (TRUE, FALSE) or b in (TRUE, FALSE):
        if a in (TRUE, FALSE):
            a, b = b, a
        if b is TRUE:
            return tobool(a)
        return lnot(tobool(a))
    if is_const(a) and is_const(b):
        return FALSE
    if (a.op == 'null' and b.op in ('obj', 'cat', 'st', 'adr')) or (b.op == 'null' and a.op in ('obj', 'cat', 'st', 'adr')):
        return FALSE
    if a.op == 'null' or b.op == 'null':
        x = b if a.op == 'null' else a
        return lnot(atom(x))
    if a.op in ('poly', 'num') or b.op in ('poly', 'num'):
        if a.op == 'keyidx' or b.op == 'keyidx':
            pass
        else:
            d = _add(a, _scale(b, Fraction(-1)))
            if d.op == 'num':
                return TRUE if d.a[0] == 0 else FALSE
            if d.op == 'size':
                return lnot(_lt(ZERO, d))
            d = _scale(d, 1 / leadcoef(d))
            return atom(raw('eq0', d))
    if a.op == 'lt0':
        pass
    x, y = sorted((a, b), key=lambda t: t.key)
    return atom(raw('eq', x, y))


def eq(a, b):
    return lift('eq', _eq, a, b)


# ------------------------------------------------------------------ structured values
def mkobj(cls, base, fields):
    """object of class cls whose fields are `fields`, other fields come from base (a term or UNDEF)"""
    out = {}
    for f, v in fields.items():
        if base is not UNDEF and v is fld(base, f):
            continue
        out[f] = v
    if not out and base is not UNDEF:
        return base
    return raw('obj', cls, base, tuple(sorted(out.items())))


def _fld(o, f, flag):
    if o.op == 'obj':
        for n, v in o.a[2]:
            if n == f:
                return v
        if o.a[1] is UNDEF:
            return raw('undef', f)
        return _fld(o.a[1], f, flag)
    if o.op == 'undef':
        return raw('undef', f)
    if o.op == 'alt':
        return fld(o.a[1], f, flag)
    if flag == 'i':
        return raw('fld', o, f, 'i')
    return raw('fld', o, f)


FLDKIND = {}      # field name -> 'i' / 'b', filled by the program loader


def fld(o, f, flag=None):
    flag = FLDKIND.get(f)
    r = lift(('fld', f), lambda x: _fld(x, f, flag), o)
    if flag == 'b' and r.op in ('fld',):
        r = atom(r)
    return r


def setfld(o, f, v, cls=''):
    if o.op == 'obj':
        d = dict(o.a[2])
        d[f] = v
        return mkobj(o.a[0], o.a[1], d)
    return mkobj(cls, o, {f: v})


def maproot(m):
    while m.op == 'st':
        m = m.a[0]
    return m


def haskey(m, k):
    """does the map m have an entry for k?"""
    def f(x, j):
        if x.op == 'emap':
            return FALSE
        if x.op == 'st' and maproot(x).op == 'emap' and all(e.op == 'ev' and e.a[0] in ('[]=', 'insert', 'touch') for e in x.a[1]):
            return lor(f(x.a[0], j), *[eq(e.a[1], j) for e in x.a[1]])
        return atom(raw('has', x, j))
    return lift('has', f, m, k)


def mapentries(x):
    """entries of a map built from nothing with known keys, or None"""
    if x.op == 'emap':
        return {}
    if x.op != 'st':
        return None
    d = mapentries(x.a[0])
    if d is None:
        return None
    for e in x.a[1]:
        if e.op != 'ev' or e.a[0] not in ('[]=', 'insert', 'touch') or not is_const(e.a[1]):
            return None
        if e.a[0] == '[]=' or e.a[1] not in d:
            d[e.a[1]] = e.a[2]
    return d


def entries(m):
    """entries of a map, also if two maps with the same keys are joined"""
    if m.op == 'ite':
        a = entries(m.a[1])
        b = entries(m.a[2]) if a is not None else None
        if b is None or set(a) != set(b):
            return None
        return {k: mk_ite(m.a[0], a[k], b[k]) for k in a}
    return mapentries(m)


def _order(entry):
    k = entry[0]
    return (0, k.a[0], b'') if k.op == 'num' else (1, 0, k.key)


def items(m):
    if m.op == 'ite':
        d = entries(m)
        if d is not None:
            return cat(*[elem(mkobj('pair', UNDEF, {'first': k, 'second': v})) for k, v in sorted(d.items(), key=_order)])

    def f(x):
        d = mapentries(x)
        if d is None:
            return raw('items', x)
        return cat(*[elem(mkobj('pair', UNDEF, {'first': k, 'second': v})) for k, v in sorted(d.items(), key=_order)])
    return lift('items', f, m)


def size(c):
    def f(x):
        if x.op in ('emap', 'st'):
            d = mapentries(x)
            if d is not None:
                return num(len(d))
        if x.op == 'arr':
            return num(len(x.a))
        if x.op == 'cat':
            r = ZERO
            for p in x.a:
                if p.op == 'elem':
                    r = add(r, ONE)
                elif p.op == 'all':
                    r = add(r, size(p.a[0]))
                else:
                    r = add(r, raw('size', raw('cat', p)))
            if len(x.a) == 1 and x.a[0].op == 'map' and x.a[0].a[2].op == 'cat' and len(x.a[0].a[2].a) == 1 and x.a[0].a[2].a[0].op == 'elem':
                return x.a[0].a[1]
            return r
        if x.op == 'rep':
            return x.a[0]
        if x.op == 'str':
            return num(len(x.a[0]))
        if x.op == 'undef':
            return x
        return raw('size', x)
    return lift('size', f, c)


def at(c, i):
    def f(x, j):
        if x.op == 'arr' and j.op == 'num' and 0 <= j.a[0] < len(x.a):
            return x.a[int(j.a[0])]
        if x.op == 'arr' and j.op == 'num':
            return raw('oob', x, j)
        if x.op == 'cat' and j.op == 'num' and j.a[0] >= 0:
            n = int(j.a[0])
            for p in x.a:
                if p.op != 'elem':
                    break
                if n == 0:
                    return p.a[0]
                n -= 1
        if x.op == 'cat' and len(x.a) == 1 and x.a[0].op == 'all':
            return at(x.a[0].a[0], j)
        if x.op == 'cat' and len(x.a) == 1 and x.a[0].op == 'map':
            m = x.a[0]
            b = m.a[2]
            if b.op == 'cat' and len(b.a) == 1 and b.a[0].op == 'elem':
                return subst(b.a[0].a[0], {raw('bv', m.a[0], 'i'): j})
        if x.op == 'rep':
            return x.a[1]
        if x.op == 'st':
            evs = x.a[1]
            for n in range(len(evs) - 1, -1, -1):
                e = evs[n]
                if e.op == 'ev' and e.a[0] == 'touch':      # an entry with the default value
                    continue
                if e.op == 'ev' and e.a[0] == '[]=':
                    if e.a[1] is j:
                        return e.a[2]
                    if is_const(e.a[1]) and is_const(j):
                        continue
                    c_ = eq(e.a[1], j)
                    if c_ is FALSE:
                        continue
                    if c_ is TRUE:
                        return e.a[2]
                    if maproot(x).op == 'emap':
                        return mk_ite(c_, e.a[2], at(mkst(x.a[0], evs[:n]), j))
                    return raw('at', mkst(x.a[0], evs[:n + 1]), j)
                return raw('at', mkst(x.a[0], evs[:n + 1]), j)
            return at(x.a[0], j)
        if x.op == 'undef':
            return raw('undef', 'elem')
        if x.op == 'emap':
            return x.a[0]
        return raw('at', x, j)
    return lift('at', f, c, i)


def mkst(base, evs):
    if not evs:
        return base
    # order of idempotent configuration calls does not matter; parallelism does not change results
    evs = [e for e in evs if not (e.op == 'ev' and e.a[0].endswith('::SetRunParallel'))]
    if not evs:
        return base
    if any(e.op == 'ev' and e.a[0] == 'touch' for e in evs):
        out = []
        for e in evs:
            if e.op == 'ev' and out and out[-1].op == 'ev' and out[-1].a[0] == 'touch' and e.a[0] in ('touch', '[]=') and e.a[1] is out[-1].a[1]:
                out.pop()
            out.append(e)
        evs = out
    i = 0
    while i < len(evs):
        j = i
        while j < len(evs) and evs[j].op == 'ev' and evs[j].a[0].split('::')[-1].startswith('Set'):
            j += 1
        if j - i > 1:
            last = {}
            for e in evs[i:j]:
                last[e.a[0]] = e
            evs[i:j] = [last[n] for n in sorted(last)]
            j = i + len(last)
        i = max(j, i + 1)
    return raw('st', base, tuple(evs))


def event(o, *ev):
    def f(x, *args):
        e = raw('ev', ev[0], *args)
        if x.op == 'st':
            return mkst(x.a[0], x.a[1] + (e,))
        return mkst(x, (e,))
    ts = [x for x in ev[1:]]
    return lift(('event', ev[0]), f, o, *ts)


def setat(c, i, v):
    def f(x, j):
        if x.op == 'arr' and j.op == 'num' and 0 <= j.a[0] < len(x.a):
            l = list(x.a)
            l[int(j.a[0])] = v
            return raw('arr', *l)
        if x.op == 'cat' and j.op == 'num' and all(p.op == 'elem' for p in x.a) and 0 <= j.a[0] < len(x.a):
            l = list(x.a)
            l[int(j.a[0])] = raw('elem', v)
            return raw('cat', *l)
        if v is at(x, j) and (maproot(x).op != 'emap' or haskey(x, j) is TRUE):
            return x
        return event(x, '[]=', j, v)
    return lift(('setat', v), f, c, i)


def cat(*parts):
    out = []
    for p in parts:
        if p.op == 'all' and p.a[0].op == 'cat':
            out.extend(p.a[0].a)
        elif p.op == 'all' and p.a[0].op == 'arr':
            out.extend(raw('elem', e) for e in p.a[0].a)
        elif p.op == 'cat':
            out.extend(cat(*p.a).a)
        elif p.op == 'map' and p.a[2].op == 'cat' and not p.a[2].a:
            continue
        else:
            out.append(p)
    return raw('cat', *out)


def elem(v):
    return raw('elem', v)


def append(c, *parts):
    def f(x):
        if x.op == 'cat':
            return cat(*(x.a + parts))
        if x.op == 'ph':
            return raw('cat', raw('all', x), *parts)
        return cat(raw('all', x), *parts)
    return lift(('append', parts), f, c)


# ------------------------------------------------------------------ binders
def bv(k, flag='i'):
    return raw('bv', k, flag)


_fresh = [0]


def fresh(flag='i'):
    _fresh[0] += 1
    return raw('ph', _fresh[0], flag)


def bind(op, n, body, ph, *more):
    """op over ph in [0,n) of body"""
    h = max([body.ht] + [m.ht for m in more if isinstance(m, T)])
    k = h + 1
    b = subst(body, {ph: bv(k)})
    ms = [subst(m, {ph: bv(k)}) if isinstance(m, T) else m for m in more]
    return raw(op, k, n, b, *ms)


def depends(t, ph):
    return ph in t._ph


def _pull(body, ph, f):
    """Shannon-expand boolean/conditional body on the atoms which do not depend on ph"""
    if body.op == 'ite':
        for a in sorted(atoms_of(body), key=lambda t: t.key):
            if not depends(a, ph):
                hi, lo = restrict(body, a, True), restrict(body, a, False)
                return mk_ite(atom(a), _pull(hi, ph, f), _pull(lo, ph, f))
    return f(body)


def _wrap_split(body, ph, n):
    """bodies using (i+k)%m over i<n: indices that cannot wrap lose the modulus; when exactly the
    last index wraps, returns (inner body, closing body) for [0,n-1) and i=n-1; when none wraps
    (body, None)"""
    rep, last = {}, {}
    for t in subterms(body):
        if t.op != 'mod' or ph not in t._ph:
            continue
        k = _add(t.a[0], _scale(ph, Fraction(-1)))
        c = _add(t.a[1], _scale(n, Fraction(-1)))
        if k.op != 'num' or c.op != 'num' or k.a[0] < 0 or not c.int or not k.int:
            continue
        if k.a[0] <= c.a[0]:
            rep[t] = t.a[0]
        elif k.a[0] == c.a[0] + 1:
            rep[t] = t.a[0]
            last[t] = ZERO
    if not rep:
        return None
    inner = subst(body, rep)
    if not last:
        return inner, None
    cl = subst(body, {t: (ZERO if t in last else rep[t]) for t in rep})
    return inner, subst(cl, {ph: _add(n, num(-1))})


def exists(n, body, ph):
    body = tobool(body)

    def f(b):
        if b is FALSE:
            return FALSE
        if b is TRUE:
            return lt(ZERO, n)
        w = _wrap_split(b, ph, n)
        if w:
            if w[1] is None:
                return exists(n, w[0], ph)
            return lor(exists(_add(n, num(-1)), w[0], ph), w[1])
        if n.op == 'num' and 0 <= n.a[0] <= 8:
            return lor(*[subst(b, {ph: num(i)}) for i in range(int(n.a[0]))])
        return atom(bind('exists', n, b, ph))
    return _pull(body, ph, f)


def forall(n, body, ph):
    return lnot(exists(n, lnot(body), ph))


def tsum(n, body, ph):
    def f(b):
        if b.op == 'ite':
            return bind('sum', n, b, ph)
        w = _wrap_split(b, ph, n)
        if w:
            if w[1] is None:
                return tsum(n, w[0], ph)
            return add(tsum(_add(n, num(-1)), w[0], ph), w[1])
        r = ZERO
        rest = {}
        for m, c in topoly(_b2n(b)).items():
            dep = tuple((x, e) for x, e in m if depends(x, ph))
            ind = tuple((x, e) for x, e in m if not depends(x, ph))
            if not dep:
                r = add(r, mul(n, frompoly({m: c})))
            else:
                rest.setdefault(ind, {})[dep] = c
        for ind, p in rest.items():
            # one sum per monomial: sums distribute
            for dep, c in p.items():
                r = add(r, mul(frompoly({ind: c}), bind('sum', n, frompoly({dep: Fraction(1)}), ph)))
        return r
    return _pull(body, ph, f)


def over(op, n, body, ph):
    if not depends(body, ph):
        return body
    if body.op != 'ite':
        w = _wrap_split(body, ph, n)
        if w and w[1] is None:
            return over(op, n, w[0], ph)
        if w:
            f = tmin if op == 'minover' else tmax
            return f(over(op, _add(n, num(-1)), w[0], ph), w[1])
    return bind(op, n, body, ph)


def mapcat(n, body, ph):
    """cat part: concatenation of body(i) (a cat term or decision over cats) for i<n"""
    if body.op == 'cat' and not body.a:
        return None
    if body.op == 'cat' and len(body.a) == 1 and body.a[0].op == 'elem':
        v = body.a[0].a[0]
        if v.op == 'at' and v.a[1] is ph and not depends(v.a[0], ph) and n is size(v.a[0]):
            return raw('all', v.a[0])
        w = _wrap_split(v, ph, n)
        if w and w[1] is None:
            return mapcat(n, cat(elem(w[0])), ph)
        if w:
            return cat(bind('map', _add(n, num(-1)), cat(elem(w[0])), ph), elem(w[1]))
    return bind('map', n, body, ph)


# ------------------------------------------------------------------ traversal
def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(_iter_terms(x.a))


def occurs(t, s):
    return any(x is s for x in subterms(t))


def find(t, pred):
    return [x for x in subterms(t) if pred(x)]


_sub_memo_limit = 200000


def subst(t, m):
    if not m:
        return t
    memo = {}
    phs = {k for k in m if k.op == 'ph'}
    bvs = {k.a[0] if k.op == 'bv' else k.a[1] for k in m if k.op in ('bv', 'acc')}
    only = all(k.op in ('ph', 'bv', 'acc') for k in m)

    def go(x):
        if x in m:
            return m[x]
        if only and not (phs and phs & x._ph) and not (bvs and bvs & x.fb):
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go, vfb)
            memo[x] = r
        return r
    vfb = frozenset().union(*[v.fb for v in m.values()])
    return go(t)


def _mapargs(a, go):
    return tuple(go(x) if isinstance(x, T) else (_mapargs(x, go) if isinstance(x, tuple) else x) for x in a)


def rebuild(x, go, vfb=None):
    op, a = x.op, x.a
    if not a or op in ('num', 'sym', 'str', 'enum', 'bv', 'ph', 'undef', 'clo', 'lv'):
        return x
    if op == 'poly':
        r = ZERO
        for m, c in a[0]:
            t = raw('num', c)
            for y, e in m:
                t = mul(t, powi(go(y), e))
            r = add(r, t)
        return r
    if op == 'ite':
        return mk_ite(tobool(go(a[0])), go(a[1]), go(a[2]))
    b = _mapargs(a, go)
    if b == a:
        return x
    if op == 'lt0':
        return lt(b[0], ZERO)
    if op == 'eq0':
        return eq(b[0], ZERO) if b[0].op in ('poly', 'num') else eq(b[0], ZERO)
    if op == 'eq':
        return eq(b[0], b[1])
    if op == 'grp':
        return b[0] if b[0].op != 'poly' or len(b[0].a[0]) < 8 else raw('grp', b[0])
    if op == 'cnt':
        return raw('cnt', b[0]) if b[0].op == 'ite' else b[0]
    if op == 'inv':
        return inv(b[0])
    if op == 'sqrt':
        return sqrt(b[0])
    if op == 'abs':
        return absv(b[0])
    if op == 'min':
        return tmin(*b)
    if op == 'max':
        return tmax(*b)
    if op == 'fld':
        return fld(b[0], b[1])
    if op == 'at':
        return at(b[0], b[1])
    if op == 'size':
        return size(b[0])
    if op == 'mod':
        return mod(b[0], b[1])
    if op == 'idiv':
        return div(b[0], b[1], True)
    if op == 'obj':
        return mkobj(b[0], b[1], dict(b[2]))
    if op == 'cat':
        return cat(*b)
    if op == 'all' and b[0].op == 'ite':
        return raw('all', b[0])
    if op == 'holds':
        return holds(*b)
    if op == 'has':
        return haskey(*b)
    if op == 'items':
        return items(*b)
    if op == 'call' or op == 'fn':
        return call(op, b)
    if op in BINDERS:
        # rebinding: the body may have changed height; renumber
        k, n = b[0], b[1]
        if vfb is not None and k not in vfb and op in ('fold', 'evloop', 'first', 'lastof', 'until') and k == 1 + max([y.ht for j, y in enumerate(b[2:]) if isinstance(y, T) and not (op == 'fold' and j == 2)] + [0]):
            return raw(op, *b)      # same height, nothing captured
        ph = fresh()
        old = bv(k)
        rest = [subst(y, {old: ph}) if isinstance(y, T) else y for y in b[2:]]
        oth = None
        if op in ('argmin', 'argmax'):
            oth = fresh()
            rest = [subst(y, {raw('other', k): oth}) if isinstance(y, T) else y for y in rest]
        if op == 'sum':
            return tsum(n, rest[0], ph)
        if op == 'exists':
            return exists(n, rest[0], ph)
        if op in ('minover', 'maxover'):
            return over(op, n, rest[0], ph)
        if op == 'map':
            r = mapcat(n, rest[0], ph)
            return r if r is not None else raw('cat')
        back = {ph: bv(0)}
        if op == 'fold':
            accs = [(fresh(), i) for i in range(len(rest[1].a))]
            m = {raw('acc', i, k): q for q, i in accs}
            rest = [subst(y, m) if j != 2 and isinstance(y, T) else y for j, y in enumerate(rest)]
        h = max([y.ht for j, y in enumerate(rest) if isinstance(y, T) and not (op == 'fold' and j == 2)] + [0]) + 1
        back[ph] = bv(h)
        if oth is not None:
            back[oth] = raw('other', h)
        if op == 'fold':
            back.update({q: raw('acc', i, h) for q, i in accs})
        return raw(op, h, n, *[subst(y, back) if isinstance(y, T) else y for y in rest])
    return raw(op, *b)


def holds(v, ty, alts=()):
    """does the variant v hold an object of type ty?  alts: the alternatives of its type"""
    if v.op == 'alt':
        return TRUE if v.a[0] == ty else FALSE
    if v.op == 'ite':
        return mk_ite(atom(v.a[0]), holds(v.a[1], ty, alts), holds(v.a[2], ty, alts))
    return atom(raw('holds', v, ty, tuple(alts)))


def alt(ty, v):
    return raw('alt', ty, v)


CALLNUM = {}


def call(op, args):
    """opaque application: args[0] is the name; distributes over decision diagrams"""
    ts = [x for x in args if isinstance(x, T)]
    if any(x.op == 'ite' for x in ts):
        ws = sum(len(atoms_of(x)) for x in ts)
        if ws <= 12:
            idx = [i for i, x in enumerate(args) if isinstance(x, T)]

            def f(*xs):
                l = list(args)
                for i, x in zip(idx, xs):
                    l[i] = x
                return raw(op, *l)
            # plain boolean arguments stay arguments
            if all(x.op != 'ite' or not _isboolbdd(x) for x in ts):
                return lift((op, tuple(x if not isinstance(x, T) else None for x in args)), f, *ts)
    return raw(op, *args)


def _isboolbdd(t):
    if t in (TRUE, FALSE):
        return True
    return t.op == 'ite' and _isboolbdd(t.a[1]) and _isboolbdd(t.a[2])


# ------------------------------------------------------------------ printing
_budget = [0]


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d == 0:
        _budget[0] = 4000
    _budget[0] -= 1
    if d > 60 or _budget[0] < 0:
        return '...'
    op, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if op == 'num':
        return str(a[0])
    if op == 'sym':
        return a[0]
    if op == 'poly':
        out = []
        for m, c in a[0]:
            f = '*'.join(s(x) + ('' if e == 1 else '^%d' % e) for x, e in m)
            out.append(f if c == 1 and f else (('-' + f) if c == -1 and f else (str(c) + ('*' + f if f else ''))))
        return '(' + ' + '.join(out) + ')'
    if op == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return '[%s]' % s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return '![%s]' % s(a[0])
        return '(%s ? %s : %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'lt0':
        return '%s<0' % s(a[0])
    if op == 'eq0':
        return '%s==0' % s(a[0])
    if op == 'fld':
        return '%s.%s' % (s(a[0]), a[1])
    if op == 'at':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'bv':
        return 'b%d' % a[0]
    if op == 'ph':
        return '?%d' % a[0]
    if op == 'obj':
        return '%s{%s%s}' % (a[0].split('::')[-1], '' if a[1] is UNDEF else s(a[1]) + ' with ', ', '.join('%s=%s' % (f, s(v)) for f, v in a[2]))
    if op in ('call', 'fn'):
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:] if x != 'i'))
    if op == 'st':
        return '%s{{%s}}' % (s(a[0]), '; '.join(s(x) for x in a[1]))
    return '%s(%s)' % (op, ', '.join(s(x) if isinstance(x, T) else str(x) for x in a))
