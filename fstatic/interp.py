"""Equality of terms: structural first, then by random interpretation.

Random interpretation (Gulwani & Necula, POPL 2003/2004) maps both terms to values under a
number of random assignments of their *leaves* (every field, call, parameter is an
uninterpreted leaf, hashed consistently).  Terms of the decidable fragment that agree under
all assignments are value-numbered together.  No code of the analysed repository runs.
"""
import hashlib
import re
import math
from .terms import subterms, T, TRUE, FALSE, BINDERS, rebuild, raw, lt, neg, leadcoef, _scale, lnot, num
from fractions import Fraction

# results of loop summaries / machinery that has no interpretation
WEAK = {'until', 'evloop', 'fold', 'lastof', 'lv', 'clo', 'undef', 'opaque', 'first', 'ph', 'iter', 'generic', 'widen'}


MATHFN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'atan': math.atan, 'acos': math.acos, 'asin': math.asin, 'exp': math.exp,
          'floor': math.floor, 'ceil': math.ceil, 'atan2': math.atan2}


class Unint(Exception):
    pass


def _h(*xs):
    return int.from_bytes(hashlib.md5(repr(xs).encode()).digest()[:8], 'big')


class Interp:
    def __init__(self, seed, mode, pool=None):
        self.seed, self.mode = seed, mode
        self.pool = pool or {}
        self.memo = {}
        self.near = False
        self.hits = set()       # constructs without interpretation met so far
        self.over = {}          # leaves which are given the value of another term
        self.last = None
        self.reg = set()
        for t in self.pool:
            self.register(t)

    def register(self, t):
        """the value compared with constants is one of them in most interpretations"""
        if t in self.reg:
            return
        self.reg.add(t)
        for x in self.below(t):
            self.register(x)
        c = self.pool[t]
        i = _h(self.seed, 'pool', t.key) % (len(c) * 2 + 1 if len(c) < 3 else len(c) + 1)
        if i >= len(c):
            return
        for x in self.below(c[i]):
            self.register(x)
        try:
            v = self.ev(c[i])
            self.last = None
            r = self._ev(t, ())
            if self.last is not None and self.last[1] is r:
                self.over[self.last[0]] = v
        except Unint:
            pass

    _below = {}

    def below(self, t):
        """leaves with a choice of values in t"""
        from .terms import subterms
        k = (t, id(self.pool))
        r = Interp._below.get(k)
        if r is None or r[0] is not self.pool:
            r = Interp._below[k] = (self.pool, [x for x in subterms(t) if x in self.pool])
        return r[1]

    def leaf(self, key, flag=None):
        if self.over and key in self.over:
            return self.over[key]
        v = self.leafvalue(key, flag)
        self.last = (key, v)
        return v

    def leafvalue(self, key, flag=None):
        r = _h(self.seed, key)
        if flag == 'n':
            return r % 5
        if flag == 'i':
            return r % 6
        if flag == 'b':
            return bool(r & 1)
        if self.mode == 2 and r & 6 and isinstance(key, tuple) and (key[0] in COINCIDE or key[0] == 'call' and str(key[1][0]).split('::')[-1] in PARTS):
            return (0.75, -0.625)[(r >> 8) & 1]         # values coincide
        u = ((r >> 8) % 2000003) / 1000001.5 - 1.0
        if isinstance(key, tuple) and (key[0] == 'sym' and isinstance(key[1], str) and (key[1].endswith('+') or key[1] in POSITIVE) or
                                       key[0] == 'call' and isinstance(key[1][0], str) and (key[1][0].startswith('Precision::') or key[1][0].endswith('::defaultEpsilon'))):
            u = abs(u)                                  # tolerances and sizes are positive
        s = (1.0, 1.0, 1e-2, 30.0)[(r >> 3) % 4] if self.mode == 0 else (1e-3, 1e-1, 1.0, 10.0)[(r >> 3) % 4]
        return u * s + math.copysign(0.01 * s, u)

    def ev(self, t, env=()):
        if not t.fb:
            k = t
        else:
            k = (t, tuple(e for e in env if (e[0][1] if isinstance(e[0], tuple) else abs(e[0])) in t.fb))
        r = self.memo.get(k)
        if r is None:
            r = self._ev(t, env)
            self.memo[k] = r
        return r

    def mapevents(self, d, evs, env):
        """apply the insertions evs to the map d"""
        for e in evs:
            if e.op == 'ev' and e.a[0] in ('[]=', 'insert', 'touch'):
                k = self.key(self.ev(e.a[1], env))
                if e.a[0] == '[]=' or k not in d:
                    d[k] = self.ev(e.a[2], env)
            elif e.op == 'evloop':
                n = int(max(0, self.num(e.a[1], env)))
                for i in range(n):
                    if not self.mapblock(d, e.a[2], env + ((e.a[0], i),)):
                        return False
            else:
                return False
        return True

    def listevents(self, l, evs, env):
        """apply the modifications evs to the list l"""
        for e in evs:
            if e.op == 'ev' and e.a[0] == 'erase' and len(e.a) == 2:
                i = self.ev(e.a[1], env)
                if not isinstance(i, int) or not 0 <= i < len(l):
                    return None
                l = l[:i] + l[i + 1:]
            elif e.op == 'ev' and e.a[0] == 'insert' and len(e.a) == 3:
                i = self.ev(e.a[1], env)
                if not isinstance(i, int) or not 0 <= i <= len(l):
                    return None
                l = l[:i] + [self.ev(e.a[2], env)] + l[i:]
            elif e.op == 'ev' and e.a[0] == '[]=':
                i = self.ev(e.a[1], env)
                if not isinstance(i, int) or not 0 <= i < len(l):
                    return None
                l[i] = self.ev(e.a[2], env)
            elif e.op == 'ev' and e.a[0] == 'Add' and len(e.a) == 2:
                # indexed maps hold every key once
                k = self.key(self.ev(e.a[1], env))
                if k not in l:
                    l = l + [k]
            elif e.op == 'evloop':
                n = int(max(0, self.num(e.a[1], env)))
                for i in range(n):
                    b = e.a[2]
                    v = env + ((e.a[0], i),)
                    while b.op == 'ite':
                        b = b.a[1] if self.boolatom(b.a[0], v) else b.a[2]
                    if b.op != 'evs':
                        return None
                    l = self.listevents(l, b.a, v)
                    if l is None:
                        return None
            else:
                return None
        return l

    def words(self, v):
        if isinstance(v, tuple) and v and v[0] == 'str':
            return [v[1][0]]
        if isinstance(v, tuple) and v and v[0] == 'strcat':
            return [w for x in v[1:] for w in self.words(x)]
        if isinstance(v, tuple) and v and v[0] == 'text':
            return list(v[2:])
        return [('val', self.key(v))]

    def text(self, evs, env):
        """what is written to a stream"""
        out = []
        for e in evs:
            if e.op == 'ev' and e.a[0] == '<<' and len(e.a) == 2:
                out += self.words(self.ev(e.a[1], env))
            elif e.op == 'ev' and e.a[0].endswith(('::close', '::flush')):
                pass
            elif e.op == 'evloop':
                n = int(max(0, self.num(e.a[1], env)))
                for i in range(n):
                    b = e.a[2]
                    v = env + ((e.a[0], i),)
                    while b.op == 'ite':
                        b = b.a[1] if self.boolatom(b.a[0], v) else b.a[2]
                    w = self.text(b.a, v) if b.op == 'evs' else None
                    if w is None:
                        return None
                    out += w
            else:
                return None
        return out

    def written(self, words):
        """the text without comments and white space"""
        out = []
        for w in words:
            if isinstance(w, str) and out and isinstance(out[-1], str):
                out[-1] += w
            else:
                out.append(w)
        return [w if not isinstance(w, str) else re.sub(r'\s', '', re.sub(r'//[^\n]*\n', '', w)) for w in out]

    KINDS = ('COMPOUND', 'COMPSOLID', 'SOLID', 'SHELL', 'FACE', 'WIRE', 'EDGE', 'VERTEX')

    def explore(self, s, kind):
        """the parts of a shape: a short list, possibly with parts of other shapes and repetitions"""
        if kind not in self.KINDS:
            return None
        if isinstance(s, tuple) and s and s[0] == 'shape':
            d = self.KINDS.index(kind) - self.KINDS.index(s[1])
            if d <= 0:
                return ('list', s) if not d else ('list',)
        h = _h(self.seed, 'explore', s, kind)
        return ('list',) + tuple(self.shape(kind, h, i) for i in range((0, 1, 1, 2, 2, 3)[h % 6]))

    def shape(self, kind, h, i):
        """faces and edges occur with both orientations"""
        s = ('shape', kind, (h >> (8 + 4 * i)) % 6)
        return s + ((h >> (40 + i)) & 1,) if kind in ('FACE', 'EDGE') else s

    def sub(self):
        import copy
        s = copy.copy(self)
        s.memo = {}
        return s

    def less(self, c, x, y, env):
        """the comparison c of the elements x and y"""
        s = self.sub()
        s.over = dict(self.over)
        s.over[('sym', '#x')], s.over[('sym', '#y')] = x, y
        r = s.bool(c, env)
        self.near |= s.near
        return r

    def other(self, c, h, i, j, env):
        s = self.sub()
        r = s.bool(c, tuple(e for e in env if e[0] != ('other', h)) + ((h, i), (('other', h), j)))
        self.near |= s.near
        return r

    def mapblock(self, d, b, env):
        if b.op == 'ite':
            return self.mapblock(d, b.a[1] if self.boolatom(b.a[0], env) else b.a[2], env)
        return b.op == 'evs' and self.mapevents(d, b.a, env)

    def flagof(self, t):
        return 'i' if t.int else None

    def boolatom(self, t, env):
        op, a = t.op, t.a
        if op == 'lt0':
            v = self.num(a[0], env)
            sc = self.scale(a[0], env)
            if abs(v) <= 1e-11 * max(sc, 1e-9) and not a[0].int:
                self.near = True
            return v < (-1e-9 * 0 if a[0].int else 0)
        if op == 'eq0':
            v = self.num(a[0], env)
            return abs(v) <= 1e-10 * max(self.scale(a[0], env), 1e-12)
        if op == 'eq':
            return self.same(self.ev(a[0], env), self.ev(a[1], env))
        if op == 'holds':
            if len(a) > 2 and a[1] in a[2]:
                return a[2][_h(self.seed, 'alt', self.key(self.ev(a[0], env))) % len(a[2])] == a[1]
            return self.leaf(('holds', self.key(self.ev(a[0], env)), a[1]), 'b')
        if op == 'exists':
            n = self.num(a[1], env)
            for i in range(int(max(0, n))):
                if self.bool(a[2], env + ((a[0], i),)):
                    return True
            return False
        if op == 'call' and a[0].endswith('::IsDone'):
            return _h(self.seed, 'done', self.key(self.ev(a[1], env)) if len(a) == 2 else self.key(self.ev(t, env))) % 8 != 0
        v = self.ev(t, env)
        if isinstance(v, bool):
            return v
        return self.leaf(('truth', self.key(v)), 'b')

    def bool(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return v != 0
        return self.leaf(('truth', self.key(v)), 'b')

    def num(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        return self.leaf(('num', self.key(v)))

    def scale(self, t, env):
        if t.op == 'poly':
            s = 0.0
            for m, c in t.a[0]:
                x = abs(float(c))
                for y, e in m:
                    x *= abs(self.pw(self.num(y, env), e))
                s += x
            return s
        return abs(self.num(t, env))

    def pw(self, b, e):
        if e < 0 and self.mode == 2 and abs(b) < 1e-5:
            self.near = True        # degenerate by coincidence
        if e < 0 and b == 0:
            b = 1e-30
        try:
            return float(b) ** e if not isinstance(b, int) or e < 0 else b ** e
        except OverflowError:
            return 1e300

    def key(self, v):
        if isinstance(v, float):
            return float('%.7g' % v) if v == v else 'nan'
        if isinstance(v, tuple):
            if len(v) == 4 and v[0] == 'shape':
                return v[:3]
            return tuple(self.key(x) for x in v)
        return v

    def same(self, a, b):
        return same(a, b)

    def _ev(self, t, env):
        op, a = t.op, t.a
        if op == 'num':
            return int(a[0]) if a[0].denominator == 1 else float(a[0])
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if op == 'sym':
            if a[0] == 'pi':
                return math.pi
            if a[0] in ('inf', 'maxdouble', 'infinity'):
                return 1e300
            if a[0] == 'confusion':
                return 1e-4
            if a[0].startswith('empty:'):
                return ('list',)
            return self.leaf(('sym', a[0]), self.flagof(t))
        if op == 'poly':
            s = 0
            for m, c in a[0]:
                x = int(c) if c.denominator == 1 else float(c)
                for y, e in m:
                    x = x * self.pw(self.num(y, env), e)
                s += x
            return s
        if op == 'ite':
            return self.ev(a[1] if self.boolatom(a[0], env) else a[2], env)
        if op in ('lt0', 'eq0', 'eq', 'holds', 'exists'):
            return self.boolatom(t, env)
        if op == 'inv':
            return self.pw(self.num(a[0], env), -1)
        if op in ('grp', 'cnt'):
            return self.ev(a[0], env)
        if op == 'sqrt':
            return math.sqrt(abs(self.num(a[0], env)))
        if op == 'abs':
            return abs(self.num(a[0], env))
        if op == 'min':
            return min(self.num(x, env) for x in a)
        if op == 'max':
            return max(self.num(x, env) for x in a)
        if op == 'bv':
            for k, v in env:
                if k == a[0]:
                    return v
            raise Unint('unbound %s %s' % (t, env))
        if op == 'acc':
            for k, v in env:
                if k == -a[1]:
                    return v[a[0]]
            raise Unint('unbound %s %s' % (t, env))
        if op == 'fold' and len(a) == 7 and a[6] in ('', 'stops', 'break') and a[1].op not in ('whiletrue', 'whilecond', 'while'):
            n = int(max(0, self.num(a[1], env)))
            if n <= (400 if a[6] else 12):
                acc = tuple(self.ev(x, env) for x in a[4].a)
                for i in range(n):
                    e = env + ((a[0], i), (-a[0], acc))
                    if a[5] is not FALSE and self.bool(a[5], e):
                        return self.bool(a[2], e) if a[6] == 'stops' else self.ev(a[2], e)
                    if i == n - 1 and (a[6] == 'break' or a[2] not in a[3].a and not a[6]):
                        return self.ev(a[2], e)
                    acc = tuple(self.ev(x, e) for x in a[3].a)
                if a[6]:
                    return acc[0] if a[6] == 'break' else False
                if a[2] in a[3].a:
                    return acc[a[3].a.index(a[2])]
                return ('none',)
        if op == 'fold' and len(a) == 7 and a[1].op == 'whilecond' and (a[6] == 'stops' or a[6] == '' and a[2] in a[3].a):
            acc = tuple(self.ev(x, env) for x in a[4].a)
            for i in range(60):
                e = env + ((a[0], i), (-a[0], acc))
                go = self.bool(a[5], e)
                if not go and not a[1].a:
                    break
                if a[6] and self.bool(a[2], e):
                    return True
                acc = tuple(self.ev(x, e) for x in a[3].a)
                if not go:
                    break
            else:
                go = None
            if go is False:
                return False if a[6] else acc[a[3].a.index(a[2])]
        if op in ('first', 'lastof'):
            n = int(max(0, self.num(a[1], env)))
            if n <= 12 and op == 'first':
                for i in range(n):
                    e = env + ((a[0], i),)
                    if self.bool(a[2], e):
                        return self.ev(a[3], e)
                return ('none',)
        if op == 'emap':
            return ('map', self.ev(a[0], env))
        if op == 'st':
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and v and v[0] == 'map':
                d = dict(v[2:])
                if self.mapevents(d, a[1], env):
                    return v[:2] + tuple(sorted(d.items(), key=lambda e: repr(e[0])))
            if isinstance(v, tuple) and v and v[0] == 'list':
                l = self.listevents(list(v[1:]), a[1], env)
                if l is not None:
                    return ('list',) + tuple(l)
            if any(x.op == 'ev' and x.a[0] == '<<' for x in subterms(t)):
                l = self.text(a[1], env)
                if l is not None:
                    return ('text', v) + tuple(self.written((list(v[2:]) if isinstance(v, tuple) and v and v[0] == 'text' else []) + l))
        if op == 'strcat':
            return (op,) + tuple(self.ev(x, env) for x in a)
        if op == 'out' and a[0] == 0 and a[1].op == 'call' and a[1].a[0] in ('TopoDS_Builder::MakeCompound', 'TopoDS_Builder::Add'):
            # the order of parts of different kinds does not matter
            if a[1].a[0].endswith('MakeCompound'):
                return ('compound',)
            v, x = self.ev(a[1].a[2], env), self.key(self.ev(a[1].a[3], env))
            if isinstance(v, tuple) and v and v[0] == 'compound' and isinstance(x, tuple) and x and x[0] == 'shape':
                return ('compound',) + tuple(sorted(v[1:] + (x,), key=lambda y: y[1]))
        if op in ('argmin', 'argmax'):
            n = int(max(0, self.num(a[1], env)))
            r = 0
            cmp = any(x.op == 'other' and x.a[0] == a[0] for x in subterms(a[2]))
            best = None if cmp or not n else self.num(a[2], env + ((a[0], 0),))
            for i in range(1, n):
                if cmp:
                    # comp(element, smallest so far), comp(largest so far, element)
                    u, w = (i, r) if op == 'argmin' else (r, i)
                    if self.other(a[2], a[0], u, w, env):
                        r = i
                else:
                    v = self.num(a[2], env + ((a[0], i),))
                    if v < best if op == 'argmin' else v > best:
                        r, best = i, v
            return r if n else self.leaf(('empty', op))
        if op == 'other':
            for k, v in env:
                if k == ('other', a[0]):
                    return v
            raise Unint('unbound %s' % t)
        if op in ('sorted', 'reversed'):
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and v and v[0] == 'list' and len(v) < 14:
                if op == 'reversed':
                    return ('list',) + v[:0:-1]
                if len(a) == 1 and all(isinstance(x, (int, float)) for x in v[1:]):
                    return ('list',) + tuple(sorted(v[1:]))
                if len(a) == 2:
                    import functools
                    return ('list',) + tuple(sorted(v[1:], key=functools.cmp_to_key(lambda x, y: -1 if self.less(a[1], x, y, env) else 1 if self.less(a[1], y, x, env) else 0)))
        if op == 'rep':
            n = int(max(0, self.num(a[0], env)))
            if n <= 12:
                return ('list',) + (self.ev(a[1], env),) * n
        if op == 'resize':
            v, n = self.ev(a[0], env), int(max(0, self.num(a[1], env)))
            if isinstance(v, tuple) and v and v[0] == 'list' and n <= 12:
                return v[:n + 1] + (self.ev(a[2], env),) * (n + 1 - len(v))
        if op == 'has':
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and v and v[0] == 'map':
                return self.key(self.ev(a[1], env)) in dict(v[2:])
        if op == 'items':
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and v and v[0] == 'map':
                return ('list',) + tuple(('obj', 'pair', (), ('first', k), ('second', w)) for k, w in v[2:])
        if op == 'size':
            v = self.ev(a[0], env)
            if isinstance(v, tuple) and v and v[0] == 'map':
                return len(v) - 2
            if isinstance(v, tuple) and v and v[0] == 'list':
                return len(v) - 1
            return self.leaf(('size', self.key(v)), 'n')
        if op == 'at':
            v = self.ev(a[0], env)
            i = self.ev(a[1], env)
            if isinstance(v, tuple) and v and v[0] == 'map':
                i = self.key(i)
                d = dict(v[2:])
                return d[i] if i in d else v[1]
            if isinstance(v, tuple) and v and v[0] == 'list' and isinstance(i, int) and 0 <= i < len(v) - 1:
                return v[1 + i]
            return self.leaf(('at', self.key(v), self.key(i)), self.flagof(t))
        if op == 'fld':
            v = self.ev(a[0], env)
            while isinstance(v, tuple) and v and v[0] == 'obj':
                d = dict(v[3:])
                if a[1] in d:
                    return d[a[1]]
                if v[2] == ():
                    break
                v = v[2]
            return self.leaf(('fld', self.key(v), a[1]), self.flagof(t))
        if op == 'mod':
            m = self.num(a[1], env)
            return self.num(a[0], env) % m if m else 0
        if op == 'idiv':
            m = self.num(a[1], env)
            return self.num(a[0], env) // m if m else 0
        if op == 'flt':
            return float('%.3g' % self.num(a[0], env))
        if op == 'trunc':
            return int(self.num(a[0], env))
        if op in ('sum', 'minover', 'maxover'):
            n = int(max(0, self.num(a[1], env)))
            vs = [self.num(a[2], env + ((a[0], i),)) for i in range(n)]
            if op == 'sum':
                return sum(vs)
            if not vs:
                return 1e300 if op == 'minover' else -1e300
            return min(vs) if op == 'minover' else max(vs)
        if op == 'cat':
            out = ['list']
            for p in a:
                if p.op == 'cat':
                    out.extend(self.ev(p, env)[1:])
                elif p.op == 'elem':
                    out.append(self.ev(p.a[0], env))
                elif p.op == 'all':
                    v = self.ev(p.a[0], env)
                    if isinstance(v, tuple) and v and v[0] == 'list':
                        out.extend(v[1:])
                    else:
                        n = self.leaf(('size', self.key(v)), 'n')
                        out.extend(self.leaf(('at', self.key(v), i)) for i in range(n))
                elif p.op == 'map':
                    n = int(max(0, self.num(p.a[1], env)))
                    for i in range(n):
                        v = self.ev(p.a[2], env + ((p.a[0], i),))
                        if not (isinstance(v, tuple) and v and v[0] == 'list'):
                            raise Unint('map')
                        out.extend(v[1:])
                else:
                    raise Unint(p.op)
            return tuple(out)
        if op == 'obj':
            b = () if a[1].op == 'undef' else self.ev(a[1], env)
            fs = tuple((f, self.ev(v, env)) for f, v in a[2])
            if isinstance(b, tuple) and b and b[0] == 'obj':
                d = dict(b[3:])
                d.update(fs)
                return ('obj', a[0].split('<')[0] or b[1], b[2]) + tuple(sorted(d.items()))
            return ('obj', a[0].split('<')[0], b) + fs
        if op == 'arr':
            return ('list',) + tuple(self.ev(x, env) for x in a)
        if op == 'fn' and a[0] in MATHFN:
            try:
                return MATHFN[a[0]](*[self.num(x, env) for x in a[1:]])
            except (ValueError, OverflowError):
                pass
        if op in WEAK or op in BINDERS:
            if op != 'undef' or (a and a[0] in ('cell', 'elem')):
                self.hits.add(op)
            return self.leaf(('opaque', t.key))
        if op == 'call' and len(a) == 2 and a[0].endswith(('::length', '::squaredLength')):
            # the square of the one is the other
            r = abs(self.leaf(('call', (a[0].rpartition('::')[0] + '::length', self.key(self.ev(a[1], env)))))) + 1e-9
            return r if a[0].endswith('::length') else r * r
        if op == 'call' and a[0] == 'Law::bag':
            v = self.ev(a[1], env)
            if isinstance(v, tuple) and v and v[0] == 'list':
                return ('bag',) + tuple(sorted(v[1:], key=lambda x: repr(self.key(x))))
        if op == 'call' and a[0] in ('Law::sets', 'Law::groups'):
            v = self.ev(a[1], env)
            if isinstance(v, tuple) and v and v[0] == 'map':
                l = tuple((k, ('bag',) + tuple(sorted(w[1:], key=lambda x: repr(self.key(x)))) if isinstance(w, tuple) and w and w[0] == 'list' else w) for k, w in v[2:])
                if a[0] == 'Law::groups':
                    return ('groups', tuple(sorted((k for k, w in l), key=repr)), tuple(sorted((w for k, w in l), key=repr)))
                return v[:2] + l
        if op == 'explore' and len(a) > 1 and a[1].op == 'enum':
            r = self.explore(self.key(self.ev(a[0], env)), a[1].a[0].replace('TopAbs_', ''))
            if r is not None:
                return r
        if op == 'call' and a[0] == 'TopoDS_Shape::IsSame':
            u, v = self.key(self.ev(a[1], env)), self.key(self.ev(a[2], env))
            if u == v:
                return True
            if all(isinstance(x, tuple) and x and x[0] == 'shape' for x in (u, v)):
                return False
            return self.leaf(('IsSame',) + tuple(sorted((repr(u), repr(v)))), 'b')
        if op == 'call' and a[0] == 'TopoDS_Shape::IsEqual':
            u, v = self.ev(a[1], env), self.ev(a[2], env)
            return u == v if self.key(u) == self.key(v) else False
        if op == 'call' and a[0] == 'TopoDS_Shape::Orientation':
            v = self.ev(a[1], env)
            if isinstance(v, tuple) and len(v) == 4 and v[0] == 'shape' and _h(self.seed, 'orient', v[:3]) % 6:
                return v[3]
            return _h(self.seed, 'orient', self.key(v)) % 4
        if op == 'call' and a[0].startswith('BRepBuilderAPI_Make') and a[0].endswith('::Error') and len(a) == 2:
            r = _h(self.seed, 'done', self.key(self.ev(a[1], env)))
            return 0 if r % 8 else 1 + (r >> 8) % 5
        if op == 'call' and a[0] == 'TopoDS_Shape::ShapeType':
            v = self.ev(a[1], env)
            if isinstance(v, tuple) and v and v[0] == 'shape':
                return self.KINDS.index(v[1])
            return _h(self.seed, 'kind', self.key(v)) % 8
        if op == 'enum' and a[0].startswith('TopAbs_'):
            k = a[0][7:]
            return self.KINDS.index(k) if k in self.KINDS else ('FORWARD', 'REVERSED', 'INTERNAL', 'EXTERNAL').index(k) if k in ('FORWARD', 'REVERSED', 'INTERNAL', 'EXTERNAL') else 8
        if op == 'call' and a[0] == 'TopoDS_Shape::IsPartner':
            u, v = self.key(self.ev(a[1], env)), self.key(self.ev(a[2], env))
            return True if u == v else _h(self.seed, 'partner', *sorted((repr(u), repr(v)))) % 3 == 0
        if op == 'call' and a[0].endswith('::Oriented'):
            return self.ev(a[1], env)
        if op == 'call' and a[0] in ('FindIndex', 'IndexedMap::Add'):
            v, k = self.ev(a[1], env), self.key(self.ev(a[2], env))
            if isinstance(v, tuple) and v and v[0] == 'list':
                l = [self.key(x) for x in v[1:]]
                return l.index(k) + 1 if k in l else 0 if a[0] == 'FindIndex' else len(l) + 1
        if op == 'call' and a[0].endswith('OCCUtilities::getOverlapEdges'):
            h = _h(self.seed, 'overlap', *sorted(repr(self.key(self.ev(x, env))) for x in a[1:3]))
            return ('list',) + tuple(self.shape('EDGE', h, i) for i in range((0, 0, 1, 1, 2, 3)[h % 6]))
        if op == 'call' and a[0].endswith(('::Generated', '::Modified')):
            # the parts of a shape: a short list, possibly shared with other shapes of the same operation
            alg, x = self.key(self.ev(a[1], env)), self.key(self.ev(a[2], env))
            h = _h(self.seed, a[0], alg, x)
            return ('list',) + tuple(self.leaf(('part', alg, (h >> (8 + 4 * i)) % 5)) for i in range((0, 0, 1, 2, 3)[h % 5]))
        if op == 'call' and a[0].endswith('OCCUtilities::fuse') and len(a) > 1:
            # the union does not depend on the order of its operands
            v = self.key(self.ev(a[1], env))
            v = tuple(sorted(map(repr, v))) if isinstance(v, tuple) else v
            return self.leaf(('fuse', v, tuple(self.key(self.ev(x, env)) for x in a[2:])))
        # uninterpreted
        ks = []

        def go(x):
            if isinstance(x, T):
                if x.op == 'ev' and x.a[0].endswith(('::SetArguments', '::SetTools')) and len(x.a) == 2:
                    # operands are sets
                    v = self.key(self.ev(x.a[1], env))
                    return ('operands', x.a[0], tuple(sorted(map(repr, v))) if isinstance(v, tuple) else v)
                return self.key(self.ev(x, env))
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return str(x)
        ks = go(a)
        if op in ('throw', 'void', 'null', 'str', 'enum'):
            return (op, ks)
        return self.leaf((op, ks), 'i' if t.int else None)


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b:
            return True
        if a != a and b != b:
            return True
        return abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-12
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


LEAFLIKE = ('sym', 'fld', 'call', 'fn', 'at', 'size', 'mod')


COINCIDE = ('fld', 'at')
POSITIVE = ('eps', 'e', 'r', 'h', 'ri', 'ro', 'radius', 'height')
PARTS = ('corner', 'source', 'target', 'center', 'radius', 'x', 'y', 'z', 'height', 'length')


def pools(*ts):
    from .terms import subterms, is_const
    pool = {}
    for t in ts:
        for q in subterms(t):
            if q.op == 'eq':
                for u, v in ((q.a[0], q.a[1]), (q.a[1], q.a[0])):
                    if u.op in LEAFLIKE and not u.ht and not v.ht and not u.fb and not v.fb and v.op in ('str', 'enum', 'null', 'num') + LEAFLIKE:
                        if v.op in LEAFLIKE and (v in pool or any(z is u for z in subterms(v))):
                            continue
                        if v.op == 'call' and u.op == 'call' and v.a[0] == u.a[0] and v.a[0].endswith('::getShape'):
                            continue        # shapes of different entities are different
                        l = pool.setdefault(u, [])
                        if v not in l:
                            l.append(v)
    return pool


def differ(x, y, rounds=160, hits=None):
    """None if x and y agree under every random interpretation, else a description of a difference"""
    eq = 0
    pool = pools(x, y)
    for s in range(rounds):
        it = Interp(s, 2 if s % 4 == 3 else s % 2, pool)
        try:
            u, v = it.ev(x), it.ev(y)
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
        if it.near:
            continue
        eq += 1
        if not same(u, v):
            if hits is not None:
                hits |= it.hits
            return 'under interpretation %d: %s versus %s' % (s, str(u)[:160], str(v)[:160])
    if not eq:
        raise Unint('no usable interpretation')
    return None


_soft = {}


def soft(t):
    """forget the strictness of comparisons of reals (boundaries have measure zero)"""
    r = _soft.get(t)
    if r is not None:
        return r
    if t.op == 'lt0' and not t.a[0].int:
        p = soft(t.a[0])
        r = lt(p, num(0))
        if leadcoef(p) < 0:
            r = lnot(lt(neg(p), num(0)))
    elif t.op in BINDERS:
        r = rebuild(t, soft)
        if r is t and isinstance(t.a[2], T):
            b = soft(t.a[2])
            if b is not t.a[2]:
                r = raw(t.op, t.a[0], soft(t.a[1]), b, *t.a[3:])
    else:
        r = rebuild(t, soft)
    _soft[t] = r
    return r


# kernel operations that no equivalent code replaces by one another
STRONGCALLS = ('Precision::', 'BRepAlgoAPI_', 'BRepTools::OuterWire', 'BRepClass3d::', 'BRepGProp::', 'gp_Pnt::X', 'gp_Pnt::Y', 'gp_Pnt::Z', 'gp_Dir::X', 'gp_Dir::Y', 'gp_Dir::Z', 'gp_Vec::X', 'gp_Vec::Y',
               'gp_Vec::Z', 'Geom_Curve::FirstParameter', 'Geom_Curve::LastParameter', 'BRep_Tool::', 'GeomAPI_ProjectPointOnSurf::', 'BRepBuilderAPI_MakeEdge::Error', 'BRepBuilderAPI_MakeWire::Error', 'BRepBuilderAPI_MakeFace::Error')
KNOWNCALLS = set(MATHFN) | {'pow', 'log', 'round', 'FindIndex', 'IndexedMap::Add', 'TopoDS_Shape::Oriented', 'TopoDS_Shape::IsSame', 'TopoDS_Shape::IsEqual', 'TopoDS_Shape::IsPartner', 'TopoDS_Shape::Orientation', 'TopoDS_Shape::ShapeType', 'Law::bag', 'Law::sets', 'Law::groups'}


def weak(t, strong=()):
    from .terms import subterms
    out = set()
    for x in subterms(t):
        if x.op in ('call', 'fn') and isinstance(x.a[0], str):
            n = x.a[0]
            if n.split('::')[-1] not in KNOWNCALLS and n not in KNOWNCALLS and n not in strong and not n.startswith(STRONGCALLS):
                out.add('call ' + n)
    return out


def judge(got, specs, strong=(), rounds=160):
    """(True|False|None, detail): is got equivalent to one of the specs (up to comparison strictness)?"""
    from .terms import show
    for s in specs:
        if got is s:
            return True, ''
    g = soft(got)
    ss = [soft(s) for s in specs]
    for s in ss:
        if g is s:
            return True, ''
    okw = set()
    for s in ss:
        okw |= weak(s)
    for c in list(okw):
        if c.endswith('::length') or c.endswith('::squaredLength'):
            okw |= {c.rpartition('::')[0] + '::length', c.rpartition('::')[0] + '::squaredLength'}
    why = None
    w = weak(g, strong) - okw
    hits = set()
    for s in ss:
        try:
            d = differ(g, s, rounds, hits)
        except Unint as x:
            return None, 'no interpretation: %s' % x
        if d is None:
            return True, 'equal by random interpretation'
        why = d
    w |= hits
    if w:
        return None, 'outside the decidable fragment (%s): %s' % (', '.join(sorted(w))[:200], show(got)[:600])
    return False, '%s\n  computed: %s\n  required: %s' % (why, show(got)[:900], show(specs[0])[:900])
