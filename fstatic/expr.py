"""Expression half of the evaluator: lvalues, operators, calls and the library tables."""
from fractions import Fraction
from . import terms as tm
from .terms import (T, TRUE, FALSE, UNDEF, NULL, ZERO, ONE, raw, num, add, sub, mul, div, neg, lt, le, eq, lnot, land, lor,
                    mk_ite, tobool, atom, fld, setfld, at, setat, size, append, elem, cat, event, mkst, lift, fresh, subst)
from .program import is_int, is_bool, strip, targs

PURE_NC = {'BRepAlgoAPI_Algo::Shape', 'BRepBuilderAPI_MakeShape::Shape', 'BRepBuilderAPI_MakeEdge::operator TopoDS_Edge',
           'BRepBuilderAPI_MakeWire::operator TopoDS_Wire', 'BRepBuilderAPI_MakeFace::operator TopoDS_Face', 'BRepAlgoAPI_BuilderAlgo::Generated',
           'BRepAlgoAPI_BuilderAlgo::Modified', 'BRepAlgoAPI_BuilderAlgo::IsDeleted', 'BRepPrimAPI_MakeCylinder::Cylinder', 'BRepPrim_OneAxis::LateralFace',
           'BRepBuilderAPI_MakeEdge::Edge', 'BRepBuilderAPI_MakeFace::Face', 'BRepBuilderAPI_MakeWire::Wire',
           'BRepBuilderAPI_MakeShape::Modified', 'BRepBuilderAPI_MakeShape::Generated', 'BRepBuilderAPI_MakeShape::IsDeleted'}
IDENT = {'TopoDS::Edge', 'TopoDS::Face', 'TopoDS::Shell', 'TopoDS::Solid', 'TopoDS::Vertex', 'TopoDS::Wire', 'TopoDS::Compound',
         'std::move', 'std::forward', 'std::as_const', 'std::make_shared', 'std::ref', 'std::cref'}
PTRGET = {'get', 'operator*', 'operator->'}
SMART = ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'opencascade::handle', 'std::reference_wrapper')


def base(c):
    return c.split('::')[-1]


FLOATS = ('double', 'float', 'long double')

class ExprMixin:
    # ---------------------------------------------------------------- lvalues
    def lv(self, e, fr, env):
        """lvalue (cell, path) denoted by e, or None"""
        if e is None:
            return None
        k = e['k']
        if k == 'ref':
            if e['rk'] in ('var', 'param'):
                L = fr.lookup(e['id'])
                if L is not None:
                    return L
            if e['rk'] == 'binding':
                if e.get('hv'):
                    L = fr.lookup(e['hv'])
                    if L:
                        return L
                if e.get('e'):
                    return self.lv(e['e'], fr, env)
            if e['rk'] == 'global' and 'cv' not in e:
                L = fr.lookup(e['id'])
                if L:
                    return L
                c = 'g:' + (e.get('q') or e['n'])
                if c not in env:
                    env[c] = self.globalinit(e, fr, env)
                return (c, ())
            return None
        if k == 'this':
            return fr.this
        if k == 'member':
            if e.get('rk') == 'global':
                return None
            o = e['o']
            L = self.ptrlv(o, fr, env) if e.get('arrow') else self.lv(o, fr, env)
            if L is None:
                return None
            return (L[0], L[1] + (e['n'],))
        if k == 'index':
            L = self.lv(e['a'], fr, env)
            if L is None:
                return None
            i = self.ev(e['b'], fr, env)
            if i.op == 'ite':
                return None
            return (L[0], L[1] + (i,))
        if k == 'un':
            if e['op'] == '*':
                return self.ptrlv(e['e'], fr, env)
            if e['op'] in ('++', '--') and not e['post']:
                self.ev(e, fr, env)
                return self.lv(e['e'], fr, env)
            return None
        if k == 'bin':
            if e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
                self.ev(e, fr, env)
                return self.lv(e['a'], fr, env)
            if e['op'] == ',':
                self.ev(e['a'], fr, env)
                return self.lv(e['b'], fr, env)
            return None
        if k == 'cast':
            if e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic') and 'DerivedToBase' in e['ck']:
                return self.lv(e['e'], fr, env)
            if e['ck'] == 'BaseToDerived':
                return self.lv(e['e'], fr, env)
            return None
        if k == 'cond':
            c = tobool(self.ev(e['c'], fr, env))
            if c is TRUE:
                return self.lv(e['a'], fr, env)
            if c is FALSE:
                return self.lv(e['b'], fr, env)
            return None
        if k == 'call':
            return self.calllv(e, fr, env)
        if k == 'construct' and (e.get('copy') or e.get('move')) and False:
            return None
        return None

    def ptrlv(self, o, fr, env):
        """lvalue of the object a pointer-like expression points to"""
        if o['k'] == 'this':
            return fr.this
        if o['k'] == 'un' and o['op'] == '&':
            return self.lv(o['e'], fr, env)
        L = self.lv(o, fr, env)
        if L is not None:
            v = self.read(L, env)
            if v.op == 'adr':
                return v.a
            if v.op == 'iter':
                return self.iterlv(v, env)
            return L
        v = self.ev(o, fr, env)
        if v.op == 'adr':
            return v.a
        if v.op == 'iter':
            return self.iterlv(v, env)
        return self.tmp(env, v)

    def iterlv(self, it, env):
        src, i = it.a
        if src.op == 'lv':
            L = src.a
            v = self.read(L, env)
            if i.op in ('argmin', 'argmax') and len(i.a) == 3:
                return None
            if self.ismap(L, env) and i.op != 'keyidx':
                t = self.tmp(env, at(tm.items(v), i))
                return t
            return (L[0], L[1] + (i,))
        return self.tmp(env, at(src, i))

    def ismap(self, L, env):
        return L in getattr(self, 'maps', ())

    def globalinit(self, e, fr, env):
        g = self.p.globals.get(e['id'])
        if g and g.get('init') is not None and g.get('constexpr'):
            from .evalr import Frame
            f = Frame(None)
            return self.ev(g['init'], f, env)
        q = e.get('q') or e['n']
        if is_bool(e.get('t', '')):
            return atom(raw('sym', q))
        return raw('sym', q, 'i') if is_int(e.get('t', '')) else raw('sym', q)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, fr, env, target=None):
        if e is None:
            return raw('void')
        k = e['k']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            from .evalr import Undecided
            raise Undecided('expression ' + k)
        if k in ('construct', 'inhctor'):
            return m(e, fr, env, target)
        return m(e, fr, env)

    def const(self, cv, ty):
        if is_bool(ty):
            return TRUE if cv else FALSE
        return num(cv) if not isinstance(cv, float) else num(cv)

    def x_int(self, e, fr, env):
        return num(e['v'])

    def x_char(self, e, fr, env):
        return num(e['v'])

    def x_float(self, e, fr, env):
        return num(float(e['v']))

    def x_bool(self, e, fr, env):
        return TRUE if e['v'] else FALSE

    def x_str(self, e, fr, env):
        return raw('str', e.get('v', ''))

    def x_null(self, e, fr, env):
        return NULL

    def x_zero(self, e, fr, env):
        return FALSE if is_bool(e['t']) else ZERO

    def x_const(self, e, fr, env):
        return self.const(e['cv'], e.get('t', ''))

    def x_unknown(self, e, fr, env):
        return raw('opaque', e.get('cls', '?'))

    def x_typeid(self, e, fr, env):
        return raw('opaque', 'typeid')

    def x_this(self, e, fr, env):
        return self.read(fr.this, env)

    def x_stdinit(self, e, fr, env):
        return self.ev(e['e'], fr, env)

    def x_definit(self, e, fr, env):
        return self.ev(e['e'], fr, env)

    def x_defarg(self, e, fr, env):
        return self.ev(e['e'], fr, env)

    def x_arraycopy(self, e, fr, env):
        return self.ev(e['e'], fr, env)

    def x_new(self, e, fr, env):
        return self.ev(e['e'], fr, env) if e.get('e') else raw('opaque', 'new')

    def x_delete(self, e, fr, env):
        return raw('void')

    def x_mref(self, e, fr, env):
        return raw('mref', e['f']['b'])

    def x_throw(self, e, fr, env):
        v = self.ev(e['e'], fr, env) if e.get('e') else NULL
        fr.pend.append((TRUE, raw('thrown')))
        self.lastthrow = e.get('l')
        return raw('undef', 'throw')

    def x_initlist(self, e, fr, env):
        t = strip(e.get('t', ''))
        vs = [self.ev(a, fr, env) for a in e['a']]
        if t.startswith('std::array') and len(vs) == 1 and vs[0].op == 'arr':
            return vs[0]
        rec = self.p.recq.get(t)
        if rec and rec['fields'] and not t.startswith('std::array'):
            fs = self.p.fields_of(rec)
            return tm.mkobj(t, UNDEF, {f['name']: v for f, v in zip(fs, vs)})
        if not vs and (is_int(t) or t in ('double', 'float')):
            return ZERO
        if len(vs) == 1 and (is_int(t) or t in ('double', 'float', 'bool')):
            return vs[0]
        if t.startswith('std::array'):
            n = int(''.join(c for c in targs(t)[1] if c.isdigit()))
            while len(vs) < n:
                vs.append(ZERO)
        return raw('arr', *vs)

    def x_lambda(self, e, fr, env):
        from .evalr import Closure
        snap = {}
        for c in e['caps']:
            if 'id' in c and not c.get('ref'):
                L = fr.lookup(c['id'])
                if L is None and c.get('e') is not None:
                    snap[c['id']] = self.tmp(env, self.ev(c['e'], fr, env))
                elif L is not None:
                    snap[c['id']] = self.tmp(env, self.read(L, env), self.ctype.get(L[0], ''))
            elif 'id' in c and c.get('e') is not None and fr.lookup(c['id']) is None:
                L = self.lv(c['e'], fr, env)
                snap[c['id']] = L if L else self.tmp(env, self.ev(c['e'], fr, env))
        c = Closure(fr, e, snap)
        n = len(self.clos) + 1
        self.clos[n] = c
        return raw('clo', '%s:%d:%d' % (e['cls'], id(self) % 1000003, n), n)

    def x_ref(self, e, fr, env):
        rk = e['rk']
        if 'cv' in e and rk != 'param':
            L = fr.lookup(e['id']) if rk == 'var' else None
            if L is None or True:
                v = e['cv']
                if isinstance(v, float) or not is_bool(e['t']):
                    return num(v) if not isinstance(v, float) else num(v)
                return TRUE if v else FALSE
        if rk == 'enum':
            return raw('enum', e['q'])
        if rk == 'fn':
            return raw('fnref', e['f']['id'], e['f']['b'])
        L = self.lv(e, fr, env)
        if L is None:
            from .evalr import Undecided
            raise Undecided('unknown variable ' + e['n'])
        return self.read(L, env)

    def x_member(self, e, fr, env):
        if 'cv' in e and e.get('rk') == 'global':
            return self.const(e['cv'], e['t'])
        L = self.lv(e, fr, env)
        if L is not None:
            v = self.read(L, env)
        else:
            v = fld(self.ev(e['o'], fr, env), e['n'])
        if is_bool(e.get('t', '')) and tm._isnum(v) and v.op != 'ite' and v.op != 'undef':
            v = atom(v)
        return v

    def x_index(self, e, fr, env):
        L = self.lv(e, fr, env)
        if L is not None:
            return self.read(L, env)
        return at(self.ev(e['a'], fr, env), self.ev(e['b'], fr, env))

    def x_cond(self, e, fr, env):
        c = tobool(self.ev(e['c'], fr, env))
        return self.gated(c, lambda en: self.ev(e['a'], fr, en), lambda en: self.ev(e['b'], fr, en), fr, env)

    def gated(self, c, fa, fb, fr, env):
        if c is TRUE:
            return fa(env)
        if c is FALSE:
            return fb(env)
        sp, fr.pend = fr.pend, []
        ea, eb = dict(env), dict(env)
        va = fa(ea)
        pa, fr.pend = fr.pend, []
        vb = fb(eb)
        pb = fr.pend
        fr.pend = sp + [(land(c, x), t) for x, t in pa] + [(land(lnot(c), x), t) for x, t in pb]
        mg = self.merge(c, ea, eb)
        env.clear()
        env.update(mg)
        if va.op == 'undef' and va.a and va.a[0] == 'throw':
            return vb
        if vb.op == 'undef' and vb.a and vb.a[0] == 'throw':
            return va
        return mk_ite(c, va, vb)

    def narrow(self, v, src, dst):
        """conversion of a number to a type that cannot hold all values"""
        if src in FLOATS and is_int(dst):
            return lift('trunc', lambda x: x if x.op == 'num' and x.a[0].denominator == 1 or x.op in ('undef', 'obj') else raw('trunc', x), v)
        if src in ('double', 'long double') and dst == 'float':
            return lift('flt', lambda x: x if x.op in ('num', 'undef', 'obj') else raw('flt', x), v)
        return v

    def x_cast(self, e, fr, env):
        ck = e['ck']
        if 'cv' in e and ck != 'Dynamic':
            return self.const(e['cv'], e['t'])
        v = self.ev(e['e'], fr, env)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return tobool(v) if ck != 'FloatingToBoolean' else lnot(eq(v, ZERO))
        if ck == 'FloatingToIntegral':
            return self.narrow(v, 'double', 'int')
        if ck in ('IntegralToFloating', 'IntegralCast', 'FloatingCast'):
            st = strip(e['e'].get('t', ''))
            if ck == 'FloatingCast':
                return self.narrow(v, st, strip(e['t']))
            if st == 'bool':
                return lift('b2n', lambda x: ONE if x is TRUE else ZERO if x is FALSE else x, v)
            return v
        if ck == 'Dynamic':
            t = strip(e['t'])
            if v.op == 'dobj':
                return v if v.a[0] == t else NULL
            if v in self.dyn and not self.derives(self.dyn[v], t):
                return NULL
            if v in self.dyn:
                return v
            return mk_ite(atom(raw('dyn', v, t)), v, NULL) if v.op != 'obj' else v
        return v

    def x_un(self, e, fr, env):
        op = e['op']
        if op == '!':
            return lnot(tobool(self.ev(e['e'], fr, env)))
        if op == '-':
            return neg(self.ev(e['e'], fr, env))
        if op == '+':
            return self.ev(e['e'], fr, env)
        if op in ('++', '--'):
            L = self.lv(e['e'], fr, env)
            if L is None:
                return raw('opaque', op)
            v = self.read(L, env)
            w = self.advance(v, ONE if op == '++' else num(-1))
            self.write(L, w, env)
            return v if e['post'] else w
        if op == '&':
            L = self.lv(e['e'], fr, env)
            if L is not None:
                return raw('adr', *L)
            return self.ev(e['e'], fr, env)
        if op == '*':
            L = self.ptrlv(e['e'], fr, env)
            return self.read(L, env) if L else raw('deref', self.ev(e['e'], fr, env))
        if op == '~':
            return raw('bnot', self.ev(e['e'], fr, env))
        return raw('opaque', op)

    def advance(self, v, d):
        if v.op == 'iter':
            i = v.a[1]
            return raw('iter', v.a[0], add(i, d) if i.op != 'keyidx' else raw('keynext', i))
        return add(v, d)

    def arith(self, op, a, b, ty):
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(op, a, b)
        if a.op == 'iter' or b.op == 'iter':
            if op == '+' and a.op == 'iter':
                return self.advance(a, b)
            if op == '-' and a.op == 'iter' and b.op == 'iter':
                return sub(a.a[1], b.a[1])
            if op == '-' and a.op == 'iter':
                return self.advance(a, neg(b))
        if a.op in ('str', 'strcat') or b.op in ('str', 'strcat'):
            return self.strcat(a, b)
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            return div(a, b, integer=is_int(strip(ty)))
        if op == '%':
            return tm.mod(a, b)
        return raw('bitop', op, a, b)

    def strcat(self, a, b):
        out = []
        for p in (*self.strparts(a), *self.strparts(b)):
            if p.op == 'str' and out and out[-1].op == 'str':
                out[-1] = raw('str', out[-1].a[0] + p.a[0])
            elif not (p.op == 'str' and not p.a[0]):
                out.append(p)
        if not out:
            return raw('str', '')
        return out[0] if len(out) == 1 else raw('strcat', *out)

    def strparts(self, a):
        return a.a if a.op == 'strcat' else (a,)

    def compare(self, op, a, b):
        if a.op == 'iter' and b.op == 'iter':
            ia, ib = a.a[1], b.a[1]
            for x, y in ((ia, ib), (ib, ia)):
                if x.op == 'keyidx' and y.op == 'size' or x.op == 'keyidx' and y.op != 'keyidx':
                    c = lnot(tm.haskey(x.a[0], x.a[1]))
                    return c if op == '==' else lnot(c)
                if x.op == 'findidx':
                    c = lnot(x.a[0])
                    return c if op == '==' else lnot(c)
            a, b = ia, ib
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return le(a, b)
        if op == '>=':
            return le(b, a)
        if op == '==':
            return eq(a, b)
        return lnot(eq(a, b))

    def x_bin(self, e, fr, env):
        op = e['op']
        if op == '&&':
            a = tobool(self.ev(e['a'], fr, env))
            return self.gated(a, lambda en: tobool(self.ev(e['b'], fr, en)), lambda en: FALSE, fr, env)
        if op == '||':
            a = tobool(self.ev(e['a'], fr, env))
            return self.gated(a, lambda en: TRUE, lambda en: tobool(self.ev(e['b'], fr, en)), fr, env)
        if op == ',':
            self.ev(e['a'], fr, env)
            return self.ev(e['b'], fr, env)
        if op == '=':
            v = self.ev(e['b'], fr, env)
            L = self.lv(e['a'], fr, env)
            if L is not None:
                self.write(L, v, env)
            return v
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            b = self.ev(e['b'], fr, env)
            L = self.lv(e['a'], fr, env)
            a = self.read(L, env) if L else self.ev(e['a'], fr, env)
            if is_bool(strip(e['a'].get('t', ''))) and op in ('|=', '&='):
                v = (lor if op == '|=' else land)(tobool(a), tobool(b))
            else:
                ta, tb = strip(e['a'].get('t', '')), strip(e['b'].get('t', ''))
                v = self.arith(op[:-1], a, b, tb if tb in FLOATS and ta not in FLOATS else ta)
                v = self.narrow(v, tb, ta)
            if L is not None:
                self.write(L, v, env)
            return v
        if 'cv' in e and op not in ('/',) and False:
            return self.const(e['cv'], e['t'])
        a = self.ev(e['a'], fr, env)
        b = self.ev(e['b'], fr, env)
        return self.arith(op, a, b, e.get('t', '') if op not in ('/',) else e.get('t', ''))

    # ---------------------------------------------------------------- construction
    def x_inhctor(self, e, fr, env, target=None):
        f = self.p.fns.get(e['f']['id'])
        if f is None:
            return raw('opaque', 'inhctor')
        # forwards the parameters of the inheriting constructor
        lvs = [fr.vars[p['id']] for p in (fr.fn or {}).get('params', [])]
        self.inline(f, lvs, target if target is not None else self.tmp(env, UNDEF), fr, env, [])
        return raw('void')

    def x_construct(self, e, fr, env, target=None):
        f = e['f']
        args = e['a']
        t = strip(e.get('t', ''))
        if (e.get('copy') or e.get('move')) and len(args) >= 1:
            v = self.ev(args[0], fr, env)
            fn = self.p.fns.get(f['id'])
            if fn is not None and fn.get('body') is not None and not fn.get('defaulted') and not fn.get('implicit'):
                pass
            else:
                if target is not None:
                    cur = self.read(target, env)
                    self.write(target, v, env)
                return v
        fn = self.p.fns.get(f['id'])
        if fn is not None and f.get('repo') and (fn.get('body') is not None or fn.get('inits') is not None) and not self.opaque(f):
            lvs = [self.arglv(a, fr, env) for a in args]
            if target is None:
                T_ = self.tmp(env, raw('obj', t, UNDEF, ()), t)
            else:
                T_ = target
            rec = self.p.recs.get(fn['cls'])
            if rec and rec.get('lambda'):
                return self.ev(args[0], fr, env) if args else UNDEF
            if e.get('zero') and rec:
                for fl in self.p.fields_of(rec):
                    self.write((T_[0], T_[1] + (fl['name'],)), self.zeroof(fl['type']), env)
            self.inline(fn, lvs, T_, fr, env, [])
            v = self.read(T_, env)
            return v
        v = self.libconstruct(e, f, t, args, fr, env)
        if target is not None and v is not None and f.get('repo'):
            self.write(target, v, env)
        return v

    def zeroof(self, ty):
        ty = strip(ty)
        if is_bool(ty):
            return FALSE
        if ty.startswith('std::array'):
            ta = targs(ty)
            n = int(''.join(c for c in ta[1] if c.isdigit()))
            return raw('arr', *[self.zeroof(ta[0])] * n)
        return ZERO

    def arglv(self, a, fr, env):
        L = self.lv(a, fr, env)
        if L is not None:
            return L
        return self.tmp(env, self.ev(a, fr, env), a.get('t', '') if a else '')

    def default(self, t):
        t = strip(t)
        if t.startswith('std::array'):
            ta = targs(t)
            n = int(''.join(c for c in ta[1] if c.isdigit()))
            d = self.default(ta[0]) if ta[0].startswith('std::') else None
            if d is not None and d.op != 'undef':
                return raw('arr', *[d] * n)
            return raw('arr', *[raw('undef', 'e%d' % i) for i in range(n)])
        if t.startswith(('std::vector', 'std::list', 'std::deque', 'std::initializer_list')):
            return raw('cat')
        if t.startswith(('std::string', 'std::basic_string')):
            return raw('str', '')
        if t.startswith(('std::shared_ptr', 'std::unique_ptr')):
            return NULL
        if t.startswith(('std::unordered_map', 'std::map')):
            return raw('emap', self.defval(targs(t)[1]))
        if t.startswith('TopoDS_') and '::' not in t:
            return NULL
        if t in ('TopTools_ListOfShape',) or t.startswith('NCollection_List<'):
            return raw('cat')
        if t.startswith('NCollection_DataMap<'):
            return raw('emap', self.defval(targs(t)[1]))
        if t == 'TopTools_DataMapOfShapeInteger':
            return raw('emap', ZERO)
        if t.startswith('std::tuple'):
            return raw('arr', *[self.defval(x) for x in targs(t)])
        if t.startswith('std::pair'):
            return tm.mkobj('pair', UNDEF, dict(zip(('first', 'second'), [self.defval(x) for x in targs(t)])))
        return None

    def defval(self, t):
        """a value-initialised object of type t"""
        t = strip(t)
        d = self.default(t)
        if d is not None:
            return d
        if is_bool(t):
            return FALSE
        if is_int(t) or t in ('double', 'float'):
            return ZERO
        return self.defobj(t)

    def defobj(self, t):
        r = self.p.recq.get(t)
        fs = {}
        if r and not r.get('lambda'):
            for f in self.p.fields_of(r):
                ft = strip(f['type'])
                v = self.default(ft)
                if v is None and ft in self.p.recq and not f['type'].rstrip().endswith(('*', '&')):
                    v = self.defobj(ft)
                if v is not None:
                    fs[f['name']] = v
        return raw('obj', t, UNDEF, tuple(sorted(fs.items())))

    def libconstruct(self, e, f, t, args, fr, env):
        b = f['b']
        if b.startswith(('TopExp_Explorer',)):
            if args:
                vs = [self.ev(a, fr, env) for a in args]
                return raw('iter', raw('explore', *vs), ZERO)
            return raw('iter', raw('explore', NULL), ZERO)
        if b.startswith('NCollection_TListIterator') or b.endswith('Iterator::Iterator'):
            if args:
                L = self.arglv(args[0], fr, env)
                v = self.read(L, env)
                if 'DataMap' in b:
                    return raw('iter', tm.items(v), ZERO)
                return raw('iter', v, ZERO)
        if t.startswith('std::variant') and args:
            v = self.ev(args[0], fr, env)
            at_ = strip(args[0].get('t', ''))
            if at_.startswith('std::variant'):
                return v
            return tm.alt(at_, v)
        if t.startswith(('std::shared_ptr', 'std::unique_ptr', 'opencascade::handle', 'std::function', 'std::basic_string', 'std::string', 'std::initializer_list', 'std::reference_wrapper')):
            if args:
                v = self.ev(args[0], fr, env)
                for a in args[1:]:
                    self.ev(a, fr, env)
                return v
            return self.default(t) or NULL
        if t.startswith('__gnu_cxx::__normal_iterator') and args:
            return self.ev(args[0], fr, env)
        if t.startswith(('std::vector', 'std::list')):
            args = [a for a in args if not (a or {}).get('k') == 'defarg' and 'allocator' not in (a or {}).get('t', '').split('<')[0]]
            vs = [self.ev(a, fr, env) for a in args]
            if not vs:
                return raw('cat')
            if len(vs) == 1:
                if vs[0].op == 'arr':
                    return cat(*[elem(x) for x in vs[0].a])
                if strip(args[0].get('t', '')).startswith('std::'):
                    return vs[0]
                return raw('rep', vs[0], self.zeroof(targs(t)[0]))
            if vs[0].op == 'iter':
                src = self.itersrc(vs[0], env)
                return cat(*self.segment(src, vs[0].a[1], vs[1].a[1]))
            return raw('rep', vs[0], vs[1])
        if t.startswith('std::array'):
            if args:
                return self.ev(args[0], fr, env)
            return self.default(t)
        if t.startswith(('std::pair', 'std::tuple')):
            if not args:
                return self.default(t)
            vs = [self.ev(a, fr, env) for a in args]
            if len(vs) == 1 and strip(args[0].get('t', '')).startswith(('std::pair', 'std::tuple')):
                return vs[0]
            if t.startswith('std::pair') and len(vs) == 2:
                return tm.mkobj('pair', UNDEF, {'first': vs[0], 'second': vs[1]})
            return raw('arr', *vs)
        d = self.default(t)
        if d is not None and not args:
            return d
        vs = [self.ev(a, fr, env) for a in args]
        if f.get('repo') and not self.opaque(f) and not args:
            return self.defobj(t)
        if t.startswith('TopTools_') or t.startswith('NCollection_') and not vs:
            return raw('sym', 'empty:' + t) if not vs else vs[0]
        if b.startswith("TopoDS_") and vs and strip(args[0].get("t", "")).startswith("TopoDS_") and all(v.op in ("num", "null") for v in vs[1:]):
            return vs[0]
        if len(vs) == 1 and f.get('copy'):
            return vs[0]
        return tm.call('call', ('new ' + t, *vs))

    def segment(self, src, i, j):
        """the elements i..j of src as parts of a list"""
        if i.op in ('back', 'arg') or j.op in ('back', 'arg'):
            return (raw('slice', src, i, j),)
        if i is ZERO and j is size(src):
            return (raw('all', src),)
        if src.op == 'cat' and i.op == 'num' and i.a[0] >= 0:
            k = int(i.a[0])
            if all(x.op == 'elem' for x in src.a[:k]) and k <= len(src.a):
                if j is size(src):
                    return src.a[k:]
                if j.op == 'num' and k <= j.a[0] <= len(src.a) and all(x.op == 'elem' for x in src.a[:int(j.a[0])]):
                    return src.a[k:int(j.a[0])]
        if src.op == 'arr' and i.op == 'num' and j.op == 'num' and 0 <= i.a[0] <= j.a[0] <= len(src.a):
            return tuple(elem(x) for x in src.a[int(i.a[0]):int(j.a[0])])
        ph = fresh()
        n = sub(j, i)
        if n.op == 'num' and 0 <= n.a[0] <= 8:
            return tuple(elem(at(src, add(i, num(q)))) for q in range(int(n.a[0])))
        p = tm.mapcat(n, cat(elem(at(src, add(i, ph)))), ph)
        return () if p is None else p.a if p.op == 'cat' else (p,)

    def itersrc(self, it, env):
        s = it.a[0]
        return self.read(s.a, env) if s.op == 'lv' else s

    # ---------------------------------------------------------------- calls
    def calllv(self, e, fr, env):
        f = e.get('f')
        if f is None:
            return None
        b = f['b']
        n = base(b)
        o = e.get('o')
        if b.startswith('std::') or b.startswith('__gnu_cxx') or b.startswith(('NCollection', 'opencascade')):
            if n in ('operator[]', 'at') and o is not None:
                L = self.lv(o, fr, env) if not e.get('arrow') else self.ptrlv(o, fr, env)
                if L is None:
                    L = self.tmp(env, self.ev(o, fr, env))
                i = self.ev(e['a'][0], fr, env)
                if 'map' in b and n == 'operator[]':
                    self.maptouch(L, i, env, f['rt'].rstrip().rstrip('&'))
                return (L[0], L[1] + (i,))
            if n in ('back', 'front') and o is not None:
                L = self.lv(o, fr, env)
                if L is None:
                    return None
                v = self.read(L, env)
                i = ZERO if n == 'front' else sub(size(v), ONE)
                return (L[0], L[1] + (i,))
            if n in PTRGET and o is not None and b.startswith(SMART):
                return self.ptrlv(o, fr, env)
            if n in ('operator*', 'operator->') and o is not None and not b.startswith('std::optional'):
                v = self.ev(o, fr, env)
                if v.op == 'iter':
                    return self.iterlv(v, env)
                return None
            if b == 'std::get' and len(e['a']) == 1:
                a = e['a'][0]
                ty = strip(a.get('t', ''))
                L = self.lv(a, fr, env)
                if ty.startswith('std::tuple') or ty.startswith('std::pair') or ty.startswith('std::array'):
                    ix = self.getidx(f)
                    if L is not None and ix is not None:
                        if ty.startswith('std::pair'):
                            return (L[0], L[1] + (('first', 'second')[ix],))
                        return (L[0], L[1] + (num(ix),))
                return None
            if b in IDENT and len(e['a']) == 1:
                return self.lv(e['a'][0], fr, env)
            if b == 'std::operator<<' or (n == 'operator<<' and b.startswith('std::basic_ostream')):
                dst = e['a'][0] if o is None else o
                L = self.lv(dst, fr, env)
                x = e['a'][1] if o is None else e['a'][0]
                v = self.ev(x, fr, env) if x['k'] != 'ref' or x.get('rk') != 'fn' else raw('str', '\n')
                if L is None:
                    return None
                if v.op == 'num' and strip(x.get('t', '')) == 'char':
                    v = raw('str', chr(int(v.a[0])))
                self.write(L, event(self.read(L, env), '<<', v), env)
                return L
            return None
        if b in IDENT and len(e['a']) == 1:
            return self.lv(e['a'][0], fr, env)
        fn = self.p.fns.get(f['id'])
        if fn is not None and fn.get('body') is not None and not self.opaque(f) and f['rt'].rstrip().endswith('&'):
            v = self.x_call(e, fr, env, wantlv=True)
            if v.op == 'lv':
                return v.a
            return self.tmp(env, v)
        return None

    def maptouch(self, L, i, env, ty):
        """operator[] of a map creates a missing entry"""
        m = self.read(L, env)
        deflt = self.defval(ty)

        def f(x, k):
            root = tm.maproot(x)
            if root.op not in ('emap', 'ph', 'fold', 'acc'):
                return x
            h = tm.haskey(x, k)
            if h is TRUE:
                return x
            return event(x, '[]=' if h is FALSE and root.op == 'emap' else 'touch', k, root.a[0] if root.op == 'emap' else deflt)
        n = tm.lift(('touch', deflt), f, m, i)
        if n is not m:
            self.write(L, n, env)

    def getidx(self, f):
        ta = f.get('ta') or ''
        xs = targs('X' + ta) if ta.startswith('<') else []
        for x in xs:
            x = x.rstrip('UL').rstrip('ul')
            if x.isdigit():
                return int(x)
        if xs and xs.count(xs[0]) == 2:         # std::get<Type>
            return xs.index(xs[0], 1) - 1
        return None

    def x_call(self, e, fr, env, wantlv=False):
        f = e.get('f')
        args = e.get('a', [])
        if f is None:
            c = self.ev(e['callee'], fr, env) if e.get('callee') else None
            if c is not None and c.op == 'clo':
                return self.callclo(c, [self.arglv(a, fr, env) for a in args], fr, env)
            if c is not None and c.op == 'fnref':
                fn = self.p.fns.get(c.a[0])
                if fn is not None and fn.get('body') is not None:
                    r = self.inline(fn, [self.arglv(a, fr, env) for a in args], None, fr, env, [])
                    return self.read(r.a, env) if r.op == 'lv' else r
            return self.typed(tm.call('call', ('indirect', c or NULL, *[self.ev(a, fr, env) for a in args])), e.get('t', ''))
        if 'cv' in e and not self.opaque(f):
            return self.const(e['cv'], e['t'])
        fn = self.p.fns.get(f['id'])
        o = e.get('o')
        if o is not None and f.get('virtual'):
            # the dynamic type of the object may be known
            dv = self.ev(o, fr, env)
            dt = self.dyn.get(dv) or (dv.a[0] if dv.op == 'obj' else None)
            if dv.op == 'dobj' or dt in self.p.recq and dt != f.get('clsname') and not e.get('nonvirtual'):
                dt = dv.a[0] if dv.op == 'dobj' else dt
                fn = self.override(dt, f) or fn
                f = {k: v for k, v in fn.items() if k != 'body'} if fn else f
        # lambda call operators
        if o is not None and (f['b'].startswith('lambda::') or base(f['b']) == 'operator()'):
            oc = self.ev(o, fr, env)
            if oc.op == 'clo':
                r = self.callclo(oc, [self.arglv(a, fr, env) for a in args], fr, env, f['id'])
                return self.read(r.a, env) if r.op == 'lv' and not wantlv else r
        if fn is not None and (fn.get('body') is not None or (fn.get('ctor') and fn.get('inits'))) and f.get('repo') and not self.opaque(f) and not (fn.get('defaulted') and base(f['b']) == 'operator='):
            thislv = None
            if o is not None and not f.get('static'):
                thislv = self.ptrlv(o, fr, env) if e.get('arrow') else self.lv(o, fr, env)
                if thislv is None:
                    thislv = self.tmp(env, self.ev(o, fr, env), o.get('t', ''))
            lvs = [self.arglv(a, fr, env) for a in args]
            r = self.inline(fn, lvs, thislv, fr, env, args)
            if wantlv:
                return r
            if r.op == 'lv':
                return self.read(r.a, env)
            if r.op == 'ite' and any(x.op == 'lv' for x in self.leaves(r)):
                r = lift(('rdlv', self.newid()), lambda x: self.read(x.a, env) if x.op == 'lv' else x, r)
            return r
        if base(f['b']) == 'operator=' and o is not None and len(args) == 1 and not f['b'].startswith('std::variant'):
            v = self.ev(args[0], fr, env)
            L = self.ptrlv(o, fr, env) if e.get('arrow') else self.lv(o, fr, env)
            if L is not None:
                if v.op == 'arr' and strip(o.get('t', '')).startswith('std::vector'):
                    v = cat(*[elem(x) for x in v.a])
                self.write(L, v, env)
            return v
        if f.get('repo'):
            return self.opaquecall(e, f, o, args, fr, env)
        return self.libcall(e, f, o, args, fr, env)

    def note(self, v, e=None):
        self.made |= set(self.leaves(v))
        t = (targs(strip(e.get('t', ''))) or [''])[0] if e else ''
        if t in self.p.recq and self.derives(t, 'Frackit::Geometry'):
            for x in self.leaves(v):
                if x.op in ('sym', 'fld', 'at'):
                    self.dyn[x] = t
        return v

    def nonnull(self, v):
        """is the smart pointer v set? (one made from an object is)"""
        return lift(('nonnull', self.newid()), lambda x: TRUE if x in self.made else tobool(x), v)

    def valeq(self, x, y, e, fr, env):
        """x == y for values of the type of expression e"""
        ty = strip(e.get('t', ''))
        if ty in self.p.recq:
            for g in self.p.byb.get(ty.split('<')[0] + '::operator==', ()):
                if g.get('body') is not None and g.get('clsname') == ty and len(g['pt']) == 1 and strip(g['pt'][0]) == ty:
                    en = dict(env)
                    r = self.inline(g, [self.tmp(en, y, ty)], self.tmp(en, x, ty), fr, en, [])
                    return tobool(self.read(r.a, en) if r.op == 'lv' else r)
        return eq(x, y)

    def override(self, cls, f):
        todo = [cls]
        while todo:
            c = todo.pop(0)
            for m in self.p.byq.get(c + '::' + base(f['b']), []):
                if m.get('body') is not None and len(m['pt']) == len(f['pt']):
                    return m
            r = self.p.recq.get(c)
            if r:
                todo += r.get('bases', [])
        return None

    def derives(self, c, b):
        todo = [c]
        while todo:
            c = todo.pop()
            if c == b:
                return True
            r = self.p.recq.get(c)
            if r:
                todo += r.get('bases', [])
        return False

    _nid = 0

    def newid(self):
        ExprMixin._nid += 1
        return ExprMixin._nid

    def typed(self, t, ty):
        ty = strip(ty)
        if is_bool(ty):
            return tobool(t)
        if is_int(ty) and t.op == 'call':
            return raw('call', *t.a, 'i')
        return t

    def callclo(self, c, lvs, fr, env, fid=None):
        from .evalr import Frame
        cl = self.clos[c.a[1]]
        ops = [self.p.fns[i] for i in cl.node['ops'] if i in self.p.fns]
        fn = None
        if fid in [o['id'] for o in ops]:
            fn = self.p.fns[fid]
        elif len(ops) == 1:
            fn = ops[0]
        elif ops:
            tys = [strip(self.ctype.get(L[0], '')) if not L[1] else '' for L in lvs]
            for o in ops:
                if tys and strip(o['pt'][0]) == tys[0]:
                    fn = o
        if fn is None:
            return tm.call('call', ('closure', *[self.read(L, env) for L in lvs]))
        self.stack.append(fn['id'])
        if len(self.stack) > self.MAXDEPTH:
            from .evalr import Undecided
            raise Undecided('recursion')
        f2 = Frame(fn, cl.frame)
        f2.copies = dict(cl.snap)
        try:
            for i, p in enumerate(fn['params']):
                if i >= len(lvs):
                    break
                if p['type'].rstrip().endswith('&'):
                    f2.vars[p['id']] = lvs[i]
                else:
                    f2.vars[p['id']] = self.tmp(env, self.read(lvs[i], env), p['type'])
            return self.run_body(fn, f2, fr, env)
        finally:
            self.stack.pop()

    def opaquecall(self, e, f, o, args, fr, env):
        b = f['b']
        recv = []
        L = None
        if o is not None and not f.get('static'):
            L = self.ptrlv(o, fr, env) if e.get('arrow') else self.lv(o, fr, env)
            if L is None:
                L = self.tmp(env, self.ev(o, fr, env))
            recv = [self.read(L, env)]
        return self.uninterpreted(e, f, b, L, recv, args, fr, env)

    def uninterpreted(self, e, f, b, L, recv, args, fr, env):
        lvs, vs = [], []
        pts = f.get('pt', [])
        for i, a in enumerate(args):
            p = pts[i] if i < len(pts) else ''
            if p.rstrip().endswith('&') and not p.rstrip().endswith('&&') and not p.startswith('const ') and ' const' not in p:
                l = self.arglv(a, fr, env)
                lvs.append((i, l))
                vs.append(self.read(l, env))
            else:
                if a is not None and a.get('k') == 'defarg':
                    try:
                        vs.append(self.ev(a, fr, env))
                    except Exception:
                        pass
                    continue
                vs.append(self.ev(a, fr, env))
        # values which are only written are not inputs
        ins = [v if not (v.op == 'undef') else raw('undef') for v in vs]
        b = self.alias.get(b, b)
        if b.startswith('GeomAPI_ProjectPointOn') and '::operator ' in b:       # conversions of the kernel's projections are other names of queries
            b = b.split('::')[0] + '::' + {'double': 'LowerDistance', 'int': 'NbPoints', 'gp_Pnt': 'NearestPoint'}.get(b.split('operator ')[1], '?')
        if pts and b.startswith('Frackit::OCCUtilities::get') and strip(pts[0]).startswith('Frackit::Ellipse<') and vs and vs[0].op != 'obj':
            b += '@Ellipse'     # an arc taken as its ellipse has another representation
        t = tm.call('call', (b, *recv, *ins))
        self.calls.append((b, recv, vs, e.get('l')))
        for i, l in lvs:
            self.write(l, lift(('out', i), lambda x: raw('out', i, x), t) if t.op == 'ite' else raw('out', i, t), env)
        if L is not None and not f.get('const') and not f.get('static') and b not in PURE_NC and not f.get('ctor'):
            self.write(L, event(recv[0], b, *ins), env)
        return self.typed(t, f.get('rt', ''))

    # ---------------------------------------------------------------- library
    MATH1 = {'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'floor', 'ceil', 'round', 'signbit'}

    def libcall(self, e, f, o, args, fr, env):
        b = f['b']
        n = base(b)
        ns = b.startswith('std::') or '::' not in b
        if ns and o is None:
            if n in ('abs', 'fabs') and len(args) == 1:
                return tm.absv(self.ev(args[0], fr, env))
            if n in ('min', 'max') and b in ('std::min', 'std::max'):
                vs = [self.ev(a, fr, env) for a in args[:2]]
                if len(vs) == 1 and vs[0].op == 'arr':
                    vs = list(vs[0].a)
                return (tm.tmin if n == 'min' else tm.tmax)(*vs)
            if n == 'sqrt':
                return tm.sqrt(self.ev(args[0], fr, env))
            if n == 'hypot':
                vs = [self.ev(a, fr, env) for a in args]
                r = ZERO
                for v in vs:
                    r = add(r, mul(v, v))
                return tm.sqrt(r)
            if n == 'pow' and len(args) == 2:
                x, p = self.ev(args[0], fr, env), self.ev(args[1], fr, env)
                if p.op == 'num' and p.a[0].denominator == 1 and abs(p.a[0]) <= 6:
                    return tm.powi(x, int(p.a[0]))
                if p.op == 'num' and p.a[0] == Fraction(1, 2):
                    return tm.sqrt(x)
                return tm.call('fn', ('pow', x, p))
            if n in self.MATH1 and len(args) == 1:
                x = self.ev(args[0], fr, env)
                if n == 'signbit':
                    return lt(x, ZERO)
                return tm.call('fn', (n, x))
            if n == 'atan2':
                return tm.call('fn', (n, self.ev(args[0], fr, env), self.ev(args[1], fr, env)))
            if b == 'std::swap' and len(args) == 2:
                A, B = self.arglv(args[0], fr, env), self.arglv(args[1], fr, env)
                x, y = self.read(A, env), self.read(B, env)
                self.write(A, y, env)
                self.write(B, x, env)
                return raw('void')
        if b in IDENT:
            if b == 'std::move' and len(args) == 3:
                return self.copyrange(args, fr, env)
            if b == 'std::make_shared':
                return self.note(self.maker(e, f, args, fr, env), e)
            return self.ev(args[0], fr, env)
        if b == 'std::make_unique':
            return self.note(self.maker(e, f, args, fr, env), e)
        if b.startswith('std::numeric_limits'):
            return raw('sym', 'maxdouble' if n == 'max' else n)
        if o is None and b.startswith('std::'):
            r = self.stdalgo(n, e, f, args, fr, env)
            if r is not None:
                return r
        if o is None and n in ('operator==', 'operator!=') and len(args) == 2:
            return self.compare(n[8:], self.ev(args[0], fr, env), self.ev(args[1], fr, env))
        if o is None and n in ('operator+', 'operator-') and len(args) == 2:
            return self.arith(n[8:], self.ev(args[0], fr, env), self.ev(args[1], fr, env), '')
        if n == 'operator<<':
            L = self.calllv(e, fr, env)
            if L is not None:
                return self.read(L, env)
        if o is not None:
            r = self.stdmember(n, b, e, f, o, args, fr, env)
            if r is not None:
                return r
        L, recv = None, []
        if o is not None and not f.get('static'):
            L = self.ptrlv(o, fr, env) if e.get('arrow') else self.lv(o, fr, env)
            if L is None:
                L = self.tmp(env, self.ev(o, fr, env))
            recv = [self.read(L, env)]
        return self.uninterpreted(e, f, b, L, recv, args, fr, env)

    def maker(self, e, f, args, fr, env):
        ty = targs(strip(e.get('t', '')))
        t = ty[0] if ty else ''
        lvs = [self.arglv(a, fr, env) for a in args]
        rec = self.p.recq.get(t)
        if rec:
            if len(lvs) == 1:
                v = self.read(lvs[0], env)
                if strip(args[0].get('t', '')) == t:
                    return v
            # overload by arity among the constructors of that class
            cs = [c for c in self.p.fns.values() if c.get('ctor') and c.get('clsname') == t and len(c['params']) == len(lvs) and (c.get('body') is not None or c.get('inits'))]
            if len(cs) > 1:
                tys = [strip(a.get('t', '')) for a in args]
                cs = [c for c in cs if [strip(p) for p in c['pt']] == tys] or cs
            if cs and not self.opaque(cs[0]):
                T_ = self.tmp(env, raw('obj', t, UNDEF, ()), t)
                self.inline(cs[0], lvs, T_, fr, env, [])
                return self.read(T_, env)
        return tm.call('call', ('new ' + t, *[self.read(l, env) for l in lvs]))

    def rangeof(self, a, b):
        return a.a[0], a.a[1], b.a[1]

    def pred(self, fexpr, fr, env):
        """callable value usable as fn(list of lvalues, env) -> term"""
        c = self.ev(fexpr, fr, env)

        def call(lvs, en):
            if c.op == 'clo':
                r = self.callclo(c, lvs, fr, en)
            elif c.op == 'fnref' and c.a[0] in self.p.fns and self.p.fns[c.a[0]].get('body') is not None:
                r = self.inline(self.p.fns[c.a[0]], lvs, None, fr, en, [])
            else:
                r = tm.call('call', ('apply', c, *[self.read(l, en) for l in lvs]))
            return self.read(r.a, en) if r.op == 'lv' else r
        return call

    def elemtype(self, args, f, fr, env):
        """the type of the values an algorithm adds up"""
        if len(args) > 3:
            c = self.ev(args[3], fr, env)
            ts = {strip(self.p.fns[i]['rt']) for i in self.clos[c.a[1]].node['ops'] if i in self.p.fns} if c.op == 'clo' else ()
            return ts.pop() if len(ts) == 1 else ''
        t = f['pt'][0] if f.get('pt') else ''
        return strip(strip(targs(t)[0]).rstrip('*').strip()) if '<' in t else ''

    def stdalgo(self, n, e, f, args, fr, env):
        if n in ('all_of', 'any_of', 'none_of', 'count_if', 'find_if', 'for_each') and len(args) == 3:
            a, b = self.ev(args[0], fr, env), self.ev(args[1], fr, env)
            if a.op != 'iter' or b.op != 'iter':
                return None
            p = self.pred(args[2], fr, env)
            src = a.a[0]
            L = src.a if src.op == 'lv' else self.tmp(env, src)
            lo, hi = a.a[1], b.a[1]
            acc = self.tmp(env, FALSE if n in ('any_of', 'none_of') else TRUE if n == 'all_of' else ZERO, 'bool' if n.endswith('of') else 'int')

            def body(en):
                i = self.read(idx, en)
                v = p([(L[0], L[1] + (i,))] if i.op != 'ite' else [self.tmp(en, at(self.read(L, en), i))], en)
                if n == 'for_each':
                    return [], en
                v = tobool(v)
                old = self.read(acc, en)
                if n == 'all_of':
                    self.write(acc, land(old, v), en)
                elif n in ('any_of', 'none_of'):
                    self.write(acc, lor(old, v), en)
                elif n == 'count_if':
                    self.write(acc, add(old, mk_ite(v, ONE, ZERO)), en)
                elif n == 'find_if':
                    self.write(acc, add(old, ZERO), en)
                return [], en
            if n == 'find_if':
                ph = fresh()
                en = dict(env)
                v = tobool(p([(L[0], L[1] + (ph,))], en))
                cnt = sub(hi, lo)
                ex = tm.exists(cnt, subst(v, {ph: add(ph, lo)}), ph)
                h = max(v.ht, cnt.ht) + 1
                return raw('iter', src, raw('findidx', ex, h, subst(v, {ph: tm.bv(h)})))
            idx = self.tmp(env, lo, 'int')

            def inc(en):
                self.write(idx, add(self.read(idx, en), ONE), en)
            x, r = self.loop(fr, env, lambda en: lt(self.read(idx, en), hi), body, inc, False)
            for c, k, v, _ in x:
                if k == 'throw':
                    fr.pend.append((c, v))
            if r is not None and r is not env:
                env.clear()
                env.update(r)
            v = self.read(acc, env)
            if n == 'none_of':
                return lnot(v)
            if n == 'for_each':
                return raw('void')
            return v
        if n in ('find', 'count') and len(args) == 3:
            a, b, v = [self.ev(x, fr, env) for x in args]
            if a.op != 'iter':
                return None
            src = self.itersrc(a, env)
            if b.op != 'iter' or b.a[0] is not a.a[0] or (n == 'find' and a.a[1] is not ZERO):
                return None
            ph = fresh()
            c = self.valeq(at(src, add(a.a[1], ph)), v, args[2], fr, env)
            cnt = sub(b.a[1], a.a[1])
            if n == 'find':
                ex = tm.exists(cnt, c, ph)
                h = max(c.ht, cnt.ht) + 1
                return raw('iter', a.a[0], raw('findidx', ex, h, subst(c, {ph: tm.bv(h)})))
            if cnt.op == 'num' and cnt.a[0] <= 8:
                r = ZERO
                for i in range(int(cnt.a[0])):
                    r = add(r, mk_ite(subst(c, {ph: num(i)}), ONE, ZERO))
                return r
            return tm.tsum(cnt, mk_ite(c, ONE, ZERO), ph)
        if n in ('lower_bound', 'upper_bound', 'binary_search') and len(args) in (3, 4):
            a, b, v = [self.ev(x, fr, env) for x in args[:3]]
            if a.op != 'iter' or b.op != 'iter' or b.a[0] is not a.a[0]:
                return None
            src, cnt = self.itersrc(a, env), sub(b.a[1], a.a[1])
            if cnt.op != 'num' or not 0 <= cnt.a[0] <= 6:
                return None
            p = self.pred(args[3], fr, env) if len(args) == 4 else None

            def less(x, y):
                if p is None:
                    return lt(x, y)
                en = dict(env)
                return tobool(p([self.tmp(en, x), self.tmp(en, y)], en))
            r = cnt
            for i in reversed(range(int(cnt.a[0]))):
                x = at(src, add(a.a[1], num(i)))
                if n == 'binary_search':
                    r = lor(land(lnot(less(x, v)), lnot(less(v, x))), FALSE if r is cnt else r)
                else:
                    r = mk_ite(less(x, v) if n == 'lower_bound' else lnot(less(v, x)), r, num(i))
            if n == 'binary_search':
                return FALSE if r is cnt else r
            return raw('iter', a.a[0], add(a.a[1], r))
        if n == 'accumulate':
            a, b, v0 = [self.ev(x, fr, env) for x in args[:3]]
            if a.op != 'iter':
                return None
            src = a.a[0]
            L = src.a if src.op == 'lv' else self.tmp(env, src)
            p = self.pred(args[3], fr, env) if len(args) > 3 else None
            acc = self.tmp(env, v0, f.get('rt', ''))
            ety = self.elemtype(args, f, fr, env)
            idx = self.tmp(env, a.a[1], 'int')

            def body(en):
                i = self.read(idx, en)
                el = (L[0], L[1] + (i,))
                if p is None:
                    v = add(self.read(acc, en), self.read(el, en))
                else:
                    v = p([self.tmp(en, self.read(acc, en)), el], en)
                # the sum has the type of the initial value
                self.write(acc, self.narrow(v, ety, strip(f.get('rt', ''))), en)
                return [], en

            def inc(en):
                self.write(idx, add(self.read(idx, en), ONE), en)
            x, r = self.loop(fr, env, lambda en: lt(self.read(idx, en), b.a[1]), body, inc, False)
            if r is not None and r is not env:
                env.clear()
                env.update(r)
            return self.read(acc, env)
        if n in ('min_element', 'max_element'):
            a, b = self.ev(args[0], fr, env), self.ev(args[1], fr, env)
            if a.op != 'iter' or b.op != 'iter' or b.a[0] is not a.a[0]:
                return None
            src = self.itersrc(a, env)
            ph = fresh()
            off = a.a[1]
            if len(args) == 2:
                body = at(src, add(off, ph))
                h = max(body.ht, b.a[1].ht) + 1
                return raw('iter', a.a[0], add(off, raw('arg' + n[:3], h, sub(b.a[1], off), subst(body, {ph: tm.bv(h)}))))
            p2 = fresh()
            p = self.pred(args[2], fr, env)
            en = dict(env)
            c = tobool(p([self.tmp(en, at(src, add(off, ph))), self.tmp(en, at(src, add(off, p2)))], en))
            # key(x) < key(y)
            h = max(c.ht, b.a[1].ht) + 1
            return raw('iter', a.a[0], add(off, raw('arg' + n[:3], h, sub(b.a[1], off), subst(c, {ph: tm.bv(h), p2: raw('other', h)}))))
        if n in ('generate', 'generate_n'):
            a = self.ev(args[0], fr, env)
            b = self.ev(args[1], fr, env)
            if a.op == 'iter' and a.a[0].op == 'lv':
                L = a.a[0].a
                back = a.a[1].op == 'back'
                if n == 'generate' and (b.op != 'iter' or b.a[0] is not a.a[0]):
                    return None
                cnt = b if n == 'generate_n' else sub(b.a[1], a.a[1])
                p = self.pred(args[2], fr, env)
                idx = self.tmp(env, ZERO, 'int')

                def gbody(en):
                    i = self.read(idx, en)
                    v = p([], en)
                    if back:
                        self.write(L, append(self.read(L, en), elem(v)), en)
                    else:
                        self.write((L[0], L[1] + (add(i, a.a[1]),)), v, en)
                    return [], en

                def ginc(en):
                    self.write(idx, add(self.read(idx, en), ONE), en)
                x, r = self.loop(fr, env, lambda en: lt(self.read(idx, en), cnt), gbody, ginc, False)
                fr.pend.extend((c, v) for c, k, v, _ in x if k == 'throw')
                if r is not None and r is not env:
                    env.clear()
                    env.update(r)
                return raw('void')
            return None
        if n in ('copy', 'copy_n'):
            return self.copyrange(args, fr, env, n == 'copy_n')
        if n == 'fill' and len(args) == 3:
            a, b, v = [self.ev(x, fr, env) for x in args]
            if a.op == 'iter' and a.a[0].op == 'lv':
                L = a.a[0].a
                c = self.read(L, env)
                if c.op == 'arr':
                    self.write(L, raw('arr', *[v] * len(c.a)), env)
                else:
                    self.write(L, raw('rep', b.a[1], v), env)
                return raw('void')
            return None
        if n == 'back_inserter':
            L = self.lv(args[0], fr, env)
            return raw('iter', raw('lv', *L), raw('back')) if L else None
        if n == 'adjacent_difference':
            a, b, d = [self.ev(x, fr, env) for x in args[:3]]
            if a.op != 'iter' or d.op != 'iter' or d.a[0].op != 'lv':
                return None
            src = self.itersrc(a, env)
            if b.op != 'iter' or b.a[0] is not a.a[0] or a.a[1] is not ZERO or b.a[1] is not size(src):
                return None
            ph = fresh()
            body = sub(at(src, add(ph, ONE)), at(src, ph))
            L = d.a[0].a
            part = tm.mapcat(sub(size(src), ONE), cat(elem(body)), ph)
            diff = (elem(at(src, ZERO)), *(part.a if part.op == 'cat' else (part,)))
            if d.a[1].op != 'back' and not (d.a[0] is a.a[0] and a.a[1] is d.a[1] is ZERO):
                return None
            self.write(L, append(self.read(L, env), *diff) if d.a[1].op == 'back' else cat(*diff), env)
            return raw('void')
        if n == 'sort':
            a, b = self.ev(args[0], fr, env), self.ev(args[1], fr, env)
            if a.op == 'iter' and a.a[0].op == 'lv' and b.op == 'iter' and b.a[0] is a.a[0] and a.a[1] is ZERO and b.a[1] is size(self.read(a.a[0].a, env)):
                L = a.a[0].a
                v = self.read(L, env)
                if len(args) == 2:
                    self.write(L, raw('sorted', v), env)
                else:
                    x, y = raw('sym', '#x'), raw('sym', '#y')
                    en = dict(env)
                    c = tobool(self.pred(args[2], fr, env)([self.tmp(en, x), self.tmp(en, y)], en))
                    self.write(L, raw('sorted', v, c), env)
                return raw('void')
        if n == 'reverse' and len(args) == 2:
            a = self.ev(args[0], fr, env)
            if a.op == 'iter' and a.a[0].op == 'lv':
                L = a.a[0].a
                self.write(L, raw('reversed', self.read(L, env)), env)
                return raw('void')
        if n == 'make_pair':
            return tm.mkobj('pair', UNDEF, {'first': self.ev(args[0], fr, env), 'second': self.ev(args[1], fr, env)})
        if n in ('make_tuple', 'tie', 'forward_as_tuple'):
            return raw('arr', *[self.ev(a, fr, env) for a in args])
        if n == 'get' and len(args) == 1:
            v = self.ev(args[0], fr, env)
            ty = strip(args[0].get('t', ''))
            if ty.startswith('std::variant'):
                rt = strip(f.get('rt', ''))
                return lift(('get', rt), lambda x: x.a[1] if x.op == 'alt' and x.a[0] == rt else raw('get', x, rt), v)
            L = self.calllv(e, fr, env)
            if L is not None:
                return self.read(L, env)
            ix = self.getidx(f)
            if ix is not None:
                if ty.startswith('std::pair'):
                    return fld(v, ('first', 'second')[ix])
                return at(v, num(ix))
        if n == 'holds_alternative':
            v = self.ev(args[0], fr, env)
            ty = self.alttype(f)
            return tm.holds(v, ty, targs(strip(args[0].get('t', ''))))
        if n == 'visit' and len(args) == 2:
            return self.visit(args, fr, env)
        if n == 'apply' and len(args) == 2:
            c = self.ev(args[0], fr, env)
            L = self.arglv(args[1], fr, env)
            v = self.read(L, env)
            ty = strip(args[1].get('t', ''))
            k = len(targs(ty))
            if c.op == 'clo':
                return self.callclo(c, [(L[0], L[1] + (num(i),)) for i in range(k)], fr, env)
        if n == 'to_string':
            v = self.ev(args[0], fr, env)
            if v.op == 'num' and v.int:
                return raw('str', str(v.a[0]))
            return tm.call('call', ('to_string', v))
        if n in ('operator==', 'operator!=') and len(args) == 2:
            return self.compare(n[8:], self.ev(args[0], fr, env), self.ev(args[1], fr, env))
        if n == 'operator+' and len(args) == 2:
            a, b = self.ev(args[0], fr, env), self.ev(args[1], fr, env)
            if a.op == 'iter' or b.op == 'iter':
                return self.arith('+', a, b, '')
            return self.strcat(a, b)
        if n in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty') and len(args) == 1:
            L = self.arglv(args[0], fr, env)
            v = self.read(L, env)
            if n == 'size':
                return size(v)
            return raw('iter', raw('lv', *L), ZERO if 'begin' in n else size(v))
        if n in ('next', 'prev') and args:
            a = self.ev(args[0], fr, env)
            k = self.ev(args[1], fr, env) if len(args) > 1 else ONE
            return self.advance(a, k if n == 'next' else neg(k))
        if n == 'distance' and len(args) == 2:
            a, b = self.ev(args[0], fr, env), self.ev(args[1], fr, env)
            return sub(b.a[1], a.a[1])
        return None

    def alttype(self, f):
        ta = f.get('ta') or ''
        l = targs('X' + ta) if ta.startswith('<') else []
        return l[0] if l else ta

    def copyrange(self, args, fr, env, is_n=False):
        a, b, d = [self.ev(x, fr, env) for x in args[:3]]
        if a.op != 'iter' or d.op != 'iter' or d.a[0].op != 'lv':
            return None
        src = self.itersrc(a, env)
        L = d.a[0].a
        if d.a[1].op == 'back':
            if not is_n and (b.op != 'iter' or b.a[0] is not a.a[0]):
                return None
            self.write(L, append(self.read(L, env), *self.segment(src, a.a[1], add(a.a[1], b) if is_n else b.a[1])), env)
            return raw('void')
        cnt = b if is_n else sub(b.a[1], a.a[1])
        dst = self.read(L, env)
        if dst.op == 'arr':
            l = list(dst.a)
            for i in range(len(l)):
                j = sub(num(i), d.a[1])
                if j.op == 'num' and j.a[0] < 0:
                    continue
                inr = lt(j, cnt)
                l[i] = mk_ite(inr, at(src, add(j, a.a[1])), l[i])
            self.write(L, raw('arr', *l), env)
        else:
            self.write(L, event(dst, 'copyinto', src, cnt), env)
        return raw('void')

    def visit(self, args, fr, env):
        fn = args[0]
        L = self.arglv(args[1], fr, env)
        v = self.read(L, env)
        ty = strip(args[1].get('t', ''))
        alts = targs(ty)
        c = self.ev(fn, fr, env)

        def callon(x, aty, en):
            t = self.tmp(en, x, aty)
            if c.op == 'clo':
                r = self.callclo_typed(c, t, aty, fr, en)
            else:
                r = tm.call('call', ('visit', c, x))
            return self.read(r.a, en) if r.op == 'lv' else r

        def go(x, en):
            if x.op == 'alt':
                return callon(x.a[1], x.a[0], en)
            if x.op == 'ite':
                return self.gated(atom(x.a[0]), lambda q: go(x.a[1], q), lambda q: go(x.a[2], q), fr, en)

            def chain(i, q):
                if i == len(alts) - 1:
                    return callon(raw('get', x, alts[i]), alts[i], q)
                return self.gated(tm.holds(x, alts[i], alts), lambda r: callon(raw('get', x, alts[i]), alts[i], r), lambda r: chain(i + 1, r), fr, q)
            return chain(0, en)
        return go(v, env)

    def callclo_typed(self, c, L, aty, fr, env):
        cl = self.clos[c.a[1]]
        ops = [self.p.fns[i] for i in cl.node['ops'] if i in self.p.fns]
        for o in ops:
            if strip(o['pt'][0]) == aty:
                return self.callclo(c, [L], fr, env, o['id'])
        if len(ops) == 1:
            return self.callclo(c, [L], fr, env, ops[0]['id'])
        return tm.call('call', ('visit', self.read(L, env)))

    def stdmember(self, n, b, e, f, o, args, fr, env):
        cls = b.rsplit('::', 1)[0]
        isstd = b.startswith('std::') or b.startswith('__gnu_cxx')
        isocc = cls.startswith(('TopExp_Explorer', 'NCollection', 'TopTools'))
        if b == 'TopoDS_Shape::IsNull':
            v = self.ev(o, fr, env)
            if v is NULL:
                return TRUE
            # the shapes this library hands out exist, otherwise it throws
            return FALSE if all(x.op == 'call' and str(x.a[0]).startswith('Frackit::OCCUtilities::') for x in self.leaves(v)) else None
        if b == 'TopoDS_Shape::Nullify':
            L = self.ptrlv(o, fr, env) if e.get('arrow') else self.lv(o, fr, env)
            if L is not None:
                self.write(L, NULL, env)
                return raw('void')
        if not (isstd or isocc or cls.startswith('opencascade')):
            return None

        def OL():
            L = self.ptrlv(o, fr, env) if e.get('arrow') else self.lv(o, fr, env)
            return L if L is not None else self.tmp(env, self.ev(o, fr, env), o.get('t', ''))
        if cls.startswith(SMART):
            if n in ('operator*', 'operator->', 'get') or n.startswith('operator opencascade::handle'):
                L = self.calllv(e, fr, env)
                if L is not None:
                    return self.read(L, env)
                return self.ev(o, fr, env)
            if n == 'operator bool':
                return self.nonnull(self.ev(o, fr, env))
            if n == 'IsNull':
                return lnot(self.nonnull(self.ev(o, fr, env)))
            if n == 'reset':
                L = OL()
                self.write(L, self.ev(args[0], fr, env) if args else NULL, env)
                return raw('void')
        if n == 'operator=' and cls == 'std::variant':
            v = self.ev(args[0], fr, env)
            if not strip(args[0].get('t', '')).startswith('std::variant'):
                v = tm.alt(strip(args[0].get('t', '')), v)
            self.write(OL(), v, env)
            return v
        # iterators
        if n in ('operator++', 'operator--'):
            L = OL()
            v = self.read(L, env)
            w = self.advance(v, ONE if n == 'operator++' else num(-1))
            self.write(L, w, env)
            return v if args else w
        if n in ('operator+=', 'operator-=') and 'iterator' in cls:
            L = OL()
            d = self.ev(args[0], fr, env)
            w = self.advance(self.read(L, env), d if n == 'operator+=' else neg(d))
            self.write(L, w, env)
            return w
        if n in ('operator+', 'operator-') and 'iterator' in cls:
            return self.arith(n[8:], self.ev(o, fr, env), self.ev(args[0], fr, env), '')
        if n in ('operator*', 'operator->'):
            v = self.ev(o, fr, env)
            if v.op == 'iter':
                i = v.a[1]
                if i.op in ('argmin', 'argmax'):
                    body = i.a[2]
                    if any(x.op == 'other' for x in tm.subterms(body)):
                        return at(self.itersrc(v, env), i)
                    ph = fresh()
                    return tm.over(i.op[3:] + 'over', i.a[1], subst(body, {tm.bv(i.a[0]): ph}), ph)
                L = self.iterlv(v, env)
                return self.read(L, env)
            if v.op == 'ite' and all(x.op == 'iter' for x in self.leaves(v)):
                return lift(('derefit', self.newid()), lambda x: self.read(self.iterlv(x, env), env), v)
            return at(v, raw('sym', 'deref'))
        if cls.startswith('TopExp_Explorer') or (isocc and 'Iterator' in cls):
            L = OL()
            v = self.read(L, env)
            if n == 'Init':
                vs = [self.ev(a, fr, env) for a in args]
                self.write(L, raw('iter', raw('explore', *vs), ZERO), env)
                return raw('void')
            if v.op != 'iter':
                return None
            src, i = v.a
            if n == 'More':
                return lt(i, size(src))
            if n == 'Next':
                self.write(L, raw('iter', src, add(i, ONE)), env)
                return raw('void')
            if n in ('Current', 'operator*'):
                return at(src, i)
            if n == 'Value':
                return fld(at(src, i), 'second') if src.op == 'items' or 'DataMap' in cls else at(src, i)
            if n == 'Key':
                return fld(at(src, i), 'first')
            return None
        # containers
        if n in ('begin', 'cbegin'):
            L = OL()
            v = self.read(L, env)
            if 'map' in cls:
                return raw('iter', tm.items(v), ZERO)
            return raw('iter', raw('lv', *L), ZERO)
        if n in ('end', 'cend'):
            L = OL()
            v = self.read(L, env)
            if 'map' in cls:
                return raw('iter', tm.items(v), size(v))
            return raw('iter', raw('lv', *L), size(v))
        if n in ('size', 'Extent', 'Size', 'Length', 'length') and not args:
            return size(self.read(OL(), env))
        if n in ('empty', 'IsEmpty') and not args:
            return le(size(self.read(OL(), env)), ZERO)
        if n in ('operator[]', 'at', 'back', 'front'):
            if n == 'at' and 'map' in cls:
                L = OL()
                k = self.ev(args[0], fr, env)
                fr.pend.append((lnot(tm.haskey(self.read(L, env), k)), raw('thrown')))
                return at(self.read(L, env), k)
            L = self.calllv(e, fr, env)
            if L is not None:
                return self.read(L, env)
            c = self.read(OL(), env)
            return at(c, self.ev(args[0], fr, env)) if args else at(c, ZERO if n == 'front' else sub(size(c), ONE))
        if n in ('First', 'Last') and cls.startswith('NCollection_List'):
            c = self.read(OL(), env)
            return at(c, ZERO if n == 'First' else sub(size(c), ONE))
        if n in ('push_back', 'emplace_back') and isstd:
            L = OL()
            if len(args) == 1:
                v = self.ev(args[0], fr, env)
                et = targs(strip(o.get('t', '')))
                v = self.convelem(v, args[0], et[0] if et else '', fr, env)
            else:
                v = self.emplace(o, args, fr, env)
            self.write(L, append(self.read(L, env), elem(v)), env)
            return v
        if n == 'Append' and cls.startswith('NCollection_List'):
            L = OL()
            v = self.ev(args[0], fr, env)
            c = self.read(L, env)
            c = raw('cat') if c.op == 'sym' and c.a[0].startswith('empty:') else c
            if strip(args[0].get('t', '')).startswith(('TopTools_ListOf', 'NCollection_List')):
                self.write(L, append(c, raw('all', v)), env)
            else:
                self.write(L, append(c, elem(v)), env)
            return raw('void')
        if n in ('reserve', 'shrink_to_fit'):
            return raw('void')
        if n == 'clear' and isstd:
            L = OL()
            self.write(L, self.emptylike(o), env)
            return raw('void')
        if n == 'resize':
            L = OL()
            old, k = self.read(L, env), self.ev(args[0], fr, env)
            d = self.ev(args[1], fr, env) if len(args) > 1 else self.defval((targs(strip(o.get('t', ''))) or [''])[0])
            more = sub(k, size(old))
            if old.op == 'cat' and not old.a:
                self.write(L, raw('rep', k, d), env)
            elif more.op == 'num' and 0 <= more.a[0] <= 8:
                self.write(L, append(old, *[raw('elem', d)] * int(more.a[0])), env)
            else:
                self.write(L, raw('resize', old, k, d), env)
            return raw('void')
        if n in ('insert', 'erase') and len(args) == (2 if n == 'insert' else 1) and 'vector' in cls:
            L = OL()
            a = self.ev(args[0], fr, env)
            v = self.ev(args[1], fr, env) if n == 'insert' else None
            if a.op == 'iter' and a.a[0].op == 'lv':
                old = self.read(L, env)

                def at_(c, i):
                    if n == 'insert' and i is size(c):
                        return append(c, elem(v))
                    if n == 'insert' and i is ZERO:
                        return cat(elem(v), raw('all', c))
                    if i.op == 'num' and c.op == 'cat' and all(q.op == 'elem' for q in c.a) and 0 <= i.a[0] < len(c.a):
                        k = int(i.a[0])
                        return raw('cat', *c.a[:k], *((elem(v), c.a[k]) if n == 'insert' else ()), *c.a[k + 1:])
                    return event(c, n, i, *((v,) if n == 'insert' else ()))
                self.write(L, tm.lift((n, v), at_, old, a.a[1]), env)
                return raw('iter', a.a[0], a.a[1])
        if n == 'insert' and len(args) == 3 and 'vector' in cls:
            L = OL()
            a, x, y = [self.ev(q, fr, env) for q in args]
            if x.op == 'iter' and a.op == 'iter' and y.op == 'iter' and y.a[0] is x.a[0]:
                old, new = self.read(L, env), self.segment(self.itersrc(x, env), x.a[1], y.a[1])
                if a.a[1] is ZERO and not (old.op == 'cat' and not old.a):
                    self.write(L, cat(*new, raw('all', old)), env)
                elif a.a[1] is size(old):
                    self.write(L, append(old, *new), env)
                else:
                    self.write(L, event(old, 'insert', a.a[1], cat(*new)), env)
                return raw('void')
        if n == 'find' and ('map' in cls or 'set' in cls):
            L = OL()
            k = self.ev(args[0], fr, env)
            v = self.read(L, env)
            return raw('iter', raw('lv', *L), raw('keyidx', v, k))
        if n in ('count', 'contains', 'IsBound', 'Contains') and len(args) == 1:
            v, k = self.read(OL(), env), self.ev(args[0], fr, env)
            if cls.startswith('NCollection_List'):
                ph = fresh()
                return tm.exists(size(v), tobool(tm.call('call', ('TopoDS_Shape::IsEqual', at(v, ph), k))) if 'TopoDS_Shape' in cls or 'ListOfShape' in cls else eq(at(v, ph), k), ph)
            c = tm.haskey(v, k)
            return c if n != 'count' else mk_ite(c, ONE, ZERO)
        if n in ('emplace', 'insert', 'insert_or_assign', 'Bind', 'try_emplace') and 'ap' in cls:
            L = OL()
            if len(args) == 1:
                p = self.ev(args[0], fr, env)
                k, v = fld(p, 'first'), fld(p, 'second')
            else:
                k, v = self.ev(args[0], fr, env), self.ev(args[1], fr, env)
            if n in ('insert_or_assign', 'Bind'):
                self.write(L, event(self.read(L, env), '[]=', k, v), env)
            else:
                self.write(L, event(self.read(L, env), 'insert', k, v), env)
            return raw('opaque', 'ins')
        if n == 'Find' and cls.startswith('NCollection_DataMap'):
            m = self.read(OL(), env)
            k = self.ev(args[0], fr, env)
            if len(args) == 2:
                D = self.lv(args[1], fr, env)
                has = tm.haskey(m, k)
                if D is not None:
                    self.write(D, mk_ite(has, at(m, k), self.read(D, env)), env)
                return has
            return at(m, k)
        if n in ('Add',) and cls.startswith('NCollection_IndexedMap'):
            L = OL()
            v = self.read(L, env)
            k = self.ev(args[0], fr, env)
            self.write(L, event(v, 'Add', k), env)
            return raw('call', 'IndexedMap::Add', v, k, 'i')
        if n in ('operator()', 'FindKey') and cls.startswith('NCollection_IndexedMap'):
            return at(self.read(OL(), env), sub(self.ev(args[0], fr, env), ONE))
        if n in ('FindIndex',):
            return raw('call', 'FindIndex', self.read(OL(), env), self.ev(args[0], fr, env), 'i')
        if n == 'erase':
            L = OL()
            vs = [self.ev(a, fr, env) for a in args]
            self.write(L, event(self.read(L, env), 'erase', *[v.a[1] if v.op == 'iter' else v for v in vs]), env)
            return raw('opaque', 'erase')
        if n in ('c_str', 'str', 'data') and not args:
            return self.ev(o, fr, env)
        if n == 'operator+=' and 'string' in cls:
            L = OL()
            self.write(L, self.strcat(self.read(L, env), self.ev(args[0], fr, env)), env)
            return self.read(L, env)
        if n == 'operator()' and 'distribution' in cls:
            L = OL()
            v = self.read(L, env)
            root = v
            while root.op == 'st':
                root = root.a[0]
            extra = []
            for a in args:
                at_ = strip(a.get('t', ''))
                A = self.arglv(a, fr, env)
                if 'engine' in at_:
                    self.write(A, event(self.read(A, env), 'draw'), env)
                else:
                    extra.append(self.read(A, env))
            k = self.ndraw.get(root, 0)
            self.ndraw[root] = k + 1
            isint = 'int_distribution' in cls
            for tag in self.iters:
                tag[1] = True
            return raw('call', 'draw', root, num(k), *[t[0] for t in self.iters], *extra, *(['i'] if isint else []))
        return None

    def convelem(self, v, a, et, fr, env):
        """emplace_back(x) converts x to the element type"""
        at_ = strip(a.get('t', ''))
        if et.startswith('std::variant') and not at_.startswith('std::variant'):
            return tm.alt(at_, v)
        if et and et != at_ and et in self.p.recq and at_ not in ('', et) and not at_.startswith('std::'):
            cs = [c for c in self.p.fns.values() if c.get('ctor') and c.get('clsname') == et and len(c['params']) == 1 and strip(c['pt'][0]) == at_]
            if cs:
                T_ = self.tmp(env, raw('obj', et, UNDEF, ()), et)
                self.inline(cs[0], [self.tmp(env, v, at_)], T_, fr, env, [])
                return self.read(T_, env)
        return v

    def emplace(self, o, args, fr, env):
        et = (targs(strip(o.get('t', ''))) or [''])[0]
        vs = [self.ev(a, fr, env) for a in args]
        if et.startswith('std::pair') and len(vs) == 2:
            return tm.mkobj('pair', UNDEF, {'first': vs[0], 'second': vs[1]})
        rec = self.p.recq.get(et)
        if rec:
            cs = [c for c in self.p.fns.values() if c.get('ctor') and c.get('clsname') == et and len(c['params']) == len(vs) and (c.get('body') is not None or c.get('inits'))]
            if len(cs) > 1:
                tys = [strip(a.get('t', '')) for a in args]
                cs = [c for c in cs if [strip(p) for p in c['pt']] == tys] or cs
            if cs and not self.opaque(cs[0]):
                T_ = self.tmp(env, raw('obj', et, UNDEF, ()), et)
                self.inline(cs[0], [self.tmp(env, v, strip(a.get('t', ''))) for v, a in zip(vs, args)], T_, fr, env, [])
                return self.read(T_, env)
        return tm.call('call', ('new ' + et, *vs))

    def emptylike(self, o):
        t = strip(o.get('t', ''))
        d = self.default(t)
        return d if d is not None else raw('sym', 'empty:' + t)
