"""Gated value numbering of the resolved program: maps every function to normalised terms.

One pass over the statements; joins build decision diagrams (no path enumeration, no
solver), repo callees are inlined, library callees are uninterpreted functions, loops are
summarised by classifying what happens to each carried variable.
"""
import re
from . import terms as tm
from .terms import (T, TRUE, FALSE, UNDEF, NULL, ZERO, ONE, raw, num, add, sub, mul, div, neg, lt, le, eq, lnot, land, lor,
                    mk_ite, tobool, atom, fld, setfld, at, setat, size, append, elem, cat, event, mkst, lift, fresh, subst)
from .program import is_int, is_bool, strip, targs

VOID = raw('void')
INF = raw('sym', 'inf')

PURE_NC = {'BRepAlgoAPI_Algo::Shape', 'BRepBuilderAPI_MakeShape::Shape', 'BRepBuilderAPI_MakeEdge::operator TopoDS_Edge',
           'BRepBuilderAPI_MakeWire::operator TopoDS_Wire', 'BRepBuilderAPI_MakeFace::operator TopoDS_Face', 'BRepAlgoAPI_BuilderAlgo::Generated',
           'BRepAlgoAPI_BuilderAlgo::Modified', 'BRepAlgoAPI_BuilderAlgo::IsDeleted', 'BRepPrimAPI_MakeCylinder::Cylinder', 'BRepPrim_OneAxis::LateralFace',
           'opencascade::handle::operator->', 'BRepBuilderAPI_MakeShape::Modified', 'BRepBuilderAPI_MakeShape::Generated', 'BRepBuilderAPI_MakeShape::IsDeleted'}
ENUMOK = {}


class Closure:
    def __init__(self, frame, node, snap):
        self.frame, self.node, self.snap = frame, node, snap


class Frame:
    n = 0

    def __init__(self, fn, parent=None):
        Frame.n += 1
        self.id = 'f%d' % Frame.n
        self.fn = fn
        self.vars = {}
        self.this = parent.this if parent else None
        self.parent = parent
        self.pend = []
        self.copies = {}

    def lookup(self, did):
        f = self
        while f is not None:
            if did in f.copies:
                return f.copies[did]
            if did in f.vars:
                return f.vars[did]
            f = f.parent
        return None


class Result:
    def __init__(self, value, throws, this, env, ev, outs, cond_throw):
        self.value, self.throws, self.this, self.env, self.ev, self.outs = value, throws, this, env, ev, outs
        self.cond_throw = cond_throw

    def full(self):
        return mk_ite(self.cond_throw, raw('throw'), self.value)


class Undecided(Exception):
    pass


from .expr import ExprMixin      # noqa: E402


class Evaluator(ExprMixin):
    MAXDEPTH = 40

    def __init__(self, prog, opaque=None, inline_only=None, purecalls=None):
        self.p = prog
        self.opaque = opaque or (lambda f: False)
        self.writes = []
        self.ctype = {}
        self.stack = []
        self.clos = {}
        self.ndraw = {}
        self.iters = []
        self.made = set()
        self.dyn = {}            # dynamic types of opaque objects that were copied to the heap
        self.warn = []
        self.alias = {}          # names under which opaque calls are recorded
        self.calls = []          # (b, args, recv) of opaque repo calls in evaluation order
        self.steps = 0

    # ---------------------------------------------------------------- env
    def cell(self, fr, did, ty=None):
        c = fr.id + ':' + did
        self.ctype[c] = ty or ''
        return c

    def tmp(self, env, v, ty=''):
        Frame.n += 1
        c = 't%d' % Frame.n
        self.ctype[c] = ty
        env[c] = v
        return (c, ())

    def read(self, L, env):
        v = env.get(L[0])
        if v is None:
            return raw('undef', 'cell')
        for p in L[1]:
            v = fld(v, p) if isinstance(p, str) else self.atkey(v, p)
        return v

    def atkey(self, v, p):
        if p.op == 'keyidx':
            k = p.a[1]
            return tm.mkobj('pair', UNDEF, {'first': k, 'second': at(v, k)})
        if p.op in ('argmin', 'argmax') and False:
            pass
        return at(v, p)

    def write(self, L, v, env):
        c, path = L
        pre = []
        for x in path:
            if not isinstance(x, str):
                break
            pre.append(x)
        for w in self.writes:
            w.add((c, tuple(pre)))
        old = env.get(c, UNDEF)
        env[c] = self._upd(old, path, v)

    def _upd(self, old, path, v):
        if not path:
            return v
        p = path[0]
        if isinstance(p, str):
            inner = self._upd(fld(old, p), path[1:], v) if len(path) > 1 else v
            return lift(('setfld', p, inner), lambda o: setfld(o, p, inner, ''), old) if old.op == 'ite' else setfld(old, p, inner, '')
        if p.op == 'keyidx':
            if len(path) > 1 and path[1] == 'second':
                k = p.a[1]
                inner = self._upd(at(old, k), path[2:], v)
                return setat(old, k, inner)
            return old
        inner = self._upd(at(old, p), path[1:], v) if len(path) > 1 else v
        return setat(old, p, inner)

    def merge(self, c, e1, e2):
        if e1 is e2:
            return e1
        out = dict(e2)
        for k, v in e1.items():
            w = e2.get(k)
            if w is None:
                out[k] = v
            elif v is not w:
                out[k] = mk_ite(c, v, w)
        return out

    # ---------------------------------------------------------------- entry points
    def call_fn(self, fn, args=(), this=None, env=None, argenv=None):
        """evaluate fn on terms args; returns Result"""
        env = {} if env is None else env
        fr = Frame(None)
        lvs = []
        for i, a in enumerate(args):
            if isinstance(a, tuple):
                lvs.append(a)
            else:
                lvs.append(self.tmp(env, a, fn['pt'][i] if i < len(fn['pt']) else ''))
        thislv = None
        if this is not None:
            thislv = this if isinstance(this, tuple) else self.tmp(env, this)
        if fn.get('ctor') and thislv is None:
            thislv = self.tmp(env, UNDEF)
        val = self.inline(fn, lvs, thislv, fr, env, [])
        if fn.get('ctor'):
            val = self.read(thislv, env)
        elif val.op == 'lv':
            val = self.read(val.a, env)
        elif val.op == 'ite':
            val = lift('rdlv%d' % id(env), lambda x: self.read(x.a, env) if x.op == 'lv' else x, val)
        throws, ct, reach = [], FALSE, TRUE
        for c, t in fr.pend:
            e = land(reach, c)
            throws.append((e, t))
            ct = lor(ct, e)
            reach = land(reach, lnot(c))
        return Result(val, throws, self.read(thislv, env) if thislv else None, env, self, [self.read(l, env) for l in lvs], ct)

    def defarg(self, fn, i, fr, env):
        p = fn['params'][i]
        if p.get('def') is None:
            raise Undecided('missing argument')
        return self.ev(p['def'], fr, env)

    def inline(self, fn, lvs, thislv, caller, env, args):
        """lvs: lvalues (cell,path) of the arguments"""
        if len(self.stack) > self.MAXDEPTH or self.stack.count(fn['id']) > 2:
            raise Undecided('recursion in ' + fn['q'])
        self.stack.append(fn['id'])
        fr = Frame(fn)
        fr.this = thislv
        try:
            for i, p in enumerate(fn['params']):
                if i >= len(lvs):
                    fr.vars[p['id']] = self.tmp(env, self.defarg(fn, i, fr, env), p['type'])
                    continue
                if p['type'].rstrip().endswith('&'):
                    fr.vars[p['id']] = lvs[i]
                else:
                    v = self.conv(self.read(lvs[i], env), p['type'])
                    fr.vars[p['id']] = self.tmp(env, v, p['type'])
            return self.run_body(fn, fr, caller, env)
        finally:
            self.stack.pop()

    def conv(self, v, ty):
        return v

    def run_body(self, fn, fr, caller, env):
        ex = []
        if fn.get('ctor') and (fn.get('defaulted') or fn.get('inits')):
            self.ctor_inits(fn, fr, env, ex)
        body = fn.get('body')
        cont = env
        if body is not None:
            saved = env
            work = dict(env)
            ex2, cont = self.exec(body, fr, work)
            ex += ex2
        ret, reach = None, TRUE
        val, accenv = (VOID, cont) if cont is not None else (None, None)
        for c, k, v, e in ex:
            if k == 'throw':
                caller.pend.append((land(reach, c), v))
            reach = land(reach, lnot(c))
        for c, k, v, e in reversed(ex):
            if k == 'return':
                if val is None:
                    val, accenv = v, e
                else:
                    val = mk_ite(c, v, val)
                    accenv = self.merge(c, e, accenv)
        if val is None:
            val = raw('undef', 'noreturn')
        if accenv is not None and accenv is not env:
            env.clear()
            env.update(accenv)
        return val

    def ctor_inits(self, fn, fr, env, ex):
        this = fr.this
        rec = self.p.recs.get(fn['cls'])
        cls = fn.get('clsname', '')
        done = set()
        for i in fn.get('inits') or []:
            if 'field' in i or i.get('name'):
                n = i.get('name') or i.get('field')
                if i.get('init') is None:
                    continue
                v = self.ev(i['init'], fr, env)
                cur = env.get(this[0])
                self.write((this[0], this[1] + (n,)), v, env)
                done.add(n)
                if i.get('written') is False and i['init'].get('k') == 'construct' and False:
                    pass
            else:
                # base or delegating initialiser
                e = i.get('init')
                if e is None:
                    continue
                v = self.ev(e, fr, env, target=this)
                if v is not None and e.get('k') in ('construct', 'inhctor'):
                    pass
            for c, t in fr.pend:
                ex.append((c, 'throw', t, None))
            fr.pend = []
        v = self.read(this, env)
        if v.op == 'obj' and not v.a[0]:
            env_v = raw('obj', cls, v.a[1], v.a[2])
            self.write(this, env_v, env)
        elif v.op == 'undef':
            self.write(this, raw('obj', cls, UNDEF, ()), env)

    # ---------------------------------------------------------------- statements
    def drain(self, fr, ex, env):
        for c, t in fr.pend:
            ex.append((c, 'throw', t, env))
        fr.pend = []

    def exec(self, s, fr, env):
        """returns (exits, env or None); exits: ordered (cond, kind, value, env)"""
        if s is None:
            return [], env
        k = s['k']
        self.steps += 1
        if self.steps > 400000:
            raise Undecided('too many steps')
        ex = []
        if k == 'block':
            cur = env
            for st in s['s']:
                e2, cur2 = self.exec(st, fr, cur)
                ex += e2
                cur = cur2
                if cur is None:
                    return ex, None
            return ex, cur
        if k == 'null':
            return ex, env
        if k == 'expr':
            self.ev(s['e'], fr, env)
            self.drain(fr, ex, env)
            if s['e'] and s['e'].get('k') == 'throw':
                return ex, None
            return ex, env
        if k == 'decl':
            for v in s['v']:
                self.decl(v, fr, env)
                self.drain(fr, ex, env)
            return ex, env
        if k == 'return':
            v = VOID
            if s.get('e') is not None:
                rt = (fr.fn or {}).get('rt', '') if fr.fn else ''
                L = None
                if rt.rstrip().endswith('&') and not rt.rstrip().endswith('&&'):
                    L = self.lv(s['e'], fr, env)
                v = raw('lv', *L) if L else self.ev(s['e'], fr, env)
            self.drain(fr, ex, env)
            ex.append((TRUE, 'return', v, env))
            return ex, None
        if k in ('break', 'continue'):
            return [(TRUE, k, None, env)], None
        if k == 'if':
            if s.get('init'):
                e2, env = self.exec(s['init'], fr, env)
                ex += e2
            if s.get('cvar'):
                e2, env = self.exec(s['cvar'], fr, env)
                ex += e2
            c = tobool(self.ev(s['c'], fr, env))
            self.drain(fr, ex, env)
            if c is TRUE:
                e2, r = self.exec(s['t'], fr, env)
                return ex + e2, r
            if c is FALSE:
                e2, r = self.exec(s.get('f'), fr, env)
                return ex + e2, r
            return self.branch(c, lambda e: self.exec(s['t'], fr, e), lambda e: self.exec(s.get('f'), fr, e), env, ex)
        if k in ('while', 'for', 'do', 'rfor'):
            return self.loopstmt(s, fr, env)
        if k == 'switch':
            return self.switch(s, fr, env)
        if k == 'try':
            e2, r = self.exec(s['b'], fr, dict(env))
            out = []
            rs = [(TRUE, r)] if r is not None else []
            hdl = s['h'][0] if s['h'] else None
            for c, kd, v, e in e2:
                if kd == 'throw' and hdl:
                    he = dict(e if e is not None else env)
                    if hdl.get('v'):
                        fr.vars[hdl['v']['id']] = self.tmp(he, v)
                    e3, r3 = self.exec(hdl['b'], fr, he)
                    out += [(land(c, c3), k3, v3, e_) for c3, k3, v3, e_ in e3]
                    if r3 is not None:
                        rs.append((c, r3))
                else:
                    out.append((c, kd, v, e))
            if not rs:
                return ex + out, None
            cur = rs[0][1]
            for c, r3 in rs[1:]:
                cur = self.merge(c, r3, cur)
            return ex + out, cur
        if k in ('case', 'default'):
            return self.exec(s['s'], fr, env)
        raise Undecided('statement ' + k)

    def branch(self, c, f1, f2, env, ex):
        ea, eb = dict(env), dict(env)
        xa, ra = f1(ea)
        xb, rb = f2(eb)
        nc = lnot(c)
        ex = ex + [(land(c, y[0]),) + y[1:] for y in xa] + [(land(nc, y[0]),) + y[1:] for y in xb]
        if ra is None:
            return ex, rb
        if rb is None:
            return ex, ra
        return ex, self.merge(c, ra, rb)

    def switch(self, s, fr, env):
        ex = []
        if s.get('init'):
            e2, env = self.exec(s['init'], fr, env)
            ex += e2
        v = self.ev(s['c'], fr, env)
        self.drain(fr, ex, env)
        groups, cur = [], None
        for st in s['b']['s']:
            labels = []
            while st and st['k'] in ('case', 'default'):
                labels.append(None if st['k'] == 'default' else self.ev(st['v'], fr, env))
                st = st['s']
            if labels:
                cur = [labels, []]
                groups.append(cur)
            if st is not None and cur is not None:
                cur[1].append(st)
        conds, other = [], TRUE
        for labels, _ in groups:
            c = lor(*[eq(v, l) for l in labels if l is not None])
            conds.append(c)
            other = land(other, lnot(c))
        conds = [lor(c, other) if None in g[0] else c for c, g in zip(conds, groups)]

        def from_(i, e):
            out = []
            for g in groups[i:]:
                for st in g[1]:
                    e2, e = self.exec(st, fr, e)
                    out += e2
                    if e is None:
                        return out, None
            return out, e

        rest = (TRUE, dict(env))
        res_x, res_env = [], dict(env)
        for i in reversed(range(len(groups))):
            if conds[i] is FALSE:
                continue
            xi, ei = from_(i, dict(env))
            brk = [y for y in xi if y[1] == 'break']
            keep = [y for y in xi if y[1] != 'break']
            for y in brk:
                ei = y[3] if ei is None else self.merge(y[0], y[3], ei)
            c = conds[i]
            res_x = [(land(c, y[0]),) + y[1:] for y in keep] + [(land(lnot(c), y[0]),) + y[1:] for y in res_x]
            if c is TRUE:
                res_env = ei
            elif ei is not None:
                res_env = ei if res_env is None else self.merge(c, ei, res_env)
        return ex + res_x, res_env

    def bindings(self, v, fr, env):
        for b in v.get('bindings') or ():
            if b.get('hv') and b.get('hinit') is not None:
                self.decl({'id': b['hv'], 'name': b['name'], 'type': '&', 'init': b['hinit']}, fr, env)

    def decl(self, v, fr, env):
        ty = v['type']
        if v.get('static') and not v.get('bindings') and not re.match(r'(const\b|.*\bconst$)', ty.strip()) and not re.search(r'random|engine|distribution|&', ty):
            # the value left by an earlier call
            c = self.cell(fr, v['id'], ty)
            env[c] = raw('sym', 'earlier ' + v['name'])
            if is_int(ty):
                env[c] = self.typed(env[c], ty)
            fr.vars[v['id']] = (c, ())
            return
        if v.get('bindings'):
            self.decl({**v, 'bindings': None}, fr, env)
            self.bindings(v, fr, env)
            return
        if ty.rstrip().endswith('&') and v.get('init') is not None:
            L = self.lv(v['init'], fr, env)
            if L is None:
                L = self.tmp(env, self.ev(v['init'], fr, env), ty)
            fr.vars[v['id']] = L
            return
        c = self.cell(fr, v['id'], ty)
        if v.get('init') is not None:
            val = self.ev(v['init'], fr, env)
        else:
            val = UNDEF
        env[c] = val
        for w in self.writes:
            w.add((c, ()))
        fr.vars[v['id']] = (c, ())

    # ---------------------------------------------------------------- loops
    def loopstmt(self, s, fr, env):
        k = s['k']
        ex = []
        if k == 'for':
            if s.get('init'):
                e2, env = self.exec(s['init'], fr, env)
                ex += e2
            cond = (lambda e: tobool(self.ev(s['c'], fr, e))) if s.get('c') else always
            inc = (lambda e: self.ev(s['inc'], fr, e)) if s.get('inc') else None
            body = lambda e: self.exec(s['b'], fr, e)
            e2, r = self.loop(fr, env, cond, body, inc, False)
        elif k == 'while':
            def cond(e):
                if s.get('cvar'):
                    self.exec(s['cvar'], fr, e)
                return tobool(self.ev(s['c'], fr, e))
            if s['c'].get('k') == 'bool' and s['c'].get('v'):
                cond = always
            e2, r = self.loop(fr, env, cond, lambda e: self.exec(s['b'], fr, e), None, False)
        elif k == 'do':
            e2, r = self.loop(fr, env, lambda e: tobool(self.ev(s['c'], fr, e)), lambda e: self.exec(s['b'], fr, e), None, True)
        else:
            L = self.lv(s['r'], fr, env)
            if L is None:
                L = self.tmp(env, self.ev(s['r'], fr, env))
            self.drain(fr, ex, env)
            e2, r = self.rangeloop(fr, env, L, ZERO, None, s['v'], lambda e: self.exec(s['b'], fr, e))
        return ex + e2, r

    def rangeloop(self, fr, env, L, lo, hi, var, body):
        c = self.read(L, env)
        ismap = var is not None and ('std::pair<const' in var['type'])
        idx = self.tmp(env, lo, 'int')
        # the container is not resized while it is traversed (C++ forbids it)
        n = hi if hi is not None else size(c)

        def bd(e):
            i = self.read(idx, e)
            if var is not None:
                if ismap:
                    it = at(tm.items(self.read(L, e)) if self.read(L, e).op != 'cat' else self.read(L, e), i)
                    el = self.tmp(e, tm.mkobj('pair', UNDEF, {'first': fld(it, 'first'), 'second': fld(it, 'second')}))
                    fr.vars[var['id']] = el
                    if var['type'].rstrip().endswith('&') and 'const std::pair' not in var['type']:
                        self.bindings(var, fr, e)
                        e2, r = body(e)
                        self.writeback(L, el, fld(it, 'first'), fld(it, 'second'), r)
                        for y in e2:
                            if isinstance(y[3], dict):
                                self.writeback(L, el, fld(it, 'first'), fld(it, 'second'), y[3])
                        return e2, r
                elif var['type'].rstrip().endswith('&'):
                    fr.vars[var['id']] = (L[0], L[1] + (i,))
                else:
                    cc = self.cell(fr, var['id'], var['type'])
                    e[cc] = at(self.read(L, e), i)
                    fr.vars[var['id']] = (cc, ())
                self.bindings(var, fr, e)
            return body(e)

        def inc(e):
            self.write(idx, add(self.read(idx, e), ONE), e)
        return self.loop(fr, env, lambda e: lt(self.read(idx, e), n), bd, inc, False)

    def writeback(self, L, el, key, old, env):
        """assignments to the value of a map entry through the loop variable"""
        if env is None:
            return
        new = self.read((el[0], el[1] + ('second',)), env)
        if new is not old:
            self.write((L[0], L[1] + (key,)), new, env)

    def one_iter(self, fr, env, cond, body, inc):
        """returns (exits, env|None, cond)"""
        ex = []
        c = cond(env) if cond else TRUE
        self.drain(fr, ex, env)
        e2, r = body(env)
        ex += e2
        conts = [y for y in ex if y[1] == 'continue']
        if conts:
            # fold continues into the normal end (ordered, first match wins)
            out, acc = [], r
            reach = TRUE
            seq = []
            for y in ex:
                seq.append((land(reach, y[0]), y))
                reach = land(reach, lnot(y[0]))
            for ec, y in reversed(seq):
                if y[1] == 'continue':
                    acc = y[3] if acc is None else self.merge(ec, y[3], acc)
            ex = [(ec,) + y[1:] for ec, y in seq if y[1] != 'continue']
            r = acc
        if r is not None and inc:
            inc(r)
            self.drain(fr, ex, r)
        return ex, r, c

    def loop(self, fr, env, cond, body, inc, dowhile):
        r = self.unroll(fr, env, cond, body, inc, dowhile)
        if r is not None:
            return r
        return self.summarise(fr, env, cond, body, inc, dowhile)

    def unroll(self, fr, env, cond, body, inc, dowhile, limit=9):
        cur = dict(env)
        ex = []
        first = True
        saved_draw = dict(self.ndraw)
        savedpend = list(fr.pend)
        ncalls = len(self.calls)
        brks = []
        try:
            for n in range(limit + 1):
                if not (dowhile and first):
                    probe = dict(cur)
                    np = len(fr.pend)
                    c = cond(probe)
                    if c not in (TRUE, FALSE) or len(fr.pend) > np:
                        if not first or True:
                            raise _NoUnroll()
                    if first and c is TRUE and cond.__name__ == 'always':
                        raise _NoUnroll()
                    cur = probe
                    if c is FALSE:
                        break
                elif dowhile and first:
                    raise _NoUnroll()
                if n == limit:
                    raise _NoUnroll()
                first = False
                x, cur, _ = self.one_iter(fr, cur, None, body, inc)
                ex += x
                if cur is None:
                    break
                if any(y[1] == 'break' for y in x) and n > 7:
                    raise _NoUnroll()
        except _NoUnroll:
            self.ndraw = saved_draw
            fr.pend = savedpend
            del self.calls[ncalls:]
            return None
        if any(y[1] == 'break' for y in ex):
            reach, acc = TRUE, cur
            seq = []
            for y in ex:
                seq.append((land(reach, y[0]), y))
                reach = land(reach, lnot(y[0]))
            for ec, y in reversed(seq):
                if y[1] == 'break':
                    acc = y[3] if acc is None else self.merge(ec, y[3], acc)
            return [(ec,) + y[1:] for ec, y in seq if y[1] != 'break'], acc
        return ex, cur

    def summarise(self, fr, env, cond, body, inc, dowhile):
        ex0 = []
        M = set()
        saved_draw = dict(self.ndraw)
        for _ in range(12):
            self.ndraw = dict(saved_draw)
            ncalls = len(self.calls)
            e = dict(env)
            phs = self.place(M, env, e)
            w = set()
            self.writes.append(w)
            sp, fr.pend = fr.pend, []
            tag = [fresh('i'), False]           # number of the iteration, for the random draws in the body
            self.iters.append(tag)
            try:
                x, r, c = self.one_iter(fr, e, None if dowhile else cond, body, inc)
                if dowhile and r is not None:
                    c = cond(r)
                    self.drain(fr, x, r)
            finally:
                self.writes.pop()
                self.iters.pop()
                fr.pend = sp
            new = {(cc, p) for cc, p in w if cc in env}
            # keep shortest prefixes
            allm = M | new
            red = {(cc, p) for cc, p in allm if not any(c2 == cc and len(p2) < len(p) and p[:len(p2)] == p2 for c2, p2 in allm)}
            if red == M:
                break
            M = red
            del self.calls[ncalls:]
        else:
            raise Undecided('loop does not stabilise')
        carried = [L for L in sorted(M, key=lambda L: (L[0], L[1])) if L in phs]
        return self.classify(fr, env, phs, carried, x, r, c, dowhile, tag[0] if tag[1] else None)

    def place(self, M, env, e):
        phs = {}
        for L in sorted(M, key=lambda L: (L[0], L[1])):
            v0 = self.read(L, env)
            if v0.op == 'iter':
                p = fresh('i')
                v = raw('iter', v0.a[0], p)
            elif v0 in (TRUE, FALSE) or (v0.op == 'ite' and tm._isboolbdd(v0)):
                p = fresh('o')
                v = atom(p)
            else:
                ty = self.ctype.get(L[0], '') if not L[1] else None
                isint = is_int(strip(ty)) if ty is not None else tm.FLDKIND.get(L[1][-1]) == 'i'
                p = fresh('i' if isint else 'o')
                v = p
                if v0.op == 'arr' :
                    ps = [fresh('o') for _ in v0.a]
                    v = raw('arr', *ps)
                    e[L[0]] = self._upd(e[L[0]], L[1], v)
                    phs[L] = (tuple(ps), v0, v)
                    continue
            e[L[0]] = self._upd(e[L[0]], L[1], v)
            phs[L] = (p, v0, v)
        return phs

    def classify(self, fr, env, phs, carried, x, r, C, dowhile, tag=None):
        # variables: list of (key, ph, init, next, setter)
        V = {}

        def rd(L, e):
            return self.read(L, e) if e is not None else None
        comps = []
        for L in carried:
            p, v0, v = phs[L]
            if isinstance(p, tuple):
                for i, q in enumerate(p):
                    comps.append((L, i, q, v0.a[i]))
            else:
                comps.append((L, None, p, v0.a[1] if v0.op == 'iter' else v0))

        def val(comp, e):
            L, i, q, v0 = comp
            v = rd(L, e)
            if i is not None:
                return v.a[i] if v.op == 'arr' and i < len(v.a) else raw('at', v, num(i))
            if phs[L][1].op == 'iter':
                return v.a[1] if v.op == 'iter' else v
            return v
        allph = {c[2] for c in comps}
        # effective exits
        reach, exits = TRUE, []
        for y in x:
            exits.append((land(reach, y[0]), y[1], y[2], y[3]))
            reach = land(reach, lnot(y[0]))
        # next values are under 'reach'
        nxt = {}
        for comp in comps:
            nxt[comp] = val(comp, r) if r is not None else comp[2]
            if comp[2].op == 'ph' and nxt[comp].op == 'ite' and reach is not TRUE and tm.atoms_of(reach):
                pass
        # induction variables
        ind = {}
        for comp in comps:
            p = comp[2]
            if nxt[comp] is p or nxt[comp].op in ('true', 'false'):
                continue
            if not tm._isnum(nxt[comp]) or nxt[comp].op == 'ite' and True:
                continue
            try:
                d = sub(nxt[comp], p)
            except Exception:
                continue
            if not (d._ph & allph) and d.op == 'num':
                ind[comp] = d.a[0]
        # unmodified on the continuing path
        same = {comp for comp in comps if nxt[comp] is comp[2] or nxt[comp] is atom(comp[2])}
        sm = {}
        for comp in same:
            sm[comp[2]] = comp[3]
        # assigning elements of a sequence keeps its size
        def keeps(t, p):
            if t.op == 'ite':
                return keeps(t.a[1], p) and keeps(t.a[2], p)
            return t is p or t.op == 'st' and all(e.op == 'ev' and e.a[0] == '[]=' for e in t.a[1]) and keeps(t.a[0], p)
        szs = {}
        for comp in comps:
            p = comp[2]
            if comp[1] is None and comp not in same and isinstance(nxt[comp], T) and 'map' not in (self.ctype.get(comp[0][0], '') or '') and comp[3].op in ('sym', 'cat', 'arr', 'rep') and keeps(nxt[comp], p):
                szs[raw('size', p)] = tm.size(comp[3])
        if szs:
            sz = lambda t: subst(t, szs) if isinstance(t, T) else t
            C, reach = sz(C), sz(reach)
            exits = [(sz(y[0]), y[1], sz(y[2]), y[3]) for y in exits]
            nxt = {k: sz(v) for k, v in nxt.items()}
        # primary induction variable from the condition
        prim = None
        extra = TRUE
        if not dowhile:
            Cs = subst(C, sm)
            prim, count, extra = self.bound(Cs, {c[2]: (c, k) for c, k in ind.items()}, allph)
        if prim is None:
            if tag is not None:
                tg = {tag: raw('sym', '#any', 'i')}
                sb = lambda t: subst(t, tg) if isinstance(t, T) else t
                se = lambda e: {k: sb(v) for k, v in e.items()} if e is not None else None
                x = [(sb(y[0]), y[1], sb(y[2]), se(y[3])) for y in x]
                exits = [(sb(y[0]), y[1], sb(y[2]), se(y[3])) for y in exits]
                nxt = {k: sb(v) for k, v in nxt.items()}
                r, C = se(r), sb(C)
            return self.generic_loop(fr, env, phs, comps, val, exits, nxt, C, dowhile, allph, sm, r, x)
        comp, step = prim
        iv = fresh('i')
        m = dict(sm)
        if tag is not None:
            m[tag] = iv
        fwd = step > 0
        pos = iv if fwd else sub(sub(count, ONE), iv)
        for c2, k in ind.items():
            m[c2[2]] = add(c2[3], mul(num(k), pos))
        sb = lambda t: subst(t, m)
        extra = sb(extra)
        exits = [(sb(c), k, sb(v) if isinstance(v, T) else v, e) for c, k, v, e in exits]
        if extra is not TRUE:
            exits = [(lnot(extra), 'break', None, None)] + [(land(extra, c), k, v, e) for c, k, v, e in exits]
        rest = [c for c in comps if c not in ind and c not in same]
        restph = {c[2] for c in rest}
        anyexit = lor(*[c for c, k, v, e in exits]) if exits else FALSE
        out_exits, finals = [], {}
        dep_exit = bool(anyexit._ph & restph)
        kinds = [k for c, k, v, e in exits]
        stop = None
        nx = {c: sb(nxt[c]) for c in rest}
        if dep_exit:
            # early exit decided by state which the loop itself accumulates
            stop = anyexit
        full = {c: self.fold(c, nx, rest, count, iv, stop, allph) for c in rest}
        if not dep_exit:
            E = tm.exists(count, anyexit, iv) if anyexit is not FALSE else FALSE
            brk = [(c, v, e) for c, k, v, e in exits if k == 'break' and c is not FALSE]
            brkc = lor(*[c for c, v, e in brk]) if brk else FALSE
            for cc in rest:
                fv = full[cc]
                if brkc is not FALSE:
                    bvv = None
                    for c, v, e in reversed(brk):
                        b = sb(val(cc, e)) if e is not None else cc[2]
                        bvv = b if bvv is None else mk_ite(c, b, bvv)
                    if bvv._ph & restph:
                        if nx[cc] is cc[2]:
                            bvv = subst(bvv, {cc[2]: cc[3]})
                        if bvv._ph & restph:
                            fv = self.fold(cc, nx, rest, count, iv, anyexit, allph)
                            bvv = None
                    if bvv is not None:
                        fv = mk_ite(E, self.first(count, anyexit, bvv, iv), fv)
                finals[cc] = fv
            # variables unmodified on the continuing path but assigned before a break
            for cc in same:
                if brkc is FALSE:
                    continue
                bvv = None
                for c, v, e in reversed(brk):
                    b = sb(val(cc, e)) if e is not None else cc[3]
                    bvv = b if bvv is None else mk_ite(c, b, bvv)
                if bvv._ph & restph:
                    fv = raw('fold', 99, count, bvv)
                    finals[cc] = mk_ite(E, fv, cc[3])
                else:
                    finals[cc] = mk_ite(E, self.first(count, anyexit, bvv, iv), cc[3])
            for cc, k in ind.items():
                fv = add(cc[3], mul(num(k), tm.tmax(count, ZERO)))
                if brkc is not FALSE:
                    bvv = None
                    for c, v, e in reversed(brk):
                        b = sb(val(cc, e)) if e is not None else m[cc[2]]
                        bvv = b if bvv is None else mk_ite(c, b, bvv)
                    fv = mk_ite(E, self.first(count, anyexit, bvv, iv), fv)
                finals[cc] = fv
            rets = [(c, k, v, e) for c, k, v, e in exits if k in ('return', 'throw') and c is not FALSE]
            multi = len([1 for c, k, v, e in exits if c is not FALSE]) > 1
            retc = FALSE
            rr = [q for q in rets if q[1] == 'return']
            for c, k, v, e in rets:
                if k == 'throw':
                    if v is not None and v._ph & restph:
                        v = raw('thrown')
                    out_exits.append((tm.exists(count, c, iv), 'throw', self.first(count, c, v, iv), None))
            if rr:
                c = lor(*[q[0] for q in rr])
                v = None
                for q in reversed(rr):
                    v = q[2] if v is None else mk_ite(q[0], q[2], v)
                v = subst(v, {cc[2]: full[cc] for cc in rest}) if v._ph & restph else v
                others = [q for q in exits if q[1] == 'break' and q[0] is not FALSE]
                ce = tm.exists(count, c, iv)
                if others:
                    ce = land(E, tobool(self.first(count, anyexit, c, iv)))
                v2 = self.first(count, anyexit if others else c, v, iv)
                renv = self.retenv(env, rr[0][3], sb, count, anyexit, iv, restph, full, comps, m)
                out_exits.append((ce, 'return', v2, renv))
        else:
            for cc in rest + list(same):
                finals[cc] = full.get(cc) if cc in full else cc[3]
                brk = [(c, v, e) for c, k, v, e in exits if k == 'break' and c is not FALSE]
                if brk:
                    if cc in same:
                        b = brk[0][2]
                        bv_ = sb(val(cc, b)) if b is not None else cc[3]
                        if bv_ is not cc[3]:
                            g = self.accfold(bv_, nx, rest, count, iv, stop)
                            finals[cc] = mk_ite(atom(self.accfold(anyexit, nx, rest, count, iv, stop, 'stops')), g, cc[3])
                    else:
                        w = nx[cc]
                        for c, v, e in brk:
                            w = mk_ite(sb(c), sb(val(cc, e)) if e is not None else cc[2], w)
                        finals[cc] = self.accfold(w, nx, rest, count, iv, stop, 'break', cc)
            for cc, k in ind.items():
                finals[cc] = self.accfold(m[cc[2]], nx, rest, count, iv, stop)
            for c, k, v, e in exits:
                if k in ('return', 'throw') and c is not FALSE:
                    g = atom(self.accfold(c, nx, rest, count, iv, stop, 'stops'))
                    vv = v
                    if isinstance(v, T) and (v._ph & (restph | {iv})):
                        vv = self.accfold(v, nx, rest, count, iv, stop)
                    out_exits.append((g, k, vv, dict(env)))
        self.store(env, phs, finals)
        cont = env
        return out_exits, cont

    def retenv(self, env, e, sb, count, anyexit, iv, restph, full, comps, m):
        """environment at a return inside a loop: side effects made before returning are kept"""
        if e is None:
            return dict(env)
        out = dict(env)
        for c in env:
            v = e.get(c)
            if v is None or v is env[c]:
                continue
            w = sb(v)
            if w._ph & restph:
                w = subst(w, {cc[2]: full[cc] for cc in full})
            if iv in w._ph:
                w = self.first(count, anyexit, w, iv)
            out[c] = w
        return out

    def first(self, n, c, v, iv):
        if not isinstance(v, T) or v is None:
            return v
        if iv not in v._ph:
            return v

        def f(b):
            if iv not in b._ph:
                return b
            h = max(b.ht, c.ht) + 1
            t = raw('first', h, n, subst(c, {iv: tm.bv(h)}), subst(b, {iv: tm.bv(h)}))
            return t
        return tm._pull(v, iv, f) if not tm._isboolbdd(v) else tm._pull(v, iv, lambda b: b if iv not in b._ph else atom(f(b)))

    def store(self, env, phs, finals):
        arrs = {}
        for cc, v in finals.items():
            L, i, p, v0 = cc
            if i is not None:
                arrs.setdefault(L, list(phs[L][1].a))[i] = v
            elif phs[L][1].op == 'iter':
                self.write(L, raw('iter', phs[L][1].a[0], v), env)
            else:
                self.write(L, v, env)
        for L, l in arrs.items():
            self.write(L, raw('arr', *l), env)

    def bound(self, C, ind, allph):
        r = self.bound1(C, ind, allph)
        if r[0] is not None or C.op != 'ite':
            return r
        # the bound depends on conditions that do not change in the loop
        inv_ = [a for a in sorted(tm.atoms_of(C), key=lambda t: t.key) if not a._ph & allph]
        if not inv_ or len(inv_) > 6:
            return r
        found = []

        def go(c, rest):
            if c is FALSE:
                return ZERO
            q = self.bound1(c, ind, allph)
            if q[0] is not None:
                if q[2] is not TRUE:
                    return None
                found.append(q[0])
                return q[1]
            for i, a in enumerate(rest):
                if a in tm.atoms_of(c):
                    y = go(tm.restrict(c, a, True), rest[i + 1:])
                    n = y is not None and go(tm.restrict(c, a, False), rest[i + 1:])
                    if y is None or n is None:
                        return None
                    return y if y is n else mk_ite(a, y, n)
            return None
        n = go(C, inv_)
        if n is None or not found or any(f != found[0] for f in found):
            return r
        return found[0], (raw('cnt', n) if n.op == 'ite' else n), TRUE

    def bound1(self, C, ind, allph):
        """recognise the loop condition: returns ((comp, step), count, extra condition)"""
        if C.op != 'ite':
            return None, None, None
        for a in sorted(tm.atoms_of(C), key=lambda t: t.key):
            ps = a._ph & set(ind)
            if len(ps) != 1 or len(a._ph & allph) != 1:
                continue
            p = next(iter(ps))
            comp, k = ind[p]
            if k not in (1, -1):
                continue
            if a.op not in ('lt0', 'eq0', 'eq'):
                continue
            hi, lo = tm.restrict(C, a, True), tm.restrict(C, a, False)
            if lo is FALSE:
                pol, extra = True, hi
            elif hi is FALSE:
                pol, extra = False, lo
            else:
                continue
            if a.op == 'eq':
                if p not in a.a:
                    continue
                other = a.a[0] if a.a[1] is p else a.a[1]
                if pol or p in other._ph:
                    continue
                n = sub(other, comp[3]) if k == 1 else sub(comp[3], other)
                return (comp, k), n, extra
            poly = tm.topoly(a.a[0])
            coef = poly.get(((p, 1),), 0)
            if abs(coef) != 1 or any(p in x._ph for mth in poly for x, e in mth if x is not p):
                continue
            rest = tm._add(a.a[0], tm._scale(p, -coef))
            if rest._ph & allph:
                continue
            if a.op == 'eq0':
                if pol:
                    continue
                bnd = tm._scale(rest, -1 / coef)
                n = sub(bnd, comp[3]) if k == 1 else sub(comp[3], bnd)
                return (comp, k), n, extra
            # coef*p + rest < 0
            if pol:
                if coef > 0 and k == 1:      # p < -rest
                    return (comp, k), sub(neg(rest), comp[3]), extra
                if coef < 0 and k == -1:     # p > rest
                    return (comp, k), sub(comp[3], rest), extra
            else:
                if coef < 0 and k == 1:      # not(-p + rest < 0): p <= rest
                    return (comp, k), add(sub(rest, comp[3]), ONE), extra
                if coef > 0 and k == -1:     # p >= -rest
                    return (comp, k), add(add(comp[3], rest), ONE), extra
        return None, None, None

    def fold(self, cc, nx, rest, n, iv, stop, allph):
        p, x0, N = cc[2], cc[3], nx[cc]
        restph = {c[2] for c in rest}
        if stop is None:
            try:
                r = self.simplefold(p, x0, N, restph, n, iv)
                if r is not None:
                    return r
            except tm.TooBig:
                pass
        r = self.accfold(nx[cc], nx, rest, n, iv, stop)
        if r.a[2] not in r.a[3].a and stop is None:
            r = mk_ite(lt(ZERO, n), r, x0)      # not overwritten by an empty loop
        return r

    def simplefold(self, p, x0, N, restph, n, iv):
        dep = N._ph & restph
        some = lt(ZERO, n)
        if not dep:
            return mk_ite(some, subst(N, {iv: sub(n, ONE)}), x0)
        if dep != {p}:
            return None
        # boolean accumulation
        if (tm._isboolbdd(N) and x0 is not None and tm._isboolbdd(tobool(x0) if x0 in (TRUE, FALSE) or x0.op == 'ite' else x0)) and p in tm.atoms_of(N):
            hi, lo = tm.restrict(N, p, True), tm.restrict(N, p, False)
            if not (hi._ph | lo._ph) & {p}:
                if hi is TRUE:
                    return lor(x0, tm.exists(n, lo, iv))
                if lo is FALSE:
                    return land(x0, tm.forall(n, hi, iv))
            return None
        leaves = self.leaves(N)
        conds = tm.atoms_of(N)
        if any(p in a._ph for a in conds):
            return None
        # containers
        if all(l is p or (l.op == 'cat' and l.a and l.a[0].op == 'all' and l.a[0].a[0] is p and not any(p in y._ph for y in l.a[1:])) for l in leaves):
            body = lift(('catrest', p), lambda l: raw('cat') if l is p else raw('cat', *l.a[1:]), N)
            part = tm.mapcat(n, body, iv)
            if part is None:
                return x0
            parts = part.a if part.op == 'cat' else (part,)
            return append(x0, *parts)
        # every element is replaced by a function of itself: an elementwise map
        if x0 is not None and n is size(x0) and x0.op != 'st' and \
                all(l is p or (l.op == 'st' and l.a[0] is p and len(l.a[1]) == 1 and l.a[1][0].op == 'ev' and l.a[1][0].a[0] == '[]=' and l.a[1][0].a[1] is iv) for l in leaves):
            own = raw('at', p, iv)
            new = at(x0, iv)
            el = lift(('elmap', p), lambda l: new if l is p else subst(l.a[1][0].a[2], {own: new}), N)
            el = subst(el, {own: new})
            if p not in el._ph:
                part = tm.mapcat(n, lift(('elcat',), lambda l: cat(elem(l)), el), iv)
                return cat(*(part.a if part.op == 'cat' else (part,)))
        if all(l is p or (l.op == 'st' and l.a[0] is p and not any(p in y._ph for y in l.a[1])) for l in leaves):
            body = lift(('strest', p), lambda l: raw('evs') if l is p else raw('evs', *l.a[1]), N)
            if len(body.ht.__str__()) and body.op == 'evs' and not body.a:
                return x0
            h = body.ht + 1
            e = raw('evloop', h, n, subst(body, {iv: tm.bv(h)}))

            def f(b):
                if b.op == 'st':
                    return mkst(b.a[0], b.a[1] + (e,))
                return mkst(b, (e,))
            return lift(('evl', e), f, x0)
        if all(tm._isnum(l) for l in leaves) and x0 is not None:
            # conditional sum / min / max
            if all(l is p or (l.op in ('min', 'max') and p in l.a) for l in leaves):
                ops = {l.op for l in leaves if l is not p}
                if len(ops) == 1:
                    op = ops.pop()
                    f = tm.tmin if op == 'min' else tm.tmax

                    def g(l):
                        if l is p:
                            return INF if op == 'min' else neg(INF)
                        return f(*[y for y in l.a if y is not p])
                    ok = all(not any(p in y._ph for y in l.a if y is not p) for l in leaves if l is not p)
                    if ok:
                        b = lift(('mm', p, op), g, N)
                        ov = tm.over(op + 'over', n, b, iv)
                        if x0.op == 'sym' and x0.a[0] in ('inf', 'maxdouble'):
                            return ov if op == 'min' else f(x0, ov)
                        return f(x0, ov)
            if all(l is p or (tm.topoly(l).get(((p, 1),), 0) == 1 and p not in tm._add(l, tm._scale(p, -1))._ph) for l in leaves):
                g = sub(N, p)
                if p not in g._ph:
                    return add(x0, tm.tsum(n, g, iv))
        # conditional overwrite
        if all(l is p or p not in l._ph for l in leaves):
            c = lift(('ow', p), lambda l: FALSE if l is p else TRUE, N)
            vs = {l for l in leaves if l is not p}
            if len(vs) == 1:
                v = vs.pop()
                if iv not in v._ph:
                    return mk_ite(tm.exists(n, c, iv), v, x0)
            h = N.ht + 1
            vv = subst(N, {p: raw('keep')})
            h = max(h, vv.ht + 1)
            return mk_ite(tm.exists(n, c, iv), raw('lastof', h, n, subst(vv, {iv: tm.bv(h)})), x0)
        return None

    def leaves(self, t):
        if t.op == 'ite':
            return self.leaves(t.a[1]) | self.leaves(t.a[2])
        return {t}

    def accfold(self, what, nx, rest, n, iv, stop, tag='', own=None):
        """generic fold over the jointly carried state"""
        order, todo = [], [what] + ([stop] if stop is not None else [])
        seen = set()
        byph = {c[2]: c for c in rest}
        if own is not None:
            order, todo = [own], [nx[own]] + todo
            seen.add(own[2])
        while todo:
            t = todo.pop(0)
            for p in sorted(t._ph & set(byph), key=lambda q: self._occ(t, q)):
                if p not in seen:
                    seen.add(p)
                    order.append(byph[p])
                    todo.append(nx[byph[p]])
        acc = {}
        h = 1 + max([what.ht] + ([stop.ht] if stop is not None else []) + [nx[c].ht for c in order])
        for i, c in enumerate(order):
            acc[c[2]] = raw('acc', i, h)
        acc[iv] = tm.bv(h)
        s = lambda t: subst(t, acc)
        return raw('fold', h, n, s(what), raw('nexts', *[s(nx[c]) for c in order]), raw('inits', *[c[3] for c in order]), s(stop) if stop is not None else FALSE, tag)

    def _occ(self, t, p):
        # canonical order of placeholders in t: position in a deterministic traversal that ignores placeholder names
        return self.ctype.get(p, '') or str(p.a[0]).zfill(12)

    def rejection(self, v, cond):
        """the first of the values v which does not satisfy cond"""
        if v.op == 'call' and v.a[0] == 'draw':
            w = raw(v.op, *[a for a in v.a if not (isinstance(a, T) and a.op == 'sym' and a.a[0] == '#any')])
            v, cond = w, subst(cond, {v: w})
        return raw('repeat', v, cond)

    def generic_loop(self, fr, env, phs, comps, val, exits, nxt, C, dowhile, allph, sm, r, x):
        """unbounded loops: rejection loops and state machines"""
        rest = [c for c in comps if c[2] not in sm]
        if dowhile:
            again = C
        else:
            again = None
        nx = {c: subst(nxt[c], sm) for c in rest}
        Cs = subst(C, sm)
        out_exits, finals = [], {}
        phm = {c[2]: nx[c] for c in rest}
        retc = FALSE
        n = raw('while', Cs if dowhile else Cs, 'do' if dowhile else '')
        iv = fresh('i')
        leftov = lambda t: t._ph & {c[2] for c in rest}
        brk = [(c, v, e) for c, k, v, e in exits if k == 'break' and c is not FALSE]
        for cc in comps:
            L, i, p, x0 = cc
            N = nx.get(cc)
            if N is None:
                if brk:
                    b = None
                    for c, v, e in reversed(brk):
                        w = subst(val(cc, e), sm) if e is not None else cc[3]
                        b = w if b is None else mk_ite(c, w, b)
                    finals[cc] = b if C is TRUE or not (b._ph & allph) else raw('mayset', b, x0)
                    if finals[cc]._ph & allph:
                        finals[cc] = self.accfold(finals[cc], nx, rest, raw('whiletrue'), iv, None)
                continue
            if not leftov(N) and not brk:
                # memoryless: value of the last iteration, which ended with the condition false
                cond_after = Cs if dowhile else subst(Cs, phm)
                if not leftov(cond_after):
                    if dowhile:
                        finals[cc] = self.rejection(N, cond_after)
                    else:
                        c0 = subst(Cs, {c[2]: c[3] for c in rest})
                        if x0.op == 'call' == N.op and x0.a[:2] == N.a[:2] and x0.a[0] == 'draw' and subst(cond_after, {N: x0}) is c0:
                            # draw again until accepted: the first draw is one of those
                            self.ndraw[x0.a[1]] -= 1
                            finals[cc] = self.rejection(x0, c0)
                        else:
                            finals[cc] = mk_ite(c0, raw('repeat', N, cond_after), x0)
                    continue
            if C is TRUE and len(brk) == 1 and len([1 for y in exits if y[0] is not FALSE]) == 1 and brk[0][2] is not None and not dowhile:
                w = subst(val(cc, brk[0][2]), sm)
                if not leftov(w) and not leftov(brk[0][0]) and w.op == 'call' and w.a[0] == 'draw':
                    finals[cc] = self.rejection(w, lnot(brk[0][0]))
                    continue
            b = N
            if brk:
                b = None
                for c, v, e in reversed(brk):
                    w = subst(val(cc, e), sm) if e is not None else p
                    b = w if b is None else mk_ite(c, w, b)
            finals[cc] = self.accfold(b, nx, rest, raw('whilecond', *(['do'] if dowhile else [])), iv, Cs, 'mixed' if brk else '')
        for c, k, v, e in exits:
            if k in ('return', 'throw') and c is not FALSE:
                g = c if not (c._ph & allph) else atom(self.accfold(subst(c, sm), nx, rest, raw('whilecond', *(['do'] if dowhile else [])), iv, Cs, 'stops' if not brk else 'mixedstops'))
                if C is TRUE and k == 'return' and not brk:
                    g = TRUE
                vv = v
                if isinstance(v, T) and v._ph & allph:
                    vv = self.accfold(subst(v, sm), nx, rest, raw('whilecond'), iv, Cs, 'at')
                elif isinstance(v, T) and k == 'return':
                    vv = v
                    if C is TRUE and not brk and not dowhile and len([1 for y in exits if y[0] is not FALSE]) == 1 and not c._ph & allph:
                        ds = {q for q in tm.subterms(v) if q.op == 'call' and q.a[0] == 'draw'} & {q for q in tm.subterms(c) if q.op == 'call' and q.a[0] == 'draw'}
                        if len(ds) == 1:
                            # the first accepted one of the values drawn
                            d = ds.pop()
                            vv = subst(v, {d: self.rejection(d, lnot(c))})
                ee = dict(env)
                out_exits.append((g, k, vv, ee))
        if C is TRUE and not brk and not dowhile:
            return out_exits, None
        # exits other than break leave; leftovers must not leak
        for cc, v in list(finals.items()):
            if v._ph & allph:
                finals[cc] = self.accfold(v, nx, rest, raw('whilecond'), iv, Cs, 'left')
        self.store(env, phs, finals)
        return out_exits, env


def always(e):
    return TRUE


class _NoUnroll(Exception):
    pass
