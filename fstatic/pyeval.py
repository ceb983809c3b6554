"""Abstract interpretation of the Python layer of the library.

The syntax trees of the packages are interpreted over terms: parameters, results of calls into
the compiled modules and draws of samplers are symbols, nothing of the library is executed.
Control flow that depends on symbols partitions the analysis: every partition is a set of truth
values of canonical conditions, its outcome a term together with the calls made for their effect."""
import ast
import os
from fractions import Fraction
from . import terms as tm
from .terms import T, raw, num, sym, TRUE, FALSE
from .evalr import Undecided


class PyErr(Exception):
    """an exception of the analysed program"""

    def __init__(self, kind, v=None):
        super().__init__(kind)
        self.kind, self.v = kind, v


class Cut(Exception):
    """a partition that is not followed further"""


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Cell:
    """an object of a compiled class that can be modified in place"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Mod:
    def __init__(self, name, node, path):
        self.name, self.node, self.path, self.env, self.star = name, node, path, {}, []


class Native:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name

    def __repr__(self):
        return 'Native ' + self.name


class NativeMod:
    def __init__(self, name):
        self.name = name


class Cls:
    def __init__(self, name, bases, env):
        self.name, self.bases, self.env = name, bases, env

    def mro(self):
        out = [self]
        for b in self.bases:
            out += b.mro() if isinstance(b, Cls) else [b]
        return out

    def find(self, name, after=None):
        on = after is None
        for c in self.mro():
            if on and isinstance(c, Cls) and name in c.env:
                return c, c.env[name]
            if on and isinstance(c, Native):
                return c, Native(c.mod, c.name + '.' + name)
            if c is after:
                on = True
        return None, None


class Inst:
    def __init__(self, cls, n):
        self.cls, self.attrs, self.n = cls, {}, n


class Super:
    def __init__(self, cls, inst):
        self.cls, self.inst = cls, inst


class Fn:
    def __init__(self, node, env, mod, defaults, kwdefaults, cls=None):
        self.node, self.env, self.mod, self.defaults, self.kwdefaults, self.cls = node, env, mod, defaults, kwdefaults, cls


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Builtin:
    def __init__(self, name):
        self.name = name


class Env:
    def __init__(self, up=None, fn=None):
        self.v, self.up, self.fn, self.nonlocals = {}, up, fn, set()


ERRORS = ('Exception', 'BaseException', 'RuntimeError', 'TypeError', 'ValueError', 'NotImplementedError', 'AttributeError', 'NameError', 'KeyError', 'IndexError',
          'ArithmeticError', 'ZeroDivisionError', 'AssertionError', 'ImportError', 'StopIteration', 'DeprecationWarning', 'UserWarning', 'Warning', 'LookupError', 'OverflowError')
SUPER = {'NotImplementedError': 'RuntimeError', 'KeyError': 'LookupError', 'IndexError': 'LookupError', 'ZeroDivisionError': 'ArithmeticError'}
BUILTINS = ('len', 'range', 'isinstance', 'all', 'any', 'min', 'max', 'abs', 'list', 'tuple', 'dict', 'print', 'str', 'int', 'float', 'bool', 'enumerate', 'zip', 'sorted',
            'reversed', 'sum', 'hasattr', 'getattr', 'setattr', 'callable', 'super', 'map', 'filter', 'set', 'type', 'iter', 'next', 'pow', 'round', 'repr', 'native', 'object', 'property',
            'staticmethod', 'issubclass', 'id')
POINTLIKE = ('center', 'corner', 'bottomFace', 'topFace', 'lateralFace', 'fullCylinder', 'source', 'target')


class Py:
    """one partition: an interpretation with a list of decided conditions"""
    MAXSTEPS = 60000

    def __init__(self, lib, preset=(), order=True, policy=None, maxdec=40, uniform=None, assume=()):
        self.lib = lib
        self.known, self.trail = {}, []
        self.preset, self.order, self.policy, self.maxdec = dict(preset), order, policy, maxdec
        self.draws, self.events, self.mods, self.steps, self.trydepth, self.ninst = {}, [], {}, 0, 0, 0
        self.vocab, self.stack, self.uniform, self.assume = set(), [], uniform, assume

    # ---------------------------------------------------------- decisions
    def decide(self, t):
        t = tm.tobool(t)
        t = tm.restrict_all(t, self.known)
        while t.op == 'ite':
            a = t.a[0]
            v = self.implied(a)
            if v is None:
                if a in self.preset:
                    v = self.preset[a]
                elif self.policy is not None:
                    v = self.policy(a)
                    if len(self.trail) > 3000:
                        raise Cut()
                else:
                    if len(self.trail) >= self.maxdec:
                        raise Cut()
                    v = self.order
                self.trail.append((a, v))
                self.known[a] = v
            t = tm.restrict(t, a, v)
            if t.op == 'ite' and t.a[0] is a:
                t = t.a[1] if v else t.a[2]
        return t is TRUE

    def implied(self, a):
        if a in self.known:
            return self.known[a]
        if self.assume and a.op == 'call' and a.a[0] in self.assume:
            return True
        if a.op in ('lt0', 'eq0'):
            v = constant(a.a[0])
            if v is not None and abs(v) > 1e-12:
                return v < 0 if a.op == 'lt0' else False
        if a.op == 'eq0':
            p, c = tm._split_const(a.a[0])
            for b, v in self.known.items():
                if v and b.op == 'eq0':
                    q, d = tm._split_const(b.a[0])
                    if p is q and c != d:
                        return False
        return None

    def truth(self, v):
        if isinstance(v, T):
            return self.decide(v)
        if isinstance(v, Cell):
            return self.decide(v.t)
        if v is None or isinstance(v, (bool, int, str, list, dict, tuple, set)):
            return bool(v)
        return True

    # ---------------------------------------------------------- values and terms
    def term(self, v):
        if isinstance(v, T):
            return v
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if v is None:
            return raw('none')
        if isinstance(v, (int, float, Fraction)):
            return num(v)
        if isinstance(v, str):
            return raw('str', v)
        if isinstance(v, Cell):
            return v.t
        if isinstance(v, list):
            return raw('list', *[self.term(x) for x in v])
        if isinstance(v, tuple):
            return raw('tuple', *[self.term(x) for x in v])
        if isinstance(v, dict):
            return raw('dict', *[self.term(x) for kv in v.items() for x in kv])
        if isinstance(v, Inst):
            b = [c.name for c in v.cls.mro() if isinstance(c, Native)]
            if b:
                return raw('self', b[0], v.n)
            return raw('inst', v.cls.name, *[y for k, x in sorted(v.attrs.items()) for y in (k, self.term(x))])
        if isinstance(v, Native):
            return raw('name', v.name)
        if isinstance(v, Cls):
            return raw('name', v.name)
        if isinstance(v, Bound) and isinstance(v.f, Native):
            return raw('bound', v.f.name, self.term(v.self_))
        if isinstance(v, Fn):
            return raw('pyfunction', v.node.name if hasattr(v.node, 'name') else 'lambda')
        raise Undecided('value %r' % (v,))

    def mk(self, name, *args):
        self.vocab.add(name)
        return tm.call('call', (name,) + args)

    def opaque(self, name, args, cell):
        """a call into a compiled module or of a symbol"""
        t = self.mk(name, *[self.term(a) for a in args])
        if self.trydepth and self.decide(tm.atom(raw('raises', t))):
            raise PyErr('?')
        return Cell(t) if cell else t

    # ---------------------------------------------------------- modules
    def module(self, name):
        """a package of the library"""
        if name in self.mods:
            return self.mods[name]
        node, path = self.lib.tree(name)
        m = Mod(name, node, path)
        self.mods[name] = m
        env = Env()
        m.env = env
        self.block(node.body, env, m)
        return m

    def imports(self, s, env, m):
        if isinstance(s, ast.Import):
            for al in s.names:
                n = al.name
                top = n.split('.')[0]
                if top in ('random', 'math', 'copy', 'warnings', 'sys', 'os', 'functools', 'itertools'):
                    env.v[al.asname or top] = NativeMod(top)
                elif n.startswith('frackit'):
                    env.v[al.asname or 'frackit'] = NativeMod('frackit') if not al.asname else self.module(n.split('.')[-1])
                else:
                    raise Undecided('import ' + n)
            return
        src = s.module or ''
        if s.level:                                    # from ._x import *
            n = src.lstrip('_')
            if src.startswith('_'):
                for al in s.names:
                    if al.name == '*':
                        m.star.append(n)
                        env.v[src] = NativeMod('_' + n)
                    else:
                        env.v[al.asname or al.name] = self.nativeattr(n, al.name)
                return
            raise Undecided('import ' + src)
        if src == 'frackit':
            for al in s.names:
                env.v[al.asname or al.name] = self.module(al.name)
            return
        if src.startswith('frackit.'):
            n = src.split('.')[1]
            if n.startswith('_') or len(src.split('.')) > 2:
                n = src.split('.')[-1].lstrip('_')
                for al in s.names:
                    env.v[al.asname or al.name] = self.nativeattr(n, al.name)
                return
            for al in s.names:
                if al.name == '*':
                    o = self.module(n)
                    for k, v in o.env.v.items():
                        if not k.startswith('_'):
                            env.v[k] = v
                    m.star += o.star
                else:
                    env.v[al.asname or al.name] = self.modattr(self.module(n), al.name)
            return
        if src in ('math', 'random', 'copy', 'warnings', 'functools', 'itertools'):
            for al in s.names:
                env.v[al.asname or al.name] = self.attr(NativeMod(src), al.name, None)
            return
        raise Undecided('import from ' + src)

    def modattr(self, m, name):
        if name in m.env.v:
            return m.env.v[name]
        if not name.startswith('_'):
            for n in reversed(m.star):
                if name in self.lib.names(n):
                    return Native(n, name)
        raise PyErr('AttributeError', name)

    def nativeattr(self, n, name):
        if name not in self.lib.names(n):
            raise PyErr('AttributeError', name)
        return Native(n, name)

    # ---------------------------------------------------------- statements
    def block(self, body, env, m):
        for s in body:
            self.stmt(s, env, m)

    def stmt(self, s, env, m):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Cut()
        k = type(s).__name__
        if k == 'Expr':
            if isinstance(s.value, ast.Constant):
                return
            v = self.ev(s.value, env, m)
            if isinstance(v, T) and v.op == 'call' and isinstance(s.value, ast.Call):
                self.events.append(v)
            return
        if k == 'Assign':
            v = self.ev(s.value, env, m)
            for t in s.targets:
                self.assign(t, v, env, m)
            return
        if k == 'AnnAssign':
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env, m), env, m)
            return
        if k == 'AugAssign':
            return self.augassign(s, env, m)
        if k == 'If':
            return self.block(s.body if self.truth(self.ev(s.test, env, m)) else s.orelse, env, m)
        if k == 'While':
            idle = 0
            while self.truth(self.ev(s.test, env, m)):
                n = len(self.trail)
                try:
                    self.block(s.body, env, m)
                except Break:
                    return
                except Continue:
                    pass
                idle = idle + 1 if len(self.trail) == n else 0
                if idle > 400:
                    raise PyErr('never ends')
            return self.block(s.orelse, env, m)
        if k == 'For':
            for x in self.iterate(self.ev(s.iter, env, m), live=True):
                self.assign(s.target, x, env, m)
                try:
                    self.block(s.body, env, m)
                except Break:
                    return
                except Continue:
                    pass
            return self.block(s.orelse, env, m)
        if k == 'Return':
            raise Return(None if s.value is None else self.ev(s.value, env, m))
        if k == 'Raise':
            if s.exc is None:
                raise PyErr('?')
            v = self.ev(s.exc, env, m)
            if isinstance(v, Builtin):
                raise PyErr(v.name)
            raise PyErr(v[1] if isinstance(v, tuple) and v and v[0] == 'exc' else '?', v)
        if k == 'Try':
            try:
                try:
                    self.trydepth += 1
                    try:
                        self.block(s.body, env, m)
                    finally:
                        self.trydepth -= 1
                except PyErr as e:
                    if e.kind == 'never ends':
                        raise
                    for h in s.handlers:
                        if self.handles(h, e, env, m):
                            if h.name:
                                env.v[h.name] = ('exc', e.kind)
                            self.block(h.body, env, m)
                            break
                    else:
                        raise
                else:
                    self.block(s.orelse, env, m)
            finally:
                if s.finalbody:
                    self.block(s.finalbody, env, m)
            return
        if k == 'FunctionDef':
            env.v[s.name] = self.function(s, env, m)
            for d in s.decorator_list:
                d = self.ev(d, env, m)
                if isinstance(d, Builtin) and d.name in ('staticmethod', 'property'):
                    env.v[s.name] = (d.name, env.v[s.name])
                else:
                    raise Undecided('decorator')
            return
        if k == 'ClassDef':
            e = Env(env)
            e.isclass = True
            bases = [self.ev(b, env, m) for b in s.bases]
            bases = [b for b in bases if not isinstance(b, Builtin)]
            self.block(s.body, e, m)
            c = Cls(s.name, bases, e.v)
            for v in e.v.values():
                f = v[1] if isinstance(v, tuple) and len(v) == 2 else v
                if isinstance(f, Fn):
                    f.cls = c
                    f.env = env
            if self.lib.isnew(m, s):
                pass
            env.v[s.name] = c
            return
        if k in ('Import', 'ImportFrom'):
            return self.imports(s, env, m)
        if k == 'Pass':
            return
        if k == 'Break':
            raise Break()
        if k == 'Continue':
            raise Continue()
        if k == 'Assert':
            if not self.truth(self.ev(s.test, env, m)):
                raise PyErr('AssertionError')
            return
        if k == 'Nonlocal' or k == 'Global':
            env.nonlocals |= set(s.names)
            return
        if k == 'Delete':
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.v.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    o, i = self.ev(t.value, env, m), self.ev(t.slice, env, m)
                    if not isinstance(o, (list, dict)) or isinstance(i, T):
                        raise Undecided('del')
                    try:
                        del o[i]
                    except (KeyError, IndexError) as x:
                        raise PyErr(type(x).__name__)
                else:
                    raise Undecided('del')
            return
        raise Undecided('statement ' + k)

    def handles(self, h, e, env, m):
        if h.type is None:
            return True
        v = self.ev(h.type, env, m)
        for x in (v if isinstance(v, tuple) else (v,)):
            if isinstance(x, Builtin):
                if x.name in ('Exception', 'BaseException'):
                    return True
                k = e.kind
                if k == '?':
                    if x.name in ('TypeError', 'RuntimeError', 'AttributeError'):
                        return True
                while k:
                    if k == x.name:
                        return True
                    k = SUPER.get(k)
        return False

    def function(self, s, env, m):
        a = s.args
        return Fn(s, env, m, [self.ev(d, env, m) for d in a.defaults], [None if d is None else self.ev(d, env, m) for d in a.kw_defaults])

    def assign(self, t, v, env, m):
        if isinstance(t, ast.Name):
            if t.id in env.nonlocals:
                e = env.up
                while e is not None and t.id not in e.v:
                    e = e.up
                (e or env).v[t.id] = v
            else:
                env.v[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = list(self.iterate(v))
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Undecided('starred target')
            if len(xs) != len(t.elts):
                raise PyErr('ValueError')
            for x, y in zip(t.elts, xs):
                self.assign(x, y, env, m)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, m)
            if isinstance(o, Inst):
                o.attrs[t.attr] = v
            else:
                raise Undecided('attribute of %r' % (o,))
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, env, m), self.ev(t.slice, env, m)
            if isinstance(i, Cell) or isinstance(i, T):
                raise Undecided('symbolic index')
            if isinstance(o, dict):
                o[i] = v
            elif isinstance(o, list) and isinstance(i, int):
                try:
                    o[i] = v
                except IndexError:
                    raise PyErr('IndexError')
            else:
                raise Undecided('subscript')
        else:
            raise Undecided('target')

    def augassign(self, s, env, m):
        t = s.target
        rd = type(t)(**{**{f: getattr(t, f) for f in t._fields}, 'ctx': ast.Load()})
        if isinstance(t, ast.Subscript):               # evaluate object and index once
            o, i = self.ev(t.value, env, m), self.ev(t.slice, env, m)
            cur = self.index(o, i)
        else:
            cur = self.ev(rd, env, m)
        v = self.ev(s.value, env, m)
        if isinstance(cur, Cell):
            cur.t = self.term(self.binop(s.op, cur.t, v))
            return
        if isinstance(cur, list) and isinstance(s.op, ast.Add):
            cur.extend(list(self.iterate(v)))
            return
        self.assign(t, self.binop(s.op, cur, v), env, m)

    # ---------------------------------------------------------- expressions
    def name(self, n, env, m):
        e = env
        first = True
        while e is not None:
            if n in e.v and (first or not getattr(e, 'isclass', False)):
                return e.v[n]
            first = False
            e = e.up
        if m is not None and not n.startswith('_'):
            for x in reversed(m.star):
                if n in self.lib.names(x):
                    return Native(x, n)
        if n in BUILTINS or n in ERRORS:
            return Builtin(n)
        raise PyErr('NameError', n)

    def ev(self, e, env, m):
        k = type(e).__name__
        f = getattr(self, 'e_' + k, None)
        if f is None:
            raise Undecided('expression ' + k)
        return f(e, env, m)

    def e_Constant(self, e, env, m):
        return num(e.value) if isinstance(e.value, float) else e.value

    def e_Name(self, e, env, m):
        return self.name(e.id, env, m)

    def e_Attribute(self, e, env, m):
        return self.attr(self.ev(e.value, env, m), e.attr, m)

    def attr(self, o, n, m):
        if isinstance(o, Inst):
            if n in o.attrs:
                return o.attrs[n]
            c, v = o.cls.find(n)
            if v is None:
                raise PyErr('AttributeError', n)
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'staticmethod':
                return v[1]
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'property':
                return self.call(Bound(v[1], o), [], {})
            if isinstance(v, (Fn, Native)):
                if isinstance(v, Native) and v.name.split('.')[-1] not in self.lib.methods(v.name.split('.')[0]):
                    raise PyErr('AttributeError', n)
                return Bound(v, o)
            return v
        if isinstance(o, Super):
            c, v = o.inst.cls.find(n, after=o.cls)
            if v is None:
                if n == '__init__':
                    return Builtin('noop')
                raise PyErr('AttributeError', n)
            if isinstance(v, Native) and n not in self.lib.methods(v.name.split('.')[0]):
                raise PyErr('AttributeError', n)
            return Bound(v, o.inst)
        if isinstance(o, Cls):
            c, v = o.find(n)
            if v is None:
                raise PyErr('AttributeError', n)
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'staticmethod':
                return v[1]
            return v
        if isinstance(o, Mod):
            return self.modattr(o, n)
        if isinstance(o, NativeMod):
            if o.name == 'frackit':
                return self.module(n)
            if o.name.startswith('_'):
                return self.nativeattr(o.name[1:], n)
            if o.name == 'math' and n == 'pi':
                return tm.PI
            return Builtin(o.name + '.' + n)
        if isinstance(o, (list, dict, str, set)):
            return Bound(Builtin(type(o).__name__ + '.' + n), o)
        if isinstance(o, (T, Cell)):
            if n in ('worldDimension', 'myDimension'):
                d = dimension(self.term(o)) if n == 'worldDimension' else None
                if d is not None:
                    return d
                t = self.mk('.' + n, self.term(o))
                if self.trydepth and self.decide(tm.atom(raw('raises', t))):
                    raise PyErr('AttributeError')
                return t
            return Bound(Native(None, '.' + n), o)
        if isinstance(o, Native):
            if n in ('confusion', 'angular', 'worldDimension', 'myDimension'):
                return self.mk('.' + n, self.term(o))
            return Native(o.mod, o.name + '.' + n)
        raise Undecided('attribute %s of %r' % (n, o))

    def e_Subscript(self, e, env, m):
        o = self.ev(e.value, env, m)
        if isinstance(e.slice, ast.Slice):
            if not isinstance(o, (list, tuple, str)):
                raise Undecided('slice')
            ix = [None if x is None else self.ev(x, env, m) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if any(not (x is None or isinstance(x, int)) for x in ix):
                raise Undecided('symbolic slice')
            return o[slice(*ix)]
        return self.index(o, self.ev(e.slice, env, m))

    def index(self, o, i):
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, T) and i.op == 'num' and i.a[0].denominator == 1:
                i = int(i.a[0])
            if not isinstance(i, int):
                raise Undecided('symbolic index')
            try:
                return o[i]
            except IndexError:
                raise PyErr('IndexError')
        if isinstance(o, dict):
            i = self.key(o, i)
            if i in o:
                return o[i]
            raise PyErr('KeyError')
        if isinstance(o, (T, Cell)):
            return self.mk('.[]', self.term(o), self.term(i))
        raise PyErr('TypeError')

    def key(self, d, i):
        """the key of d that equals i"""
        if isinstance(i, T):
            if i.op == 'num':
                return i.a[0]
            for k in d:
                if self.truth(self.compare(ast.Eq(), k, i)):
                    return k
            return i
        return i

    def e_List(self, e, env, m):
        return self.elts(e, env, m)

    def elts(self, e, env, m):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.ev(x.value, env, m)))
            else:
                out.append(self.ev(x, env, m))
        return out

    def e_Tuple(self, e, env, m):
        return tuple(self.elts(e, env, m))

    def e_Dict(self, e, env, m):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                out.update(self.ev(v, env, m))
            else:
                out[self.ev(k, env, m)] = self.ev(v, env, m)
        return out

    def e_JoinedStr(self, e, env, m):
        return 'text'

    def e_IfExp(self, e, env, m):
        return self.ev(e.body if self.truth(self.ev(e.test, env, m)) else e.orelse, env, m)

    def e_BoolOp(self, e, env, m):
        v = None
        for x in e.values:
            v = self.ev(x, env, m)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if t != isinstance(e.op, ast.And):
                return v if not isinstance(v, T) else t
        return v

    def e_UnaryOp(self, e, env, m):
        v = self.ev(e.operand, env, m)
        if isinstance(e.op, ast.Not):
            if isinstance(v, T):
                return tm.lnot(v)
            return not self.truth(v)
        if isinstance(v, (bool, int)) and not isinstance(v, T):
            return {ast.USub: lambda x: -x, ast.UAdd: lambda x: x, ast.Invert: lambda x: ~x}[type(e.op)](v)
        if isinstance(e.op, ast.USub):
            return tm.neg(self.term(v))
        if isinstance(e.op, ast.UAdd):
            return v
        raise Undecided('unary')

    def e_BinOp(self, e, env, m):
        return self.binop(e.op, self.ev(e.left, env, m), self.ev(e.right, env, m))

    def binop(self, op, a, b):
        cell = isinstance(a, Cell) or isinstance(b, Cell)
        if isinstance(a, Cell):
            a = a.t
        if isinstance(b, Cell):
            b = b.t
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return 'text'
        if isinstance(a, (int, str, list, tuple)) and isinstance(b, (int, str, list, tuple)) and not isinstance(op, ast.Div):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b,
                        ast.Pow: lambda: a ** b}[type(op)]()
            except (TypeError, ZeroDivisionError) as x:
                raise PyErr(type(x).__name__)
            except KeyError:
                raise Undecided('operator')
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add):
                return raw('strcat', self.term(a), self.term(b))
            raise PyErr('TypeError')
        if a is None or b is None or isinstance(a, (list, dict, tuple)) or isinstance(b, (list, dict, tuple)):
            raise PyErr('TypeError')
        x, y = self.term(a), self.term(b)
        if isinstance(op, ast.Add):
            r = tm.add(x, y)
        elif isinstance(op, ast.Sub):
            r = tm.sub(x, y)
        elif isinstance(op, ast.Mult):
            r = tm.mul(x, y)
        elif isinstance(op, ast.Div):
            if y is tm.ZERO:
                raise PyErr('ZeroDivisionError')
            r = tm.div(x, y)
        elif isinstance(op, ast.Pow) and isinstance(b, int) and b >= 0:
            r = tm.powi(x, b)
        elif isinstance(op, ast.Pow) and y.op == 'num' and y.a[0] == Fraction(1, 2):
            r = tm.sqrt(x)
        elif isinstance(op, ast.Pow) and y.op == 'num' and y.a[0].denominator == 1 and y.a[0] >= 0:
            r = tm.powi(x, int(y.a[0]))
        elif isinstance(op, (ast.Mod, ast.FloorDiv, ast.Pow)):
            r = self.mk(type(op).__name__, x, y)
        else:
            raise Undecided('operator')
        return Cell(r) if cell else r

    def e_Compare(self, e, env, m):
        a = self.ev(e.left, env, m)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(r, env, m)
            v = self.compare(op, a, b)
            if i + 1 == len(e.ops) and res is True:
                return v
            if not self.truth(v):
                return False
            a = b
        return True

    def compare(self, op, a, b):
        if isinstance(a, Cell):
            a = a.t
        if isinstance(b, Cell):
            b = b.t
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if a is None or b is None:
                r = a is b
            elif isinstance(a, T) or isinstance(b, T):
                if isinstance(op, (ast.Is, ast.IsNot)) and not (a in (TRUE, FALSE, True, False) or b in (TRUE, FALSE, True, False)):
                    raise Undecided('identity')
                if isinstance(a, (list, dict, tuple)) or isinstance(b, (list, dict, tuple)):
                    r = False
                else:
                    r = tm.eq(self.term(a), self.term(b))
                    r = tm.lnot(r) if isinstance(op, (ast.NotEq, ast.IsNot)) else r
                    return r
            elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                r = type(a) is type(b) and len(a) == len(b) and all(self.truth(self.compare(ast.Eq(), x, y)) for x, y in zip(a, b))
            else:
                r = (a is b) if isinstance(op, (ast.Is, ast.IsNot)) and not isinstance(a, (int, str)) else a == b
            return not r if isinstance(op, (ast.NotEq, ast.IsNot)) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (dict, list, tuple, set)):
                r = False
                for x in b:
                    if self.truth(self.compare(ast.Eq(), x, a)):
                        r = True
                        break
            elif isinstance(b, str) and isinstance(a, str):
                r = a in b
            else:
                r = self.mk('in', self.term(a), self.term(b))
                r = tm.atom(r)
                return tm.lnot(r) if isinstance(op, ast.NotIn) else r
            return not r if isinstance(op, ast.NotIn) else r
        if isinstance(a, (int, str)) and isinstance(b, (int, str)) and type(a) == type(b):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if any(x is None or isinstance(x, (list, dict, str, Inst, Fn, Cls)) for x in (a, b)):
            raise PyErr('TypeError')
        x, y = self.term(a), self.term(b)
        return {ast.Lt: lambda: tm.lt(x, y), ast.LtE: lambda: tm.le(x, y), ast.Gt: lambda: tm.lt(y, x), ast.GtE: lambda: tm.le(y, x)}[type(op)]()

    def e_Lambda(self, e, env, m):
        return self.function(e, env, m)

    def gen(self, e, env, m):
        def rec(i, en):
            if i == len(e.generators):
                yield self.ev(e.elt, en, m)
                return
            g = e.generators[i]
            for x in self.iterate(self.ev(g.iter, en, m)):
                self.assign(g.target, x, en, m)
                if all(self.truth(self.ev(c, en, m)) for c in g.ifs):
                    yield from rec(i + 1, en)
        return rec(0, Env(env, env.fn))

    def e_ListComp(self, e, env, m):
        return list(self.gen(e, env, m))

    def e_SetComp(self, e, env, m):
        raise Undecided('set')

    def e_GeneratorExp(self, e, env, m):
        return self.gen(e, env, m)

    def e_DictComp(self, e, env, m):
        out = {}
        en = Env(env, env.fn)
        if len(e.generators) != 1:
            raise Undecided('comprehension')
        g = e.generators[0]
        for x in self.iterate(self.ev(g.iter, en, m)):
            self.assign(g.target, x, en, m)
            if all(self.truth(self.ev(c, en, m)) for c in g.ifs):
                out[self.ev(e.key, en, m)] = self.ev(e.value, en, m)
        return out

    def e_NamedExpr(self, e, env, m):
        v = self.ev(e.value, env, m)
        self.assign(e.target, v, env, m)
        return v

    def iterate(self, v, live=False):
        if isinstance(v, list):
            i = 0
            while i < len(v):
                yield v[i]
                i += 1
            return
        if isinstance(v, (tuple, str, range)):
            yield from v
            return
        if isinstance(v, dict):
            yield from list(v)
            return
        if hasattr(v, '__next__'):
            yield from v
            return
        if isinstance(v, (int, type(None), Fn, Cls)):
            raise PyErr('TypeError')
        raise Undecided('iteration over %s' % (v,))

    # ---------------------------------------------------------- calls
    def e_Call(self, e, env, m):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not isinstance(self.lookup('super', env), (Fn, Cls)):
            if e.args:
                return Super(self.ev(e.args[0], env, m), self.ev(e.args[1], env, m))
            fe = env
            while fe is not None and (fe.fn is None or fe.fn.cls is None):
                fe = fe.up
            if fe is None:
                raise PyErr('RuntimeError')
            fn = fe.fn
            while fe is not None and fn.node.args.args and fn.node.args.args[0].arg not in fe.v:
                fe = fe.up
            return Super(fn.cls, fe.v[fn.node.args.args[0].arg])
        f = self.ev(e.func, env, m)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.iterate(self.ev(a.value, env, m)))
            else:
                args.append(self.ev(a, env, m))
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env, m))
            else:
                kw[k.arg] = self.ev(k.value, env, m)
        return self.call(f, args, kw)

    def lookup(self, n, env):
        while env is not None:
            if n in env.v:
                return env.v[n]
            env = env.up

    def call(self, f, args, kw):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Cut()
        if isinstance(f, Bound):
            if isinstance(f.f, Fn):
                return self.apply(f.f, [f.self_] + args, kw)
            if isinstance(f.f, Builtin):
                return self.container(f.f.name, f.self_, args, kw)
            return self.method(f.f, f.self_, args, kw)
        if isinstance(f, Fn):
            return self.apply(f, args, kw)
        if isinstance(f, Cls):
            o = Inst(f, self.ninst)
            self.ninst += 1
            c, init = f.find('__init__')
            if isinstance(init, Fn):
                self.apply(init, [o] + args, kw)
            elif init is None and (args or kw):
                raise PyErr('TypeError')
            elif isinstance(init, Native) and (args or kw):
                o.attrs['__args__'] = list(args)
            return o
        if isinstance(f, Inst):
            c, v = f.cls.find('__call__')
            if v is None:
                raise PyErr('TypeError')
            if isinstance(v, Native):
                return self.method(v, f, args, kw)
            return self.apply(v, [f] + args, kw)
        if isinstance(f, Native):
            return self.native(f, args, kw)
        if isinstance(f, Builtin):
            return self.builtin(f.name, args, kw)
        if isinstance(f, (T, Cell)):
            return self.draw(self.term(f), args, kw)
        if f is None or isinstance(f, (int, str, list, dict)):
            raise PyErr('TypeError')
        raise Undecided('call of %r' % (f,))

    def draw(self, t, args, kw):
        """a call of a callable that was passed in: a sampler without arguments gives a new value every time"""
        if kw:
            raise Undecided('keywords')
        if t.op in ('num', 'poly', 'true', 'false', 'ite', 'str'):
            raise PyErr('TypeError')
        if not args:
            k = self.draws.get(t, 0)
            self.draws[t] = k + 1
            r = raw('draw', t, k)
            if self.trydepth and self.decide(tm.atom(raw('raises', raw('draw', t)))):
                raise PyErr('TypeError')
            return Cell(r) if 'point' in tm.show(t).lower() else r
        return self.opaque('()', [t] + args, False)

    def apply(self, f, args, kw):
        if len(self.stack) > 60:
            raise Undecided('recursion')
        a = f.node.args
        env = Env(f.env, f)
        ps = [p.arg for p in a.posonlyargs + a.args]
        kw = dict(kw)
        for i, p in enumerate(ps):
            if i < len(args):
                if p in kw:
                    raise PyErr('TypeError')
                env.v[p] = args[i]
            elif p in kw:
                env.v[p] = kw.pop(p)
            elif i >= len(ps) - len(f.defaults):
                env.v[p] = f.defaults[i - len(ps) + len(f.defaults)]
            else:
                raise PyErr('TypeError')
        if len(args) > len(ps):
            if a.vararg is None:
                raise PyErr('TypeError')
            env.v[a.vararg.arg] = tuple(args[len(ps):])
        elif a.vararg is not None:
            env.v[a.vararg.arg] = ()
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg in kw:
                env.v[p.arg] = kw.pop(p.arg)
            elif d is not None:
                env.v[p.arg] = d
            else:
                raise PyErr('TypeError')
        if a.kwarg is not None:
            env.v[a.kwarg.arg] = kw
        elif kw:
            raise PyErr('TypeError')
        self.lib.visited.add((f.mod.path if f.mod else '', getattr(f.node, 'name', 'lambda'), f.node.lineno))
        self.stack.append(f)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.mod)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                raise Undecided('generator function')
            try:
                self.block(f.node.body, env, f.mod)
            except Return as r:
                return r.v
            return None
        finally:
            self.stack.pop()

    VEC = ('Vector_', 'Point_', 'Direction_')

    def method(self, f, o, args, kw):
        """method of an object of a compiled class"""
        n = f.name.split('.')[-1]
        ts = [self.term(o)] + [self.term(x) for x in list(args) + [v for k, v in sorted(kw.items())]]
        if kw:
            n += '/' + ','.join(sorted(kw))
        if f.name.startswith('.'):
            t = ts[0]
            if t.op == 'call' and t.a[0] in ('Vector_1', 'Vector_2', 'Vector_3', 'Point_1', 'Point_2', 'Point_3') and n in 'xyz' and not args:
                c = t.a[1:]
                if len(c) == int(t.a[0][-1]) and not (len(c) == 1) and n != '' and 'xyz'.index(n) < len(c):
                    return c['xyz'.index(n)]
                if len(c) == 1 and c[0].op == 'list' and 'xyz'.index(n) < len(c[0].a):
                    return c[0].a['xyz'.index(n)]
            name = '.' + n
        else:
            name = f.name
        self.vocab.add(name)
        if f.name == '_EntityNetworkConstraints.evaluate' and len(ts) == 3:
            ts[1:] = sorted(ts[1:], key=lambda x: x.key)
        r = self.mk(name, *ts)
        if self.trydepth and self.decide(tm.atom(raw('raises', r))):
            raise PyErr('?')
        return Cell(r) if n in POINTLIKE else r

    def native(self, f, args, kw):
        n = f.name
        if '.' in n:                                   # unbound method of a compiled class
            if not args:
                raise PyErr('TypeError')
            return self.method(f, args[0], args[1:], kw)
        if n == 'rotate' and len(args) + len(kw) == 3:
            names = ['vector', 'axis', 'angle']
            a = list(args) + [kw[x] for x in names[len(args):] if x in kw]
            if len(a) != 3:
                raise PyErr('TypeError')
            if not isinstance(a[0], Cell):
                raise Undecided('rotate')
            a[0].t = self.mk('rotate', *[self.term(x) for x in a])
            return None
        if kw:
            raise Undecided('keywords of ' + n)
        isclass = n[:1].isupper() or n.startswith('_')
        if n.startswith(('Vector_', 'Direction_')) and len(args) == 1 and isinstance(args[0], (Cell, T)):
            t = self.term(args[0])
            if n.startswith('Vector_') and t.op == 'call' and t.a[0].startswith('Vector_'):
                return Cell(t)
        if n.startswith('Point_') and len(args) == 1 and isinstance(args[0], list) and args[0]:
            args = list(args[0])
        if n in ('Vector_2', 'Vector_3') and len(args) == 2 and n != 'Vector_2':
            return Cell(tm.sub(self.term(args[1]), self.term(args[0])))
        if not isclass and n not in self.lib.names(f.mod or ''):
            pass
        return self.opaque(n, args, isclass)

    def container(self, n, o, args, kw):
        ty, m = n.split('.')
        if ty == 'list':
            if m == 'append':
                o.append(args[0])
                return None
            if m == 'extend':
                o.extend(list(self.iterate(args[0])))
                return None
            if m == 'insert' and isinstance(args[0], int):
                o.insert(args[0], args[1])
                return None
            if m == 'pop':
                try:
                    return o.pop(*args)
                except IndexError:
                    raise PyErr('IndexError')
            if m == 'copy':
                return list(o)
            if m == 'clear':
                o.clear()
                return None
            if m == 'reverse':
                o.reverse()
                return None
            if m == 'sort':
                o[:] = self.sort(o, kw)
                return None
            if m in ('remove', 'index', 'count'):
                c = 0
                for i, x in enumerate(o):
                    if x is args[0] or self.truth(self.compare(ast.Eq(), x, args[0])):
                        if m == 'remove':
                            del o[i]
                            return None
                        if m == 'index':
                            return i
                        c += 1
                if m == 'count':
                    return c
                raise PyErr('ValueError')
        if ty == 'dict':
            if m == 'get':
                k = self.key(o, args[0])
                return o[k] if k in o else (args[1] if len(args) > 1 else None)
            if m == 'keys':
                return list(o)
            if m == 'values':
                return list(o.values())
            if m == 'items':
                return [(k, v) for k, v in o.items()]
            if m == 'setdefault':
                k = self.key(o, args[0])
                return o.setdefault(k, args[1] if len(args) > 1 else None)
            if m == 'update':
                o.update(args[0] if args else {}, **kw)
                return None
            if m == 'pop':
                k = self.key(o, args[0])
                if k in o:
                    return o.pop(k)
                if len(args) > 1:
                    return args[1]
                raise PyErr('KeyError')
            if m == 'copy':
                return dict(o)
        if ty == 'str':
            if m in ('format', 'join', 'strip', 'replace'):
                return 'text'
            if m in ('lower', 'upper', 'startswith', 'endswith') and all(isinstance(a, str) for a in args):
                return getattr(o, m)(*args)
        raise Undecided('method ' + n)

    def sort(self, xs, kw):
        key = kw.get('key')
        ks = [self.call(key, [x], {}) if key is not None else x for x in xs]
        rev = kw.get('reverse', False)
        out = []                                       # stable insertion
        for x, k in zip(xs, ks):
            i = len(out)
            while i > 0 and self.truth(self.compare(ast.Lt(), out[i - 1][1], k) if rev else self.compare(ast.Lt(), k, out[i - 1][1])):
                i -= 1
            out.insert(i, (x, k))
        return [x for x, k in out]

    def builtin(self, n, a, kw):
        if n == 'noop':
            return None
        if n in ERRORS:
            return ('exc', n)
        if n == 'native':
            return Native(a[1] if len(a) > 1 else None, a[0])
        if n == 'len':
            if isinstance(a[0], (list, tuple, dict, str, set)):
                return len(a[0])
            if isinstance(a[0], (T, Cell)):
                return self.opaque('len', a, False)
            raise PyErr('TypeError')
        if n == 'range':
            if all(isinstance(x, int) for x in a):
                return range(*a)
            if all(isinstance(x, int) or (isinstance(x, T) and x.op == 'num') for x in a):
                return range(*[x if isinstance(x, int) else int(x.a[0]) for x in a])
            raise Undecided('range(%s)' % ', '.join(map(str, a)))
        if n == 'isinstance':
            return self.isinst(a[0], a[1])
        if n == 'hasattr':
            if isinstance(a[0], (T, Cell)):
                return not self.decide(tm.atom(raw('raises', self.mk('.' + a[1], self.term(a[0])))))
            try:
                self.attr(a[0], a[1], None)
                return True
            except PyErr:
                return False
        if n == 'getattr':
            try:
                if len(a) > 2:
                    self.trydepth += 1
                try:
                    return self.attr(a[0], a[1], None)
                finally:
                    if len(a) > 2:
                        self.trydepth -= 1
            except PyErr:
                if len(a) > 2:
                    return a[2]
                raise
        if n == 'callable':
            if isinstance(a[0], T):
                return not self.decide(tm.atom(raw('raises', raw('draw', a[0]))))
            return isinstance(a[0], (Fn, Bound, Cls, Native, Builtin)) or (isinstance(a[0], Inst) and a[0].cls.find('__call__')[1] is not None)
        if n in ('all', 'any'):
            for x in self.iterate(a[0]):
                if self.truth(x) != (n == 'all'):
                    return n != 'all'
            return n == 'all'
        if n in ('min', 'max'):
            xs = list(a) if len(a) > 1 else list(self.iterate(a[0]))
            if not xs:
                if 'default' in kw:
                    return kw['default']
                raise PyErr('ValueError')
            if 'key' in kw:
                s = self.sort(xs, dict(key=kw['key']))
                if n == 'min':
                    return s[0]
                return self.sort(xs, dict(key=kw['key'], reverse=True))[0]
            if all(isinstance(x, int) for x in xs):
                return min(xs) if n == 'min' else max(xs)
            return (tm.tmin if n == 'min' else tm.tmax)(*[self.term(x) for x in xs])
        if n == 'abs':
            return abs(a[0]) if isinstance(a[0], int) else tm.absv(self.term(a[0]))
        if n == 'sum':
            r = a[1] if len(a) > 1 else 0
            for x in self.iterate(a[0]):
                r = self.binop(ast.Add(), r, x)
            return r
        if n in ('list', 'tuple'):
            r = list(self.iterate(a[0])) if a else []
            return r if n == 'list' else tuple(r)
        if n == 'dict':
            return dict(a[0] if a else {}, **kw)
        if n in ('print', 'setattr') or n.startswith('warnings.'):
            if n == 'setattr':
                a[0].attrs[a[1]] = a[2]
            return None
        if n in ('str', 'repr'):
            return raw('text', *[self.term(x) for x in a]) if a and not isinstance(a[0], str) else (a[0] if a else '')
        if n == 'float':
            return a[0] if isinstance(a[0], T) else num(a[0])
        if n == 'int':
            if isinstance(a[0], int):
                return int(a[0])
            t = self.term(a[0])
            return int(t.a[0]) if t.op == 'num' else self.mk('int', t)
        if n == 'bool':
            return self.truth(a[0])
        if n == 'enumerate':
            return [(i + (a[1] if len(a) > 1 else 0), x) for i, x in enumerate(self.iterate(a[0]))]
        if n == 'zip':
            return list(zip(*[list(self.iterate(x)) for x in a]))
        if n == 'sorted':
            return self.sort(list(self.iterate(a[0])), kw)
        if n == 'reversed':
            return list(self.iterate(a[0]))[::-1]
        if n == 'map':
            return (self.call(a[0], list(x), {}) for x in zip(*[list(self.iterate(y)) for y in a[1:]]))
        if n == 'filter':
            return (x for x in list(self.iterate(a[1])) if self.truth(self.call(a[0], [x], {}) if a[0] is not None else x))
        if n == 'type':
            if isinstance(a[0], (list, dict, tuple, str)):
                return Builtin(type(a[0]).__name__)
            if isinstance(a[0], Inst):
                return a[0].cls
        if n in ('copy.deepcopy', 'copy.copy'):
            return self.copy(a[0], n == 'copy.deepcopy')
        if n in ('math.sqrt',):
            return tm.sqrt(self.term(a[0]))
        if n in ('math.fabs',):
            return tm.absv(self.term(a[0]))
        if n == 'math.pow' and isinstance(a[1], int):
            return tm.powi(self.term(a[0]), a[1])
        if n == 'math.radians':
            return tm.mul(self.term(a[0]), tm.div(tm.PI, num(180)))
        if n in ('math.hypot',):
            r = tm.ZERO
            for x in a:
                r = tm.add(r, tm.powi(self.term(x), 2))
            return tm.sqrt(r)
        if n.startswith('math.'):
            return self.mk(n[5:], *[self.term(x) for x in a])
        if n.startswith('random.'):
            k = (n,) + tuple(self.term(x) for x in a)
            i = self.draws.get(k, 0)
            self.draws[k] = i + 1
            if n == 'random.uniform' and len(a) == 2:
                if self.uniform and k[1] is tm.ZERO and k[2] is tm.ONE:
                    return self.uniform[i % len(self.uniform)]
                return raw('draw', self.mk('uniform', *k[1:]), i)
            if n == 'random.random':
                i = self.draws.get(('random.uniform', num(0), num(1)), 0)
                self.draws[('random.uniform', num(0), num(1))] = i + 1
                if self.uniform:
                    return self.uniform[i % len(self.uniform)]
                return raw('draw', self.mk('uniform', num(0), num(1)), i)
            return raw('draw', self.mk(n, *k[1:]), i)
        raise Undecided('function ' + n)

    def copy(self, v, deep):
        if isinstance(v, Cell):
            return Cell(v.t)
        if isinstance(v, list):
            return [self.copy(x, deep) if deep else x for x in v]
        if isinstance(v, dict):
            return {k: self.copy(x, deep) if deep else x for k, x in v.items()}
        if isinstance(v, Inst):
            o = Inst(v.cls, v.n)
            o.attrs = {k: self.copy(x, deep) if deep else x for k, x in v.attrs.items()}
            return o
        return v

    def isinst(self, v, c):
        if isinstance(c, tuple):
            return any(self.isinst(v, x) for x in c)
        if isinstance(c, Builtin):
            py = {'list': list, 'dict': dict, 'tuple': tuple, 'str': str, 'int': int, 'set': set, 'bool': bool}.get(c.name)
            if py is not None:
                if isinstance(v, T) and c.name in ('int', 'bool'):
                    return self.decide(tm.atom(raw('isinstance', v, c.name)))
                return isinstance(v, py)
            if c.name == 'float':
                return isinstance(v, T)
        if isinstance(v, (list, dict, str, int, tuple)) or v is None:
            return False
        if isinstance(v, Inst):
            return any(x is c or (isinstance(x, Native) and isinstance(c, Native) and x.name == c.name) for x in v.cls.mro())
        if isinstance(v, (T, Cell)) and isinstance(c, (Native, Cls)):
            t = self.term(v)
            if t.op == 'call' and t.a[0] == c.name:
                return True
            return self.decide(tm.atom(raw('isinstance', t, c.name)))
        raise Undecided('isinstance')


def constant(t):
    """the value of a term without symbols"""
    import math
    if t.op == 'num':
        return float(t.a[0])
    if t is tm.PI:
        return math.pi
    if t.op == 'poly':
        r = 0.0
        for m, c in t.a[0]:
            f = float(c)
            for x, e in m:
                v = constant(x)
                if v is None:
                    return None
                f *= v ** e
            r += f
        return r
    if t.op == 'call' and t.a[0] in ('atan2', 'sin', 'cos', 'tan', 'atan', 'acos', 'asin'):
        xs = [constant(x) for x in t.a[1:]]
        return None if None in xs else getattr(math, t.a[0])(*xs)
    if t.op in ('abs', 'sqrt') and len(t.a) == 1:
        v = constant(t.a[0])
        return None if v is None else abs(v) if t.op == 'abs' else math.sqrt(v)
    return None


def dimension(t):
    """the dimension of the space an object of a known class lives in"""
    if t.op == 'call':
        c = t.a[0]
        if c[:-1] in ('Vector_', 'Point_', 'Direction_'):
            return int(c[-1])
        if c == 'rotate':
            return dimension(t.a[1])
    if t.op == 'poly':
        ds = {dimension(x) for m, c in t.a[0] for x, e in m} - {None}
        if len(ds) == 1:
            return ds.pop()
    return None


class Lib:
    """the packages of /repo and the names the compiled modules export"""

    def __init__(self, root, table, extra=None):
        self.root, self.table, self.trees, self.visited = root, table, {}, set()
        self.extra = extra or {}
        self._n, self._m = {}, {}

    def tree(self, name):
        if name not in self.trees:
            p = self.extra.get(name) or os.path.join(self.root, 'python/frackit', name, '__init__.py')
            if not os.path.exists(p):
                raise Undecided('package ' + name)
            self.trees[name] = (ast.parse(open(p).read()), p)
        return self.trees[name]

    def isnew(self, m, s):
        return False

    def names(self, n):
        if n not in self._n:
            out = set()
            for r in self.table.get(n, ()):
                w = r.split(' ')
                if w[0] == 'class':
                    out.add(w[1].rstrip(':'))
                elif w[0] == 'module':
                    out.add(w[1].split('(')[0])
                elif w[0] == 'init':
                    out.add(w[1])
            self._n[n] = out
        return self._n[n]

    def methods(self, cls):
        if cls not in self._m:
            out = set()
            for rs in self.table.values():
                for r in rs:
                    w = r.split(' ')
                    if w[0] == cls:
                        out.add(w[1].split('(')[0])
                    elif w[0] in ('static', 'property') and w[1] == cls:
                        out.add(w[2].split('(')[0])
            self._m[cls] = out | {'__init__'}
        return self._m[cls]


def run(lib, modname, fname, args, **k):
    """one partition: (decisions, outcome, vocabulary)"""
    p = Py(lib, **k)
    try:
        m = p.module(modname)
        v = p.call(m.env.v[fname], list(args), {})
        if hasattr(v, '__next__'):
            v = list(v)
        out = ('value', p.term(v))
    except PyErr as e:
        out = ('raise' if e.kind != 'never ends' else 'never ends', e.kind)
    except Cut:
        out = ('cut', None)
    return p, out, tuple(p.events)


def partitions(lib, modname, fname, args, preset=(), limit=300, **k):
    """all partitions, by depth first search over the decisions"""
    todo = [[]]
    n = 0
    while todo:
        pre = todo.pop()
        n += 1
        if n > limit:
            return
        ps = dict(preset)
        ps.update(pre)
        p, out, evs = run(lib, modname, fname, args, preset=ps, **k)
        new = [(a, v) for a, v in p.trail if a not in dict(preset)]
        for i in range(len(pre), len(new)):
            todo.append(new[:i] + [(new[i][0], not new[i][1])])
        yield p, new, out, evs
