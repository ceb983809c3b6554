"""The Python packages around the compiled modules, interpreted over terms."""
import ast
import json
import os
from .. import terms as tm
from ..terms import T, raw, sym, TRUE
from ..evalr import Undecided
from ..harness import REPO, VERIF, Broken, Timeout
from .. import pyeval
from ..pyeval import Lib, partitions, run, Cut

PACKAGES = ('common', 'geometry', 'occutilities', 'entitynetwork', 'io', 'precision', 'sampling')
KINDS = {'value': 'returns', 'raise': 'raises', 'never ends': 'never ends'}


def consistent(known):
    """no cycle among the decided orders x < y"""
    less = set()
    for a, v in known.items():
        if a.op != 'lt0':
            continue
        p, c = tm._split_const(a.a[0])
        ms = tm.topoly(p)
        if c != 0 or len(ms) != 2:
            continue
        (m1, c1), (m2, c2) = ms.items()
        if c1 + c2 != 0:
            continue
        x, y = (m1, m2) if c1 > 0 else (m2, m1)      # x - y < 0
        less.add((x, y, True) if v else (y, x, False))
    reach = {}
    for x, y, s in less:
        reach.setdefault(x, []).append((y, s))

    def dfs(start):
        seen, todo = set(), [(start, False)]
        while todo:
            n, s = todo.pop()
            for y, t in reach.get(n, ()):
                st = (y, s or t)
                if y == start and (s or t):
                    return True
                if st not in seen:
                    seen.add(st)
                    todo.append(st)
        return False
    return not any(dfs(x) for x in reach)


def settle(t, known):
    """minima and maxima whose order is decided"""
    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or not x.a:
            return x
        if x.op in ('min', 'max'):
            xs = [go(y) for y in (x.a[0] if isinstance(x.a[0], tuple) else x.a)]
            keep = []
            for i, y in enumerate(xs):
                less = lambda a, b: tm.restrict_all(tm.lt(a, b), known)
                drop = False
                for j, z in enumerate(xs):
                    if i != j:
                        r = less(y, z) if x.op == 'min' else less(z, y)
                        if r is tm.FALSE:
                            drop = True            # z is not larger (not smaller)
                if not drop:
                    keep.append(y)
            if len(keep) == 1:
                return keep[0]
            return x
        return tm.rebuild(x, go)
    if not any(x.op in ('min', 'max') for x in tm.subterms(t)):
        return t
    return go(t)


def outcome(out, evs, known):
    kind, v = out
    ts = [tm.restrict_all(e, known) for e in evs]
    if kind == 'value':
        return (kind, tm.restrict_all(v, known)) + tuple(ts)
    return (kind,) + tuple(ts)


def settled(o, known):
    return o[:1] + tuple(settle(x, known) for x in o[1:])


def text(o):
    return '%s %s' % (KINDS.get(o[0], o[0]), '; '.join(tm.show(x)[:500] for x in o[1:]))


def vocabulary(t, out):
    """names of the calls in a value"""
    for x in tm.subterms(t):
        if x.op == 'call':
            out.add(x.a[0])
        elif x.op in ('bound', 'name', 'pyfunction', 'text'):
            out.add(x.op)
    return out


def compare(lib, name, args, specs, common, full, **opts):
    """(verdict, detail, partitions): every partition of the law's left side agrees with one of the admissible results"""
    n, und = 0, None
    seen = 0
    for p, pre, out, evs in partitions(lib, 'laws', name + '_is', args, limit=full, **opts):
        n += 1
        if out[0] == 'cut':
            continue
        seen += 1
        if not consistent(p.known):
            continue
        bad = None
        for sp in specs:
            bad = None
            for q, _, want, wevs in partitions(lib, 'laws', sp, args, preset=dict(p.trail), limit=40, **opts):
                if want[0] == 'cut' or not consistent(q.known):
                    continue
                known = dict(p.known)
                known.update(q.known)
                a, b = outcome(out, evs, known), outcome(want, wevs, known)
                if a != b and settled(a, known) != settled(b, known):
                    bad = (a, b, known, q)
                    break
            if bad is None:
                break
        if bad is not None:
            a, b, known, q = bad
            voc = set()
            for x in list(a[1:]):
                vocabulary(x, voc)
            for c in known:
                vocabulary(c, voc)
            strange = voc - common - q.vocab
            d = 'where %s\nthe source %s\nit should be: %s' % (' and '.join('%s%s' % ('' if v else 'not ', tm.show(c)[:160]) for c, v in list(known.items())[:8]) or 'always', text(a), text(b))
            if strange:
                und = 'calls %s are not interpreted: %s' % (sorted(strange)[:4], d[:300])
                continue
            return False, d, n
    if und:
        return None, und, n
    if not seen:
        return None, 'no partition within the bounds', n
    return True, '%d partitions' % n, n


def policies(lib, name, args, specs, seeds, **opts):
    """rejection loops whose every draw is rejected, for the samplers of one side of a random split"""
    import hashlib
    for s in range(seeds):
        def pol(a, s=s):
            d = sorted({tm.show(x.a[0]) for x in tm.subterms(a) if x.op == 'draw'})
            k = (repr(d) if d else tm.show(a)) + str(s)
            h = hashlib.md5(k.encode()).digest()[0]
            v = (h & 1) == 1
            # the sign of the normal form is arbitrary: a condition that a sampler's value is small holds or not
            if a.op == 'lt0':
                p, c = tm._split_const(a.a[0])
                if tm.leadcoef(p) < 0:
                    v = not v
            return v
        p, out, evs = run(lib, 'laws', name + '_is', args, policy=pol, **opts)
        if out[0] == 'cut':
            continue
        bad = None
        for sp in specs:
            q, want, wevs = run(lib, 'laws', sp, args, policy=pol, **opts)
            if want[0] == 'cut':
                bad = None
                break
            a, b = outcome(out, evs, p.known), outcome(want, wevs, q.known)
            known = dict(p.known)
            known.update(q.known)
            bad = None if a == b or settled(a, known) == settled(b, known) else (a, b)
            if bad is None:
                break
        if bad:
            return False, 'where the values of the samplers keep being (in)admissible\nthe source %s\nit should be: %s' % (text(bad[0]), text(bad[1]))
    return True, ''


UNIFORM = {'polygon3': ['0.3', '0.72', '0.55', '0.2', '0.95', '0.6'],
           'polygon5': ['0.05', '0.83', '0.41', '0.62', '0.27', '0.15', '0.52', '0.98', '0.34', '0.71'],
           'quad': ['0.31', '0.94', '0.22', '0.66', '0.47', '0.08', '0.75', '0.53'],
           'corners_number': ['0.3', '0.72', '0.55', '0.2', '0.95', '0.6', '0.05', '0.83', '0.41', '0.62', '0.27', '0.15', '0.52', '0.98', '0.34', '0.71', '0.47', '0.08'] * 3}


SAMPLING = ('box', 'cylinder', 'make', 'interval', 'disk', 'polygon3', 'polygon5', 'quad', 'corners')


def B03(ck):
    return layer(ck, lambda n: n.split('_')[0] not in SAMPLING, 35)


def B04(ck):
    return layer(ck, lambda n: n.split('_')[0] in SAMPLING, 12)


def layer(ck, mine, least):
    """Each law of refs/pylaws.py is interpreted with the current sources of the packages: in every
    partition of the values and outcomes of the symbols both sides give the same term, the same calls or both raise."""
    table = json.load(open(os.path.join(VERIF, 'fstatic/rules/bindings.json')))
    laws = os.path.join(VERIF, 'refs/pylaws.py')
    for p in PACKAGES:
        f = os.path.join(REPO, 'python/frackit', p, '__init__.py')
        if not os.path.exists(f):
            raise Broken('package %s is gone' % p)
        try:
            ast.parse(open(f).read())
        except SyntaxError as x:
            raise Broken('%s: %s' % (f, x))
    lib = Lib(REPO, table, {'laws': laws})
    tree = ast.parse(open(laws).read())
    fns = {s.name: s for s in tree.body if isinstance(s, ast.FunctionDef)}
    names = [n[:-3] for n in fns if n.endswith('_is')]
    common = set()
    for x in ast.walk(tree):
        if isinstance(x, ast.Attribute):
            common.add('.' + x.attr)
        elif isinstance(x, ast.Name):
            common.add(x.id)
        elif isinstance(x, ast.Constant) and isinstance(x.value, str):
            common.add(x.value)
        elif isinstance(x, ast.alias):
            common.add(x.name)
    common |= {'uniform', '()', 'rotate', 'len', '.xMin', '.isEqual'}
    common |= {n for m in table for n in lib.names(m)}
    for p in PACKAGES:
        ck.progs['python/frackit/%s/__init__.py' % p] = None
    ck.OBTIME = 90 if ck.tier == 'quick' else 600
    cnt = 0
    for n in names:
        if not mine(n):
            continue
        specs = [s for s in fns if s == n + '_should' or (s.startswith(n + '_should') and s[len(n) + 7:].isdigit())]
        ps = [a.arg for a in fns[n + '_is'].args.args]
        args = [sym(p) for p in ps]
        opts = {}
        if n in UNIFORM:
            opts['uniform'] = [tm.num(float(x)) for x in UNIFORM[n]]
        if n == 'corners_number':
            opts['assume'] = ('.isEqual',)

        def f(n=n, args=args, specs=specs, opts=opts):
            r = compare(lib, n, args, specs, common, 200 if ck.tier == 'quick' else 2000, **opts)
            if r[0] and n.split('_')[0] in ('disk', 'polygon3', 'polygon5', 'quad', 'corners'):
                q = policies(lib, n, args, specs, 8 if ck.tier == 'quick' else 40, **opts)
                if q[0] is False:
                    return q
            return r[0], r[1]
        lib.visited = set()
        o = ck.ob(n, f, rule='%s_is = %s' % (n, ' or '.join(specs)))
        if o is not None:
            vis = sorted((p.replace(REPO + '/', ''), l, q) for p, q, l in lib.visited if p.startswith(REPO))
            for p, l, q in vis:
                ck.functions.add('%s:%s %s' % (p, l, q))
            if vis:
                o.where = '; '.join('%s:%s %s' % v for v in vis[:4])
        cnt += 1
    ck.atleast('laws of the Python layer', least, cnt)
    return layer.__doc__
