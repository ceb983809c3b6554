"""The resolved program of one translation unit, as exported by extract/fextract."""
import json
import re
from . import terms as tm

INT = re.compile(r'^(const )?(unsigned |signed )?(int|long|long long|short|char|unsigned|std::size_t|size_t|unsigned long|std::ptrdiff_t)( const)?( ?&)?$')


def is_int(t):
    return bool(t) and bool(INT.match(t))


def is_bool(t):
    return t in ('bool', 'const bool', 'const bool &', 'bool &')


def strip(t):
    t = t.strip()
    while True:
        u = t
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&') or t.endswith('*'):
            t = t[:-1].strip()
        if t.startswith('const '):
            t = t[6:].strip()
        if t.endswith(' const'):
            t = t[:-6].strip()
        if t == u:
            return t


def targs(t):
    """top-level template arguments of a type string"""
    i = t.find('<')
    if i < 0 or not t.endswith('>'):
        return []
    out, d, cur = [], 0, ''
    for c in t[i + 1:-1]:
        if c in '<({[':
            d += 1
        elif c in '>)}]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Program:
    def __init__(self, path, name):
        self.name = name
        self.fns, self.recs, self.recq, self.globals, self.templates = {}, {}, {}, {}, []
        self.byb, self.byq = {}, {}
        ended = False
        for line in open(path):
            o = json.loads(line)
            k = o['kind']
            if k == 'fn':
                old = self.fns.get(o['id'])
                if old is None or (old.get('body') is None and o.get('body') is not None):
                    self.fns[o['id']] = o
            elif k == 'rec':
                self.recs[o['id']] = o
            elif k == 'global':
                self.globals[o['id']] = o
            elif k == 'template':
                self.templates.append(o)
            elif k == 'end':
                ended = True
        if not ended:
            raise RuntimeError('incomplete extraction ' + path)
        for f in self.fns.values():
            self.byb.setdefault(f['b'], []).append(f)
            self.byq.setdefault(f['q'], []).append(f)
        kinds = {}
        for r in self.recs.values():
            for f in r['fields']:
                k = 'i' if is_int(f['type']) else 'b' if is_bool(f['type']) else None
                kinds.setdefault(f['name'], set()).add(k)
            q = r.get('name')
            if q:
                self.recq[q] = r
        for n, s in kinds.items():
            if len(s) == 1 and None not in s:
                tm.FLDKIND[n] = next(iter(s))

    def fields_of(self, rec, seen=None):
        out = list(rec['fields'])
        for b in rec.get('bases', []):
            br = self.recq.get(b)
            if br:
                out += self.fields_of(br)
        return out

    def find(self, b, pt=None, q=None, const=None, body=True):
        """functions by base-qualified name; pt: list of substrings/predicates for the parameter types"""
        out = []
        for f in self.byb.get(b, []):
            if body and f.get('body') is None:
                continue
            if q and f['q'] != q:
                continue
            if pt is not None:
                ps = [strip(p) for p in f['pt']]
                if len(ps) != len(pt) or not all(x is None or x == y for x, y in zip(pt, ps)):
                    continue
            out.append(f)
        return out

    def one(self, b, pt=None, q=None):
        r = self.find(b, pt, q)
        if not r:
            raise Missing('%s%s in %s' % (q or b, '' if pt is None else str(tuple(pt)), self.name))
        return r[0]


class Missing(Exception):
    """an anchor of a rule does not exist any more"""
