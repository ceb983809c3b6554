"""Extraction (with a content-addressed cache), obligations, evidence and verdicts."""
import hashlib
import json
import os
import resource
import signal
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from . import terms as tm
from . import interp
from .program import Program, Missing
from .evalr import Undecided

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FSTATIC_REPO', '/repo')     # override for development only
BUILD = os.environ.get('FSTATIC_BUILD', os.path.join(VERIF, 'build'))
CLANG_RES = '/usr/lib/llvm-18/lib/clang/18'
DRIVERS = ('geometry', 'occ', 'distance', 'intersect', 'network', 'sampling', 'ref', 'lawocc', 'lawdist', 'lawnet', 'lawsamp', 'lawio')
PYMODS = ('common', 'precision', 'geometry', 'occutilities', 'entitynetwork', 'io', 'sampling')


class Broken(Exception):
    """the analysis itself could not run"""


def source_of(tu):
    if tu.startswith('py_'):
        m = tu[3:]
        return os.path.join(REPO, 'python/frackit/%s/_%s.cc' % (m, m))
    return os.path.join(VERIF, 'drivers', tu + '.cc')


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'frackit'), os.path.join(REPO, 'python'), os.path.join(VERIF, 'refs')):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.hh', '.cc', '.h', '.hpp')):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b'\0')
                    h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def exporter():
    h = hashlib.sha256(open(os.path.join(VERIF, 'extract/fextract.cc'), 'rb').read()).hexdigest()[:20]
    p = os.path.join(VERIF, 'build', 'fextract-' + h)
    if not os.path.exists(p):
        r = subprocess.run([os.path.join(VERIF, 'setup.sh')], capture_output=True, text=True)
        if r.returncode or not os.path.exists(p):
            raise Broken('exporter does not build: ' + (r.stderr or '')[-800:])
    return p


_th = None


def extract(tus):
    """run the exporter on every unit of /repo's current sources that is not in the cache"""
    global _th
    exe = exporter()
    if _th is None:
        _th = tree_hash()
    out = {}
    todo = []
    for t in tus:
        src = source_of(t)
        if not os.path.exists(src):
            raise Broken('unit %s has no source %s' % (t, src))
        k = hashlib.sha256((_th + os.path.basename(exe)).encode() + open(src, 'rb').read()).hexdigest()[:20]
        p = os.path.join(BUILD, '%s-%s.jsonl' % (t, k))
        out[t] = p
        if not os.path.exists(p):
            todo.append((t, src, p))

    def one(x):
        t, src, p = x
        tmp = '%s.tmp.%d' % (p, os.getpid())
        cmd = [exe, '--root=' + REPO + '/frackit', '--root=' + VERIF + '/refs', '-o', tmp, src]
        inc = []
        if t.startswith('py_'):
            cmd.insert(2, '--root=' + REPO + '/python')
            inc = ['-isystem', '/usr/include/python3.12']
        cmd += ['--', '-std=c++17', '-I' + REPO, '-I' + VERIF + '/refs', '-isystem', '/usr/include/opencascade'] + inc + \
               ['-resource-dir', CLANG_RES, '-w', '-DNDEBUG']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp) or os.path.getsize(tmp) == 0:
            if os.path.exists(tmp):
                os.remove(tmp)
            err = [l for l in r.stderr.splitlines() if 'error' in l]
            return '%s does not compile: %s' % (t, '; '.join(err[:3]))
        os.rename(tmp, p)
        return None
    if todo:
        os.makedirs(BUILD, exist_ok=True)
        for old in os.listdir(BUILD):       # keep the cache small
            q = os.path.join(BUILD, old)
            if old.endswith('.jsonl') and time.time() - os.path.getmtime(q) > 6 * 3600:
                os.remove(q)
        with ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(one, todo) if e]
        if errs:
            raise Broken(' | '.join(errs))
    return out


class Timeout(BaseException):
    pass


class Ob:
    __slots__ = ('name', 'where', 'rule', 'status', 'detail', 'wall')


class Check:
    """collects the obligations of one property"""
    OBTIME = 25

    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.obs = []
        self.progs = {}
        self.missing = []
        self.t0 = time.time()
        self.functions = set()
        self.assumptions = []
        self.need = {}
        self.only = None

    def load(self, *tus):
        todo = [t for t in tus if t not in self.progs]
        for t, p in extract(todo).items():
            self.progs[t] = Program(p, t)
        return [self.progs[t] for t in tus]

    def prog(self, tu):
        if tu not in self.progs:
            self.load(tu)
        return self.progs[tu]

    # -------------------------------------------------------------- obligations
    def ob(self, name, f, where=None, rule=''):
        """f() -> True | (bool, detail); exceptions make the obligation undecided"""
        if self.only and self.only not in name:
            return None
        o = Ob()
        o.name, o.where, o.rule = name, where, rule
        t = time.time()
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.OBTIME)
        try:
            r = f()
            if isinstance(r, tuple):
                ok, o.detail = r[0], r[1]
                if len(r) > 2:
                    o.where = r[2]
            else:
                ok, o.detail = r, ''
            o.status = 'undecided' if ok is None else ('ok' if ok else 'violation')
        except Missing as x:
            o.status, o.detail = 'missing', str(x)
            self.missing.append('%s: %s' % (name, x))
        except (Undecided, tm.TooBig, RecursionError, interp.Unint) as x:
            o.status, o.detail = 'undecided', '%s %s' % (type(x).__name__, str(x)[:300])
        except Timeout:
            o.status, o.detail = 'undecided', 'time limit'
        except Exception as x:          # engine limitation: reported, never an alarm
            o.status, o.detail = 'undecided', 'engine: %s %s %s' % (type(x).__name__, str(x)[:200], [(q.lineno, q.name) for q in traceback.extract_tb(x.__traceback__)[-3:]])
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        o.wall = time.time() - t
        if o.where is not None and not isinstance(o.where, str):
            o.where = loc(o.where)
        self.obs.append(o)
        return o

    def limited(self, f):
        """f() within the time of one obligation, None when it is exceeded"""
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.OBTIME)
        try:
            return f()
        except Timeout:
            return None
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def atleast(self, what, n, count):
        """the rule must have found at least n instances"""
        if count < n:
            self.missing.append('%s: %d instances, expected at least %d' % (what, count, n))


def _alarm(*a):
    raise Timeout()


def loc(f):
    if f is None:
        return ''
    if isinstance(f, dict):
        return '%s:%s' % (f.get('file', '?').replace(REPO + '/', ''), f.get('line', '?'))
    return str(f)


# ------------------------------------------------------------------ known findings
def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for l in open(p):
        l = l.strip()
        if l.startswith('finding: property='):
            rest = l[len('finding: property='):]
            pid, _, rest = rest.partition(' ')
            assert rest.startswith('instance='), l
            inst, _, what = rest[len('instance='):].partition(' :: ')
            out.append((pid, inst.strip(), what.strip()))
    return out


def finish(ck, explanation, err=None):
    """write evidence, print the verdict, return the exit status"""
    known = [(i, w) for p, i, w in known_findings() if p == ck.pid]
    viol = [o for o in ck.obs if o.status == 'violation']
    und = [o for o in ck.obs if o.status == 'undecided']
    new, kn = [], []
    for o in viol:
        m = [w for i, w in known if i == o.name]
        (kn if m else new).append((o, m[0] if m else None))
    ev = {
        'property': ck.pid, 'tier': ck.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': explanation,
            'counts': {'obligations': len(ck.obs), 'proved': sum(o.status == 'ok' for o in ck.obs), 'violations': len(new),
                       'known_findings': len(kn), 'undecided': len(und), 'functions_analysed': len(ck.functions),
                       'units': len(ck.progs)},
            'obligations': [{'instance': o.name, 'where': o.where or '', 'rule': o.rule, 'status': o.status,
                             'detail': (o.detail or '')[:400]} for o in ck.obs],
            'units': sorted(ck.progs), 'functions': sorted(ck.functions)[:400],
        },
        'wall_s': round(time.time() - ck.t0, 2), 'violations': len(new),
        'assumptions': ck.assumptions,
    }
    EV = os.environ.get('FSTATIC_BUILD') or os.path.join(VERIF, 'evidence')
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, ck.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d hold, %d undecided, %d known, %d violated; %d functions in %d units, %.1f s' %
          (ck.pid, len(ck.obs), ev['coverage']['counts']['proved'], len(und), len(kn), len(new), len(ck.functions), len(ck.progs), ev['wall_s']))
    for o in und:
        print('  undecided: %s (%s): %s' % (o.name, o.where or '', (o.detail or '')[:160]))
    for o, w in kn:
        print('KNOWN-FINDING: property=%s %s (%s)' % (ck.pid, w, o.where or ''))
    for o, _ in new:
        print('  violated: %s at %s\n    rule: %s\n    %s' % (o.name, o.where or '', o.rule, (o.detail or '')[:1500].replace('\n', '\n    ')))
    if new:
        rp = os.path.join(BUILD, 'violation-%s.txt' % ck.pid)
        with open(rp, 'w') as f:
            f.write('Re-run: %s/run.sh %s %s\n' % (VERIF, ck.pid, ck.tier))
            for o, _ in new:
                f.write('%s at %s\nrule: %s\n%s\n\n' % (o.name, o.where or '', o.rule, o.detail))
        for o, _ in new[:1]:
            print('VIOLATION property=%s replay=%s' % (ck.pid, rp))
        return 1
    if err or ck.missing:
        print('ANALYSIS-BROKEN %s: %s' % (ck.pid, err or '; '.join(ck.missing[:8])))
        return 2
    if not ck.obs or len(und) == len(ck.obs):
        print('ANALYSIS-BROKEN %s: %d of %d obligations undecided' % (ck.pid, len(und), len(ck.obs)))
        return 2
    return 0


def main(argv):
    import importlib
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass
    from . import rules
    ck = Check(pid, tier)
    if len(argv) > 3:
        ck.only = argv[3]
    mod, fn = rules.TABLE[pid]
    try:
        m = importlib.import_module('fstatic.rules.' + mod)
        expl = getattr(m, fn)(ck)
    except Broken as x:
        return finish(ck, 'analysis did not run', err=str(x))
    except Missing as x:
        return finish(ck, 'anchor vanished', err=str(x))
    return finish(ck, expl or (getattr(m, fn).__doc__ or '').strip())


if __name__ == '__main__':
    import threading
    threading.stack_size(512 << 20)
    rc = [2]

    def go():
        rc[0] = main(sys.argv)
    # signals need the main thread: raise the recursion limit there instead
    sys.setrecursionlimit(60000)
    go()
    sys.exit(rc[0])
