"""Shared frame of every check: tool building, witness compilation, obligations, evidence, exit codes."""
import hashlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LLVM = '/usr/lib/llvm-18'
CLANG = '/usr/bin/clang++-18'
if not os.path.exists(CLANG):
    CLANG = LLVM + '/bin/clang++'
EIGEN = ['-DWITH_EIGEN', '-I/usr/include/eigen3', '-DEIGEN_DONT_VECTORIZE']


class Broken(Exception):
    """the analysis itself cannot give an answer (vanished anchor, unparsable witness, engine limit)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


def tool(name):
    """build tools/<name>.cpp (against the installed LLVM) when its binary is missing or older."""
    src = os.path.join(VERIF, 'tools', name + '.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, '%s-%s' % (name, h))
    if os.path.exists(exe):
        return exe
    flags = sh([LLVM + '/bin/llvm-config', '--cxxflags']).stdout.split()
    libs = ['-lclang-cpp', '-lLLVM-18'] if 'clang/' in open(src).read() else ['-lLLVM-18']
    tmp = exe + '.%d' % os.getpid()
    r = sh([CLANG, '-O1'] + flags + ['-fexceptions', '-w', src, '-o', tmp, '-L' + LLVM + '/lib'] + libs)
    if r.returncode:
        raise Broken('cannot build tool %s: %s' % (name, r.stderr[:2000]))
    os.replace(tmp, exe)
    return exe


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vchk.')
        import atexit
        import shutil
        pid = os.getpid()
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True) if os.getpid() == pid else None)
    return _scratch


_ov = None


def overlay():
    """clang 18 refuses, in a lambda without capture default, an implicit use of a local declared
    `constexpr auto N = X::value;` which g++ (the project's compiler) accepts.  The files are presented to
    clang with `constexpr int N` instead; nothing else changes and line numbers are kept."""
    global _ov
    if _ov:
        return _ov
    d = os.path.join(scratch(), 'ov')
    os.makedirs(d, exist_ok=True)
    roots = []
    for base, _, fs in os.walk(os.path.join(REPO, 'anifem++')):
        for f in fs:
            if f.endswith(('.h', '.inl', '.cpp')):
                p = os.path.join(base, f)
                s = open(p, errors='replace').read()
                t, n = re.subn(r'\bconstexpr\s+auto\s+(\w+)\s*=\s*([^;]*::value)\s*;', r'constexpr int \1 = \2;', s)
                if n:
                    q = os.path.join(d, p.strip('/').replace('/', '__'))
                    open(q, 'w').write(t)
                    roots.append({'type': 'file', 'name': p, 'external-contents': q})
    y = os.path.join(scratch(), 'ov.yaml')
    json.dump({'version': 0, 'case-sensitive': 'true', 'roots': roots}, open(y, 'w'))
    _ov = y
    return y


CXXFLAGS = ['-std=c++14', '-w', '-ffp-contract=off', '-fno-math-errno', '-fopenmp-simd', '-I' + REPO]


def clang_args():
    return ['-ivfsoverlay', overlay()] + CXXFLAGS


class CompileError(Exception):
    pass


def witness_ir(src, defs=(), eigen=False, name='w', prefix='w', dump=None, light=False):
    """compile a witness source text to folded IR (JSON module of tools/irdump)."""
    h = hashlib.sha256((src + repr(defs) + str(eigen) + name).encode()).hexdigest()[:16] + '_%d' % os.getpid()
    cpp = os.path.join(scratch(), '%s_%s.cpp' % (name, h))
    bc = cpp[:-4] + '.bc'
    open(cpp, 'w').write(src)
    cmd = [CLANG] + clang_args() + ['-O2', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-emit-llvm', '-c',
                                    cpp, '-o', bc, '-fno-vectorize', '-fno-slp-vectorize', '-I' + os.path.join(VERIF, 'witness')]
    cmd += list(defs) + (EIGEN if eigen else [])
    r = sh(cmd)
    if r.returncode:
        raise CompileError(r.stderr[:3000])
    r = sh([tool('irdump'), bc, prefix, dump or '-', light if isinstance(light, str) else 'light' if light else 'full'])
    if r.returncode:
        raise Broken('irdump failed: ' + r.stderr[:1000])
    for f in (bc,):
        os.remove(f)
    return json.loads(r.stdout)


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                out.append(m.groups())
    return out


class Check:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.obl = 0
        self.ok = 0
        self.keys = set()
        self.viol = []
        self.samples = []
        self.counts = {}
        self.assumptions = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def obligation(self, good, key, msg, where=''):
        """one decided obligation; key identifies the instance."""
        self.obl += 1
        self.keys.add(key)
        if good:
            self.ok += 1
            if len(self.samples) < 6 or (len(self.samples) < 12 and self.obl % 97 == 0):
                self.samples.append({'obligation': key, 'result': 'discharged'})
        else:
            self.viol.append((key, msg, where))

    def absorb(self, res):
        for key, good, msg, where in res.get('obl', []):
            self.obligation(good, key, msg, where)
        for k, v in res.get('counts', {}).items():
            self.count(k, v)

    def need(self, name, n, least):
        """instance floor: fewer instances than confirmed by hand means the analysis lost its subject."""
        if n < least:
            raise Broken('%s: %d instances found, at least %d expected' % (name, n, least))

    def finish(self):
        known = {(p, k): d for p, k, d in known_findings()}
        new, old = [], []
        for v in self.viol:
            (old if (self.pid, v[0]) in known else new).append(v)
        for k, m, w in old:
            print('KNOWN-FINDING: property=%s %s %s' % (self.pid, k, known[(self.pid, k)]))
        cov = {'explanation': self.rule, 'obligations': self.obl, 'discharged': self.ok, 'distinct_instances': len(self.keys),
               'known_findings_seen': len(old), 'samples': self.samples}
        cov.update(self.counts)
        ev = {'property': self.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'other',
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        print('%s: %d obligations, %d discharged, %d known findings, %.1f s; %s' % (
            self.pid, self.obl, self.ok, len(old), time.time() - self.t0, ', '.join('%s=%s' % x for x in sorted(self.counts.items()))))
        if self.obl == 0:
            raise Broken('no obligation was generated')
        if new:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, self.pid + '.json')
            json.dump([{'instance': k, 'violation': m, 'where': w} for k, m, w in new], open(rp, 'w'), indent=1)
            for k, m, w in new[:20]:
                print('  violated: %s: %s%s' % (k, m[:600], ('  [%s]' % w) if w else ''))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


def main(pid, rule, body):
    c = Check(pid, rule)
    try:
        body(c)
        rc = c.finish()
    except Broken as e:
        if c.viol:
            # a decided violation stands even when another part of the analysis gave up
            print('analysis incomplete: %s' % e)
            try:
                rc = c.finish()
                if rc == 1:
                    sys.exit(1)
            except Broken:
                pass
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, e))
        sys.exit(3)
    sys.exit(rc)


def _guard(job):
    f, a = job
    try:
        return f(*a)
    except Broken as e:
        return {'broken': '%s%r: %s' % (f.__name__, a if len(repr(a)) < 200 else '', e)}
    except CompileError as e:
        return {'broken': '%s%r: witness does not compile: %s' % (f.__name__, a if len(repr(a)) < 200 else '', e)}
    except Exception as e:
        if isinstance(e, (AttributeError, TypeError)) and ("'Undef'" in str(e) or str(e) in ["'NoneType' object has no attribute '%s'" % k for k in 'ntd']):
            # a number the property speaks about is not written, or computed from memory nobody wrote
            return {'obl': [(' '.join(str(getattr(x, 'name', x)) for x in (f.__name__,) + tuple(a))[:200], False, 'a result is missing or computed from unwritten memory (%s)' % traceback.format_exc()[-300:].replace('\n', ' '), '')]}
        return {'broken': '%s%r: %s: %s\n%s' % (f.__name__, a if len(repr(a)) < 200 else '', type(e).__name__, str(e)[:500], traceback.format_exc()[-1500:])}


def pmap(jobs, procs=8):
    """run jobs [(function, args)] in worker processes; the overlay and tools are prepared first."""
    overlay()
    tool('irdump')
    if len(jobs) <= 1 or os.environ.get('VERIF_SERIAL'):
        return [_guard(j) for j in jobs]
    with mp.get_context('fork').Pool(min(procs, len(jobs)), maxtasksperchild=4) as p:
        return p.map(_guard, jobs, chunksize=1)


def collect(c, jobs, procs=8):
    bad = []
    for r in pmap(jobs, procs):
        if 'broken' in r:
            bad.append(r['broken'])
        c.absorb(r)
    if bad:
        raise Broken('%d analysis tasks failed; first: %s' % (len(bad), bad[0][:2500]))
