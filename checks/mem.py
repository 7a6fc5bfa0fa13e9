"""W01: carving of raw memory.  W02: memory pools hand out memory nobody else holds.

Sizes and capacities are arbitrary non-negative integers.  Comparisons that their signs do not decide split the path; the path
is remembered as linear inequalities (a polyhedron), which decides later comparisons and the obligations at its end."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from frame import *
from alg import *
from poly import *
import avn

ONLY = os.environ.get('ONLY', '')
TIER = os.environ.get('VERIF_TIER', 'quick')
WH = 'anifem++/fem/fem_memory.h'


HEAD = '''
#include "anifem++/fem/fem_memory.h"
using namespace Ani;
typedef unsigned long ul;
'''
SIZE = {'double': 8, 'float': 4, 'int': 4, 'long': 8, 'short': 2, 'char': 1}
DMSZ = 32


def intargs(vals):
    return lambda ev, base, off, sz, ty: vals.get(off // 8) if base == 'n' and sz == 8 and off % 8 == 0 else None


def cells(r, n):
    return [r.cell('O', 8 * i) for i in range(n)]


def isnull(p):
    return p is None or isinstance(p, avn.Ptr) and p.base == 'null' and p.off.const() == 0


def blocks(p, parts, lo, hi, base):
    """each part (name, pointer, count, element size, alignment) lies in [lo, hi) of `base`, aligned; parts are disjoint"""
    iv = []
    for name, q, cnt, es, al in parts:
        if not (isinstance(q, avn.Ptr) and q.base == base):
            return '%s is %s, expected inside the memory given' % (name, repr(q)[:60])
        o = q.off
        if any(c % al for c in o.n.t.values()):
            return '%s starts at offset %s, not aligned to %d' % (name, show(o, 60), al)
        e = o + cnt * lift(es)
        if not p.le(lo, o) or not p.le(e, hi):
            return '%s occupies [%s, %s) of memory [%s, %s)' % (name, show(o, 60), show(e, 60), show(lo, 60), show(hi, 60))
        iv.append((name, o, e))
    for (n1, a, b), (n2, c, d) in itertools.combinations(iv, 2):
        if not p.le(b, c) and not p.le(d, a):
            return '%s [%s, %s) and %s [%s, %s) overlap' % (n1, show(a, 40), show(b, 40), n2, show(c, 40), show(d, 40))
    return ''


def counts(es, k, mx=8):
    """sizes of elements of es bytes: nothing, and every residue of the alignment period plus any multiple"""
    per = max(1, mx // es)
    yield ZERO
    for s in range(1, per + 1):
        yield lift(per) * sym(k) + lift(s)


def raw(S, I, X):
    """PlainMemory (X=False) or PlainMemoryX"""
    T = 'PlainMemory%s<%s, %s>' % ('X' if X else '', S, I)
    st = 'O[0] = (ul)p; O[1] = (ul)m.ddata; O[2] = (ul)m.idata; O[3] = m.dSize; O[4] = m.iSize;' + (' O[5] = (ul)m.mdata; O[6] = m.mSize;' if X else '')
    se = 'm.dSize = n[0]; m.iSize = n[1];' + (' m.mSize = n[2];' if X else '')
    a = 'n[0], n[1]' + (', n[2]' if X else '')
    src = HEAD + '''
extern "C" void w_enough(const ul* n, char* M, ul* O){ %(T)s m; %(se)s O[0] = m.enoughRawSize(); }
extern "C" void w_own(const ul* n, char* M, ul* O){ %(T)s m; %(se)s void* p = m.allocateFromRaw(M, n[3]); %(st)s }
extern "C" void w_arg(const ul* n, char* M, ul* O){ %(T)s m; void* p = m.allocateFromRaw(M, n[3], %(a)s); %(st)s }
extern "C" void w_full(const ul* n, char* M, ul* O){ %(T)s m; %(se)s void* p = m.allocateFromRaw(M, m.enoughRawSize()); %(st)s }
''' % {'T': T, 'se': se, 'st': st, 'a': a}
    mod = witness_ir(src, name='raw', light=True)
    ss, si = SIZE[S], SIZE[I]
    obl, np = [], 0
    M = sym('M')
    for res in range(8):
        for d, i, m in itertools.product(counts(ss, 'kd'), counts(si, 'ki'), counts(DMSZ, 'km') if X else [ZERO]):
            nm = 'd=%s i=%s m=%s at %d' % (show(d, 30), show(i, 30), show(m, 30), res)
            none = all(x.const() == 0 for x in (d, i, m))
            args = {0: avn.Ptr('n'), 1: avn.Ptr('RAW', lift(res)), 2: avn.Ptr('O')}
            need = None
            for fn in ('w_enough', 'w_full', 'w_own', 'w_arg'):
                if fn == 'w_full' and none:
                    continue
                err = ''
                for p, r in paths(mod, fn, args, intargs({0: d, 1: i, 2: m, 3: M})):
                    np += 1
                    if r.noreturn:
                        err = 'ends in an exception'
                        break
                    o = cells(r, 7)
                    if fn == 'w_enough':
                        need = o[0]
                        if not isinstance(need, R) or none and need.const() != 0:
                            err = 'size is %s' % repr(need)[:60]
                        continue
                    lo, hi = lift(res), lift(res) + (need if fn == 'w_full' else M)
                    if isnull(o[0]) and not none:
                        if fn == 'w_full':
                            err = 'fails in memory of the announced size %s' % show(need, 60)
                        elif p.holds(M - need) is True:
                            err = 'fails although memory is not smaller than the announced size %s' % show(need, 60)
                        if not err:
                            continue
                        break
                    al = lambda z: z
                    parts = [(w, q, cnt, es, a) for w, q, cnt, es, a in (('numbers', o[1], d, ss, ss), ('indices', o[2], i, si, si), ('matrices', o[5], m, DMSZ, 8)) if cnt.const() != 0]
                    err = blocks(p, parts, lo, hi, 'RAW')
                    if not err:
                        for w, g, z in (('dSize', o[3], d), ('iSize', o[4], i)) + ((('mSize', o[6], m),) if X else ()):
                            if not isinstance(g, R) or (g - z).const() != 0:
                                err = '%s is %s, expected %s' % (w, repr(g)[:60], show(z, 30))
                    if not err and parts:
                        # what remains starts behind every part and is inside
                        e = o[0]
                        if not (isinstance(e, avn.Ptr) and e.base == 'RAW' and p.le(e.off, hi) and all(p.le(q.off + cnt * lift(es), e.off) for _, q, cnt, es, _ in parts)):
                            err = 'the rest starts at %s' % (show(e.off, 60) if isinstance(e, avn.Ptr) else repr(e)[:40])
                    if err:
                        err += ' (path: %s)' % '; '.join(p.split) if p.split else ''
                        break
                obl.append(('%s/%s/%s' % (T, fn[2:], nm), not err, err, WH + ': %s::%s' % (T.split('<')[0], 'enoughRawSize' if fn == 'w_enough' else 'allocateFromRaw')))
    return {'obl': obl, 'count': {'paths': np}}


def plain(S, I, from_scalars):
    T = 'PlainMemoryX<%s, %s>' % (S, I)
    fl = 'true' if from_scalars else 'false'
    st = 'O[0] = ok; O[1] = (ul)m.ddata; O[2] = (ul)m.idata; O[3] = m.dSize; O[4] = m.iSize; O[5] = (ul)m.mdata; O[6] = m.mSize;'
    src = HEAD + '''
extern "C" void w_enough(const ul* n, %(S)s* D, %(I)s* J, ul* O){ %(T)s m; m.dSize = n[0]; m.iSize = n[1]; m.mSize = n[2]; auto p = m.enoughPlainMemory(%(fl)s); O[0] = p.dSize; O[1] = p.iSize; }
extern "C" void w_full(const ul* n, %(S)s* D, %(I)s* J, ul* O){ %(T)s m; m.dSize = n[0]; m.iSize = n[1]; m.mSize = n[2]; auto q = m.enoughPlainMemory(%(fl)s); q.ddata = D; q.idata = J; bool ok = m.allocateFromPlainMemory(q, %(fl)s); %(st)s }
extern "C" void w_arg(const ul* n, %(S)s* D, %(I)s* J, ul* O){ %(T)s m; bool ok = m.allocateFromPlainMemory(D, n[3], J, n[4], n[0], n[1], n[2], %(fl)s); %(st)s }
''' % {'T': T, 'fl': fl, 'S': S, 'I': I, 'st': st}
    mod = witness_ir(src, name='plain', light=True)
    ss, si = SIZE[S], SIZE[I]
    obl, np = [], 0
    for rd, ri in itertools.product(range(0, 8, ss), range(0, 8, si)):
        for d, i, m in itertools.product(counts(ss, 'kd'), counts(si, 'ki'), counts(DMSZ, 'km')):
            nm = 'd=%s i=%s m=%s at %d,%d' % (show(d, 30), show(i, 30), show(m, 30), rd, ri)
            args = {0: avn.Ptr('n'), 1: avn.Ptr('D', lift(rd)), 2: avn.Ptr('J', lift(ri)), 3: avn.Ptr('O')}
            need = None
            for fn in ('w_enough', 'w_full', 'w_arg'):
                err = ''
                nd, ni = sym('Nd'), sym('Ni')
                for p, r in paths(mod, fn, args, intargs({0: d, 1: i, 2: m, 3: nd, 4: ni})):
                    np += 1
                    if r.noreturn:
                        err = 'ends in an exception'
                        break
                    o = cells(r, 7)
                    if fn == 'w_enough':
                        need = o[:2]
                        continue
                    if fn == 'w_full':
                        nd, ni = need
                    ok = o[0]
                    if not isinstance(ok, R) or ok.const() not in (0, 1):
                        raise Broken('result is not a decided truth value')
                    if not ok.const():
                        if fn == 'w_full' or p.holds(nd - need[0]) is True and p.holds(ni - need[1]) is True:
                            err = 'fails in memory of the announced size %s, %s' % (show(need[0], 60), show(need[1], 60))
                            break
                        continue
                    D = [('numbers', o[1], d, ss, ss)] if d.const() != 0 else []
                    J = [('indices', o[2], i, si, si)] if i.const() != 0 else []
                    if m.const() != 0:
                        (D if from_scalars else J).append(('matrices', o[5], m, DMSZ, 8))
                    err = blocks(p, D, lift(rd), lift(rd) + nd * lift(ss), 'D') or blocks(p, J, lift(ri), lift(ri) + ni * lift(si), 'J')
                    for w, g, z in (('dSize', o[3], d), ('iSize', o[4], i), ('mSize', o[6], m)):
                        if not err and (not isinstance(g, R) or (g - z).const() != 0):
                            err = '%s is %s, expected %s' % (w, repr(g)[:60], show(z, 30))
                    if err:
                        break
                obl.append(('%s/plain-%s/%s/%s' % (T, fl, fn[2:], nm), not err, err, WH + ': PlainMemoryX::%s' % ('enoughPlainMemory' if fn == 'w_enough' else 'allocateFromPlainMemory')))
    return {'obl': obl, 'count': {'paths': np}}


def sizes():
    """ge, extend_size, append_size"""
    src = HEAD
    for X, T in ((0, 'PlainMemory<double, int>'), (1, 'PlainMemoryX<double, int>')):
        for f, act in (('ge', 'O[9] = a.ge(b);'), ('ext', 'a.extend_size(b);'), ('app', 'a.append_size(b);')):
            g = lambda z: ' '.join('O[%d] = %s.%s;' % (k + (3 if z == 'b' else 0), z, w) for k, w in enumerate(['dSize', 'iSize', 'mSize'][:2 + X]))
            s = lambda z: ' '.join('%s.%s = n[%d];' % (z, w, k + (3 if z == 'b' else 0)) for k, w in enumerate(['dSize', 'iSize', 'mSize'][:2 + X]))
            src += 'extern "C" void w_%s%d(const ul* n, ul* O){ %s a, b; %s %s O[9] = 7; %s %s %s }\n' % (f, X, T, s('a'), s('b'), act, g('a'), g('b'))
    mod = witness_ir(src, name='sizes', light=True)
    obl, np = [], 0
    for X in (0, 1):
        w = ['d', 'i', 'm'][:2 + X]
        v = {k: sym('a' + x) for k, x in enumerate(w)}
        v.update({3 + k: sym('b' + x) for k, x in enumerate(w)})
        for f in ('ge', 'ext', 'app'):
            err = ''
            for p, r in paths(mod, 'w_%s%d' % (f, X), {0: avn.Ptr('n'), 1: avn.Ptr('O')}, intargs(v)):
                np += 1
                o = cells(r, 10)
                for k in range(2 + X):
                    a, b = v[k], v[3 + k]
                    if f == 'ext':
                        good = isinstance(o[k], R) and p.le(a, o[k]) and p.le(b, o[k]) and ((o[k] - a).const() == 0 or (o[k] - b).const() == 0)
                    else:
                        good = isinstance(o[k], R) and (o[k] - (a if f == 'ge' else a + b)).const() == 0
                    if not good:
                        err = 'size %d becomes %s' % (k, repr(o[k])[:60])
                    if not (isinstance(o[3 + k], R) and (o[3 + k] - b).const() == 0):
                        err = 'the argument changes'
                if f == 'ge':
                    hs = [p.holds(v[k] - v[3 + k]) for k in range(2 + X)]
                    c = o[9].const()
                    if c not in (0, 1) or bool(c) != all(h is True for h in hs) or (not c and not any(h is False for h in hs)):
                        err = 'ge is %s although the differences are %s' % (o[9], hs)
                if err:
                    break
            obl.append(('%s/%s' % (['PlainMemory', 'PlainMemoryX'][X], f), not err, err, WH + ': ' + {'ge': 'ge', 'ext': 'extend_size', 'app': 'append_size'}[f]))
    return {'obl': obl, 'count': {'paths': np}}


def w01(c):
    ty = [('double', 'int'), ('float', 'long'), ('double', 'short'), ('float', 'char')]
    jobs = [(raw, t + (x,)) for t in ty for x in (False, True)] + [(plain, t + (x,)) for t in ty for x in (True, False)] + [(sizes, ())]
    collect(c, [j for j in jobs if not ONLY or ONLY in repr(j)])
    c.assumptions = ['sizes in bytes stay below 2^63']


# ---------------------------------------------------------------- W02
POOL = HEAD + """
#include <new>
struct CR { double v; }; struct CI { int v; };
extern "C" { void* h_region(void*, ul, ul, int); void h_free(void*); void h_live(int, void*, ul, void*, ul, void*, ul); void h_dead(int); void h_chunks(ul); }
#define VEC(T, K) namespace std { template<> class vector<T, allocator<T>> { T* p = nullptr; size_t n = 0; public: using value_type = T; vector() {} \\
  vector(vector&& o) noexcept { p = o.p; n = o.n; o.p = nullptr; o.n = 0; } vector(const vector&) = delete; \\
  vector& operator=(vector&& o) noexcept { if (this != &o) { if (p) h_free(p); p = o.p; n = o.n; o.p = nullptr; o.n = 0; } return *this; } ~vector() { if (p) h_free(p); } \\
  size_t size() const { return n; } bool empty() const { return n == 0; } size_t capacity() const { return n; } T* data() { return p; } const T* data() const { return p; } T* begin() { return p; } T* end() { return p + n; } \\
  T& operator[](size_t i) { return p[i]; } const T& operator[](size_t i) const { return p[i]; } \\
  const T* begin() const { return p; } const T* end() const { return p + n; } const T* cbegin() const { return p; } const T* cend() const { return p + n; } \
  T& at(size_t i) { return p[i]; } const T& at(size_t i) const { return p[i]; } T& front() { return p[0]; } T& back() { return p[n - 1]; } const T& front() const { return p[0]; } const T& back() const { return p[n - 1]; } \
  explicit vector(size_t k) { resize(k); } vector(size_t k, const T&) { resize(k); } void assign(size_t k, const T&) { resize(k); } void resize(size_t k, const T&) { resize(k); } void reserve(size_t) {} void shrink_to_fit() {} \
  void resize(size_t k) { if (k != n) { p = (T*)h_region(p, n, k, K); n = k; } } void clear() { resize(0); } void swap(vector& o) { std::swap(p, o.p); std::swap(n, o.n); } }; }
typedef DenseMatrix<CR> CM;
VEC(CR, 0) VEC(CI, 1) VEC(CM, 2)
typedef DynMem<CR, CI> Pool;
// script: o[2k] is the operation, o[2k+1] its slot(s); n[3j..] are the sizes of the j-th request
template<class P> static inline void play(P& pool, const int* o, const ul* n){
  typedef decltype(pool.alloc(0, 0, 0)) Part;
  Part p[6];
  int j = 0;
  for (int k = 0; o[2*k] != 0; ++k) {
    const int s = o[2*k+1] & 7, t = o[2*k+1] >> 3;
    switch (o[2*k]) {
      case 1: { Part q = pool.alloc(n[3*j], n[3*j+1], n[3*j+2]); ++j; auto w = q.getPlainMemoryX(); auto v = q.getPlainMemory();
                h_live(7, w.ddata, w.dSize, w.idata, w.iSize, w.mdata, w.mSize);
                h_live(s, v.ddata, v.dSize, v.idata, v.iSize, w.mdata, w.mSize); p[s] = std::move(q); break; }
      case 2: h_dead(s); p[s].clear(); break;
      case 3: h_dead(s); p[s].~Part(); new (p + s) Part(); break;
      case 4: { p[s] = std::move(p[t]); auto w = p[s].getPlainMemoryX(); h_dead(t); h_live(s, w.ddata, w.dSize, w.idata, w.iSize, w.mdata, w.mSize); break; }
      case 5: pool.defragment(); break;
      case 6: { Part q(std::move(p[s])); p[s] = std::move(q); break; }
      case 7: h_chunks(pool.m_chunks.size()); break;
    }
  }
  for (int s = 0; s < 6; ++s) h_dead(s);
}
extern "C" void w_pool(const int* o, const ul* n){ Pool pool; play(pool, o, n); h_dead(0); }
"""


class Bad(Exception):
    pass


class Pool:
    """what the pool handed out along one path"""
    def __init__(self, p, req, es=(8, 4, DMSZ)):
        self.p, self.req, self.nreq, self.es = p, req, 0, es
        self.cap, self.live, self.n, self.chunks, self.grown = {}, {}, 0, [], 0
        self.last = None

    def hooks(self):
        return {'h_region': self.region, 'h_free': self.free, 'h_live': self.onlive, 'h_dead': self.dead, 'h_chunks': lambda ev, a, i: self.chunks.append(a[0])}

    def inuse(self, base, what):
        for s, parts in self.live.items():
            for w, q, n, es in parts:
                if q.base == base:
                    raise Bad('memory of a live part (slot %d, %s) is %s' % (s, w, what))

    def region(self, ev, a, i):
        old, n0, n1, k = a
        if isinstance(old, avn.Ptr) and old.base in self.cap:
            self.inuse(old.base, 'moved by a later request')
            del self.cap[old.base]
        self.n += 1
        if n1.const() == 0:
            return avn.Ptr('null')
        b = 'region%d' % self.n
        self.cap[b] = (n1, int(k.const()))
        self.grown += 1
        return avn.Ptr(b)

    def free(self, ev, a, i):
        self.inuse(a[0].base, 'freed')
        self.cap.pop(a[0].base, None)

    def dead(self, ev, a, i):
        self.live.pop(int(a[0].const()), None)

    def onlive(self, ev, a, i):
        s = int(a[0].const())
        if s == 7:
            want = self.req[self.nreq]
            self.nreq += 1
            self.last = want
        elif s in self.live:
            self.live.pop(s)
        p = self.p
        parts = []
        for k, (w, es) in enumerate(zip(('numbers', 'indices', 'matrices'), self.es)):
            q, n = a[1 + 2 * k], a[2 + 2 * k]
            if s == 7:
                if not isinstance(n, R) or (n - want[k]).const() != 0:
                    raise Bad('the part has %s %s, requested %s' % (show(n, 60), w, show(want[k], 60)))
            if n.const() == 0:
                continue
            if not isinstance(q, avn.Ptr) or q.base not in self.cap:
                raise Bad('%s of the part are at %s, not in memory of the pool' % (w, repr(q)[:60]))
            cap, kind = self.cap[q.base]
            if kind != k:
                raise Bad('%s of the part are in memory for something else' % w)
            e = q.off + n * lift(es)
            if not p.le(ZERO, q.off) or not p.le(e, cap * lift((8, 4, DMSZ)[k])):
                raise Bad('%s of the part occupy bytes [%s, %s) of a block of %s' % (w, show(q.off, 60), show(e, 60), show(cap * lift((8, 4, DMSZ)[k]), 60)))
            for t, o in self.live.items():
                for w2, q2, n2, es2 in o:
                    if q2.base == q.base and not p.le(e, q2.off) and not p.le(q2.off + n2 * lift(es2), q.off):
                        raise Bad('%s of the new part, bytes [%s, %s), overlap those of the live part in slot %d, [%s, %s)' % (w, show(q.off, 60), show(e, 60), t, show(q2.off, 60), show(q2.off + n2 * lift(es2), 60)))
            parts.append((w, q, n, es))
        if s != 7:
            self.live[s] = parts


def histories(L, slots, maxlive, moves=False):
    """every sequence of requests and releases; the next request takes the lowest free slot"""
    def go(h, live):
        if h and h[-1][0] == 1:
            yield tuple(h)
        if len(h) == L:
            return
        free = [s for s in range(slots) if s not in live]
        if len(live) < maxlive and free:
            yield from go(h + [(1, free[0])], live | {free[0]})
        for s in sorted(live):
            yield from go(h + [(2, s)], live - {s})
    yield from go([], frozenset())


def play(mod, fn, hist, sizes, facts, obl, key, where, seed=None, limit=3000, after=None):
    """all paths of one history; sizes: one (d, i, m) per request"""
    ops = ([(1, 5), (2, 5)] if seed else []) + list(hist)
    req = ([seed] if seed else []) + list(sizes)
    ints = [x for o in ops for x in o] + [0, 0]
    flat = [x for r in req for x in r]

    def load(ev, base, off, sz, ty):
        if base == 'o' and sz == 4 and off // 4 < len(ints):
            return lift(ints[off // 4])
        if base == 'n' and sz == 8 and off // 8 < len(flat):
            return flat[off // 8]
    st = []

    def calls(p):
        st.append(Pool(p, req, (4, 2, DMSZ) if fn == 'w_adapt' else (8, 4, DMSZ)))
        return st[-1].hooks()
    err, np = '', 0
    try:
        for p, r in paths(mod, fn, {0: avn.Ptr('o'), 1: avn.Ptr('n')}, load, calls, facts, limit):
            np += 1
            e = after(st[-1], r) if after else ('ends in an exception' if r.noreturn else '')
            if e:
                raise Bad(e)
    except Bad as e:
        err = str(e) + (' (path: %s)' % '; '.join(st[-1].p.split) if st[-1].p.split else '')
    obl.append((key, not err, err, where))
    return np


def text(hist):
    return ' '.join({1: '+%s', 2: '-%s', 3: '~%s', 5: 'defrag', 6: '>%s', 7: '#'}.get(o, '%s').replace('%s', str(s)) if o != 4 else '%d=%d' % (s & 7, s >> 3) for o, s in hist)


PAT = {'d': [(1, 0, 0)], 'i': [(0, 1, 0)], 'm': [(0, 0, 1)], 'all': [(1, 1, 1)], 'mix': [(1, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 0)], 'two': [(1, 1, 0), (0, 1, 0), (1, 0, 0)], 'gaps': [(1, 1, 0), (0, 0, 0), (0, 1, 0), (1, 0, 1)]}


def request(pat, j):
    return tuple(ONE + sym('%s%d' % ('dim'[k], j)) if f else ZERO for k, f in enumerate(PAT[pat][j % len(PAT[pat])]))


def pats(fn):
    return [p for p in PAT if fn == 'w_pool' or not any(x[2] for x in PAT[p])]   # matrices of an adaptor are constructed one by one


def pool(fn, L, part, nparts, mode):
    mod = witness_ir(POOL + EXTRA.get(fn, ''), name='pool', light=True)
    obl, np = [], 0
    wh = WH + ': DynMem::alloc, DynMem::clearChunk' + (', DynMemT' if fn != 'w_pool' else '')
    hs = [h for h in histories(L, 5, 4)]
    if mode == 'split':
        hs = [h for h in hs if sum(o == 1 for o, _ in h) <= 4]
    for idx, h in enumerate(hs):
        if idx % nparts != part:
            continue
        n = sum(o == 1 for o, _ in h)
        for pat in pats(fn) if mode == 'big' else ['d']:
            sz = [request(pat, j) for j in range(n)]
            seed = tuple(sym('K' + x) if fn == 'w_pool' or x != 'm' else ZERO for x in 'dim')
            facts = []
            if mode == 'big':
                facts = [seed[k] - ONE - sum((x[k] for x in sz), ZERO) for k in range(3) if seed[k] is not ZERO]
            elif mode == 'split':
                seed = tuple(z + ONE for z in seed[:1]) + (ZERO, ZERO)
            else:
                seed = None
            np += play(mod, fn, h, sz, facts, obl, '%s/%s/%s/%s' % (fn, mode, pat, text(h)), wh, seed)
    return {'obl': obl, 'count': {'paths': np, 'histories': len(obl)}}


def special(fn):
    """moves, assignment into an occupied slot, destruction, defragmentation, reuse"""
    mod = witness_ir(POOL + EXTRA.get(fn, ''), name='pool', light=True)
    obl, np = [], 0
    wh = WH + ': DynMem::MemPart, DynMem::defragment'
    A = lambda s: (1, s)
    hs = [[A(0), A(1), (3, 0), A(0), (3, 1), A(1), (3, 0), A(2)], [A(0), A(1), (6, 0), (2, 0), A(0), (6, 1), (2, 1), A(2)], [A(0), A(1), (4, 0 + 8 * 1), A(1), A(2), (2, 0), A(3)],
          [A(0), A(1), A(2), (4, 1 + 8 * 2), (2, 0), A(0), A(2), (3, 1), A(3)], [A(0), A(0), A(1), A(0), (2, 1), A(2), A(1)], [A(0), A(1), A(0), A(1), A(0), (2, 1), A(1), A(2)],
          [A(0), (2, 0), (2, 0), A(0), A(1), (2, 0), (2, 0), A(0), A(2)], [A(0), A(1), (2, 0), (2, 1), (5, 0), A(0), A(1), A(2)]]
    for k, h in enumerate(hs):
        for pat in pats(fn):
            sz = [request(pat, j) for j in range(sum(o == 1 for o, _ in h))]
            seed = tuple(sym('K' + x) if fn == 'w_pool' or x != 'm' else ZERO for x in 'dim')
            facts = [seed[q] - ONE - sum((x[q] for x in sz), ZERO) for q in range(3) if seed[q] is not ZERO]
            np += play(mod, fn, h, sz, facts, obl, '%s/special/%s/%s' % (fn, pat, text(h)), wh, seed)

            def returned(st, r):
                return 'ends in an exception' if r.noreturn else '' if st.grown == sum(x is not ZERO for x in seed) else 'memory is not available again after everything was released'
            np += play(mod, fn, h + [(3, s) for s in range(5)] + [A(5)], sz + [seed], facts, obl, '%s/returned/%s/%s' % (fn, pat, text(h)), wh, seed, after=returned)
        sz = [request('d', j) for j in range(sum(o == 1 for o, _ in h))]
        if k not in (5, 6):
            np += play(mod, fn, h, sz, [], obl, '%s/special-split/%s' % (fn, text(h)), wh, (ONE + sym('Kd'), ZERO, ZERO))
    # defragmentation: of memory in use it is refused (or leaves it alone), otherwise one block of all the memory remains
    if fn == 'w_pool':
        def refused(st, r):
            return '' if r.noreturn else 'memory in use is defragmented'

        def one(st, r):
            c = [int(x.const()) for x in st.chunks]
            return 'ends in an exception' if r.noreturn else '' if c == [2, 1, 1] else 'pool has %s chunks before, after defragmentation and after the next request' % c
        for pat in ('d', 'i', 'm', 'all'):
            sz = [request(pat, j) for j in range(3)]
            np += play(mod, fn, [A(0), A(1), (2, 0), (5, 0)], sz, [], obl, 'defragment/in-use/%s' % pat, wh, None, after=refused)
            np += play(mod, fn, [A(0), A(1), (2, 1), (5, 0)], sz, [], obl, 'defragment/in-use-first/%s' % pat, wh, None, after=refused)
            # a request of the joint size fits without new memory
            s3 = tuple(a + b for a, b in zip(sz[0], sz[1]))
            g = {}

            def whole(st, r):
                e = one(st, r)
                return e or ('a request of the size of all memory is not served from it' if st.grown != (2 + 1) * sum(f for f in PAT[pat][0]) else '')
            np += play(mod, fn, [A(0), A(1), (2, 0), (2, 1), (7, 0), (5, 0), (7, 0), A(0), (7, 0)], sz[:2] + [s3], [], obl, 'defragment/free/%s' % pat, wh, None, after=whole)

        def again(st, r):
            return 'ends in an exception' if r.noreturn else '' if st.grown == 1 and all(x.const() == 1 for x in st.chunks) else 'memory released before is not used again'
        sz = [request('d', j) for j in range(6)]
        K = ONE + sym('Kd')
        big = [K - ONE - sum((x[0] for x in sz), ZERO)]
        for k, h in enumerate(itertools.permutations(range(3))):
            np += play(mod, fn, [A(0), A(1), A(2)] + [(2, s) for s in h] + [A(0), A(1), (7, 0), (2, 0), (2, 1), A(3), (7, 0)], sz[:5] + [(K, ZERO, ZERO)], big, obl, 'reuse/%s' % text([(2, s) for s in h]), wh, (K, ZERO, ZERO), after=again)
    return {'obl': obl, 'count': {'paths': np, 'histories': len(obl)}}


EXTRA = {'w_adapt': """
struct SR { float v; }; struct SI { short v; };
extern "C" void w_adapt(const int* o, const ul* n){ Pool pool; auto a = makeAdaptor<SR, SI>(pool); play(a, o, n); h_dead(0); }
"""}


def w02(c):
    np = 8
    big, spl, fre = (7, 7, 8) if TIER == 'quick' else (8, 8, 9)
    jobs = [(special, ('w_pool',)), (special, ('w_adapt',))] + [(pool, ('w_adapt', big - 1, k, 2, m)) for k in range(2) for m in ('big', 'fresh')] + [(pool, ('w_pool', big, k, np, 'big')) for k in range(np)] + [(pool, ('w_pool', spl, k, np, 'split')) for k in range(np)] + [(pool, ('w_pool', fre, k, np, 'fresh')) for k in range(np)]
    collect(c, [j for j in jobs if not ONLY or ONLY in repr(j)])
    c.assumptions = ['a vector resized moves to a block of its own of exactly that size', 'sizes stay below 2^31']


if __name__ == '__main__':
    T = {'W01': ('Memory carved out of a block is aligned, disjoint, inside the block, and the announced size suffices.', w01),
         'W02': ('A memory pool never hands out memory that somebody else still holds, for every history of requests and releases.', w02)}
    main(sys.argv[1], T[sys.argv[1]][0], T[sys.argv[1]][1])
