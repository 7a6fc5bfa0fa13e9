"""W03: parallel loops cover their range once; memory pools of threads are exclusive and guarded by their lock."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from frame import *
from alg import *
import avn

ONLY = os.environ.get('ONLY', '')
TIER = os.environ.get('VERIF_TIER', 'quick')


class Bad(Exception):
    pass


def num(v, what):
    c = v.const() if isinstance(v, R) else None
    if c is None:
        raise Broken('%s is not decided: %s' % (what, repr(v)[:80]))
    return int(c)


# ---------------------------------------------------------------- loops
# threads are replaced by objects that run their function at a moment the schedule chooses
LOOP = '''
#include <algorithm>
#include <cassert>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <tuple>
#include <utility>
#include <vector>
extern "C" { void h_body(long, int, ul_); void h_start(int); void h_end(int); void h_terminate(int); int h_hw(void); int h_mode(void); void h_join(int); }
struct Vt { virtual void run() = 0; virtual ~Vt() {} };
template<class F, class... A> struct Vtf: Vt {
  F f; std::tuple<A...> a;
  template<class G, class... B> Vtf(G&& g, B&&... b): f(std::forward<G>(g)), a(std::forward<B>(b)...) {}
  template<std::size_t... I> void call(std::index_sequence<I...>) { f(std::move(std::get<I>(a))...); }
  void run() override { call(std::index_sequence_for<A...>()); } };
static Vt* pend[16]; static int npend;
namespace std {
class vthread { int id = -1;
public:
  typedef int id_t; typedef void* native_handle_type;
  vthread() noexcept {}
  template<class F, class... A, typename = typename enable_if<!is_same<typename decay<F>::type, vthread>::value>::type> explicit vthread(F&& f, A&&... a) {
    id = npend++; pend[id] = new Vtf<typename decay<F>::type, typename decay<A>::type...>(std::forward<F>(f), std::forward<A>(a)...);
    if (h_mode() == 0) go(id); }
  vthread(const vthread&) = delete; vthread& operator=(const vthread&) = delete;
  vthread(vthread&& o) noexcept { id = o.id; o.id = -1; }
  vthread& operator=(vthread&& o) noexcept { if (id >= 0) h_terminate(1); id = o.id; o.id = -1; return *this; }
  ~vthread() { if (id >= 0) h_terminate(2); }
  static void go(int i) { if (pend[i]) { Vt* p = pend[i]; pend[i] = nullptr; h_start(i); p->run(); h_end(i); delete p; } }
  bool joinable() const noexcept { return id >= 0; }
  void join() { if (id < 0) h_terminate(3);
    if (h_mode() == 2) for (int i = npend; i-- > 0;) go(i);
    go(id); h_join(id); id = -1; }
  void detach() { h_terminate(4); }
  static unsigned hardware_concurrency() noexcept { return h_hw(); }
}; }
#define thread vthread
#include "anifem++/fem/mutex_type.h"
#undef thread
struct It { long i; It& operator++() { ++i; return *this; } It operator++(int) { It t = *this; ++i; return t; } It operator+(long n) const { return It{i + n}; } It operator-(long n) const { return It{i - n}; } It& operator+=(long n) { i += n; return *this; }
  long operator-(const It& o) const { return i - o.i; } bool operator!=(const It& o) const { return i != o.i; } bool operator==(const It& o) const { return i == o.i; } bool operator<(const It& o) const { return i < o.i; } };
struct Body { template<class I, class A> void operator()(I it, int t, A& a) const { h_body(pos(it), t, (ul_)&a); } template<class I> void operator()(I it, int t) const { h_body(pos(it), t, 0); }
  static long pos(const It& i) { return i.i; } static long pos(int i) { return i; } };
'''.replace('extern "C" {', 'typedef unsigned long ul_;\nextern "C" {', 1)


def loop(tp, form):
    beg, end = {'it': ('It{5}', 'It{5 + n}'), 'int': ('5', '5 + int(n)')}[form.split('-')[0]]
    arg = ', x' if form.endswith('arg') else ''
    src = LOOP + 'extern "C" void w_loop(int nt, long n, double* x_){ double& x = *x_; Body f; ThreadPar::parallel_for<ThreadPar::Type::%s>(nt, f, %s, %s%s); }\n' % (tp, beg, end, arg)
    mod = witness_ir(src, name='loop', light=True)
    obl, runs = [], 0
    nmax = 9 if TIER == 'quick' else 17
    for nt in ([1, 2, 3, 4, 5, -1] if tp == 'STD' else [1, 3, -1]):
        for n in range(nmax):
            err = ''
            for mode, hw in [(m, h) for m in ((0, 1, 2) if tp == 'STD' else (0,)) for h in ((3, 0) if nt < 0 else (3,))]:
                runs += 1
                log = []

                def ev_(name, val=None):
                    def f(ev, a, i):
                        log.append((name, a))
                        return val
                    return f
                ev = avn.Eval(mod, 'w_loop', args={0: lift(nt), 1: lift(n), 2: avn.Ptr('X')},
                              calls={'h_body': ev_('body'), 'h_start': ev_('start'), 'h_end': ev_('end'), 'h_terminate': ev_('terminate'), 'h_join': ev_('join'), 'h_hw': lambda e, a, i: lift(hw), 'h_mode': lambda e, a, i: lift(mode)})
                try:
                    r = ev.run()
                except avn.Opaque as e:
                    raise Broken('w_loop %s %s n=%d threads=%d: %s' % (tp, form, n, nt, e))
                if r.noreturn:
                    err = 'ends in an exception'
                    break
                cap = 1 if tp == 'NONE' else nt if nt > 0 else hw or 8
                cur, seen, tnum, started, joined = ['main'], [], {}, set(), set()
                for nm, a in log:
                    if nm == 'start':
                        cur.append(num(a[0], 'thread'))
                        started.add(cur[-1])
                    elif nm == 'end':
                        cur.pop()
                    elif nm == 'join':
                        joined.add(num(a[0], 'thread'))
                    elif nm == 'terminate':
                        err = 'a thread is destroyed, overwritten, joined twice or detached'
                    else:
                        seen.append(num(a[0], 'position'))
                        t = num(a[1], 'thread number')
                        if not 0 <= t < cap:
                            err = 'thread number %d of %d' % (t, cap)
                        if tnum.setdefault(t, cur[-1]) != cur[-1]:
                            err = 'two threads run with number %d' % t
                        if arg and not (isinstance(a[2], avn.Ptr) and a[2].base == 'X'):
                            err = 'the body does not get the argument of the caller'
                if sorted(seen) != list(range(5, 5 + n)):
                    err = err or 'positions visited: %s, range is [5, %d)' % (sorted(seen), 5 + n)
                if started != joined:
                    err = err or 'returns before thread %s has ended' % sorted(started - joined)
                if len(started) >= max(cap, 1) and n:
                    err = err or '%d threads beside the caller, %d wanted' % (len(started), cap - 1)
                if err:
                    err += ' (schedule %d)' % mode
                    break
            obl.append(('%s/%s/threads %d/length %d' % (tp, form, nt, n), not err, err, 'anifem++/fem/mutex_type.h: ThreadPar::parallel_for'))
    return {'obl': obl, 'count': {'runs': runs}}


# ---------------------------------------------------------------- pools of threads
PAR = '''
#include <functional>
#include <vector>
#include <algorithm>
#include <cassert>
#include "anifem++/fem/fem_memory_parallel.h"
using namespace Ani;
extern "C" { void h_lock(void*); void h_unlock(void*); int h_try(void*); void h_op(void*, int); void h_got(int, void*, int); void h_gone(int); void h_range(int, int, int); void h_ungone(int); }
struct Mx { char c; void lock() { h_lock(this); } void unlock() { h_unlock(this); } bool try_lock() { return h_try(this); } };
typedef DynMemParallel<double, int, Mx> Par;
template<class P> static inline void put(P& p, int id, int fresh) { h_op(&p, 7); void* q = p.get(id); h_op(&p, 0); h_got(id, q, fresh); }
extern "C" void w_par(const int* o){
  Par p; int id[8], st[4], en[4]; int ni = 0, nr = 0;
  for (int k = 0; o[2*k] != 0; ++k) { const int s = o[2*k+1];
    switch (o[2*k]) {
      case 1: h_op(&p, 1); id[ni] = p.alloc(); h_op(&p, 0); put(p, id[ni], 1); ++ni; break;
      case 2: h_gone(id[s]); h_op(&p, 2); p.release(id[s]); h_op(&p, 0); break;
      case 3: { h_op(&p, 3); auto r = p.alloc_range(s); h_op(&p, 0); st[nr] = r.first; en[nr] = r.second; ++nr; h_range(r.first, r.second, s); for (int i = r.first; i < r.second; ++i) put(p, i, 1); break; }
      case 4: for (int i = st[s]; i < en[s]; ++i) h_gone(i); h_op(&p, 4); p.release_range(std::pair<int, int>(st[s], en[s])); h_op(&p, 0); break;
      case 5: h_gone(-1); h_op(&p, 5); p.release_all(); h_op(&p, 0); break;
      case 6: h_gone(-1); h_op(&p, 6); p.clear(); h_op(&p, 0); break;
      case 8: put(p, id[s], 0); break;
      case 9: for (int i = st[s]; i < en[s]; ++i) put(p, i, 0); break;
    } } }
'''
OPS = {1: 'alloc', 2: 'release', 3: 'alloc_range', 4: 'release_range', 5: 'release_all', 6: 'clear', 7: 'get'}


def histories(L):
    """(history, the places alive at its end): every sequence of requests and releases of live places"""
    def go(h, al, rg, na, nr):
        yield tuple(h), tuple(sorted(al)), tuple(sorted(rg))
        if len(h) == L:
            return
        if na < 6:
            yield from go(h + [(1, 0)], al | {na}, rg, na + 1, nr)
        if nr < 3:
            for k in (1, 2):
                yield from go(h + [(3, k)], al, rg | {nr}, na, nr + 1)
        for s in sorted(al):
            yield from go(h + [(2, s)], al - {s}, rg, na, nr)
        for s in sorted(rg):
            yield from go(h + [(4, s)], al, rg - {s}, na, nr)
        if h and h[-1][0] not in (5, 6):
            yield from go(h + [(5, 0)], set(), set(), na, nr)
            yield from go(h + [(6, 0)], set(), set(), na, nr)
    for h, al, rg in go([], frozenset(), frozenset(), 0, 0):
        if h and h[-1][0] in (1, 3):
            yield h + tuple((8, s) for s in al) + tuple((9, s) for s in rg)


def pools(L, part, nparts):
    mod = witness_ir(PAR, name='par', light=True)
    obl, n = [], 0
    wh = 'anifem++/fem/fem_memory_parallel.h: DynMemParallel::%s'
    for idx, h in enumerate(histories(L)):
        if idx % nparts != part:
            continue
        ints = [x for o in h for x in o] + [0, 0]
        S = {'op': 0, 'lock': 0, 'obj': None, 'own': {}, 'bad': ''}

        def bad(msg):
            S['bad'] = S['bad'] or msg

        def op(ev, a, i):
            k = num(a[1], 'operation')
            if not k and S['lock']:
                bad('%s returns with the lock held' % OPS[S['op']])
            S['op'], S['obj'] = k, a[0].base

        def lock(ev, a, i):
            if S['lock']:
                bad('%s locks twice' % OPS.get(S['op']))
            S['lock'] += 1

        def unlock(ev, a, i):
            if not S['lock']:
                bad('%s unlocks what it does not hold' % OPS.get(S['op']))
            S['lock'] -= 1

        def got(ev, a, i):
            k, q = num(a[0], 'index'), a[1]
            if not isinstance(q, avn.Ptr) or q.base == 'null':
                bad('get(%d) gives no pool' % k)
                return
            for j, w in S['own'].items():
                if j != k and w == q.base:
                    bad('indices %d and %d have the same pool' % (j, k))
            if num(a[2], 'kind of request'):
                if k in S['own']:
                    bad('index %d is handed out twice' % k)
            elif S['own'].get(k) != q.base:
                bad('the pool of index %d was replaced while in use' % k)
            S['own'][k] = q.base

        def access(ev, p, sz, wr):
            if not S['op'] or S['lock'] or not isinstance(p, avn.Ptr):
                return
            obj = S['obj']
            guarded = p.base == obj
            if not guarded:
                cells = ev.mem.m.get(obj, {})
                guarded = any(isinstance(v, avn.Ptr) and v.base == p.base for _, v in cells.values())
            if guarded:
                bad('%s %s the shared state without the lock' % (OPS[S['op']], 'writes' if wr else 'reads'))

        def gone(ev, a, i):
            k = num(a[0], 'index')
            if k < 0:
                S['own'].clear()
            else:
                S['own'].pop(k, None)

        def rng(ev, a, i):
            b, e, k = (num(x, 'index') for x in a)
            if e - b != k or b < 0:
                bad('a range of %d gives [%d, %d)' % (k, b, e))
            for j in range(b, e):
                if j in S['own']:
                    bad('index %d of the range is in use' % j)
        ev = avn.Eval(mod, 'w_par', args={0: avn.Ptr('o')}, onload=lambda ev, base, off, sz, ty: lift(ints[off // 4]) if base == 'o' and off // 4 < len(ints) else None,
                      calls={'h_lock': lock, 'h_unlock': unlock, 'h_try': lambda ev, a, i: lift(0), 'h_op': op, 'h_got': got, 'h_gone': gone, 'h_range': rng})
        ev.onaccess = access
        try:
            r = ev.run()
        except avn.Opaque as e:
            raise Broken('w_par %s: %s' % (h, e))
        n += 1
        if r.noreturn:
            bad('ends in an exception')
        key = ' '.join('%s%s' % (OPS[o], '(%d)' % s if o in (2, 3, 4) else '') for o, s in h if o < 8)
        obl.append((key, not S['bad'], S['bad'], wh % OPS[[o for o, _ in h if o < 8][-1]]))
    return {'obl': obl, 'count': {'histories': n}}


def w03(c):
    np = 8
    L = 4 if TIER == 'quick' else 5
    jobs = [(loop, (t, f)) for t in ('STD', 'NONE') for f in ('it', 'it-arg', 'int', 'int-arg')] + [(pools, (L, k, np)) for k in range(np)]
    collect(c, [j for j in jobs if not ONLY or ONLY in repr(j)])
    c.assumptions = ['std::thread runs its function once between construction and join', 'methods of a pool take effect in the order in which they get the lock']


if __name__ == '__main__':
    T = {'W03': ('Parallel loops run every iteration exactly once under one thread number, and pools of threads are exclusive and guarded by their lock.', w03)}
    main(sys.argv[1], T[sys.argv[1]][0], T[sys.argv[1]][1])
