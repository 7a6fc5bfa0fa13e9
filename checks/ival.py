"""V01: sequences stored by intervals.  V02: ranks of extended arrays.  V03: maps of intervals.

Keys, numbers and lengths are integer symbols; comparisons that are not decided split the path (lib/poly.py)."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from frame import *
from alg import *
from poly import *
import avn

ONLY = os.environ.get('ONLY', '')
TIER = os.environ.get('VERIF_TIER', 'quick')
DIR = 'anifem++/interval/'


class Bad(Exception):
    pass


def num(v, what):
    c = v.const() if isinstance(v, R) else None
    if c is None:
        raise Bad('%s is %s' % (what, repr(v)[:60]))
    return int(c)


# ---------------------------------------------------------------- V03
IMAP = '''
#include <algorithm>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include "anifem++/interval/interval_map.h"
using namespace Ani;
extern "C" { void h_ins(int, int, long, long, long, int, int); void h_item(long, long, long, int, int); void h_ask(int, int, long, long); void h_at(long); void h_end(int); }
typedef interval_map<long, long, %(C)s> Map;
template<class P> static void report(Map& m, const P& r) { if (r.first == m.end()) h_ins(r.second, 1, 0, 0, 0, 0, 0);
  else h_ins(r.second, 0, r.first->first.m_start, r.first->first.m_end, r.first->second, r.first.is_left_infinite(), r.first.is_right_infinite()); }
template<class M> static void dump(M& m) { for (auto it = m.begin(); it != m.end(); ++it) h_item(it->first.m_start, it->first.m_end, it->second, it.is_left_infinite(), it.is_right_infinite()); h_end(m.size()); h_end(m.empty()); }
template<class M> static void ask(M& m, long k) { auto it = m.find(k); bool f = it != m.end(); h_ask(m.contains(k) + 2 * int(m.count(k)), f, f ? it->second : 0, f ? it.contains(k) : 0); }
extern "C" void w_map(const int* o, const long* n) {
  Map m, other; int j = 0;
  for (; *o; o += 2) switch (o[0]) {
    case 1: report(m, m.insert(n[j], n[j + 1], o[1])); j += 2; break;
    case 2: report(m, m.insert(Map::tag_inf, n[j], o[1])); j += 1; break;
    case 3: report(m, m.insert(n[j], Map::tag_inf, o[1])); j += 1; break;
    case 4: report(m, m.insert(Map::tag_inf, Map::tag_inf, o[1])); break;
    case 5: dump(m); { const Map& c = m; dump(c); } break;
    case 6: ask(m, n[j]); { const Map& c = m; ask(c, n[j]); } ++j; break;
    case 7: { const Map& c = m; h_at(c.at(n[j])); h_at(c[n[j]]); ++j; break; }
    case 8: m.swap(other); break;
    case 9: m.clear(); break;
    case 10: { Map c(m); m = std::move(c); break; }
  }
}
'''
KIND = {1: '[%s,%s)', 2: '(-inf,%s)', 3: '[%s,inf)', 4: '(-inf,inf)'}


class Func:
    """a function of keys: disjoint intervals in order, None for infinity"""
    def __init__(self, lt):
        self.lt, self.seg = lt, []

    def before(self, a, b):         # end a <= start b, as positions on the line; None only on the outside
        return not self.lt(b, a)

    def insert(self, lo, hi, v):
        lt = self.lt
        if lo is not None and hi is not None and not lt(lo, hi):
            return False
        new = []
        for (a, b, w) in self.seg:
            apart = (hi is not None and a is not None and not lt(a, hi)) or (lo is not None and b is not None and not lt(lo, b))
            if not apart:
                if w != v:
                    return False
                new.append((a, b))
        keep, lo2, hi2 = [], lo, hi
        for (a, b, w) in self.seg:
            apart_r = hi is not None and a is not None and not lt(a, hi)       # interval lies behind the new one
            apart_l = lo is not None and b is not None and not lt(lo, b)
            if w == v and not (apart_r and lt(hi, a)) and not (apart_l and lt(b, lo)):
                if a is None or lo2 is None:
                    lo2 = None
                elif lt(a, lo2):
                    lo2 = a
                if b is None or hi2 is None:
                    hi2 = None
                elif lt(hi2, b):
                    hi2 = b
            else:
                keep.append((a, b, w))
        pos = 0
        while pos < len(keep) and (lo2 is not None and keep[pos][1] is not None and not lt(lo2, keep[pos][1])):
            pos += 1
        self.seg = keep[:pos] + [(lo2, hi2, v)] + keep[pos:]
        return True

    def at(self, k):
        for a, b, w in self.seg:
            if (a is None or not self.lt(k, a)) and (b is None or self.lt(k, b)):
                return a, b, w
        return None


def txt(x):
    return '-' if x is None else show(x, 40)


def play_map(mod, desc, ops, facts, cmp, obl, wh):
    """ops: (kind, value, keys...)"""
    ints, keys = [], []
    for o in ops:
        ints += [o[0], o[1]]
        keys += list(o[2:])
    ints += [0, 0]

    def load(ev, base, off, sz, ty):
        if base == 'o' and sz == 4 and off // 4 < len(ints):
            return lift(ints[off // 4])
        if base == 'n' and sz == 8 and off // 8 < len(keys):
            return keys[off // 8]
    log = []

    def calls(p):
        del log[:]
        return {h: (lambda ev, a, i, h=h: log.append((h, a))) for h in ('h_ins', 'h_item', 'h_ask', 'h_at', 'h_end')}

    def after(p, r):
        lt = (lambda a, b: p.ge(b - a - ONE)) if cmp == '<' else (lambda a, b: p.ge(a - b - ONE))
        eq = lambda a, b: p.ge(a - b) and p.ge(b - a)
        f, g = Func(lt), []
        it = iter(list(log))

        def nxt(h):
            e = next(it, None)
            if e is None or e[0] != h:
                raise Bad('ends in an exception' if r.noreturn and e is None else 'reports something else than expected')
            return e[1]

        def same(item, s, what):
            a, b, w = s
            if num(item[3], 'left infinity') != (a is None) or num(item[4], 'right infinity') != (b is None):
                raise Bad('%s: interval is %sinfinite to the left and %sinfinite to the right, expected [%s, %s)' % (what, '' if num(item[3], '') else 'not ', '' if num(item[4], '') else 'not ', txt(a), txt(b)))
            if (a is not None and not eq(item[0], a)) or (b is not None and not eq(item[1], b)) or num(item[2], 'value') != w:
                raise Bad('%s: interval is [%s, %s) -> %s, expected [%s, %s) -> %d' % (what, txt(item[0]), txt(item[1]), item[2], txt(a), txt(b), w))
        for k, o in enumerate(ops):
            name = 'step %d' % (k + 1)
            if o[0] <= 4:
                lo, hi = {1: lambda: (o[2], o[3]), 2: lambda: (None, o[2]), 3: lambda: (o[2], None), 4: lambda: (None, None)}[o[0]]()
                old = list(f.seg)
                ok = f.insert(lo, hi, o[1])
                a = nxt('h_ins')
                if num(a[0], 'success') != ok:
                    raise Bad('%s: insertion %s' % (name, 'is refused' if ok else 'is accepted although a key has another value' if lo is None or hi is None or lt(lo, hi) else 'of an empty interval is accepted'))
                if ok:
                    s = [s for s in f.seg if s[2] == o[1] and (lo is None and s[0] is None or lo is not None and (s[0] is None or not lt(lo, s[0])) and (s[1] is None or lt(lo, s[1])))]
                    if num(a[1], 'end'):
                        raise Bad('%s: the iterator returned is the end' % name)
                    same(a[2:], s[0], name + ', iterator returned')
                elif not num(a[1], 'end') and num(a[4], 'value') == o[1]:
                    raise Bad('%s: the iterator returned with a refusal points to an interval with the same value' % name)
            elif o[0] == 5:
                for w in ('', ' (const)'):
                    for j, s in enumerate(f.seg):
                        e = nxt('h_item') if True else None
                        same(e, s, name + ', interval %d%s' % (j, w))
                    if num(nxt('h_end')[0], 'size') != len(f.seg) or num(nxt('h_end')[0], 'emptiness') != (not f.seg):
                        raise Bad('%s: size or emptiness is wrong' % name)
            elif o[0] == 6:
                s = f.at(o[2])
                for w in ('', ' (const)'):
                    a = nxt('h_ask')
                    if num(a[0], 'contains, count') != (3 if s else 0) or num(a[1], 'found') != bool(s) or s and (num(a[2], 'value') != s[2] or num(a[3], 'contains of the iterator') != 1):
                        raise Bad('%s%s: the key is %s, but contains/count=%d found=%d value=%d interval contains it=%d' % (name, w, 'in [%s, %s) -> %d' % (txt(s[0]), txt(s[1]), s[2]) if s else 'in no interval', num(a[0], ''), num(a[1], ''), num(a[2], 'value'), num(a[3], '')))
            elif o[0] == 7:
                s = f.at(o[2])
                if s is None:
                    if not r.noreturn or next(it, None) is not None:
                        raise Bad('%s: at() of a missing key does not fail' % name)
                    return
                for w in ('at', 'operator[]'):
                    if num(nxt('h_at')[0], 'value') != s[2]:
                        raise Bad('%s: %s gives another value' % (name, w))
            elif o[0] == 8:
                f.seg, g = g, f.seg
            elif o[0] == 9:
                f.seg = []
        if next(it, None) is not None:
            raise Bad('reports something else than expected')
        if r.noreturn:
            raise Bad('ends in an exception')
    n, err = explore(mod, 'w_map', {0: avn.Ptr('o'), 1: avn.Ptr('n')}, load, calls, facts, 20000, after, Bad)
    obl.append((desc, not err, err, wh))
    return n


def text(ops):
    t = []
    for o in ops:
        if o[0] <= 4:
            t.append((KIND[o[0]] % tuple(show(k, 12) for k in o[2:])) + '->%d' % o[1])
        else:
            t.append({5: 'dump', 6: 'find', 7: 'at', 8: 'swap', 9: 'clear', 10: 'copy'}[o[0]])
    return ' '.join(t)


SH = None


def key(name):
    """an integer of any sign"""
    return sym(name) - sym('z')


def bases(nmax, nperm):
    """maps built from disjoint intervals: list of (operations, facts on the keys)"""
    for n in range(nmax + 1):
        for inf in ([0] if n == 0 else [0, 1, 2, 3] if n > 1 else [0, 1, 2]):
            for pat in [p for p in itertools.product(range(1, n + 1), repeat=n) if all(x <= max(p[:i], default=0) + 1 for i, x in enumerate(p))]:
                ends = [key('b%d' % i) for i in range(2 * n)]
                facts, ops = [], []
                for i in range(n):
                    l, r = i == 0 and inf & 1, i == n - 1 and inf & 2
                    if not l and not r:
                        facts.append(ends[2 * i + 1] - ends[2 * i] - ONE)
                    if i:
                        facts.append(ends[2 * i] - ends[2 * i - 1] - (ONE if pat[i] == pat[i - 1] else ZERO))
                    ops.append((2, pat[i], ends[2 * i + 1]) if l else (3, pat[i], ends[2 * i]) if r else (1, pat[i], ends[2 * i], ends[2 * i + 1]))
                # the order of construction is varied for small maps; the contents after construction are checked in any case
                for order in itertools.permutations(range(n)) if n <= nperm else [range(n), range(n - 1, -1, -1)]:
                    yield [ops[i] for i in order], facts


def imap(mode, cmp, part, nparts, nmax):
    mod = witness_ir(IMAP % {'C': 'std::less<long>' if cmp == '<' else 'std::greater<long>'}, name='imap', light=True)
    wh = DIR + 'interval_map.inl: interval_map::' + ('insert' if mode != 'find' else 'contains, find, at')
    obl, np, k = [], 0, 0
    s, e, q = key('s'), key('e'), key('q')
    for ops, facts in bases(nmax, 2 if TIER == 'quick' else 3):
        if cmp == '>':      # the mirrored line
            m = lambda x: -x
            ops = [(o[0], o[1]) + tuple(-x for x in o[2:]) for o in ops]
        nv = max([o[1] for o in ops], default=0)
        if mode == 'insert':
            for v in range(1, nv + 2):
                if v == nv + 1 and nv > 1:
                    continue
                for kind in (1, 2, 3, 4):
                    k += 1
                    if k % nparts != part:
                        continue
                    o = ops + [{1: (1, v, s, e), 2: (2, v, e), 3: (3, v, s), 4: (4, v)}[kind], (5, 0)]
                    np += play_map(mod, '%s %s' % (cmp, text(o)), o, facts, cmp, obl, wh)
        elif mode == 'find':
            k += 1
            if k % nparts != part:
                continue
            for o in (ops + [(6, 0, q), (5, 0), (7, 0, q)], ops + [(8, 0), (6, 0, q), (8, 0), (10, 0), (6, 0, q), (9, 0), (6, 0, q)]):
                np += play_map(mod, '%s %s' % (cmp, text(o)), o, facts, cmp, obl, wh)
    return {'obl': obl, 'count': {'paths': np, 'insertion_states': len(obl)}}


def v03(c):
    N = 3 if TIER == 'quick' else 4
    jobs = [(imap, ('insert', '<', k, 16, N)) for k in range(16)] + [(imap, ('insert', '>', k, 4, 2)) for k in range(4)] + [(imap, ('find', x, k, 4, N)) for x in '<>' for k in range(4)]
    collect(c, [j for j in jobs if not ONLY or ONLY in repr(j)])
    c.assumptions = ['values are compared for equality only, so different values are represented by different numbers']



# ---------------------------------------------------------------- V01
IENUM = """
#include <algorithm>
#include <utility>
#include <vector>
#include "anifem++/interval/interval_enum.h"
using namespace Ani;
extern "C" { void h_v(long); void h_it(int, long, long); void h_mark(int); }
template<class E, class I> static void put(const E& e, const I& it) { if (it == e.end()) h_it(1, 0, 0); else { auto v = *it; h_it(0, v.first, v.second); h_v(it->first); h_v(it->second); } }
template<class E> static void play(E& e, int op, long a, long b) {
  switch (op) {
    case 0: h_v(e.size()); h_v(e.empty()); put(e, e.begin()); h_v(e.begin() == e.end()); break;
    case 1: put(e, e.find_left(a)); h_v(e.contains_left(a)); break;
    case 2: put(e, e.find_right(a)); h_v(e.contains_right(a)); break;
    case 3: put(e, e.lower_bound_left(a)); break;
    case 4: put(e, e.upper_bound_left(a)); break;
    case 5: put(e, e.lower_bound_right(a)); break;
    case 6: put(e, e.upper_bound_right(a)); break;
    case 7: { auto it = e.find_left(a), jt = it; put(e, ++jt); put(e, jt); auto kt = it; put(e, kt++); put(e, kt); break; }
    case 8: { auto it = a < long(e.size()) ? e.find_left(a) : e.end(), jt = it; put(e, --jt); put(e, jt); auto kt = it; put(e, kt--); put(e, kt); break; }
    case 9: { auto it = a < long(e.size()) ? e.find_left(a) : e.end(), jt = b < long(e.size()) ? e.find_left(b) : e.end();
      h_v(it == jt); h_v(it != jt); h_v(it < jt); h_v(it > jt); h_v(it <= jt); h_v(it >= jt); h_v(it - jt); break; }
    case 10: { long k = 0; for (auto it = e.begin(); it != e.end() && k < 40; ++it, ++k) put(e, it); h_mark(1); auto it = e.end(); for (; it != e.begin() && k > 0; --k) put(e, --it); break; }
    case 11: e.clear(); h_v(e.size()); h_v(e.empty()); h_v(e.begin() == e.end()); put(e, e.find_left(a)); put(e, e.find_right(a)); put(e, e.lower_bound_right(a)); break;
  }
}
template<class E, class M> static void own(int op, const long* n, int K) { interval_own_memory<E, M> m; for (int i = 0; i < K; ++i) m.m_dat.push_back(std::pair<E, M>(n[2 * i], n[2 * i + 1])); interval_enum<interval_own_memory<E, M>> e; e.setMem(std::move(m)); play(e, op, n[2 * K], n[2 * K + 1]); }
template<class T> static void ext(int op, const long* n, int K) { std::vector<T> v(2 * K); for (int i = 0; i < 2 * K; ++i) v[i] = n[i]; interval_external_memory<T> m; if (K) { m.m_dat_st = v.data(); m.m_dat_end = v.data() + v.size(); } interval_enum<interval_external_memory<T>> e(m); play(e, op, n[2 * K], n[2 * K + 1]); }
extern "C" void w_own(int op, const long* n, int K) { own<int, int>(op, n, K); }
extern "C" void w_ownl(int op, const long* n, int K) { own<long, long>(op, n, K); }
extern "C" void w_ext(int op, const long* n, int K) { ext<int>(op, n, K); }
// iterators over the storage itself
extern "C" void w_raw(int a, int b, const int* d) { interval_external_memory<int> m; m.m_dat_st = (int*)d; m.m_dat_end = (int*)d + 20; auto x = m.begin(), y = m.cbegin(); x += a; y += b;
  h_v(x == y); h_v(x != y); h_v(x < y); h_v(x > y); h_v(x <= y); h_v(x >= y); h_v(x - y); h_v((*x).first); h_v(x->second); h_v(x[1].first); h_v(x[1].second); auto z = x + 2; h_v(z->first); auto w = z - 1; h_v(w->first); auto t = 1 + z; h_v(t->second); z -= 2; h_v(z == x);
  auto u = x++; h_v(u->first); h_v(x->first); u = x--; h_v(u->first); h_v(x->first); h_v((++x)->first); h_v((--x)->first); h_v(m.end() - m.begin()); h_v(m.empty()); m.clear(); h_v(m.empty()); }
"""
OPN = {0: 'size, begin', 1: 'find_left', 2: 'find_right', 3: 'lower_bound_left', 4: 'upper_bound_left', 5: 'lower_bound_right', 6: 'upper_bound_right', 7: 'operator++', 8: 'operator--', 9: 'comparison of iterators', 10: 'iteration', 11: 'clear'}


def ienum(fn, K, ops):
    """K intervals of arbitrary lengths and gaps (lengths are numbers for the iteration from end to end)"""
    mod = witness_ir(IENUM, name='ienum', light=True)
    obl, np = [], 0
    wh = DIR + 'interval_enum.h, interval_enum.inl: interval_enum::'
    for op in ops:
        for lens in ([None] if op != 10 else [tuple(x) for x in itertools.product((1, 2, 3), repeat=K)]):
            ln = [ONE + sym('l%d' % i) if lens is None else lift(lens[i]) for i in range(K)]
            gap = [sym('g%d' % i) for i in range(K)]
            e, m = [ZERO], [key('m')]
            for i in range(K):
                e.append(e[-1] + ln[i])
                m.append(m[-1] + ln[i] + (gap[i] if i + 1 < K else ZERO))
            stored = [x for p in zip(e, m) for x in p] if K else []
            cnt = len(stored) // 2
            a, b = key('a'), key('b')
            tot = e[-1]
            facts = []
            if op in (7, 8, 9):
                a = sym('a') if op != 8 else ONE + sym('a')
                facts.append(tot - a - (ONE if op == 7 else ZERO))
                if op == 9:
                    b = sym('b')
                    facts.append(tot - b)
                if K == 0:
                    continue
            data = stored + [a, b]

            def load(ev, base, off, sz, ty):
                if base == 'n' and sz == 8 and off // 8 < len(data):
                    return data[off // 8]
            log = []

            def calls(p):
                del log[:]
                return {h: (lambda ev, x, i, h=h: log.append((h, x))) for h in ('h_v', 'h_it', 'h_mark')}

            def after(p, r):
                if r.noreturn:
                    raise Bad('ends in an exception')
                it = iter(list(log))

                def nxt(h):
                    x = next(it, None)
                    if x is None or x[0] != h:
                        raise Bad('reports something else than expected')
                    return x[1]

                def val(want, what):
                    g = nxt('h_v')[0]
                    if not isinstance(g, R) or not (p.ge(g - want) and p.ge(want - g)):
                        raise Bad('%s is %s, expected %s' % (what, show(g, 60) if isinstance(g, R) else repr(g), show(want, 60)))

                def at(x):
                    """position (left number) -> (left, right) or None behind the end"""
                    if not p.ge(tot - x - ONE):
                        return None
                    for i in range(K):
                        if p.ge(e[i + 1] - x - ONE):
                            return x, m[i] + x - e[i]

                def pos(v, what='iterator'):
                    g = nxt('h_it')
                    end = num(g[0], 'end')
                    if v is None:
                        if not end:
                            raise Bad('%s points to (%s, %s), expected the end' % (what, show(g[1], 40), show(g[2], 40)))
                        return
                    if end:
                        raise Bad('%s is the end, expected (%s, %s)' % (what, show(v[0], 40), show(v[1], 40)))
                    for q, w in ((g[1], v[0]), (g[2], v[1])):
                        if not (p.ge(q - w) and p.ge(w - q)):
                            raise Bad('%s points to (%s, %s), expected (%s, %s)' % (what, show(g[1], 40), show(g[2], 40), show(v[0], 40), show(v[1], 40)))
                    val(v[0], 'number through the arrow')
                    val(v[1], 'value through the arrow')

                def right(y):
                    """value -> (left, right) of the first value not below it"""
                    for i in range(K):
                        if p.ge(m[i] + ln[i] - ONE - y):
                            return (e[i] + y - m[i], y) if p.ge(y - m[i]) else (e[i], m[i])
                    return None
                if op == 0:
                    val(tot, 'size')
                    val(ONE if K == 0 else ZERO, 'emptiness')
                    pos(at(ZERO), 'begin')
                    val(ONE if K == 0 else ZERO, 'begin == end')
                elif op == 1:
                    ok = p.ge(a) and p.ge(tot - a - ONE)
                    pos(at(a) if ok else None)
                    val(ONE if ok else ZERO, 'contains_left')
                elif op == 2:
                    v = right(a)
                    ok = v is not None and (v[1] - a).const() == 0
                    pos(v if ok else None)
                    val(ONE if ok else ZERO, 'contains_right')
                elif op in (3, 4):
                    x = a + lift(op - 3)
                    pos(at(x) if p.ge(x) else at(ZERO))
                elif op in (5, 6):
                    pos(right(a + lift(op - 5)))
                elif op == 7:
                    for x in (a + ONE, a + ONE, a, a + ONE):
                        pos(at(x))
                elif op == 8:
                    for x in (a - ONE, a - ONE, a, a - ONE):
                        pos(at(x))
                elif op == 9:
                    lt, gt = p.ge(b - a - ONE), p.ge(a - b - ONE)
                    for nm, w in (('==', not lt and not gt), ('!=', lt or gt), ('<', lt), ('>', gt), ('<=', not gt), ('>=', not lt)):
                        val(ONE if w else ZERO, 'operator' + nm)
                    val(a - b, 'difference')
                elif op == 10:
                    t = int(tot.const())
                    for x in range(t):
                        pos(at(lift(x)), 'iterator after %d steps' % x)
                    nxt('h_mark')
                    for x in reversed(range(t)):
                        pos(at(lift(x)), 'iterator going back to %d' % x)
                elif op == 11:
                    for w, nm in ((ZERO, 'size'), (ONE, 'emptiness'), (ONE, 'begin == end')):
                        val(w, nm + ' after clear')
                    for _ in range(3):
                        pos(None)
                if next(it, None) is not None:
                    raise Bad('reports something else than expected')
            n, err = explore(mod, fn, {0: lift(op), 1: avn.Ptr('n'), 2: lift(cnt)}, load, calls, facts, 4000, after, Bad)
            np += n
            obl.append(('%s/%d intervals%s/%s' % (fn[2:], K, '' if lens is None else ' of lengths %s' % (lens,), OPN[op]), not err, err, wh + OPN[op].split(',')[0]))
    return {'obl': obl, 'count': {'paths': np}}


def rawit():
    mod = witness_ir(IENUM, name='ienum', light=True)
    obl = []
    d = [atom(('d', i)) for i in range(20)]
    for a in range(2, 5):
        for b in range(2, 6):
            log = []
            ev = avn.Eval(mod, 'w_raw', args={0: lift(a), 1: lift(b), 2: avn.Ptr('d')}, onload=lambda e, base, off, sz, ty: d[off // 4] if base == 'd' and sz == 4 else None, calls={'h_v': lambda e, x, i: log.append(x[0])})
            try:
                ev.run()
            except avn.Opaque as x:
                raise Broken('w_raw: %s' % x)
            want = [lift(int(x)) for x in (a == b, a != b, a < b, a > b, a <= b, a >= b, a - b)] + [d[2 * a], d[2 * a + 1], d[2 * a + 2], d[2 * a + 3], d[2 * a + 4], d[2 * a + 2], d[2 * a + 7], ONE,
                    d[2 * a], d[2 * a + 2], d[2 * a + 2], d[2 * a], d[2 * a + 2], d[2 * a], lift(10), ZERO, ONE]
            nm = ['==', '!=', '<', '>', '<=', '>=', '-', '* first', '-> second', '[] first', '[] second', '+', '- n', 'n +', '-=', 'it++ old', 'it++', 'it-- old', 'it--', '++it', '--it', 'end - begin', 'empty', 'empty after clear']
            if len(log) != len(want):
                raise Broken('w_raw: %d results' % len(log))
            for n, g, w in zip(nm, log, want):
                ok = isinstance(g, R) and (g - w).const() == 0
                obl.append(('storage iterator/%d %d/%s' % (a, b, n), ok, '' if ok else 'gives %s, expected %s' % (repr(g)[:40], show(w, 40)), DIR + 'interval_enum.h: interval_external_memory::const_iterator'))
    return {'obl': obl}


def v01(c):
    N = 3 if TIER == 'quick' else 5
    jobs = [(rawit, ())] + [(ienum, (fn, K, tuple(o))) for fn in ('w_own', 'w_ownl', 'w_ext') for K in range(N, -1, -1) for o in ((0, 1, 2, 11), (3, 4, 5, 6), (7, 8, 9), (10,))]
    collect(c, [j for j in jobs if not ONLY or ONLY in repr(j)])
    c.assumptions = ['the storage describes intervals in increasing order, the first number is zero and the last pair closes the last interval, as documented', 'numbers do not overflow']

# ---------------------------------------------------------------- V02
TREE = """
namespace std {   // the tree behind std::map without balancing
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; } _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() { x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
}
"""
EXT = '#include <map>\n#include <set>\n#include <limits>\n' + TREE + """
#include "anifem++/interval/ext_array_enum.h"
using namespace Ani;
typedef unsigned long ul;
extern "C" { void h_v(ul); void h_it(int, ul, const ul*); void h_mark(int); }
#define N %(N)d
struct Rg { const ul* r; ul operator()(ul v) const { return r[v]; } };
typedef ext_range_array_enum<N, Rg> E;
template<class A> static void arr(const A& a) { for (int k = 0; k <= N; ++k) h_v(a[k]); }
static void put(const E& e, const E::iterator& it) { if (it == e.end()) h_mark(1); else { h_mark(0); h_v(it->first); arr((*it).second); } }
extern "C" void w_ext(const ul* o, const ul* r) {
  const ul n = o[0], m = o[1], cnt = o[2], op = o[3]; o += 4;
  std::vector<std::array<ul, N>> base(cnt); for (ul i = 0; i < cnt; ++i) for (int k = 0; k < N; ++k) base[i][k] = *o++;
  std::array<ul, N + 1> b; for (int k = 0; k <= N; ++k) b[k] = o[k];
  E e; if (op & 16) { E t(base, Rg{r}, n, m); e = t; } else { e.setBaseSet(base); e.setRangedExtension(Rg{r}, n, m); } e.setup();
  switch (op & 15) {
    case 0: { h_v(e.size()); h_v(e.empty()); ul num = e[b]; h_v(num); arr(e[num]);
      auto it = e.begin(num); put(e, it); for (int k = 0; k < 2 && it != e.end(); ++k) { ++it; put(e, it); }
      it = e.begin(num); for (int k = 0; k < 2 && it != e.begin(); ++k) { --it; put(e, it); }
      auto jt = e.find(b); h_v(it == jt); h_v(it != jt); h_v(it < jt); h_v(it > jt); h_v(it <= jt); h_v(it >= jt);
      it = e.begin(); put(e, it); put(e, e.find(e.size())); put(e, e.find(num)); it += num; put(e, it); it -= num; put(e, it); jt = it + num; put(e, jt); put(e, jt - num); break; }
    case 1: h_v(e.contains(b) + 2 * e.count(b)); put(e, e.find(b)); put(e, e.lower_bound(b)); put(e, e.upper_bound(b)); break;
  }
}
typedef ext_array_enum<N, 2, Rg, ul, ul, interval_own_memory<ul, ul>> A;
static void putA(const A& e, const A::iterator& it) { if (it == e.end()) h_mark(1); else { h_mark(0); h_v(it->first); arr((*it).second); } }
// after the arrays: for each of two sets of values the number of stored pairs and the pairs
extern "C" void w_set(const ul* o, const ul* r) {
  const ul n = o[0], m = o[1], cnt = o[2], op = o[3]; o += 4;
  std::vector<std::array<ul, N>> base(cnt); for (ul i = 0; i < cnt; ++i) for (int k = 0; k < N; ++k) base[i][k] = *o++;
  std::array<ul, N + 1> b; for (int k = 0; k <= N; ++k) b[k] = *o++;
  std::array<interval_enum<interval_own_memory<ul, ul>>, 2> is; for (auto& x : is) { interval_own_memory<ul, ul> q; ul c = *o++; for (ul k = 0; k < c; ++k, o += 2) q.m_dat.push_back(std::pair<ul, ul>(o[0], o[1])); x.setMem(q); }
  E e0(base, Rg{r}, n, m); e0.setup(); A e(e0, is);
  switch (op & 15) {
    case 0: { h_v(e.size()); h_v(e.empty()); ul num = e[b]; h_v(num); arr(e[num]);
      auto it = e.begin(num); putA(e, it); for (int k = 0; k < 2 && it != e.end(); ++k) { it++; putA(e, it); }
      it = e.begin(num); for (int k = 0; k < 2 && it != e.begin(); ++k) { it--; putA(e, it); }
      auto jt = e.find(b); h_v(it == jt); h_v(it != jt); h_v(it < jt); h_v(it > jt); h_v(it <= jt); h_v(it >= jt);
      it = e.begin(); putA(e, it); putA(e, e.find(e.size())); putA(e, e.find(num)); it += num; putA(e, it); it -= num; putA(e, it); jt = it + num; putA(e, jt); putA(e, jt - num); break; }
    case 1: h_v(e.contains(b) + 2 * e.count(b)); putA(e, e.find(b)); break;
  }
}
"""
ENM = {0: 'operator[], begin, iterator', 1: 'contains, find, lower_bound, upper_bound'}


class Ext:
    """extended arrays: base arrays (numbers), ranges (forms)"""
    def __init__(self, base, rg, n, m, N, sets=None):
        self.sets = sets        # values inserted: per number of the dependence (start, length) of intervals; None: from zero on
        self.base, self.rg, self.n, self.m, self.N = sorted(set(base)), rg, n, m, N

    def size(self):
        return sum((self.rg[a[self.m]] for a in self.base), ZERO)

    def member(self, p, b):
        """b: N+1 forms, the inserted one arbitrary"""
        a, s = self.split(b)
        if a not in self.base:
            return False
        s = self.place(p, a, s)
        return s is not None and p.ge(s) and p.ge(self.rg[a[self.m]] - s - ONE)

    def split(self, b):
        s = b[self.n]
        a = tuple(int(x.const()) for x in b[:self.n] + b[self.n + 1:])
        return a, s

    def place(self, p, a, s):
        """number of the value in its set"""
        if self.sets is None:
            return s
        t = ZERO
        for st, ln in self.sets[a[self.m]]:
            if p.ge(s - st) and p.ge(st + ln - s - ONE):
                return t + s - st
            t += ln

    def rank(self, p, b, upto=False):
        """number of extended arrays below b (or not above)"""
        a0, s = self.split(b)
        s = self.place(p, a0, s)
        n, t = self.n, ZERO
        for a in self.base:
            r = self.rg[a[self.m]]
            if a[:n] < a0[:n]:
                t += r
            elif a[:n] == a0[:n]:
                if not p.ge(r - s - ONE):       # r <= s
                    t += r
                else:
                    t += s
                    if a[n:] < a0[n:] or upto and a[n:] == a0[n:]:
                        t += ONE
        return t


def eq0(p, e):
    return e.const() == 0 or p.ge(e) and p.ge(-e)


def ext_run(mod, base, n, m, N, op, b, rg, facts, sets=None):
    E = Ext(base, rg, n, m, N, sets)
    ints = [lift(x) for x in [n, m, len(base), op] + [y for a in base for y in a]] + list(b)
    for st in sets or ():
        t, out = ZERO, []
        for x, ln in st:
            out += [t, x]
            t += ln
        out += [t, st[-1][0] + st[-1][1]]
        ints += [lift(len(out) // 2)] + out

    def load(ev, bs, off, sz, ty):
        if bs == 'o' and sz == 8 and off // 8 < len(ints):
            return ints[off // 8]
        if bs == 'r' and sz == 8 and off // 8 < len(rg):
            return rg[off // 8]
    log = []

    def calls(p):
        del log[:]
        return {h: (lambda ev, x, i, h=h: log.append((h, x))) for h in ('h_v', 'h_mark')}

    def after(p, r):
        if r.noreturn:
            raise Bad('ends in an exception')
        it = iter(list(log))

        def nxt(h):
            x = next(it, None)
            if x is None or x[0] != h or not isinstance(x[1][0], R):
                raise Bad('reports something else than expected')
            return x[1][0]

        def val(want, what):
            g = nxt('h_v')
            if not eq0(p, g - want):
                raise Bad('%s is %s, expected %s' % (what, show(g, 80), show(want, 80)))

        def array(rk, what):
            """the array of rank rk follows"""
            c = [nxt('h_v') for _ in range(N + 1)]
            t = '{%s}' % ', '.join(show(x, 40) for x in c)
            if any(x.const() is None for k, x in enumerate(c) if k != n) or not E.member(p, c):
                raise Bad('%s is %s, not an element' % (what, t))
            g = E.rank(p, c)
            if not eq0(p, g - rk):
                raise Bad('%s is %s of rank %s, expected that of rank %s' % (what, t, show(g, 80), show(rk, 80)))

        def pos(rk, what):
            end = num(nxt('h_mark'), 'end')
            if p.ge(rk - size):
                if not end:
                    raise Bad('%s is not the end' % what)
                return False
            if end:
                raise Bad('%s is the end, expected rank %s' % (what, show(rk, 80)))
            val(rk, 'number at ' + what)
            array(rk, what)
            return True
        size = E.size()
        o = op & 15
        mem = o == 0 or E.member(p, b)
        rk = E.rank(p, b) if mem or not sets else ZERO
        if o == 0:
            val(size, 'size()')
            val(ONE if eq0(p, size) else ZERO, 'empty()')
            val(rk, 'operator[](array)')
            array(rk, 'operator[](number)')
            go = pos(rk, 'begin(number)')
            for k in range(2):
                if go:
                    go = pos(rk + lift(k + 1), 'iterator after %d increments' % (k + 1))
            k = 0
            while k < 2 and p.ge(rk - lift(k) - ONE):
                k += 1
                pos(rk - lift(k), 'iterator after %d decrements' % k)
            for nm, w in (('==', k == 0), ('!=', k > 0), ('<', k > 0), ('>', 0), ('<=', 1), ('>=', k == 0)):
                val(ONE if w else ZERO, 'operator' + nm)
            pos(ZERO, 'begin()')
            pos(size, 'find(size)')
            pos(rk, 'find(number)')
            pos(rk, 'begin() += number')
            pos(ZERO, 'that -= number')
            pos(rk, 'begin() + number')
            pos(ZERO, 'that - number')
        else:
            val(lift(3 * mem), 'contains(), count()')
            pos(rk if mem else size, 'find(array)')
        if o == 1 and not sets:
            pos(rk, 'lower_bound()')
            pos(E.rank(p, b, True), 'upper_bound()')
        if next(it, None) is not None:
            raise Bad('reports something else than expected')
    return explore(mod, 'w_set' if sets else 'w_ext', {0: avn.Ptr('o'), 1: avn.Ptr('r')}, load, calls, facts, 3000, after, Bad)


def chosen(bases, N, nv, part, nparts, pairs=None):
    mod = witness_ir(EXT % {'N': N}, name='ext', light='join')
    obl, np = [], 0
    dom = list(itertools.product(range(nv), repeat=N))
    rg = [ONE + sym('r%d' % i) for i in range(nv)]
    idx = 0
    for base in bases:
        for n, m, op in itertools.product(range(N + 1), range(N), (0, 1)):
            for a in (base if op == 0 else dom):
                idx += 1
                if idx % nparts != part:
                    continue
                s = sym('s')
                b = [lift(x) for x in a]
                b.insert(n, s)
                facts = [rg[a[m]] - s - ONE] if op == 0 else []
                k, err = ext_run(mod, list(reversed(base)) + [base[0]], n, m, N, op | (16 if idx % 2 else 0), b, rg, facts)
                np += k
                obl.append(('base %s, insert at %d, depends on %d/array {%s}/%s' % (list(base), n, m, ', '.join(show(y, 9) for y in b), ENM[op]), not err, err, DIR + 'ext_array_enum.inl: ext_range_array_enum::' + ENM[op]))
    return {'obl': obl, 'count': {'paths': np}}


def sets(bases, N, part, nparts):
    """values from sets of intervals: lengths are numbers, starts and gaps are arbitrary"""
    mod = witness_ir(EXT % {'N': N}, name='ext', light='join')
    obl, np = [], 0
    dom = list(itertools.product(range(3), repeat=N))
    x, y = sym('x'), sym('y')
    S = [[(x, lift(1)), (x + lift(2) + sym('u'), lift(2))], [(y, lift(2))]]
    rg = [lift(3), lift(2)]
    idx = 0
    for base in bases:
        for n, m, op in itertools.product(range(N + 1), range(N), (0, 1)):
            for a in (base if op == 0 else dom):
                idx += 1
                if idx % nparts != part:
                    continue
                for st, ln in (S[a[m]] if op == 0 else [(ZERO, None)]):
                    s = st + sym('s')
                    b = [lift(v) for v in a]
                    b.insert(n, s)
                    k, err = ext_run(mod, base, n, m, N, op, b, rg, [st + ln - s - ONE] if op == 0 else [], S)
                    np += k
                    obl.append(('sets/base %s, insert at %d, depends on %d/array {%s}/%s' % (list(base), n, m, ', '.join(show(v, 9) for v in b), ENM[op]), not err, err, DIR + 'ext_array_enum.inl: ext_array_enum::' + ENM[op]))
    return {'obl': obl, 'count': {'paths': np}}


B3 = [((0, 0, 1), (0, 1, 0), (1, 0, 1), (1, 1, 1)), ((0, 0, 0), (0, 0, 1), (0, 1, 1), (1, 0, 0), (1, 1, 0)), ((0, 1, 1), (1, 0, 0), (1, 0, 1), (1, 1, 0))]


def v02(c):
    two = list(itertools.product(range(2), repeat=2))
    all2 = [x for k in range(1, 5) for x in itertools.combinations(two, k)]
    d3 = list(itertools.product(range(2), repeat=3))
    more = [] if TIER == 'quick' else [x for x in itertools.combinations(d3, 4)][::5] + [tuple(d3)]
    jobs = [(chosen, (B3 + more, 3, 2, k, 24)) for k in range(24)] + [(chosen, (all2, 2, 2, k, 16)) for k in range(16)] + [(sets, ([all2[-1], ((0, 1), (1, 0)), ((0, 0), (1, 1), (1, 0))], 2, k, 8)) for k in range(8)]
    collect(c, [j for j in jobs if not ONLY or ONLY in repr(j)])
    c.assumptions = ['every number an array depends on has at least one value to insert', 'values to insert are stored in increasing order']


if __name__ == '__main__':
    T = {'V01': ('Numbers and values stored by intervals correspond one to one in order; searches, steps and comparisons of iterators agree with it.', v01),
         'V02': ('Numbers of extended arrays are their places in lexicographic order; search and iteration agree with it.', v02),
         'V03': ('After any insertion the map is the documented function of the keys, in canonical form; conflicting insertions change nothing.', v03)}
    main(sys.argv[1], T[sys.argv[1]][0], T[sys.argv[1]][1])
