"""Q01/Q02: quadrature rules. The rule tables returned for every order are read off the folded IR of the public
lookup functions (constant folding through the code's own table selection), then decided in exact arithmetic."""
import itertools
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from fractions import Fraction as Fr
from frame import *
import avn

SHAPES = {'segment': (2, 21, [1, 2]), 'triangle': (3, 20, [1, 3, 6]), 'tetrahedron': (4, 20, [1, 4, 6, 12, 24])}
DOC = {'segment': (1, 20), 'triangle': (1, 7), 'tetrahedron': (1, 20)}

SRC = r'''
#include <stdexcept>
#include <string>
#include "anifem++/fem/quadrature_formulas.h"
#include "anifem++/fem/quadrature_formulas.cpp"
template<class F, int N> static inline void put(const F& f, double* p, double* w, double* P, double* W, int* n){
    n[0] = f.GetNumPoints(); n[1] = f.IsSymmetric() ? 1 : 0;
    auto s = f.GetSymmetryPartition();
    for (unsigned i = 0; i < s.size(); ++i) n[2+i] = s[i];
    for (int i = 0; i < f.GetNumPoints(); ++i){
        auto pw = f.template GetPointWeight<double>(i);
        for (int k = 0; k < N; ++k){ p[N*i+k] = pw.p[k]; P[N*i+k] = f.GetPointData()[N*i+k]; }
        w[i] = pw.w; W[i] = f.GetWeightData()[i];
    }
}
'''


def gen(shape, order):
    n, mx, _ = SHAPES[shape]
    cls = {'segment': 'SegmentQuadFormula', 'triangle': 'TriangleQuadFormula', 'tetrahedron': 'TetraQuadFormula'}[shape]
    return SRC + 'extern "C" void w_%s_%s(double* __restrict p, double* __restrict w, double* __restrict P, double* __restrict W, int* __restrict n){ put<%s,%d>(%s_quadrature_formulas(%d), p, w, P, W, n); }\n' % (
        shape, str(order).replace('-', 'm'), cls, n, shape, order)


def table(shape, order):
    mod = witness_ir(gen(shape, order), name=shape)
    fn = 'w_%s_%s' % (shape, str(order).replace('-', 'm'))
    ev = avn.Eval(mod, fn, args={i: avn.Ptr(x) for i, x in enumerate(['p', 'w', 'P', 'W', 'n'])})
    try:
        r = ev.run()
    except avn.Opaque as e:
        raise Broken('%s order %d: %s' % (shape, order, e))
    if r.noreturn:
        return None
    n = SHAPES[shape][0]

    def get(b, i, sz):
        c = r.cell(b, i * sz, sz)
        if c is None or not isinstance(c, avn.R) or c.const() is None:
            raise Broken('%s order %d: %s[%d] is not a constant' % (shape, order, b, i))
        return c.const()
    N = int(get('n', 0, 4))
    ns = len(SHAPES[shape][2])
    out = {'N': N, 'issym': int(get('n', 1, 4)), 'sym': [int(get('n', 2 + i, 4)) for i in range(ns)]}
    for nm, pb, wb in (('pw', 'p', 'w'), ('raw', 'P', 'W')):
        out[nm] = [([get(pb, n * i + k, 8) for k in range(n)], get(wb, i, 8)) for i in range(N)]
    return out


def moments(n, order):
    """monomials in the first n-1 barycentric coordinates with total degree <= order and their exact means"""
    d = n - 1
    for e in itertools.product(range(order + 1), repeat=d):
        if sum(e) <= order:
            v = Fr(math.factorial(d))
            for k in e:
                v *= math.factorial(k)
            yield e, v / math.factorial(d + sum(e))


SC = 10**30


def fixed(x):
    return int(round(x * SC))


def exact_err(n, order, pts):
    """largest deviation over all monomials of degree <= order (fixed-point with 30 digits)"""
    d = n - 1
    pw = []
    for p, w in pts:
        t = []
        for k in range(d):
            c = fixed(p[k])
            l = [SC]
            for _ in range(order):
                l.append(l[-1] * c // SC)
            t.append(l)
        pw.append((t, fixed(w)))
    worst, we = 0, None
    for e, v in moments(n, order):
        s = 0
        for t, w in pw:
            x = w
            for k in range(d):
                if e[k]:
                    x = x * t[k][e[k]] // SC
            s += x
        err = abs(s - fixed(v)) / SC
        if we is None or err > worst:
            worst, we = err, e
    return worst, we


def task(pid, shape, order):
    n, mx, orb = SHAPES[shape]
    t = table(shape, order)
    obl = []
    key = '%s/order=%d' % (shape, order)
    inside_range = 0 <= order <= mx
    where = 'anifem++/fem/quadrature_formulas.cpp: %s_quadrature_formulas(%d)' % (shape, order)
    if not inside_range:
        obl.append((key + '/rejected', t is None, 'an unsupported order must be rejected by an exception, but the lookup returns a rule', where))
        return {'obl': obl if pid == 'Q02' else []}
    if t is None:
        obl.append((key + '/available', False, 'a supported order raises instead of returning a rule', where))
        return {'obl': obl}
    cnt = {'rules': 1, 'points': t['N']}
    if pid == 'Q01':
        for nm in ('pw', 'raw'):
            err, e = exact_err(n, order, t[nm])
            cnt['monomials'] = cnt.get('monomials', 0) + sum(1 for _ in moments(n, order))
            obl.append((key + '/exact/' + nm, err <= 5e-14, 'integral of the monomial with exponents %s is off by %.3g (rule has %d points, degree %d)' % (e, err, t['N'], order), where))
        return {'obl': obl, 'counts': cnt}
    # Q02 structure
    obl.append((key + '/positive-count', t['N'] > 0, 'rule has no points', where))
    for nm in ('pw', 'raw'):
        inside = all(0 < float(x) < 1 for p, _ in t[nm] for x in p)
        obl.append((key + '/inside/' + nm, inside, 'a point lies outside the open simplex', where))
        part = all(abs(float(sum(p) - 1)) < 1e-14 for p, _ in t[nm])
        obl.append((key + '/partition-of-unity/' + nm, part, 'barycentric coordinates of a point do not sum to one', where))
    obl.append((key + '/accessors', all(abs(float(a - b)) < 1e-14 for x, y in zip(t['pw'], t['raw']) for a, b in zip(x[0] + [x[1]], y[0] + [y[1]])),
                'point/weight accessor disagrees with the raw arrays', where))
    obl.append((key + '/symmetric-flag', t['issym'] == 1, 'rule is not reported as symmetric', where))
    # orbits: in declared order, groups of sizes orb[k], each closed under vertex permutations with one weight
    cntpts = sum(a * b for a, b in zip(t['sym'], orb))
    obl.append((key + '/partition-count', cntpts == t['N'], 'symmetry partition %s describes %d points, the rule has %d' % (t['sym'], cntpts, t['N']), where))
    i = 0
    good = True
    msg = ''
    if cntpts == t['N']:
        for k, m in enumerate(t['sym']):
            for g in range(m):
                grp = t['raw'][i:i + orb[k]]
                i += orb[k]
                if len(set(fixed(w) // 10**15 for _, w in grp)) != 1 and max(w for _, w in grp) - min(w for _, w in grp) > Fr(1, 10**14):
                    good, msg = False, 'orbit %d of type %d has different weights' % (g, orb[k])
                pts = [tuple(p) for p, _ in grp]
                perms = set(tuple(round(float(x), 12) for x in q) for q in itertools.permutations(pts[0]))
                have = set(tuple(round(float(x), 12) for x in q) for q in pts)
                if not close_sets(pts, n, orb[k]):
                    good, msg = False, 'group %d of declared orbit size %d is not one full orbit of the simplex symmetry group (first point %s)' % (g, orb[k], [float(x) for x in pts[0]])
    obl.append((key + '/orbits', good, msg, where))
    return {'obl': obl, 'counts': cnt}


def close_sets(pts, n, size):
    perm = []
    for q in itertools.permutations([float(x) for x in pts[0]]):
        if not any(max(abs(a - b) for a, b in zip(q, r)) < 1e-13 for r in perm):
            perm.append(q)
    if len(perm) != size or len(pts) != size:
        return False
    for q in perm:
        if sum(1 for r in pts if max(abs(a - float(b)) for a, b in zip(q, r)) < 1e-13) != 1:
            return False
    return True


def body(pid):
    def f(c):
        jobs = []
        for s, (n, mx, _) in SHAPES.items():
            rng = list(range(0, mx + 1)) + ([-2147483648, -7, -1, mx + 1, mx + 2, 64, 2147483647] if pid == 'Q02' else [])
            jobs += [(task, (pid, s, o)) for o in sorted(rng, reverse=True)]
        collect(c, jobs)
        c.need('quadrature rules', c.counts.get('rules', 0) + sum(1 for v in c.viol), 64)
    return f


RULE = {'Q01': 'Each order of each rule family: tables obtained by constant folding of the lookup function in compiler IR; every monomial of total degree <= order is integrated exactly by the table (deviation <= 5e-14).',
        'Q02': 'Each order of each rule family: open-simplex points, partition of unity, accessor agreement, declared symmetry partition equals the actual orbits; orders outside the table raise.'}

if __name__ == '__main__':
    pid = sys.argv[1]
    main(pid, RULE[pid], body(pid))
