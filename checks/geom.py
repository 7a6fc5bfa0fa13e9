"""G01: elementary geometry.  G02: dense linear solvers."""
import itertools
import math
import os
import sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from frame import *
from fem import same
from alg import *
from alg import _polylist
import avn

ONLY = os.environ.get('ONLY', '')
HEAD = '''
#include "anifem++/fem/geometry.h"
#include "anifem++/fem/operations/core.h"
#include "anifem++/fem/operations/eval.h"
using namespace Ani;
'''
WG = 'anifem++/fem/geometry.h'


def x(i, k):
    """coordinate k of vertex i"""
    return atom('p%d%s' % (i, 'xyz'[k]))


def neval(r, val):
    """value of a form at a sample point: val(atom key) -> number"""
    def at(a):
        k = atom_key(a)
        if isinstance(k, tuple) and len(k) > 2 and k[0] == 'fn':
            f = {'sqrt': math.sqrt, 'fabs': abs}.get(k[1])
            if f is None:
                raise Broken('no sample value of ' + str(k)[:60])
            return f(neval(from_key(k[2]), val))
        v = val(k)
        if v is None:
            raise Broken('no sample value of ' + str(k)[:60])
        return v

    def po(p):
        s = 0.0
        for m, c in p.t.items():
            t = float(c)
            for a, e in m:
                t *= at(a) ** e
            s += t
        return s
    v = po(r.n)
    for k, e in r.d:
        v /= po(_polylist[k]) ** e
    return v


def decider(val, eps=1e-9):
    """the case of all comparisons at a sample point"""
    def f(pred, p, q):
        d = neval(p - q, val)
        if abs(d) <= eps:
            return {'lt': False, 'gt': False, 'le': True, 'ge': True, 'eq': True, 'ne': False}[pred] if not (p - q).n.t else None
        return {'lt': d < 0, 'gt': d > 0, 'le': d < 0, 'ge': d > 0, 'eq': False, 'ne': True}[pred]
    return f


def run(mod, fn, names, val, decide=None, ints=None):
    """val: {(array, index): R}"""
    def onload(ev, base, off, sz, ty):
        if sz == 8 and off % 8 == 0 and (base, off // 8) in val:
            return val[base, off // 8]
        if ints and sz == 4 and (base, off // 4) in ints:
            return lift(ints[base, off // 4])
        return None
    ev = avn.Eval(mod, fn, args={k: avn.Ptr(n) for k, n in enumerate(names)}, onload=onload)
    ev.decide = decide
    try:
        return ev.run()
    except avn.Opaque as e:
        raise Broken('%s: %s' % (fn, e))


def cellv(r, base, i, val=None):
    c = r.cell(base, 8 * i)
    return c if c is not None else (val or {}).get((base, i))


def eqs(r, base, want, what):
    for i, w in enumerate(want):
        g = cellv(r, base, i)
        if not (isinstance(g, R) and same(g, w)):
            return '%s: number %d is %s, expected %s' % (what, i, show(g, 160) if isinstance(g, R) else repr(g)[:80], show(w, 160))
    return ''


def inside(r, sizes):
    for b, n in sizes.items():
        if r.extent(b) > 8 * n:
            return 'touches %s beyond its %d numbers' % (b, n)
    return ''


def sub(a, b):
    return [p - q for p, q in zip(a, b)]


def cr(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum((p * q for p, q in zip(a, b)), ZERO)


def sq(r):
    return avn.Eval.libm(type('E', (), {'decide': None})(), 'sqrt', [r])


# sample tetrahedra of both orientations and several shapes; every case of the comparisons met there is decided for all
# vertices which fall under the same case
TETS = [[(0, 0, 0), (1, .1, .2), (.2, 1.3, .1), (.1, .3, 1.7)], [(0, 0, 0), (.2, 1.3, .1), (1, .1, .2), (.1, .3, 1.7)], [(.3, 2.1, -1), (1.2, .4, .5), (-2, .3, .8), (.4, -3, -1.5)], [(5, .2, .1), (0, 1, 0.3), (.4, .1, 1), (.2, .3, .1)], [(.1, .2, .3), (6, .2, 1), (.4, .7, 1.1), (.9, -4, .1)],
        [(.1, .2, .3), (.6, .2, 1), (.4, .7, 1.3), (.9, 9.4, .9)], [(.1, .2, .3), (.6, -8.2, 1), (.4, .7, 1.3), (.9, 9.4, .9)], [(.1, .2, .3), (.6, .2, 1), (.4, -7.7, 1.3), (.9, 9.4, .9)], [(.1, 9.2, .3), (.6, .2, 1), (.4, -7.7, 1.3), (.9, .4, .9)],
        [(.1, -8.2, .3), (.6, 7.2, 1), (.4, .7, 1.3), (.9, .4, .9)],
        [(.1, .2, .3), (6, .2, 1), (.4, .7, 1.1), (-7, .4, .1)], [(.1, .2, .3), (.6, .2, 1), (.4, .7, -11), (-.7, .4, 9)], [(.1, .2, .3), (.6, 8.2, 1), (.4, -7.7, 1), (-.7, .4, .9)], [(1, .2, .3), (.6, .2, 1), (.4, -7.7, 1), (-.7, .4, .9)], [(1, .2, .3), (.6, .2, 1), (.4, .7, 1.3), (-.7, 9.4, .9)]]
SIG = 'const double* __restrict p0, const double* __restrict p1, const double* __restrict p2, const double* __restrict p3, const double* __restrict X, const int* __restrict q, double* __restrict O'
NM = ['p0', 'p1', 'p2', 'p3', 'X', 'q', 'O']
P4 = [[x(i, k) for k in range(3)] for i in range(4)]
PV = {('p%d' % i, k): x(i, k) for i in range(4) for k in range(3)}


def samp(t):
    v = {'p%d%s' % (i, 'xyz'[k]): t[i][k] for i in range(4) for k in range(3)}
    return lambda k: v.get(k)


PRIM = {'cross(a,b)': 'cross(p0, p1, O)', 'cross(p0,p1,p2)': 'cross(p0, p1, p2, O)', 'tri_area': 'O[0] = tri_area(p0, p1, p2)', 'face_normal': 'O[3] = face_normal(p0, p1, p2, p3, O)',
        'inverse3x3': 'O[9] = inverse3x3(X, O)', 'centroid': 'auto c = T.centroid(); for (int k = 0; k < 3; ++k) O[k] = c[k]', 'diameter': 'O[0] = T.diameter()',
        'normal': 'for (int f = 0; f < 4; ++f){ auto c = T.normal(f); for (int k = 0; k < 3; ++k) O[3 * f + k] = c[k]; }',
        'normal_direction': 'for (int f = 0; f < 4; ++f){ auto c = T.normal_direction(f); for (int k = 0; k < 3; ++k) O[3 * f + k] = c[k]; }',
        'getBaryCoord': 'getBaryCoord<double>(p0, p1, p2, p3, ArrayView<const double>(X, 9), ArrayView<double>(O, 12))',
        'getBaryCoord of known PSI': 'double S[9], T9[9]; for (int j = 0; j < 3; ++j){ T9[3*j] = p1[j] - p0[j]; T9[3*j+1] = p2[j] - p0[j]; T9[3*j+2] = p3[j] - p0[j]; } double I[9]; inverse3x3(T9, I); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) S[i + 3*j] = I[j + 3*i];'
                                     ' getBaryCoord<double>(p0, p1, p2, p3, ArrayView<const double>(X, 9), ArrayView<double>(O, 12), ArrayView<double>(S, 9))',
        'vertices': 'auto t = make_tetras(p0, p1, p2, p3, 2); double* w = O; for (auto* m: {&t.XY0, &t.XY1, &t.XY2, &t.XY3}) for (int r = 0; r < 2; ++r) for (int k = 0; k < 3; ++k) *w++ = (*m)(k, r); *w++ = t.fusion'}


def prim(i):
    nm = list(PRIM)[i]
    src = HEAD + 'extern "C" void w_f(%s){ Tetra<const double> T(p0, p1, p2, p3); (void) T; %s; }\n' % (SIG, PRIM[nm])
    mod = witness_ir(src, name='geo', light=True)
    obl = []
    val = dict(PV)
    p = P4
    if nm in ('inverse3x3', 'getBaryCoord', 'getBaryCoord of known PSI'):
        val.update({('X', k): atom('X%d' % k) for k in range(9)})
    if nm == 'vertices':
        val.update({('p%d' % i, 3 + k): atom('r%d%d' % (i, k)) for i in range(4) for k in range(3)})
    fixed = {'cross(a,b)': cr(p[0], p[1]), 'cross(p0,p1,p2)': cr(sub(p[0], p[2]), sub(p[1], p[2])), 'centroid': [(p[0][k] + p[1][k] + p[2][k] + p[3][k]) / lift(4) for k in range(3)]}
    if nm == 'vertices':
        fixed['vertices'] = [val['p%d' % a, 3 * r + k] for a in range(4) for r in range(2) for k in range(3)] + [lift(2)]
    if nm in fixed:
        r = run(mod, 'w_f', NM, val)
        bad = eqs(r, 'O', fixed[nm], nm) or inside(r, {'O': len(fixed[nm]), **{'p%d' % k: 6 if nm == 'vertices' else 3 for k in range(4)}})
        obl.append((nm, not bad, bad, WG))
    elif nm == 'tri_area':
        r = run(mod, 'w_f', NM, val)
        c = cr(sub(p[0], p[2]), sub(p[1], p[2]))
        g = cellv(r, 'O', 0)
        bad = '' if isinstance(g, R) and same(g * g * lift(4), dot(c, c)) else 'four times the squared area is %s' % (show(g * g * lift(4), 200) if isinstance(g, R) else g)
        if not bad and not neval(g, samp(TETS[0])) > 0:
            bad = 'the area is not positive'
        obl.append((nm, not bad, bad, WG))
    elif nm == 'inverse3x3':
        r = run(mod, 'w_f', NM, val)
        m = [[val['X', a + 3 * b] for b in range(3)] for a in range(3)]
        g = [cellv(r, 'O', k) for k in range(10)]
        det = dot(m[0], cr(m[1], m[2]))
        bad = '' if isinstance(g[9], R) and same(g[9], det) else 'the determinant is %s' % show(g[9], 200)
        for a, b in itertools.product(range(3), repeat=2):
            s = sum((m[a][k] * g[k + 3 * b] for k in range(3)), ZERO)
            bad = bad or ('' if same(s, ONE if a == b else ZERO) else 'matrix times inverse has %s at (%d,%d)' % (show(s, 120), a, b))
        obl.append((nm, not bad, bad or inside(r, {'O': 10, 'X': 9}), WG))
    elif nm.startswith('getBaryCoord'):
        r = run(mod, 'w_f', NM, val)
        bad = ''
        for n in range(3):
            l = [cellv(r, 'O', 4 * n + k) for k in range(4)]
            if not all(isinstance(g, R) for g in l):
                bad = bad or 'coordinates of point %d are not written' % n
                continue
            if not same(sum(l, ZERO), ONE):
                bad = bad or 'coordinates of point %d sum to %s' % (n, show(sum(l, ZERO), 100))
            for k in range(3):
                s = sum((l[i] * p[i][k] for i in range(4)), ZERO)
                bad = bad or ('' if same(s, val['X', 3 * n + k]) else 'point %d is rebuilt as %s' % (n, show(s, 150)))
        bad = bad or inside(r, {'O': 12, 'X': 9})
        obl.append((nm, not bad, bad, 'anifem++/fem/operations/core.inl: getBaryCoord'))
    else:
        seen = set()
        for t in TETS:
            smp = samp(t)
            r = run(mod, 'w_f', NM, val, decider(smp))
            bad = ''
            if nm == 'diameter':
                g = cellv(r, 'O', 0)
                d = {(a, b): dot(sub(p[a], p[b]), sub(p[a], p[b])) for a in range(4) for b in range(a)}
                e = max(d, key=lambda k: neval(d[k], smp))
                seen.add(e)
                bad = '' if isinstance(g, R) and same(g * g, d[e]) and neval(g, smp) > 0 else 'its square is %s when edge %s is the longest' % (show(g * g, 150), e)
                obl.append(('diameter, longest edge %s' % (e,), not bad, bad, WG))
                continue
            faces = [(3, (0, 1, 2))] if nm == 'face_normal' else [(f, ((f + 1) % 4, (f + 2) % 4, (f + 3) % 4)) for f in range(4)]
            for z, (f, (a, b, c)) in enumerate(faces):
                n = cr(sub(p[b], p[a]), sub(p[c], p[a]))
                vol = neval(dot(n, sub(p[f], p[a])), smp)
                if vol > 0:
                    n = [-k for k in n]
                g = [cellv(r, 'O', 3 * z + k) for k in range(3)]
                if not all(isinstance(k, R) for k in g):
                    bad = 'the normal is not written'
                elif nm == 'normal_direction':
                    bad = bad or eqs_list(g, n, 'normal opposite to node %d' % f)
                else:
                    # unit, along n, same direction
                    if not same(dot(g, g), ONE):
                        bad = bad or 'the squared length of the normal is %s' % show(dot(g, g), 120)
                    if any(not same(k, ZERO) for k in cr(g, n)):
                        bad = bad or 'the normal is not orthogonal to the face opposite to node %d' % f
                    if not neval(dot(g, n), smp) > 0:
                        bad = bad or 'the normal of the face opposite to node %d points inside' % f
                if nm == 'face_normal' and not bad:
                    s = cellv(r, 'O', 3)
                    bad = '' if isinstance(s, R) and same(s * s * lift(4), dot(n, n)) and neval(s, smp) > 0 else 'the area is %s' % show(s, 120)
                obl.append(('%s %d of sample %d' % (nm, f, TETS.index(t)), not bad, bad, WG))
        if nm == 'diameter' and len(seen) != 6:
            raise Broken('samples make only %d of 6 edges the longest' % len(seen))
    return {'obl': obl, 'counts': {'routines': 1}}


def eqs_list(g, w, what):
    for k, (a, b) in enumerate(zip(g, w)):
        if not same(a, b):
            return '%s: component %d is %s, expected %s' % (what, k, show(a, 120), show(b, 120))
    return ''


def g01(c):
    collect(c, [(prim, (i,)) for i in range(len(PRIM)) if ONLY in list(PRIM)[i]])


# ---------------------------------------------------------------- G02
def rnd(seed):
    s = [seed]

    def f():
        s[0] = (s[0] * 1103515245 + 12345) % (1 << 31)
        return ((s[0] >> 8) % 1999 - 999) / 1000.0
    return f


def solve_check(r, A, Bm, N, M, base='X'):
    """'' when A X = B"""
    for l in range(M):
        xs = [cellv(r, base, i + N * l) for i in range(N)]
        if not all(isinstance(v, R) for v in xs):
            return 'solution %d is not written' % l
        for i in range(N):
            s = sum((A[i][j] * xs[j] for j in range(N)), ZERO)
            if not same(s, Bm[i][l]):
                return 'row %d of A X for right-hand side %d is %s, expected %s' % (i, l, show(s, 120), show(Bm[i][l], 60))
    return ''


def chol(N):
    src = HEAD + '''extern "C" void w_s(const double* A, const double* B, double* X, double* mem){ cholesky_solve(A, B, %d, 2, X, mem); }
      extern "C" void w_i(const double* A, double* X, double* mem){ cholesky_inverse(A, X, %d, mem); }
      extern "C" void w_b(const double* A, double* X, double* mem){ cholesky_solve(A, X, %d, 1, X, mem); }
      extern "C" void w_m(double* A, const double* B, double* X){ cholesky_solve(A, B, %d, 1, X, A); }''' % ((N,) * 4)
    mod = witness_ir(src, name='chol', light=True)
    # every symmetric positive definite matrix is L L^T; the symbols are the entries of L
    L = [[atom('l%d%d' % (i, j)) if j <= i else ZERO for j in range(N)] for i in range(N)]
    A = [[sum((L[i][k] * L[j][k] for k in range(N)), ZERO) for j in range(N)] for i in range(N)]
    Bm = [[atom('b%d%d' % (i, l)) for l in range(2)] for i in range(N)]
    smp = lambda k: (1.5 + .25 * int(k[1]) if k[1] == k[2] else .3 + .1 * int(k[1])) if isinstance(k, str) and k[0] == 'l' else .7
    val = {('A', i + N * j): A[i][j] for i in range(N) for j in range(N)}
    vb = {('B', i + N * l): Bm[i][l] for i in range(N) for l in range(2)}
    vx = {('X', i): Bm[i][0] for i in range(N)}
    mem = N * (N + 1) // 2
    obl = []
    for nm, fn, names, v, want, nr, sz in (('solve', 'w_s', ['A', 'B', 'X', 'mem'], {**val, **vb}, Bm, 2, {'A': N * N, 'B': 2 * N, 'X': 2 * N, 'mem': mem}),
                                           ('inverse', 'w_i', ['A', 'X', 'mem'], val, [[ONE if i == j else ZERO for j in range(N)] for i in range(N)], N, {'A': N * N, 'X': N * N, 'mem': mem}),
                                           ('solve in place', 'w_b', ['A', 'X', 'mem'], {**val, **vx}, Bm, 1, {'A': N * N, 'X': N, 'mem': mem}),
                                           ('solve with the matrix as work memory', 'w_m', ['A', 'B', 'X'], {**val, **vb}, Bm, 1, {'A': N * N, 'B': N, 'X': N})):
        r = run(mod, fn, names, v, decider(smp))
        bad = 'reports a positive definite matrix as indefinite' if r.noreturn else solve_check(r, A, want, N, nr) or inside(r, sz)
        obl.append(('cholesky %s %dx%d' % (nm, N, N), not bad, bad, WG + ': cholesky_solve, cholesky_inverse'))
    # a matrix that is not positive definite is rejected
    for k in range(N):
        A2 = dict(val)
        L2 = [[ONE if i == j else lift(Fr(1, 3)) if j < i else ZERO for j in range(N)] for i in range(N)]
        for i in range(N):
            for j in range(N):
                A2['A', i + N * j] = sum((L2[i][m] * L2[j][m] * lift(-1 if m == k else 1) for m in range(N)), ZERO)
        r = run(mod, 'w_s', ['A', 'B', 'X', 'mem'], {**A2, **vb}, decider(smp))
        bad = '' if r.noreturn else 'accepts a matrix whose pivot %d is negative' % k
        obl.append(('cholesky rejects %dx%d pivot %d' % (N, N, k), not bad, bad, WG + ': cholesky_solve'))
    return {'obl': obl, 'counts': {'solver_cases': 5}}


def lu(N, k):
    """full pivoting; the pivots are searched in the order given by k-th pair of permutations"""
    src = HEAD + '''extern "C" void w_s(const double* A, const double* B, double* X, double* mem, int* imem){ fullPivLU_solve(A, B, %d, 2, X, mem, imem); }
      extern "C" void w_i(const double* A, double* X, double* mem, int* imem){ fullPivLU_inverse(A, X, %d, mem, imem); }
      extern "C" void w_b(const double* A, double* X, double* mem, int* imem){ fullPivLU_solve(A, X, %d, 1, X, mem, imem); }
      extern "C" void w_j(double* A, double* mem, int* imem){ fullPivLU_inverse(A, A, %d, mem, imem); }
      extern "C" void w_l(double* A, int* p, int* q){ for (int i = 0; i < %d; ++i) p[i] = q[i] = i; fullPivLU(A, %d, p, q); }''' % ((N,) * 6)
    mod = witness_ir(src, name='lu', light=True)
    perms = list(itertools.permutations(range(N)))
    pairs = [(p, q) for p in perms for q in perms]
    if N > 3:
        pairs = pairs[::7 if TIER == 'thorough' else 97]
    A = [[atom('a%d%d' % (i, j)) for j in range(N)] for i in range(N)]
    Bm = [[atom('b%d%d' % (i, l)) for l in range(2)] for i in range(N)]
    val = {('A', i + N * j): A[i][j] for i in range(N) for j in range(N)}
    vb = {('B', i + N * l): Bm[i][l] for i in range(N) for l in range(2)}
    I = [[ONE if i == j else ZERO for j in range(N)] for i in range(N)]
    obl = []
    for n, (p, q) in list(enumerate(pairs))[k::8]:
        f = rnd(17 * n + 5)
        sm = {(i, j): .3 * f() for i in range(N) for j in range(N)}
        for z in range(N):
            sm[p[z], q[z]] = 50.0 * 3 ** (N - z) * (1 if f() > 0 else -1)
        smp = lambda key: sm[int(key[1]), int(key[2])] if key[0] == 'a' else .7 + .1 * int(key[1])
        d = decider(smp)
        bad = ''
        r = run(mod, 'w_s', ['A', 'B', 'X', 'mem', 'imem'], {**val, **vb}, d)
        bad = bad or ('solve: does not return' if r.noreturn else '') or solve_check(r, A, Bm, N, 2) or inside(r, {'A': N * N, 'B': 2 * N, 'X': 2 * N, 'mem': N * (N + 2), 'imem': N})
        if not bad:
            r = run(mod, 'w_i', ['A', 'X', 'mem', 'imem'], val, d)
            bad = solve_check(r, A, I, N, N) or inside(r, {'A': N * N, 'X': N * N, 'mem': 2 * N * N, 'imem': N})
            bad = bad and 'inverse: ' + bad
        if not bad:
            r = run(mod, 'w_j', ['A', 'mem', 'imem'], val, d)
            bad = solve_check(r, A, I, N, N, 'A') or inside(r, {'A': N * N, 'mem': 2 * N * N, 'imem': N})
            bad = bad and 'inverse in place of the matrix: ' + bad
        if not bad:
            r = run(mod, 'w_b', ['A', 'X', 'mem', 'imem'], {**val, **{('X', i): Bm[i][0] for i in range(N)}}, d)
            bad = solve_check(r, A, Bm, N, 1)
            bad = bad and 'in place: ' + bad
        if not bad:
            # a right-hand side that begins with zeros in the order of the pivots
            v0 = dict(vb)
            for i in range(N - 1):
                v0['B', p[i]] = ZERO
            B0 = [[v0['B', i + N * l] for l in range(2)] for i in range(N)]
            r = run(mod, 'w_s', ['A', 'B', 'X', 'mem', 'imem'], {**val, **v0}, d)
            bad = solve_check(r, A, B0, N, 2)
        if not bad:
            r = run(mod, 'w_l', ['A', 'p', 'q'], val, d)
            pq = [[r.cell(b, 4 * i, 4) for i in range(N)] for b in 'pq']
            pp, qq = [[int(v.const()) if isinstance(v, R) and v.const() is not None else None for v in w] for w in pq]
            if pp != list(p) or qq != list(q):
                bad = 'the pivots are rows %s, columns %s; the largest entries are at rows %s, columns %s' % (pp, qq, list(p), list(q))
            else:
                W = [[cellv(r, 'A', i + N * j, val) for j in range(N)] for i in range(N)]
                for i in range(N):
                    for j in range(N):
                        s = sum(((W[i][m] if m < i else ONE) * W[m][j] for m in range(min(i, j) + 1)), ZERO)
                        if not bad and not same(s, A[p[i]][q[j]]):
                            bad = 'L U at (%d,%d) is %s, expected the entry (%d,%d) of the matrix' % (i, j, show(s, 100), p[i], q[j])
        if not bad:
            # entries below the pivots that are tiny against them
            d2 = decider(lambda key: smp(key) * 1e-17 if key[0] == 'a' and (int(key[1]), int(key[2])) not in set(zip(p, q)) else smp(key), 0)
            r = run(mod, 'w_s', ['A', 'B', 'X', 'mem', 'imem'], {**val, **vb}, d2)
            bad = solve_check(r, A, Bm, N, 2)
            bad = bad and 'tiny entries beside the pivots: ' + bad
        obl.append(('LU %dx%d, pivots in rows %s, columns %s' % (N, N, p, q), not bad, bad, WG + ': fullPivLU, LU_solve'))
    if k == 0:
        # singular matrices: the decomposition stays inside its arrays and reproduces the matrix
        for rk in range(N):
            v0 = {key: ZERO for key in val}
            for z in range(rk):
                v0['A', z + N * z] = A[z][z]
            smp = lambda key: 3.0 - int(key[1]) if isinstance(key, str) else .125
            r = run(mod, 'w_l', ['A', 'p', 'q'], v0, decider(smp))
            bad = 'does not return' if r.noreturn else inside(r, {'A': N * N, 'p': N / 2, 'q': N / 2})
            if not bad:
                pp, qq = [[r.cell(b, 4 * i, 4) for i in range(N)] for b in 'pq']
                if any(not isinstance(v, R) or v.const() is None for v in pp + qq) or sorted(int(v.const()) for v in pp) != list(range(N)) or sorted(int(v.const()) for v in qq) != list(range(N)):
                    bad = 'the pivots are no permutation'
            obl.append(('LU %dx%d of rank %d' % (N, N, rk), not bad, bad, WG + ': fullPivLU'))
    return {'obl': obl, 'counts': {'pivot_orders': len(pairs[k::8])}}


def orthq(N, kind):
    if N == 1:
        return [[lift(-1 if kind else 1)]]
    if N == 2:
        t = [Fr(1, 3), Fr(-2), Fr(3, 4), Fr(0)][kind]
        n = 1 + t * t
        return [[lift((1 - t * t) / n), lift(2 * t / n)], [lift(-2 * t / n), lift((1 - t * t) / n)]]
    if N == 3:
        a, b, c = [(Fr(1, 2), Fr(1, 3), Fr(-1)), (Fr(-2), Fr(1), Fr(3, 2)), (Fr(1), Fr(1), Fr(1)), (Fr(0), Fr(0), Fr(0))][kind]
        n = 1 + a * a + b * b + c * c
        M = [[1 + a * a - b * b - c * c, 2 * (a * b - c), 2 * (a * c + b)], [2 * (a * b + c), 1 - a * a + b * b - c * c, 2 * (b * c - a)], [2 * (a * c - b), 2 * (b * c + a), 1 - a * a - b * b + c * c]]
        return [[lift(Fr(v) / n) for v in r] for r in M]
    M = orthq(3, kind)
    h = [[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]]
    H = [[lift(Fr(v, 2)) for v in r] for r in h]
    G = [[M[i][j] if i < 3 and j < 3 else ONE if i == j else ZERO for j in range(4)] for i in range(4)]
    return [[sum((H[i][k] * G[k][j] for k in range(4)), ZERO) for j in range(4)] for i in range(4)]


def qr(N, M):
    src = HEAD + 'extern "C" void w_q(const double* A, double* Q, double* R, double* mem){ householderQR(A, %d, %d, Q, R, mem); }' % (N, M)
    mod = witness_ir(src, name='qr', light=True)
    obl = []
    for kind in range(4 if N > 1 else 2):
        for zero in [()] + [(z,) for z in range(M)]:
            # every matrix is an orthogonal one times an upper triangular one; the symbols are the entries of the latter
            O = orthq(N, kind)
            f = rnd(7 + kind)
            T = [[(atom('r%d%d' % (i, j)) if N < 4 or M < 2 else lift(Fr(int(997 * f()) + 1200 * (i == j), 499))) if i <= j and i not in zero else ZERO for j in range(M)] for i in range(N)]
            A = [[sum((O[i][k] * T[k][j] for k in range(N)), ZERO) for j in range(M)] for i in range(N)]
            for sg in range(2):
                smp = lambda k: (1.7 + .3 * int(k[1])) * (-1) ** (sg * (1 + int(k[1]))) if k[1] == k[2] else .4
                r = run(mod, 'w_q', ['A', 'Q', 'R', 'mem'], {('A', i + N * j): A[i][j] for i in range(N) for j in range(M)}, decider(smp))
                bad = 'does not return' if r.noreturn else ''
                Q = [[cellv(r, 'Q', i + N * j) for j in range(N)] for i in range(N)]
                W = [[cellv(r, 'R', i + M * j) for j in range(M)] for i in range(M)]
                if not all(isinstance(v, R) for v in sum(Q + W, [])):
                    bad = bad or 'the result is not completely written'
                if not bad:
                    for i in range(N):
                        for j in range(N):
                            s = sum((Q[k][i] * Q[k][j] for k in range(N)), ZERO)
                            bad = bad or ('' if same(s, ONE if i == j else ZERO) else 'columns %d and %d of Q have the product %s' % (i, j, show(s, 100)))
                    for i in range(M):
                        for j in range(i):
                            bad = bad or ('' if same(W[i][j], ZERO) else 'R(%d,%d) is %s' % (i, j, show(W[i][j], 80)))
                    for i in range(N):
                        for j in range(M):
                            s = sum((Q[i][k] * W[k][j] for k in range(M)), ZERO)
                            bad = bad or ('' if same(s, A[i][j]) else '(Q R)(%d,%d) is %s, expected %s' % (i, j, show(s, 100), show(A[i][j], 100)))
                bad = bad or inside(r, {'A': N * M, 'Q': N * N, 'R': M * M, 'mem': N * M + N + M})
                obl.append(('QR %dx%d, frame %d%s%s' % (N, M, kind, ', zero pivot %s' % zero if zero else '', ', other signs' if sg else ''), not bad, bad, WG + ': householderQR'))
    return {'obl': obl, 'counts': {'solver_cases': len(obl)}}


def g02(c):
    th = TIER == 'thorough'
    jobs = [(chol, (n,)) for n in range(1, 6 if th else 5)] + [(lu, (n, k)) for n in range(1, 5) for k in range(8 if n > 2 else 1 if n == 1 else 4)] + [(qr, (n, m)) for n in range(1, 5) for m in range(1, n + 1) if th or m < 4]
    collect(c, [j for j in jobs if ONLY in '%s %s' % (j[0].__name__, j[1])])


if __name__ == '__main__':
    pid = sys.argv[1]
    {'G01': lambda: main('G01', 'areas, normals, inverses and barycentric coordinates are the exact expressions', g01), 'G02': lambda: main('G02', 'solutions and decompositions satisfy their defining equations', g02)}[pid]()
