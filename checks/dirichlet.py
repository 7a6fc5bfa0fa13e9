"""F04: boundary conditions.  The element matrix, right-hand side, prescribed values and directions are symbols; the result of
every routine is compared, entry by entry, with the definition of the elimination."""
import itertools
import os
import sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from frame import *
from fem import same
from alg import *
import avn

atom('n0')
avn.POS.add(atom_id('n0'))   # integers made of separately stored parts are kept apart
ONLY = os.environ.get('ONLY', '')
HEAD = '''
#include "anifem++/fem/fem_space.h"
#include "anifem++/fem/tetdofmap.cpp"
#include "anifem++/fem/operations/dc_on_dof.h"
using namespace Ani; using namespace Ani::DofT;
typedef std::shared_ptr<BaseDofMap> MP;
typedef std::array<unsigned, 6> A6;
typedef DenseMatrix<double> DM;
'''
SIG = 'double* __restrict A, double* __restrict F, const double* __restrict b, const double* __restrict v, double* __restrict w, const unsigned* __restrict q'
NAMES = ['A', 'F', 'b', 'v', 'w', 'q']
W1, W2 = 'anifem++/fem/operations/dc_on_dof.{h,inl}', 'anifem++/fem/tetdofmap.inl'
E = [4, 6, 6, 4, 4, 1]
DIM = [0, 1, 1, 2, 2, 3]
NE = [4, 6, 4, 1]


def sA(i, j):
    return atom('A%d,%d' % (i, j))


def sF(i):
    return atom('F%d' % i)


def sb(i):
    return atom('b%d' % i)


def run(mod, fn, nr, nc, V=None, q=()):
    d = len(V) if V else 0

    def onload(ev, base, off, sz, ty):
        if sz == 8 and off % 8 == 0:
            k = off // 8
            if base == 'A' and k < nr * nc:
                return sA(k % nr, k // nr)
            if base == 'F' and k < nr:
                return sF(k)
            if base == 'b':
                return sb(k)
            if base == 'v' and k < d * d:
                return V[k % d][k // d]
        if base == 'q' and sz == 4 and off // 4 < len(q):
            return lift(q[off // 4])
        return None
    ev = avn.Eval(mod, fn, args={k: avn.Ptr(x) for k, x in enumerate(NAMES)}, onload=onload)
    try:
        return ev.run()
    except avn.Opaque as e:
        raise Broken('%s: %s' % (fn, e))


def compare(r, nr, nc, A, F, mem=0, wr=('A', 'F')):
    """A: {(i,j): value} or None when the routine has no matrix; F likewise"""
    if r.noreturn:
        return 'does not return'
    for nm, want, cell, init in (('A', A, lambda ij: 8 * (ij[0] + nr * ij[1]), lambda ij: sA(*ij)), ('F', F, lambda i: 8 * i, sF)):
        if want is None:
            if nm in r.written():
                return '%s is written' % nm
            continue
        for k, x in want.items():
            g = r.cell(nm, cell(k))
            if g is None:
                g = init(k)
            if not (isinstance(g, R) and same(g, x)):
                return '%s%s is %s, expected %s' % (nm, k if isinstance(k, tuple) else '(%d)' % k, show(g, 150) if isinstance(g, R) else repr(g)[:100], show(x, 150))
    for nm, n in (('A', nr * nc), ('F', nr), ('w', mem)):
        if r.extent(nm) > 8 * n:
            return 'touches %s beyond its %d numbers' % ({'w': 'the work memory', 'A': 'the matrix', 'F': 'the vector'}[nm], n)
    if {'b', 'v', 'q'} & r.written():
        return 'writes its input'
    return ''


def mat(nr, nc):
    return {(i, j): sA(i, j) for i in range(nr) for j in range(nc)}


def vec(nr):
    return {i: sF(i) for i in range(nr)}


def eliminate(A, F, pairs, nr, nc, diag):
    """pairs (row, column, prescribed value or None for a residual)"""
    if F is not None:
        F = dict(F)
        for i in F:
            for _, j, bc in pairs:
                if bc is not None:
                    F[i] = F[i] - A[i, j] * bc
        for i, j, bc in pairs:
            F[i] = bc if bc is not None else ZERO
    if A is not None:
        A = dict(A)
        for i, j, _ in pairs:
            for k in range(nc):
                A[i, k] = ZERO
            for k in range(nr):
                A[k, j] = ZERO
        if diag:
            for i, j, _ in pairs:
                A[i, j] = ONE
    return A, F


# ---------------------------------------------------------------- one degree of freedom
def single(i):
    src = HEAD
    ops = {'applyDir': ('applyDir(a, f, int(q[2]), b[0])', 1, 1, True, sb(0)), 'applyDirMatrix': ('applyDirMatrix(a, int(q[2]))', 1, 0, True, None), 'applyDirResidual': ('applyDirResidual(f, int(q[2]))', 0, 1, True, None),
           'applyDirNonExists': ('applyDirNonExists(a, f, int(q[2]))', 1, 1, False, None), 'applyDirNonExists of the matrix': ('applyDirNonExists(a, int(q[2]))', 1, 0, False, None)}
    for n, (k, o) in enumerate(ops.items()):
        src += 'extern "C" void w_%d(%s){ DM a(A, q[0], q[1]), f(F, q[0], 1); %s; }\n' % (n, SIG, o[0])
    mod = witness_ir(src, name='dirone', light=True)
    obl = []
    shapes = [(1, 1), (4, 4), (3, 5), (5, 3)] + ([(10, 10), (12, 7)] if TIER == 'thorough' else [])
    for n, (k, (_, a, f, diag, bc)) in enumerate(ops.items()):
        for nr, nc in shapes:
            for z in range(min(nr, nc)):
                r = run(mod, 'w_%d' % n, nr, nc, q=(nr, nc, z))
                A, F = eliminate(mat(nr, nc), vec(nr) if f else None, [(z, z, bc)], nr, nc, diag)
                bad = compare(r, nr, nc, A if a else None, F)
                obl.append(('%s %dx%d dof %d' % (k, nr, nc, z), not bad, bad, W1))
    return {'obl': obl, 'counts': {'routines': len(ops)}}


# ---------------------------------------------------------------- vector conditions
def orth(d, kind):
    """orthogonal matrix with symbolic or rational entries, V[i][j]"""
    if d == 1:
        return [[-ONE]] if kind else [[ONE]]
    if d == 2:
        t = atom('t')
        n = ONE + t * t
        c, s = (ONE - t * t) / n, (t + t) / n
        return [[c, s], [-s, c]] if not kind else [[c, s], [s, -c]]
    if kind:
        return [[lift(Fr(x, 3)) for x in r] for r in ((1, 2, 2), (2, 1, -2), (2, -2, 1))]
    a, b, c = atom('ta'), atom('tb'), atom('tc')
    n = ONE + a * a + b * b + c * c
    two = lift(2)
    return [[(ONE + a * a - b * b - c * c) / n, two * (a * b - c) / n, two * (a * c + b) / n], [two * (a * b + c) / n, (ONE - a * a + b * b - c * c) / n, two * (b * c - a) / n],
            [two * (a * c - b) / n, two * (b * c + a) / n, (ONE - a * a - b * b + c * c) / n]]


def vcases():
    r = []
    for d in (1, 2, 3):
        for ndc in range(0, d + 1):
            sel = [None] + [s for s in itertools.permutations(range(d), ndc)]
            if TIER != 'thorough' and d == 3:
                sel = sel[:1] + sel[1::2]
            for s in sel:
                if s is not None and not s:
                    continue
                r.append((d, ndc, s))
    return r


def vector(i):
    d, ndc, sel = VC[i]
    src = HEAD
    qs = '(const unsigned*)nullptr' if sel is None else 'dc'
    pre = 'unsigned dc[] = {%s}; (void) dc;' % ', '.join(map(str, sel or (0,)))
    dm = 'DM a(A, q[0], q[1]), f(F, q[0], 1), V(const_cast<double*>(v), %d, %d); const unsigned* id = q + 2; ArrayView<double> m(w, q[%d]);' % (d, d, 2 + d)
    ops = {'applyVectorDir': 'applyVectorDir(a, f, id, V, ArrayView<double>(const_cast<double*>(b), %d), m, %d, %s)' % (ndc, ndc, qs), 'applyVectorDirMatrix': 'applyVectorDirMatrix(a, id, V, m, %d, %s)' % (ndc, qs),
           'applyVectorDirResidual': 'applyVectorDirResidual(f, id, V, m, %d, %s)' % (ndc, qs), 'applyVectorDirMatrixExtCol': 'ArrayView<double> c(F, q[0]); applyVectorDirMatrixExtCol(c, id, V, m, %d, %s)' % (ndc, qs),
           'applyVectorDirMatrixExtRow': 'ArrayView<double> c(F, q[0]); applyVectorDirMatrixExtRow(c, id, V, %d, %s)' % (ndc, qs)}
    for n, (k, o) in enumerate(ops.items()):
        src += 'extern "C" void w_%d(%s){ %s %s %s; }\n' % (n, SIG, pre, dm, o)
    mod = witness_ir(src, name='dirvec', light=True)
    obl = []
    rows = list(sel) if sel is not None else list(range(ndc))
    for kind in (0, 1):
        V = orth(d, kind)
        for N, M, ids in (((d, d, tuple(range(d))), (d + 2, d + 2, (2, 0, 3, 1, 4)[:d]), (d + 1, d + 3, (1, 0, 2)[:d]), (d + 3, d + 1, (0, 2, 1)[:d] if d == 3 else (1, 0)[:d])) if not (d == 3 and kind == 0) else ((4, 4, (3, 0, 2)),)):
            if max(ids) >= min(N, M):
                continue
            # rotated test functions
            A1, F1 = mat(N, M), vec(N)
            for m in range(d):
                for j in range(M):
                    A1[ids[m], j] = sum((V[m][p] * sA(ids[p], j) for p in range(d)), ZERO)
                F1[ids[m]] = sum((V[m][p] * sF(ids[p]) for p in range(d)), ZERO)
            A2, F2 = dict(A1), dict(F1)
            for k in rows:
                for j in range(N):
                    c = sum((A1[j, ids[p]] * V[k][p] for p in range(d)), ZERO)
                    F2[j] = F2[j] - c * sb(rows.index(k))
                    for p in range(d):
                        A2[j, ids[p]] = A2[j, ids[p]] - c * V[k][p]
            F3, FR = dict(F1), vec(N)
            for n, k in enumerate(rows):
                for j in range(M):
                    A2[ids[k], j] = ZERO
                for p in range(d):
                    A2[ids[k], ids[p]] = V[k][p]
                F2[ids[k]] = sb(n)
                F3[ids[k]] = ZERO
                c = sum((sF(ids[p]) * V[k][p] for p in range(d)), ZERO)
                for p in range(d):
                    FR[ids[p]] = FR[ids[p]] - c * V[k][p]
            mem = d * max(N, M)
            for n, k in enumerate(ops):
                wm = mem if n < 2 else d
                r = run(mod, 'w_%d' % n, N, M, V, (N, M) + ids + (wm,))
                bad = compare(r, N, M, A2 if n < 2 else None, (F2, None, F3, F3, FR)[n], wm)
                obl.append(('%s d=%d %d of them%s, %dx%d, %s' % (k, d, ndc, '' if sel is None else ' rows %s' % (sel,), N, M, 'reflection' if kind else 'rotation'), not bad, bad, W1))
    return {'obl': obl, 'counts': {'vector_conditions': 1}}


# ---------------------------------------------------------------- maps
class U:
    def __init__(self, *n):
        self.n = n

    def cpp(self):
        return 'MP(std::make_shared<UniteDofMap>(A6{%s}))' % ', '.join(map(str, self.n))

    def dofs(self):
        return [(DIM[t], e) for t in range(6) for e in range(E[t]) for _ in range(self.n[t])]


class V:
    def __init__(self, m, x):
        self.m, self.x = m, x

    def cpp(self):
        return 'MP(std::make_shared<VectorDofMap>(%d, %s))' % (self.m, self.x.cpp())

    def dofs(self):
        return self.x.dofs() * self.m


class C:
    def __init__(self, *x):
        self.x = x

    def cpp(self):
        return 'MP(std::make_shared<ComplexDofMap>(std::vector<MP>{%s}))' % ', '.join(y.cpp() for y in self.x)

    def dofs(self):
        return sum((y.dofs() for y in self.x), [])


P1, P2, P0, ND, RT, CR, BB = U(1, 0, 0, 0, 0, 0), U(1, 1, 0, 0, 0, 0), U(0, 0, 0, 0, 0, 1), U(0, 0, 1, 0, 0, 0), U(0, 0, 0, 0, 1, 0), U(0, 0, 0, 1, 0, 0), U(0, 1, 0, 0, 0, 0)
# (trial, test); equal ones are also given to the routines with one map
PAIRS = {'P1': (P1, P1), 'P2': (P2, P2), 'P2^2': (V(2, P2), V(2, P2)), 'P1*P0': (C(P1, P0), C(P1, P0)), 'edge dofs for ND': (BB, ND), 'RT for CR': (RT, CR), 'ND for edge dofs': (ND, BB), 'P1^2 for P1*P1': (V(2, P1), C(P1, P1)),
         'P2*P1 for P1*P2': (C(P2, P1), C(P1, P2)), 'P1^3 for three': (V(3, P1), U(3, 0, 0, 0, 0, 0)), 'P2*CR for CR*P2': (C(P2, CR), C(CR, P2)), 'P1*P0 for P0*P1': (C(P1, P0), C(P0, P1)), 'P1*P0 for P1': (C(P1, P0), P1), 'P1 for P1*P0': (P1, C(P1, P0))}
SPARS = [{(0, 2)}, {(0, 0), (0, 1), (1, 0)}, {(2, 1), (1, 3), (1, 4), (1, 5), (0, 1), (0, 2), (0, 3)}, {(1, 2), (2, 3)}, set(), {(d, i) for d in range(4) for i in range(NE[d])}, {(3, 0)}, {(0, i) for i in range(4)}]
OPS1 = {'applyDirMatrix': ('applyDirMatrix(*m, a, s)', 1, 0, 1, 0), 'applyDirResidual of the vector': ('applyDirResidual(*n, f, s)', 0, 1, 1, 0), 'applyDirResidual': ('applyDirResidual(*m, a, f, s)', 1, 1, 1, 0), 'applyDirNonExists': ('applyDirNonExists(*m, a, f, s)', 1, 1, 0, 0),
        'applyConstantDirByDofs': ('applyConstantDirByDofs(*m, a, f, s, b[0])', 1, 1, 1, 1), 'applyDirByDofs': ('applyDirByDofs(*m, a, f, s, ArrayView<const double>(b, q[1]))', 1, 1, 1, 2)}
OPS2 = {'applyDirMatrix': ('applyDirMatrix(*m, *n, a, s)', 1, 0, 1, 0), 'applyDirResidual of the vector': ('applyDirResidual(*n, f, s)', 0, 1, 1, 0), 'applyDirResidual': ('applyDirResidual(*m, *n, a, f, s)', 1, 1, 1, 0), 'applyDirNonExists': ('applyDirNonExists(*m, *n, a, f, s)', 1, 1, 0, 0),
        'applyDirNonExists of the matrix': ('applyDirNonExists(*m, *n, a, s)', 1, 0, 0, 0), 'applyConstantDirByDofs': ('applyConstantDirByDofs(*m, *n, a, f, s, b[0])', 1, 1, 1, 1),
        'applyDirByDofs': ('applyDirByDofs(*m, *n, a, f, s, ArrayView<const double>(b, q[1]))', 1, 1, 1, 2)}


def maps(i):
    nm, one = MC[i]
    tr, te = PAIRS[nm]
    ops = OPS1 if one else OPS2
    src = HEAD
    for n, o in enumerate(ops.values()):
        src += ('extern "C" void w_%d(%s){ DM a(A, q[0], q[1]), f(F, q[0], 1); MP m = %s, n = %s; TetGeomSparsity s; for (int d = 0; d < 4; ++d) for (int i = 0; i < 6; ++i) if ((q[2 + d] >> i) & 1) s.set(d, i); %s; }\n') % (n, SIG, tr.cpp(), te.cpp(), o[0])
    mod = witness_ir(src, name='dirmap', light=True)
    obl = []
    dt, ds = tr.dofs(), te.dofs()
    # the degrees of one element are paired in their order
    count = lambda ds, x: [k for k, y in enumerate(ds) if y == x]
    nr, nc = len(ds), len(dt)
    for sp in SPARS:
        if one and dt != ds:
            continue
        rows, cols = [[k for x in sorted(sp) for k in count(D, x)] for D in (ds, dt)]
        # the maps must agree about the number of degrees on the chosen elements
        if any(len(count(ds, x)) != len(count(dt, x)) for x in sp):
            continue
        bits = tuple(sum(1 << j for k, j in sp if k == d) for d in range(4))
        for n, (k, (_, a, f, diag, bc)) in enumerate(ops.items()):
            prs = [(x, y, None if not bc else sb(0) if bc == 1 else sb(y)) for x, y in zip(rows, cols)]
            r = run(mod, 'w_%d' % n, nr, nc, q=(nr, nc) + bits)
            A, F = eliminate(mat(nr, nc), vec(nr) if f else None, prs, nr, nc, diag)
            bad = compare(r, nr, nc, A if a else None, F)
            obl.append(('%s %s%s on {%s}' % (k, nm, '' if one else ' (two maps)', ','.join('%s%d' % ('nefc'[d], j) for d, j in sorted(sp))), not bad, bad, W2))
    return {'obl': obl, 'counts': {'map_pairs': 1}}


def f04(c):
    global VC, MC
    VC = vcases()
    MC = [(k, one) for k, (t, s) in PAIRS.items() for one in (0, 1) if not one or t is s or k in ('P1', 'P2', 'P2^2', 'P1*P0')]
    jobs = [(maps, (i,)) for i in range(len(MC)) if ONLY in MC[i][0]] + [(vector, (i,)) for i in range(len(VC)) if ONLY in 'vector %s' % (VC[i],)] + [(single, (i,)) for i in range(1) if ONLY in 'single']
    collect(c, jobs)


if __name__ == '__main__':
    main('F04', 'after a boundary condition is applied the chosen rows and columns hold exactly the eliminated system', f04)
