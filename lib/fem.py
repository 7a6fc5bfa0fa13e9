"""Witness generation and value extraction for the finite-element operations (public API of anifem++/fem)."""
import avn
from fractions import Fraction as Fr
from alg import *
from frame import *

PRE = r'''
#include <memory>
#include <cstring>
#include "anifem++/fem/operations/operations.h"
#include "anifem++/fem/spaces/spaces.h"
using namespace Ani;
'''

# name -> (static type, vector length of the value, dynamic constructor expression)
SCALAR = ['P0', 'P1', 'P2', 'P3', 'B2', 'B4', 'CR1']
VECTOR = ['RT0', 'ND0']
DYN = {'P0': 'P0Space', 'P1': 'P1Space', 'P2': 'P2Space', 'P3': 'P3Space', 'B2': 'Bubble2Space', 'B4': 'BubbleSpace', 'CR1': 'CR1Space', 'RT0': 'RT0Space', 'ND0': 'ND0Space'}


class Space:
    def __init__(self, kind, parts=(), n=0):
        self.kind, self.parts, self.n = kind, tuple(parts), n

    @property
    def name(self):
        k = self.kind
        if not self.parts:
            return k
        return '%s%s(%s)' % (k, self.n or '', ','.join(p.name for p in self.parts))

    def ctype(self):
        k = self.kind
        if not self.parts:
            return 'FemFix<FEM_%s>' % k
        if k == 'Vec':
            return 'FemVec<%d, FEM_%s>' % (self.n, self.parts[0].kind)
        if k == 'VecT':
            return 'FemVecT<%d, %s>' % (self.n, self.parts[0].ctype())
        if k == 'Com':
            return 'FemCom<%s>' % ', '.join(p.ctype() for p in self.parts)
        if k == 'Union':
            return 'FemUnionT<%s>' % ', '.join(p.ctype() for p in self.parts)
        raise KeyError(k)

    def dim(self):
        if self.kind in VECTOR:
            return 3
        if not self.parts:
            return 1
        if self.kind in ('Vec', 'VecT'):
            return self.n * self.parts[0].dim()
        if self.kind == 'Com':
            return sum(p.dim() for p in self.parts)
        return self.parts[0].dim()

    def nfa(self):
        if not self.parts:
            return {'P0': 1, 'P1': 4, 'P2': 10, 'P3': 20, 'B2': 6, 'B4': 1, 'CR1': 4, 'RT0': 4, 'ND0': 6}[self.kind]
        if self.kind in ('Vec', 'VecT'):
            return self.n * self.parts[0].nfa()
        return sum(p.nfa() for p in self.parts)

    def order(self):
        if not self.parts:
            return {'P0': 0, 'P1': 1, 'P2': 2, 'P3': 3, 'B2': 2, 'B4': 4, 'CR1': 1, 'RT0': 1, 'ND0': 1}[self.kind]
        return max(p.order() for p in self.parts)

    def ops(self, dynamic=False):
        o = ['IDEN', 'GRAD', 'DUDX', 'DUDY', 'DUDZ']
        if self.dim() == 3 and (self.kind in VECTOR or (self.kind == 'Vec' and self.parts[0].dim() == 1)
                                or (self.kind == 'Union' and all('DIV' in p.ops() for p in self.parts))):
            o += ['DIV', 'CURL']
        elif dynamic and self.dim() == 3:
            o += ['DIV', 'CURL']
        return o

    def opdim(self, op):
        return {'IDEN': 1, 'GRAD': 3, 'DUDX': 1, 'DUDY': 1, 'DUDZ': 1}[op] * self.dim() if op not in ('DIV', 'CURL') else (1 if op == 'DIV' else 3)

    def dyn(self, out, tag='s'):
        """C++ statements constructing the run-time space object on the stack; returns the variable name"""
        v = '%s%d' % (tag, len(out))
        if not self.parts:
            out.append('%s %s{};' % (DYN[self.kind], v))
        else:
            subs = [p.dyn(out, tag) for p in self.parts]
            v = '%s%d' % (tag, len(out))
            ptr = lambda x: 'std::shared_ptr<BaseFemSpace>(std::shared_ptr<void>(), static_cast<BaseFemSpace*>(&%s))' % x
            if self.kind in ('Vec', 'VecT'):
                out.append('VectorFemSpace %s(%d, %s);' % (v, self.n, ptr(subs[0])))
            else:
                out.append('%s %s(std::vector<std::shared_ptr<BaseFemSpace>>{%s});' % ({'Com': 'ComplexFemSpace', 'Union': 'UnionFemSpace'}[self.kind], v, ', '.join(ptr(x) for x in subs)))
        return v


def S(k):
    return Space(k)


def Vec(n, k):
    return Space('Vec', [S(k)], n)


def VecT(n, s):
    return Space('VecT', [s], n)


def Com(*s):
    return Space('Com', s)


def Union(*s):
    return Space('Union', s)


# ---- reparametrised inputs ---------------------------------------------------------
def X0(r, m):
    return atom('X0', r, m)


def J(r, m, k):
    """component m of the edge vector x_k - x_0 of tetrahedron r (k = 1..3)"""
    return atom('J', r, m, k)


def vertex(r, k, m):
    return X0(r, m) if k == 0 else X0(r, m) + J(r, m, k)


def lam(n, k):
    if k == 0:
        return ONE - lam(n, 1) - lam(n, 2) - lam(n, 3)
    return atom('L', n, k)


def det(r):
    j = lambda m, k: J(r, m, k)
    return (j(0, 1) * (j(1, 2) * j(2, 3) - j(1, 3) * j(2, 2)) - j(0, 2) * (j(1, 1) * j(2, 3) - j(1, 3) * j(2, 1))
            + j(0, 3) * (j(1, 1) * j(2, 2) - j(1, 2) * j(2, 1)))


def onload(ev, base, off, sz, ty):
    """vertices, barycentric points and Cartesian points expressed through X0, J, L"""
    if not isinstance(base, str):
        return None
    if base in ('XY0', 'XY1', 'XY2', 'XY3') and sz == 8:
        i = off // 8
        return vertex(i // 3, int(base[2]), i % 3)
    if base == 'XYL' and sz == 8:
        i = off // 8
        return lam(i // 4, i % 4)
    if base == 'X' and sz == 8:
        i = off // 8
        return point(0, i // 3, i % 3)
    return None


def point(r, n, m):
    return X0(r, m) + sum((J(r, m, k) * lam(n, k) for k in (1, 2, 3)), ZERO)


def run(mod, fn, names, calls=None, load=None, **kw):
    ev = avn.Eval(mod, fn, args={i: avn.Ptr(x) for i, x in enumerate(names)}, onload=load or onload, **kw)
    if calls:
        ev.calls.update(calls)
    try:
        r = ev.run()
    except avn.Opaque as e:
        raise Broken('%s: %s' % (fn, e))
    return r


def w_apply(name, typ, op, q=2, f=1):
    """template path with caller-supplied memory"""
    return r'''
extern "C" void %(name)s(const double* __restrict XY0, const double* __restrict XY1, const double* __restrict XY2, const double* __restrict XY3,
        double* __restrict XYL, double* __restrict dofs, double* __restrict U, double* __restrict D, int* __restrict I, long* __restrict R){
    using Op = Operator<%(op)s, %(typ)s >;
    auto req = fem3DapplyL_memory_requirements<Op>(%(q)d, %(f)d);
    R[0] = req.dSize; R[1] = req.iSize; R[2] = Op::Nfa::value; R[3] = Op::Dim::value; R[4] = Op::Order::value;
    DenseMatrix<> dm(dofs, Op::Nfa::value, %(f)d), um(U, %(q)d*Op::Dim::value, %(f)d);
    PlainMemory<> pm; pm.ddata = D; pm.idata = I; pm.dSize = req.dSize; pm.iSize = req.iSize;
    fem3DapplyL<Op>(make_tetras(XY0, XY1, XY2, XY3, %(f)d), ArrayView<>(XYL, 4*%(q)d), dm, um, pm);
}
''' % dict(name=name, typ=typ, op=op, q=q, f=f)


APPLY_ARGS = ['XY0', 'XY1', 'XY2', 'XY3', 'XYL', 'dofs', 'U', 'D', 'I', 'R']


def w_dyn(name, ctor, var, op, q=2, f=1):
    return r'''
extern "C" void %(name)s(const double* __restrict XY0, const double* __restrict XY1, const double* __restrict XY2, const double* __restrict XY3,
        double* __restrict XYL, double* __restrict dofs, double* __restrict U, double* __restrict D, int* __restrict I, long* __restrict R, DenseMatrix<>* __restrict Mx){
    %(ctor)s
    ApplyOpFromSpaceView A(%(op)s, &%(var)s);
    auto req = fem3DapplyL_memory_requirements(A, %(q)d, %(f)d);
    R[0] = req.dSize; R[1] = req.iSize; R[2] = A.Nfa(); R[3] = A.Dim(); R[4] = A.Order(); R[5] = req.mSize;
    DenseMatrix<> dm(dofs, A.Nfa(), %(f)d), um(U, %(q)d*A.Dim(), %(f)d);
    PlainMemoryX<> pm; pm.ddata = D; pm.idata = I; pm.dSize = req.dSize; pm.iSize = req.iSize; pm.mdata = Mx; pm.mSize = req.mSize;
    fem3DapplyL(make_tetras(XY0, XY1, XY2, XY3, %(f)d), ArrayView<>(XYL, 4*%(q)d), dm, A, um, pm);
}
''' % dict(name=name, ctor='\n    '.join(ctor), var=var, op=op, q=q, f=f)

PRE_DYN = PRE + r'''
#include "anifem++/fem/quadrature_formulas.cpp"
#include "anifem++/fem/tetdofmap.cpp"
#include "anifem++/fem/fem_space.cpp"
'''
DYN_ARGS = APPLY_ARGS + ['Mx']


# the spaces every basis check runs over
ELEM = [S(k) for k in SCALAR + VECTOR]
COMPOSITE = [Vec(3, 'P1'), Vec(3, 'P2'), Vec(2, 'P3'), Vec(3, 'B2'), Vec(3, 'CR1'), Vec(3, 'P0'), Vec(3, 'B4'), Vec(1, 'P2'),
             VecT(2, S('RT0')), VecT(3, S('P1')), VecT(2, S('ND0')), VecT(2, Vec(3, 'P1')),
             Com(Vec(3, 'P2'), S('P1')), Com(S('P1'), S('P0'), S('P2')), Com(S('ND0'), S('P1')), Com(S('RT0'), S('P0')), Com(Vec(2, 'P1'), Com(S('P0'), S('CR1'))),
             Union(S('P1'), S('B4')), Union(S('P1'), S('B2')), Union(Vec(3, 'P1'), Vec(3, 'B4')), Union(S('P1'), S('B2'), S('B4')),
             VecT(3, Union(S('P1'), S('B4'))), Com(VecT(3, Union(S('P1'), S('B4'))), S('P1')), Union(VecT(3, S('P1')), Vec(3, 'B4')), Com(VecT(2, S('P2')), S('CR1'))]


# buffers whose previous contents are arbitrary
WORK = {'U', 'D', 'I', 'R', 'Mx', 'A', 'W'}


class Table:
    """values of one operator of one space: val[r][n][k], plus reported sizes"""
    def __init__(self, r, q, f, nfa, dim):
        g = lambda i: int(need_const(r.cell('R', 8 * i), 'reported size %d' % i))
        self.r = r
        self.dsize, self.isize, self.nfa, self.dim, self.order = g(0), g(1), g(2), g(3), g(4)
        self.q, self.f = q, f
        self.val = [[[r.cell('U', 8 * (k + self.dim * n + q * self.dim * t)) for k in range(self.dim)] for n in range(q)] for t in range(f)]

    def complete(self):
        def good(x):
            if not isinstance(x, R):
                return False
            return not any(k[0] == 'in' and k[1] in WORK for k in map(atom_key, atoms_of(x, deep=True)))
        return all(good(x) for t in self.val for n in t for x in n)


def need_const(v, what):
    if not isinstance(v, R) or v.const() is None:
        raise Broken('%s is not a compile-time constant' % what)
    return v.const()


def fname(path, op, q, f):
    return 'w_%s_%s_%d_%d' % (path, op, q, f)


def tables(space, configs, static=True, dynamic=True, ops=None):
    """{(path, op, q, f): Table or message}"""
    src = PRE_DYN if dynamic else PRE
    todo = []
    for q, f in configs:
        if static:
            for op in ops or space.ops():
                if op in space.ops():
                    src += w_apply(fname('s', op, q, f), space.ctype(), op, q, f)
                    todo.append(('s', op, q, f))
        if dynamic:
            out = []
            v = space.dyn(out)
            for op in ops or space.ops(True):
                if op in space.ops(True):
                    src += w_dyn(fname('d', op, q, f), out, v, op, q, f)
                    todo.append(('d', op, q, f))
    mod = witness_ir(src, name='fem', light=True)
    res = {}
    for path, op, q, f in todo:
        r = run(mod, fname(path, op, q, f), DYN_ARGS if path == 'd' else APPLY_ARGS)
        if r.noreturn:
            res[path, op, q, f] = 'always ends in %s' % sorted(set(x[0] for d in r.dead for x in d[2] if x[0] not in ('__cxa_allocate_exception',)))[:3]
            continue
        res[path, op, q, f] = Table(r, q, f, space.nfa(), space.opdim(op))
    return res


def dofs_atom(i):
    return atom_id(('in', 'dofs', 8 * i, 8))


def coeffs(v, idx):
    """coefficients of dofs[idx...] in v; None when v is not linear homogeneous in exactly these"""
    out = []
    rest = v
    for i in idx:
        a = dofs_atom(i)
        c = pdiff(v, a)
        out.append(c)
        rest = rest - c * atom(('in', 'dofs', 8 * i, 8))
    if not same(rest, ZERO):
        return None
    return out


def ldeg(v):
    """degree in the barycentric atoms of a value (None when not polynomial in them)"""
    ls = set(atom_id(('L', n, k)) for n in range(8) for k in (1, 2, 3))
    for k, e in v.d:
        if ls & set(a for m in alg_poly(k).t for a, _ in m):
            return None
    v = R(v.n)
    if any(ls & atoms_of(R(P({((a, 1),): 1})), deep=True) for a in atoms_of(v) if a not in ls):
        return None
    return max([0] + [sum(e for a, e in m if a in ls) for m in v.n.t])


def alg_poly(k):
    import alg
    return alg._polylist[k]


def ratio(a, b):
    """a/b when it is a rational constant, else None"""
    if a.d != b.d or len(a.n.t) != len(b.n.t) or not b.n.t:
        return None
    m = min(b.n.t)
    if m not in a.n.t:
        return None
    c = Fr(a.n.t[m]) / Fr(b.n.t[m])
    return c if all(a.n.t.get(k) == c * v for k, v in b.n.t.items()) else None


def assume_sign(v, signs):
    """specialise a value to the case where the given expressions have the given signs: [(R, +1 | -1)]"""
    def cond(k):
        # ('B', key, neg)
        if not (isinstance(k, tuple) and k[0] == 'B'):
            return None
        key, neg = k[1], k[2]
        if isinstance(key, bool):
            return key != neg
        t = None
        if isinstance(key, tuple) and key[0] in ('lt0', 'eq0'):
            x = from_key(key[1])
            for e, s in signs:
                c = ratio(x, e)
                if c is not None:
                    t = (c * s < 0) if key[0] == 'lt0' else False
        return None if t is None else t != neg

    def f(a):
        k = atom_key(a)
        if isinstance(k, tuple) and k[0] == 'fn' and k[1] == 'fabs':
            x = from_key(k[2])
            for e, s in signs:
                c = ratio(x, e)
                if c is not None:
                    return e * lift(abs(c) * s)
        if isinstance(k, tuple) and k[0] == 'ite':
            t = cond(k[1])
            if t is not None:
                y = k[2] if t else k[3]
                if isinstance(y, tuple) and y[0] == 'R':
                    return assume_sign(from_key(y), signs)
        return None
    return avn.deep_subst(v, f)


def by_orientation(v, r=0):
    """the two specialisations of a value: positively and negatively oriented element"""
    return [assume_sign(v, [(det(r), s)]) for s in (1, -1)]
