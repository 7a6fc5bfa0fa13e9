"""S02, S03, E03: symbolic basis functions, coordinates of degrees of freedom, and the interface of symbolic expressions."""
import math
import re
from fractions import Fraction
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from asm import *
from dof import marker
import alg
import asm
import avn
import fem

ONLY = os.environ.get('ONLY', '')
TIER = os.environ.get('VERIF_TIER', 'quick')
UN = ['abs', 'exp', 'expm1', 'log', 'log1p', 'sqrt', 'cbrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'erf', 'erfc', 'tgamma', 'lgamma', 'floor', 'ceil']
BIN = ['pow', 'atan2', 'fmod', 'hypot']
REL = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}

# an expression type with plain numbers, the reference implementation of what each primitive of the interface means
VX = r'''
#include <cmath>
#include <vector>
namespace vx {
struct V: public Ani::BaseExpr {
    using B = Ani::BaseExpr;
    double d[16]; std::size_t n, m;
    V(std::size_t n = 1, std::size_t m = 1): n{n}, m{m} { for (auto& x: d) x = 0; }
    V(double x): V(1, 1) { d[0] = x; }
    static const V& c(const B& b) { return static_cast<const V&>(b); }
    double at(std::size_t i, std::size_t j) const { return n*m == 1 ? d[0] : d[i + n*j]; }
    V& put(const V& r) { n = r.n; m = r.m; for (int k = 0; k < 16; ++k) d[k] = r.d[k]; return *this; }
    std::shared_ptr<B> makeExpr(std::size_t a, std::size_t b) const override { return std::make_shared<V>(a, b); }
    std::shared_ptr<B> makeCopy() const override { return std::make_shared<V>(*this); }
    std::size_t size1() const override { return n; }
    std::size_t size2() const override { return m; }
    B& reshape(std::size_t a, std::size_t b) override { n = a; m = b; return *this; }
    B& set_val(double x) override { for (std::size_t k = 0; k < n*m; ++k) d[k] = x; return *this; }
    B& set_val(double* x) override { for (std::size_t k = 0; k < n*m; ++k) d[k] = x[k]; return *this; }
    B& set_val(const B& x) override { return put(c(x)); }
    B& set_sub_matrix(const B& x, const std::size_t* i, std::size_t ni, const std::size_t* j, long nj) override {
        V r(ni, nj); for (std::size_t b = 0; b < (std::size_t)nj; ++b) for (std::size_t a = 0; a < ni; ++a) r.d[a + ni*b] = c(x).at(i[a], j[b]); return put(r); }
    B& set_sub_matrix(const B& x, std::size_t i0, long di, std::size_t j0, long dj) override {
        const V& o = c(x); std::size_t a = 0, b = 0; V r(1, 1);
        a = (o.n - i0 + di - 1)/di; b = (o.m - j0 + dj - 1)/dj; r.n = a; r.m = b;
        for (std::size_t q = 0; q < b; ++q) for (std::size_t p = 0; p < a; ++p) r.d[p + a*q] = o.at(i0 + di*p, j0 + dj*q); return put(r); }
    B& set_horzcat(const B** s, const B** e) override {
        V r(c(**s).n, 0); for (; s < e; ++s) { const V& o = c(**s); for (std::size_t k = 0; k < o.n*o.m; ++k) r.d[r.n*r.m + k] = o.d[k]; r.m += o.m; } return put(r); }
    B& set_vertcat(const B** s, const B** e) override {
        std::size_t n = 0, k = 0, m = c(**s).m; for (auto p = s; p < e; ++p) n += c(**p).n;
        V r(n, m); for (auto p = s; p < e; ++p) { const V& o = c(**p); for (std::size_t i = 0; i < o.n; ++i) for (std::size_t j = 0; j < m; ++j) r.d[k + i + n*j] = o.at(i, j); k += o.n; } return put(r); }
    template<typename F> B& el1(const B& x, F f) { const V& o = c(x); V r(o.n, o.m); for (std::size_t k = 0; k < o.n*o.m; ++k) r.d[k] = f(o.d[k]); return put(r); }
    template<typename F> B& el2(const B& x, const B& y, F f) {
        const V &a = c(x), &b = c(y); const V& s = a.n*a.m == 1 ? b : a; V r(s.n, s.m);
        if (a.n*a.m != 1 && b.n*b.m != 1 && (a.n != b.n || a.m != b.m)) throw std::runtime_error("sizes differ");
        for (std::size_t j = 0; j < s.m; ++j) for (std::size_t i = 0; i < s.n; ++i) r.d[i + s.n*j] = f(a.at(i, j), b.at(i, j)); return put(r); }
    template<typename F> B& many(const B** s, const B** e, F f) { V r(c(**s)); for (++s; s < e; ++s) { V t; t.el2(r, **s, f); r.put(t); } return put(r); }
    B& set_scal_sum(const B** s, const B** e, const double* k) override { V r; r.el1(**s, [=](double x){ return x*k[0]; }); for (int q = 1; s + q < e; ++q) { double w = k[q]; V t; t.el2(r, *s[q], [=](double x, double y){ return x + w*y; }); r.put(t); } return put(r); }
    B& set_sum(const B** s, const B** e) override { return many(s, e, [](double x, double y){ return x + y; }); }
    B& set_mul(const B** s, const B** e) override { return many(s, e, [](double x, double y){ return x*y; }); }
    B& set_min(const B** s, const B** e) override { return many(s, e, [](double x, double y){ return x < y ? x : y; }); }
    B& set_max(const B** s, const B** e) override { return many(s, e, [](double x, double y){ return x < y ? y : x; }); }
    B& set_sub(const B& a, const B& b) override { return el2(a, b, [](double x, double y){ return x - y; }); }
    B& set_div(const B& a, const B& b) override { return el2(a, b, [](double x, double y){ return x/y; }); }
    B& set_swap_sign(const B& a) override { return el1(a, [](double x){ return -x; }); }
    B& set_sign(const B& a) override { return el1(a, [](double x){ return (x > 0 ? 1.0 : 0.0) - (x < 0 ? 1.0 : 0.0); }); }
    B& set_fma(const B& a, const B& b, const B& k) override { V t; t.el2(a, b, [](double x, double y){ return x*y; }); return el2(t, k, [](double x, double y){ return x + y; }); }
    B& set_ifelse(const B& q, const B& a, const B& b) override { const V &w = c(q), &x = c(a), &y = c(b); V r(x.n, x.m); for (std::size_t k = 0; k < x.n*x.m; ++k) r.d[k] = w.at(k % x.n, k / x.n) != 0 ? x.d[k] : y.at(k % x.n, k / x.n); return put(r); }
    B& set_not(const B& a) override { return el1(a, [](double x){ return x != 0 ? 0.0 : 1.0; }); }
    B& set_lt(const B& a, const B& b) override { return el2(a, b, [](double x, double y){ return x < y ? 1.0 : 0.0; }); }
    B& set_eq(const B& a, const B& b) override { return el2(a, b, [](double x, double y){ return x == y ? 1.0 : 0.0; }); }
    B& set_and(const B& a, const B& b) override { return el2(a, b, [](double x, double y){ return x != 0 ? (y != 0 ? 1.0 : 0.0) : 0.0; }); }
    B& set_or(const B& a, const B& b) override { return el2(a, b, [](double x, double y){ return x != 0 ? 1.0 : y != 0 ? 1.0 : 0.0; }); }
    B& set_transpose(const B& a) override { const V& o = c(a); V r(o.m, o.n); for (std::size_t i = 0; i < o.n; ++i) for (std::size_t j = 0; j < o.m; ++j) r.d[j + o.m*i] = o.at(i, j); return put(r); }
    B& set_cross(const B& a, const B& b) override { const V &x = c(a), &y = c(b); V r(x.n, x.m); for (int k = 0; k < 3; ++k) r.d[k] = x.d[(k+1)%3]*y.d[(k+2)%3] - x.d[(k+2)%3]*y.d[(k+1)%3]; return put(r); }
    B& set_dot(const B& a, const B& b) override { const V &x = c(a), &y = c(b); V r(1, 1); for (std::size_t k = 0; k < x.n*x.m; ++k) r.d[0] += x.d[k]*y.d[k]; return put(r); }
    B& set_mtimes(const B** s, const B** e) override { V r(c(**s)); for (++s; s < e; ++s) { const V& y = c(**s); V t(r.n, y.m); for (std::size_t i = 0; i < r.n; ++i) for (std::size_t j = 0; j < y.m; ++j) for (std::size_t k = 0; k < r.m; ++k) t.d[i + t.n*j] += r.d[i + r.n*k]*y.d[k + y.n*j]; r.put(t); } return put(r); }
@UN@
};
}
'''.replace('@UN@', '\n'.join('    B& set_%s(const B& a) override { return el1(a, [](double x){ return std::%s(x); }); }' % (u, u) for u in UN) + '\n'
            + '\n'.join('    B& set_%s(const B& a, const B& b) override { return el2(a, b, [](double x, double y){ return std::%s(x, y); }); }' % (u, u) for u in BIN))

NAMES = ['XY0', 'XY1', 'XY2', 'XY3', 'XYL', 'G', 'U', 'R', 'UD']
PRM = ', '.join('const double* __restrict XY%d' % i for i in range(4)) + ', double* __restrict XYL, double* __restrict G, double* __restrict U, long* __restrict R, void* UD'


def fn(name, body):
    return 'extern "C" void %s(%s){\n    %s\n}\n' % (name, PRM, body)


def grad(k, m):
    """derivative of the k-th barycentric coordinate along x_m"""
    if k == 0:
        return -(grad(1, m) + grad(2, m) + grad(3, m))
    a, b = [x for x in (1, 2, 3) if x != k]
    p, q = (m + 1) % 3, (m + 2) % 3
    v = J(0, p, a) * J(0, q, b) - J(0, q, a) * J(0, p, b)
    return (v if k != 2 else -v) / det(0)


def load(ev, base, off, sz, ty):
    if base == 'G' and sz == 8:
        i = off // 8
        return grad(i % 4, i // 4)
    return onload(ev, base, off, sz, ty)


def leaves(sp):
    """(leaf, its own index, index of the dof in the leaf, first component of the leaf in the space) of every dof"""
    if not sp.parts:
        return [(sp, i, 0) for i in range(sp.nfa())]
    out, c = [], 0
    for p in ([sp.parts[0]] * sp.n if sp.kind in ('Vec', 'VecT') else sp.parts):
        out += [(l, i, c + k) for l, i, k in leaves(p)]
        c += p.dim() if sp.kind != 'Union' else 0
    return out


def basis(sp):
    out = []
    v = sp.dyn(out)
    nfa = sp.nfa()
    head = 'vx::V L(4, 1), H(4, 3); for (int i = 0; i < 4; ++i) L.d[i] = XYL[i]; for (int i = 0; i < 12; ++i) H.d[i] = G[i]; Expr lmb(L), gl(H);'
    tail = 'for (int i = 0; i < %d; ++i) { R[2*i] = phi[i].nrows(); R[2*i+1] = phi[i].ncols(); for (int k = 0; k < 3; ++k) U[3*i+k] = phi[i].target<vx::V>()->d[k]; }' % nfa
    src = PRE_DYN + VX + fn('w_sym', head + ' '.join(out) + ' std::vector<Expr> phi; static_cast<const BaseFemSpace&>(%s).evalBasisFunctions(lmb, gl, phi); ' % v + tail)
    src += fn('w_wrap', head + ' '.join(out) + ' FemSpace fs(%s); std::vector<Expr> phi(%d); for (auto& p: phi) p = lmb.zeroes(); fs.evalBasisFunctions(lmb, gl, phi.data()); ' % (v, nfa) + tail)
    paths = ['w_sym', 'w_wrap']
    if not sp.parts:
        src += fn('w_tmp', head + 'std::vector<Expr> phi(%d); for (auto& p: phi) p = lmb.zeroes(); Basis<%s >::eval(lmb, gl, phi.data()); ' % (nfa, sp.ctype()) + tail)
        paths.append('w_tmp')
    kinds = sorted({l.kind for l, _, _ in leaves(sp)})
    for k in kinds:
        src += w_apply('w_p_' + k, S(k).ctype(), 'IDEN', 1, 1)
    mod = witness_ir(src, name='symb', light=True)
    ref = {k: run(mod, 'w_p_' + k, APPLY_ARGS) for k in kinds}
    obl = []
    n = 0
    for w in paths:
        wh = 'anifem++/fem: symbolic basis functions of %s (%s)' % (sp.name, {'w_sym': 'run-time space', 'w_wrap': 'FemSpace', 'w_tmp': 'Basis<>'}[w])
        r = run(mod, w, NAMES, load=load)
        for i, (l, li, _) in enumerate(leaves(sp)):
            d = l.dim()
            nv = nfa
            key = '%s/%s/%d' % (sp.name, w[2:], i)
            if r.noreturn:
                obl.append((key, False, 'always ends in an exception', wh))
                break
            shp = [int(need_const(r.cell('R', 8 * (2 * i + k)), 'shape')) for k in (0, 1)]
            if shp[0] * shp[1] != d:
                obl.append((key, False, 'basis function %d is a %d x %d expression, expected %d values' % (i, shp[0], shp[1], d), wh))
                continue
            for k in range(d):
                a, b = r.cell('U', 8 * (3 * i + k)), ref[l.kind].cell('U', 8 * k)
                # the reference applies the operator to dofs: take the coefficient of dof li
                cb = coeffs(b, range(l.nfa()))
                n += 1
                w_ = cb[li] if cb else None
                good = isinstance(a, R) and w_ is not None and (same(a, w_) or eqr(a, w_))
                obl.append((key + '/%d' % k, good, 'basis function %d, component %d is %s, the element has %s' % (i, k, show(a, 200) if isinstance(a, R) else a, show(w_, 200) if isinstance(w_, R) else w_), wh))
    return {'obl': obl, 'counts': {'spaces': 1, 'values': n}}


def roots(v, sg):
    """square roots in the form c*sqrt(p)/|det|^k with a polynomial p, on elements where the determinant has the given sign"""
    def f(a):
        k = atom_key(a)
        if not (isinstance(k, tuple) and k[0] == 'fn' and k[1] == 'sqrt'):
            return None
        x, m, e = from_key(k[2]), 0, det(0)
        for i, ex in x.d:
            p = R(alg._polylist[i])
            c = [(t, ratio(p, e ** t)) for t in (1, 2, 3, 4)]
            c = [(t, r) for t, r in c if r is not None]
            if not c:
                return None
            m += c[0][0] * ex
            x = R(x.n.scale(1 / Fraction(c[0][1]) ** ex), tuple(y for y in x.d if y[0] != i))
        if m % 2:
            x, m = x * e, m + 1   # sqrt(n/e) is sqrt(n*e)/|e|
        d = (e * lift(float(sg))) ** (m // 2)
        num = math.gcd(*[c.numerator for c in x.n.t.values()]) if x.n.t else 1
        den = math.lcm(*[c.denominator for c in x.n.t.values()])
        k, q = 1, num * den   # the content is num/den = num*den/den^2; take the largest square out of it
        for f_ in range(2, 100):
            while q % (f_ * f_) == 0:
                q, k = q // (f_ * f_), k * f_
        c = lift(k) / lift(den)
        return c * atom('fn', 'sqrt', (x / (c * c)).key()) / d
    return avn.deep_subst(v, f)


def eqr(a, b):
    """equal on elements of either orientation"""
    return all(same(roots(x, s), roots(y, s)) for s, x, y in zip((1, -1), by_orientation(a), by_orientation(b)))


def s02(c):
    sp = ELEM + [Vec(3, 'P1'), VecT(2, S('ND0')), VecT(2, Com(S('P1'), S('P0'))), Com(Vec(3, 'P2'), S('P1')), Com(S('RT0'), S('P0')), Com(S('CR1'), VecT(2, S('P3'))), Union(S('P1'), S('B4')), VecT(3, Union(S('P1'), S('B4'))), Com(S('P0'), Union(S('P1'), S('B2'), S('B4')), S('P2'))]
    jobs = [(basis, (s,)) for s in sp if not ONLY or ONLY in s.name]
    jobs.sort(key=lambda j: -j[1][0].nfa())
    collect(c, jobs)
    c.assumptions = ['the expression type given by the caller implements the primitives of BaseExpr by their names']


def place(sp):
    """S03: DOF_coord<T>::at against the point the functional of the degree of freedom acts at (first moment of its interpolation)"""
    nfa = sp.nfa()
    lv = leaves(sp)
    src = PRE_DYN + 'extern "C" int h_f(const std::array<double, 3>& X, double* res, uint dim, void* user_data);\n'
    for i in range(nfa):
        src += 'extern "C" void w_c%d(const double* __restrict N, double* __restrict U){ DOF_coord<%s >::at(%d, N, U); }\n' % (i, sp.ctype(), i)
    want = sorted({(l.kind, li) for l, li, _ in lv})
    for kd, i in want:
        src += """extern "C" void w_f_%s_%d(const double* __restrict XY0, const double* __restrict XY1, const double* __restrict XY2, const double* __restrict XY3, double* __restrict U){
    Dof<%s >::interpolate<1>(Tetra<const double>(XY0, XY1, XY2, XY3), h_f, std::array<ArrayView<>, 1>{ArrayView<>(U, %d)}, %d, nullptr, 5); }\n""" % (kd, i, S(kd).ctype(), S(kd).nfa(), i)
    obl = []
    mod = witness_ir(src, name='place', light=True)
    mom = {}
    for kd, i in want:
        pts = []
        r = run(mod, 'w_f_%s_%d' % (kd, i), ['XY0', 'XY1', 'XY2', 'XY3', 'U'], calls={'h_f': marker(pts)})
        u = r.cell('U', 8 * i)
        w = [pdiff(u, atom_id(('F', p, 0))) for p in range(len(pts))]
        mom[kd, i] = [sum((w[p] * pts[p][0][m] for p in range(len(pts))), ZERO) for m in range(3)]
        mom[kd, i] = [[reduce_roots(x) for x in by_orientation(y)] for y in mom[kd, i]]

    def load(ev, base, off, sz, ty):
        if base == 'N' and sz == 8:
            k, m = divmod(off // 8, 3)
            return X0(0, m) + (J(0, m, k) if k else ZERO)
        return onload(ev, base, off, sz, ty)
    for i, (l, li, _) in enumerate(lv):
        wh = 'anifem++/fem/operators.h: DOF_coord of %s, degree of freedom %d' % (sp.name, i)
        r = run(mod, 'w_c%d' % i, ['N', 'U'], load=load)
        if r.noreturn:
            obl.append(('%s/%d' % (sp.name, i), False, 'always ends in an exception', wh))
            continue
        for m in range(3):
            x = r.cell('U', 8 * m)
            good = isinstance(x, R) and all(same(x, y) for y in mom[l.kind, li][m])
            obl.append(('%s/%d/%d' % (sp.name, i, m), good, 'coordinate %d is %s, the functional acts at %s' % (m, show(x, 150) if isinstance(x, R) else x, show(mom[l.kind, li][m][0], 150)), wh))
        t = sorted(q // 8 for o, z in r.touched.get('U', {}) if 'w' in r.touched['U'][o, z] for q in range(o, o + z, 8))
        obl.append(('%s/%d/writes' % (sp.name, i), sorted(set(t)) == [0, 1, 2], 'writes entries %s of the coordinate' % t, wh))
    return {'obl': obl, 'counts': {'spaces': 1, 'degrees_of_freedom': nfa}}


def s03(c):
    pt = [S(x) for x in ('P0', 'P1', 'P2', 'P3', 'B2', 'CR1')]
    sp = pt + [Vec(3, 'P2'), VecT(2, S('CR1')), Com(S('P1'), S('P0')), Com(Vec(3, 'P2'), S('P1')), Com(S('P3'), VecT(2, S('P0')), S('B2')), Union(S('P1'), S('B2')), VecT(3, Union(S('P1'), S('B2'))), Com(Union(S('P2'), S('P0')), S('CR1'))]
    jobs = [(place, (s,)) for s in sp if not ONLY or ONLY in s.name]
    collect(c, jobs)


IFP = 'const double* __restrict A, const double* __restrict B, const double* __restrict C, const double* __restrict P, double* __restrict U, double* __restrict W, long* __restrict R'
IFN = ['A', 'B', 'C', 'P', 'U', 'W', 'R']
IF_PRE = VX + """
static inline double sgn(double x) { return (x > 0 ? 1.0 : 0.0) - (x < 0 ? 1.0 : 0.0); }
static inline Expr mk(const double* x, int n, int m) { vx::V v(n, m); for (int k = 0; k < n*m; ++k) v.d[k] = x[k]; return Expr(v); }
static inline void put(const Expr& e, double* __restrict U, long* __restrict R) { R[0] = e.nrows(); R[1] = e.ncols(); const vx::V* v = e.target<vx::V>(); for (int k = 0; k < 12; ++k) U[k] = v->d[k]; }
"""


def iface(group, items):
    """items: (name, shape of the result, statement producing Expr r, reference of entry (i, j) as a C++ expression)"""
    src = PRE_DYN + IF_PRE
    for q, (name, shp, code, ref) in enumerate(items):
        src += 'extern "C" void w_%d(%s){ %s put(r, U, R); }\n' % (q, IFP, code)
        if ref is not None:
            src += 'extern "C" void w_r%d(%s){ using namespace std; for (int j = 0; j < %d; ++j) for (int i = 0; i < %d; ++i) { const int k = i + %d*j; (void)k; W[k] = %s; } }\n' % (q, IFP, shp[1], shp[0], shp[0], ref)
    mod = witness_ir(src, name='iface', light=True)
    obl = []
    for q, (name, shp, code, ref) in enumerate(items):
        r = run(mod, 'w_%d' % q, IFN)
        wh = 'anifem++/fem/expr_interface: %s' % name
        key = '%s/%s' % (group, name)
        if ref is None:
            obl.append((key, r.noreturn, 'is accepted', wh))
            continue
        if r.noreturn:
            obl.append((key, False, 'always ends in an exception', wh))
            continue
        got = tuple(need_const(r.cell('R', 8 * k), 'shape') for k in (0, 1))
        obl.append((key + '/shape', tuple(int(x) for x in got) == shp, 'the result has the shape %s, expected %s' % (got, shp), wh))
        w = run(mod, 'w_r%d' % q, IFN)
        for k in range(shp[0] * shp[1]):
            x, y = r.cell('U', 8 * k), w.cell('W', 8 * k)
            obl.append((key + '/%d' % k, isinstance(x, R) and isinstance(y, R) and same(x, y), 'entry %d is %s, expected %s' % (k, show(x, 150) if isinstance(x, R) else x, show(y, 150) if isinstance(y, R) else y), wh))
    return {'obl': obl, 'counts': {'operations': len(items)}}


def e03(c):
    M = 'Expr a = mk(A, 2, 3), b = mk(B, 2, 3), c = mk(C, 2, 3); '
    jobs = []
    sh = (2, 3)
    un = [('FT::' + u, sh, M + 'Expr r = FT::%s(a);' % u, '(1.0*%s(A[k]))' % {'abs': 'fabs'}.get(u, u)) for u in UN]
    un += [('FT::sign', sh, M + 'Expr r = FT::sign(a);', 'sgn(A[k])'), ('FT::sq', sh, M + 'Expr r = FT::sq(a);', 'A[k]*A[k]'), ('unary minus', sh, M + 'Expr r = -a;', '-A[k]'), ('!', sh, M + 'Expr r = !a;', '(A[k] != 0 ? 0.0 : 1.0)'),
           ('T', (3, 2), M + 'Expr r = a.T();', 'A[j + 2*i]'), ('FT::norm', (1, 1), 'Expr r = FT::norm(mk(A, 3, 1));', 'sqrt(A[0]*A[0] + A[1]*A[1] + A[2]*A[2])')]
    jobs.append(('one operand', un))
    two = [('+', 'X + Y', 'X + Y'), ('-', 'X - Y', 'X - Y'), ('*', 'X * Y', 'X * Y'), ('/', 'X / Y', 'X / Y')]
    two += [(o, 'X %s Y' % o, '(X %s Y ? 1.0 : 0.0)' % o) for o in REL.values()]
    two += [('&&', 'X && Y', '(X != 0 ? (Y != 0 ? 1.0 : 0.0) : 0.0)'), ('||', 'X || Y', '(X != 0 ? 1.0 : Y != 0 ? 1.0 : 0.0)')]
    two += [('FT::' + f, 'FT::%s(X, Y)' % f, '%s(X, Y)' % f) for f in BIN] + [('FT::min', 'FT::min(X, Y)', '(X < Y ? X : Y)'), ('FT::max', 'FT::max(X, Y)', '(X < Y ? Y : X)')]
    for form, x, y, rx, ry in (('expression, expression', 'a', 'b', 'A[k]', 'B[k]'), ('expression, number', 'a', 'P[0]', 'A[k]', 'P[0]'), ('number, expression', 'P[0]', 'b', 'P[0]', 'B[k]')):
        def put(t, x=x, y=y):
            return re.sub(r'\bX\b', x, re.sub(r'\bY\b', y, t))
        jobs.append((form, [('%s (%s)' % (n, form), sh, M + 'Expr r = %s;' % put(e), put(rf, rx, ry)) for n, e, rf in two]))
    three = []
    for m in range(7):
        ar = ['P[%d]' % i if m >> i & 1 else 'abc'[i] for i in range(3)]
        rf = ['P[%d]' % i if m >> i & 1 else 'ABC'[i] + '[k]' for i in range(3)]
        f = ', '.join('number' if m >> i & 1 else 'expression' for i in range(3))
        three.append(('FT::fma (%s)' % f, sh, M + 'Expr r = FT::fma(%s);' % ', '.join(ar), '%s*%s + %s' % tuple(rf)))
        three.append(('FT::ifelse (%s)' % f, sh, M + 'Expr r = FT::ifelse(%s);' % ', '.join(ar), '(%s != 0 ? %s : %s)' % tuple(rf)))
    jobs.append(('three operands', three))
    G3 = M + 'Expr g[3] = {a, b, c}; '
    many = [('FT::min of a range', sh, G3 + 'Expr r = FT::min(g, g + 3);', '((A[k] < B[k] ? A[k] : B[k]) < C[k] ? (A[k] < B[k] ? A[k] : B[k]) : C[k])'),
            ('FT::max of a range', sh, G3 + 'Expr r = FT::max(g, g + 3);', '((A[k] < B[k] ? B[k] : A[k]) < C[k] ? C[k] : (A[k] < B[k] ? B[k] : A[k]))'),
            ('FT::scalsum', sh, G3 + 'Expr r = FT::scalsum(g, g + 3, P);', 'P[0]*A[k] + P[1]*B[k] + P[2]*C[k]'),
            ('FT::vertcat', (6, 2), 'Expr g[3] = {mk(A, 1, 2), mk(B, 2, 2), mk(C, 3, 2)}; Expr r = FT::vertcat(g, g + 3);', '(i < 1 ? A[j] : i < 3 ? B[i - 1 + 2*j] : C[i - 3 + 3*j])'),
            ('FT::horzcat', (2, 6), 'Expr g[3] = {mk(A, 2, 1), mk(B, 2, 2), mk(C, 2, 3)}; Expr r = FT::horzcat(g, g + 3);', '(j < 1 ? A[i] : j < 3 ? B[i + 2*(j - 1)] : C[i + 2*(j - 3)])'),
            ('FT::vertcat of a list', (3, 2), 'Expr r = FT::vertcat({mk(A, 1, 2), mk(B, 2, 2)});', '(i < 1 ? A[j] : B[i - 1 + 2*j])'),
            ('FT::horzcat of a list', (2, 3), 'Expr r = FT::horzcat({mk(A, 2, 1), mk(B, 2, 2)});', '(j < 1 ? A[i] : B[i + 2*(j - 1)])'),
            ('FT::mtimes', (2, 2), 'Expr r = FT::mtimes(mk(A, 2, 3), mk(B, 3, 2));', 'A[i]*B[3*j] + A[i + 2]*B[1 + 3*j] + A[i + 4]*B[2 + 3*j]'),
            ('FT::mtimes of a range', (2, 2), 'Expr g[3] = {mk(A, 2, 2), mk(B, 2, 1), mk(C, 1, 2)}; Expr r = FT::mtimes(g, g + 3);', '(A[i]*B[0] + A[i + 2]*B[1])*C[j]'),
            ('FT::dot', (1, 1), 'Expr r = FT::dot(mk(A, 3, 1), mk(B, 3, 1));', 'A[0]*B[0] + A[1]*B[1] + A[2]*B[2]'),
            ('FT::cross', (3, 1), 'Expr r = FT::cross(mk(A, 3, 1), mk(B, 3, 1));', 'A[(i+1)%3]*B[(i+2)%3] - A[(i+2)%3]*B[(i+1)%3]'),
            ('FT::det3x3', (1, 1), 'Expr r = FT::det3x3(mk(A, 3, 3));', 'A[0]*(A[4]*A[8] - A[7]*A[5]) - A[3]*(A[1]*A[8] - A[7]*A[2]) + A[6]*(A[1]*A[5] - A[4]*A[2])'),
            ('empty range', (0, 0), M + 'Expr r = FT::min(&a, &a);', None), ('uninitialised operand in a range', (0, 0), 'Expr g[2]; g[0] = mk(A, 1, 1); Expr r = FT::max(g, g + 2);', None),
            ('FT::det3x3 of a 2x3 matrix', (0, 0), M + 'Expr r = FT::det3x3(a);', None)]
    jobs.append(('ranges and matrices', many))
    N = 'Expr a = mk(A, 4, 3); '
    part = [('entry (%d, %d)' % (i, j), (1, 1), N + 'Expr r = a(%d, %d);' % (i, j), 'A[%d]' % (i + 4 * j)) for i, j in ((0, 0), (3, 0), (1, 2), (3, 2))]
    part += [('entry (%d, %d) of a 4x3 matrix' % (i, j), (0, 0), N + 'Expr r = a(%d, %d);' % (i, j), None) for i, j in ((4, 0), (0, 3), (4, 3), (5, 1))]
    part += [('row %d' % i, (1, 3), N + 'Expr r = a.row(%d);' % i, 'A[%d + 4*j]' % i) for i in range(4)]
    part += [('column %d' % i, (4, 1), N + 'Expr r = a.col(%d);' % i, 'A[i + 4*%d]' % i) for i in range(3)]
    part += [('FT::submatrix of index lists', (3, 2), N + 'Expr r = FT::submatrix(a, {3, 0, 2}, {2, 1});', 'A[(i == 0 ? 3 : i == 1 ? 0 : 2) + 4*(2 - j)]'),
             ('FT::submatrix of strides', (2, 2), N + 'Expr r = FT::submatrix(a, 1, 2, 0, 2);', 'A[1 + 2*i + 8*j]')]
    jobs.append(('parts', part))
    life = [('copy is independent', sh, M + 'Expr r = a; a = 5.0;', 'A[k]'), ('copy does not write through', sh, M + 'Expr q = a; q = 5.0; Expr r = a;', 'A[k]'),
            ('assigned copy is independent', sh, M + 'Expr r = b; r = a; a += b;', 'A[k]'), ('assigning a number', sh, M + 'Expr r = a; r = P[1];', 'P[1]'), ('move', sh, M + 'Expr r = std::move(a);', 'A[k]'),
            ('copy of an expression object', sh, 'vx::V v(2, 3); for (int k = 0; k < 6; ++k) v.d[k] = A[k]; Expr r(v); v.d[0] = v.d[5] = 0;', 'A[k]'),
            ('assigned expression object', sh, M + 'vx::V v(2, 3); for (int k = 0; k < 6; ++k) v.d[k] = B[k]; Expr r = a; r = v; v.d[1] = 0;', 'B[k]'),
            ('expression object assigned to an empty one', sh, 'vx::V v(2, 3); for (int k = 0; k < 6; ++k) v.d[k] = B[k]; Expr r; r = v; v.d[1] = 0;', 'B[k]'),
            ('copy of a shared object', sh, 'auto v = std::make_shared<vx::V>(2, 3); for (int k = 0; k < 6; ++k) v->d[k] = A[k]; std::shared_ptr<BaseExpr> w = v; Expr r(w); v->d[3] = 0;', 'A[k]'),
            ('assigned shared object', sh, 'auto v = std::make_shared<vx::V>(2, 3); for (int k = 0; k < 6; ++k) v->d[k] = A[k]; Expr r; r = v; v->d[3] = 0;', 'A[k]'),
            ('assigning an array', sh, M + 'double z[6]; for (int k = 0; k < 6; ++k) z[k] = C[k]; Expr r = a; r = z;', 'C[k]'),
            ('+=', sh, M + 'Expr r = a; r += b;', 'A[k] + B[k]'), ('-=', sh, M + 'Expr r = a; r -= b;', 'A[k] - B[k]'), ('*=', sh, M + 'Expr r = a; r *= b;', 'A[k]*B[k]'), ('/=', sh, M + 'Expr r = a; r /= b;', 'A[k]/B[k]'),
            ('operands stay', sh, M + 'Expr q = a*b + FT::sin(a) - b/a; Expr r = a;', 'A[k]'), ('zeroes', (3, 2), M + 'Expr r = a.zeroes(3, 2);', '0.0'),
            ('empty expression', (1, 1), 'Expr e; Expr r = mk(P, 1, 1); r = double(e.nrows() + 2*e.ncols());', '0.0'),
            ('copying an empty expression', (1, 1), 'Expr e; Expr f(e); e = f; Expr r = mk(P, 1, 1); r = double(f.nrows() + 2*e.ncols());', '0.0'),
            ('number assigned to an empty expression', (0, 0), 'Expr r; r = 1.0;', None), ('zeroes of an empty expression', (0, 0), 'Expr e; Expr r = e.zeroes();', None), ('reshape', (3, 2), M + 'Expr r = a; r.reshape(3, 2);', 'A[k]')]
    jobs.append(('values', life))
    collect(c, [(iface, j) for j in jobs if not ONLY or ONLY in j[0]])
    c.assumptions = ['the expression type given by the caller implements the primitives of BaseExpr by their names', 'numbers are reals: no NaN among the operands of a comparison']


if __name__ == '__main__':
    T = {'E03': ('The interface of symbolic expressions applies the named operation to its operands, in their order, entry by entry.', e03),
         'S03': ('The coordinate reported for a degree of freedom is the point its functional acts at.', s03),
         'S02': ('Symbolic basis functions are the basis functions of the element.', s02)}
    main(sys.argv[1], T[sys.argv[1]][0], T[sys.argv[1]][1])
