"""B02: every degree of freedom is the functional its interpolation computes, dual to the basis of the space."""
import os
from fractions import Fraction as Fr
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from frame import *
from fem import *
import fem
import avn
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fem1 import SPACES

W_DYN = r'''
extern "C" int h_f(const std::array<double, 3>& X, double* res, uint dim, void* user_data);
extern "C" void w_d%(i)d(const double* __restrict XY0, const double* __restrict XY1, const double* __restrict XY2, const double* __restrict XY3,
        double* __restrict U, double* __restrict D, int* __restrict I, long* __restrict R, DenseMatrix<>* __restrict Mx){
    %(ctor)s
    auto req = %(var)s.interpolateOnDOF_mem_req(%(i)d, %(f)d, %(ord)d);
    R[0] = req.dSize; R[1] = req.iSize; R[2] = req.mSize;
    PlainMemoryX<> pm; pm.ddata = D; pm.idata = I; pm.dSize = req.dSize; pm.iSize = req.iSize; pm.mdata = Mx; pm.mSize = req.mSize;
    std::array<ArrayView<>, %(f)d> ud; for (int r = 0; r < %(f)d; ++r) ud[r].Init(U + r*%(nfa)d, %(nfa)d);
    static_cast<const BaseFemSpace&>(%(var)s).interpolateOnDOF(Tetra<const double>(XY0, XY1, XY2, XY3), h_f, ud.data(), %(i)d, %(f)d, pm, nullptr, %(ord)d);
}
'''
W_ST = r'''
extern "C" int h_f(const std::array<double, 3>& X, double* res, uint dim, void* user_data);
extern "C" void w_s%(i)d(const double* __restrict XY0, const double* __restrict XY1, const double* __restrict XY2, const double* __restrict XY3,
        double* __restrict U){
    std::array<ArrayView<>, %(f)d> ud; for (int r = 0; r < %(f)d; ++r) ud[r].Init(U + r*%(nfa)d, %(nfa)d);
    Dof<%(typ)s >::template interpolate<%(f)d>(Tetra<const double>(XY0, XY1, XY2, XY3), h_f, ud, %(i)d, nullptr, %(ord)d);
}
'''


def marker(pts):
    def h_f(ev, a, i):
        X = [ev.load(avn.Ptr(a[0].base, a[0].off + lift(8 * k)), 8, 'f64') for k in range(3)]
        dim = int(a[2].const())
        pts.append((X, dim))
        for j in range(dim):
            ev.store(avn.Ptr(a[1].base, a[1].off + lift(8 * j)), atom('F', len(pts) - 1, j), 8)
        return ZERO
    return h_f


def bary(X):
    """barycentric coordinates (L1, L2, L3) of a point given as a combination of the vertices of element 0"""
    out = None
    for m in range(3):
        c = [pdiff(X[m], atom_id(('J', 0, m, k))) for k in (1, 2, 3)]
        rest = X[m] - X0(0, m) - sum((J(0, m, k + 1) * c[k] for k in range(3)), ZERO)
        if not same(rest, ZERO) or any(x.const() is None for x in c):
            return None
        if out is None:
            out = c
        elif not all(same(a, b) for a, b in zip(out, c)):
            return None
    return out


def decode(u, pts, f, dim):
    """functional as {point: {component: weight}} for block r, or None"""
    return u


def task(sp, f, order):
    nfa, dim = sp.nfa(), sp.dim()
    out = []
    v = sp.dyn(out)
    src = PRE_DYN
    for i in range(nfa):
        d = dict(i=i, f=f, ord=order, nfa=nfa, ctor='\n    '.join(out), var=v, typ=sp.ctype())
        src += W_DYN % d + W_ST % d
    src += w_apply('w_iden', sp.ctype(), 'IDEN', 1, 1)
    mod = witness_ir(src, name='dof', light=True)
    t = Table(run(mod, 'w_iden', APPLY_ARGS), 1, 1, nfa, dim)
    if not t.complete():
        raise Broken('basis of %s is not available' % sp.name)
    phi = [[pdiff(t.val[0][0][k], dofs_atom(j)) for k in range(dim)] for j in range(nfa)]
    obl, cnt = [], {'functionals': 0, 'function_evaluations': 0, 'pairings': 0}
    for path in 'ds':
        for i in range(nfa):
            pts = []
            key = '%s/%s/dof%d/f%d/o%d' % (sp.name, {'s': 'template', 'd': 'runtime'}[path], i, f, order)
            wh = 'anifem++/fem: interpolation on degree of freedom %d of %s (%s interface)' % (i, sp.name, {'s': 'template', 'd': 'run-time'}[path])
            names = ['XY0', 'XY1', 'XY2', 'XY3', 'U', 'D', 'I', 'R', 'Mx'][:5 if path == 's' else 9]
            r = run(mod, 'w_%s%d' % (path, i), names, calls={'h_f': marker(pts)})
            if r.noreturn:
                obl.append((key + '/evaluates', False, 'interpolation always ends in an exception', wh))
                continue
            cnt['functionals'] += f
            cnt['function_evaluations'] += len(pts)
            lams = [bary(X) for X, _ in pts]
            if any(l is None for l in lams):
                obl.append((key + '/points', False, 'the function is evaluated at a point that is not an affine combination of the vertices', wh))
                continue
            if not all(d == dim * f for _, d in pts):
                obl.append((key + '/arity', False, 'the function is asked for %s values instead of %d' % (sorted(set(d for _, d in pts)), dim * f), wh))
                continue
            eps = lift(Fr(-1, 10**9))
            inside = all(float(c.const()) > -1e-12 for l in lams for c in l) and all(float(sum(c.const() for c in l)) < 1 + 1e-12 for l in lams)
            obl.append((key + '/inside', inside, 'the function is evaluated outside the element', wh))
            # other degrees of freedom stay untouched
            touched = sorted((o // 8) for o, s in r.touched.get('U', {}) if 'w' in r.touched['U'][o, s])
            want = sorted(i + nfa * b for b in range(f))
            obl.append((key + '/target', sorted(set(touched)) == want, 'writes entries %s instead of %s' % (sorted(set(touched)), want), wh))
            if path == 'd':
                for base, c, unit in (('D', 0, 8), ('I', 8, 4), ('Mx', 16, 32)):
                    size = int(need_const(r.cell('R', c), 'requirement'))
                    obl.append((key + '/memory/' + base, r.extent(base) <= size * unit, 'touches %d units of workspace %s, %d announced' % (-(-r.extent(base) // unit), base, size), wh))
            vals = [[None] * nfa for _ in pts]
            for b in range(f):
                u = r.cell('U', 8 * (i + nfa * b))
                if not isinstance(u, R):
                    obl.append((key + '/written', False, 'the value of block %d is not written' % b, wh))
                    continue
                bad = None
                for j in range(nfa):
                    cnt['pairings'] += 1

                    def val(a):
                        k = atom_key(a)
                        if not (isinstance(k, tuple) and k[0] == 'F'):
                            return None
                        p, c = k[1], k[2]
                        if not b * dim <= c < (b + 1) * dim:
                            return atom('OTHER', c)
                        c -= b * dim
                        if vals[p][j] is None:
                            vals[p][j] = [subst(phi[j][q], lambda x, l=lams[p]: l[atom_key(x)[2] - 1] if atom_key(x)[0] == 'L' else None) for q in range(dim)]
                        return vals[p][j][c]
                    x = reduce_roots(subst(u, val))
                    goal = ONE if i == j else ZERO
                    if not same(x, goal) and not all(same(reduce_roots(y), goal) for y in by_orientation(x)):
                        bad = bad or "applied to basis function %d it gives %s" % (j, show(x, int(os.environ.get("SHOWN", "120"))))
                obl.append((key + '/dual/block%d' % b, bad is None, bad or '', wh))
    return {'obl': obl, 'counts': cnt}


def body(c):
    sps = SPACES
    if os.environ.get('ONLY'):
        sps = [s for s in sps if s.name in os.environ['ONLY'].split(';')]
    cfgs = [(2, 5)] if TIER != 'thorough' else [(2, 5), (1, 5), (3, 2), (1, 1)]
    c.count('spaces', len(sps))
    jobs = [(task, (s, f, o)) for s in sorted(sps, key=lambda s: -s.nfa()) for f, o in cfgs]
    collect(c, jobs)
    c.assumptions = ['duality is decided for non-degenerate elements in real arithmetic; constants of quadrature rules to 1e-11']


if __name__ == '__main__':
    main('B02', 'Interpolation on each degree of freedom is a functional dual to the basis: it gives 1 on its own basis function and 0 on all others.', body)
