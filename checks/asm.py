"""I01-I05: element assembly.  The matrix every integration routine returns is compared, entry by entry, with the
quadrature sum of the operator values and of an opaque user tensor."""
import os
import sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from frame import *
from fem import *
import avn

NULL, SCALAR, SYMM, GEN = 1, 2, 3, 4
TNAME = {1: 'null', 2: 'scalar', 3: 'symmetric', 4: 'general'}

DECL = r'''
extern "C" int h_D(const double* X, double* D, unsigned long d1, unsigned long d2, int iTet);
extern "C" int h_DF(const double* X, double* D, unsigned long d1, unsigned long d2, unsigned long q, unsigned long f, unsigned long xs, unsigned long ds);
struct OnePnt { TensorType operator()(const std::array<double, 3>& X, double* D, std::pair<std::size_t, std::size_t> d, void*, int iTet) const {
    return static_cast<TensorType>(h_D(X.data(), D, d.first, d.second, iTet)); } };
struct Fused { TensorType operator()(ArrayView<double> X, ArrayView<double> D, TensorDims d, void*, const AniMemory<double, int>& mem) const {
    return static_cast<TensorType>(h_DF(X.data, D.data, d.first, d.second, mem.q, mem.f, X.size, D.size)); } };
'''
# work memory served from the caller's blocks; what is asked for is added up in R[0], R[1], R[2]
OWNMEM = r'''
struct OwnMem: public DynMem<> {
    double* D; int* I; DenseMatrix<>* Mx; long* R;
    OwnMem(double* D, int* I, DenseMatrix<>* Mx, long* R): D{D}, I{I}, Mx{Mx}, R{R} { R[0] = R[1] = R[2] = 0; }
    MemPart alloc(std::size_t d, std::size_t i, std::size_t m) override {
        MemPart r;
        r.m_mem.ddata = D + R[0]; r.m_mem.idata = I + R[1]; r.m_mem.mdata = Mx + R[2];
        r.m_mem.dSize = d; r.m_mem.iSize = i; r.m_mem.mSize = m;
        R[0] += d; R[1] += i; R[2] += m;
        return r;
    }
};
'''
DECL += OWNMEM
RULE = r'''
extern "C" void w_rule(double* __restrict P, double* __restrict W, long* __restrict R){
    auto fm = %s_quadrature_formulas(%d); R[0] = fm.GetNumPoints();
    for (int i = 0; i < fm.GetNumPoints(); ++i) { auto pw = fm.GetPointWeight(i); W[i] = pw.w; for (int k = 0; k < %d; ++k) P[%d*i + k] = pw.p[k]; }
}
'''
SHAPE = {'tet': ('tetrahedron', 4), 'face': ('triangle', 3), 'faceN': ('triangle', 3), 'edge': ('segment', 2)}
EDGES = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
ARGS = ['XY0', 'XY1', 'XY2', 'XY3', 'A', 'D', 'I', 'R', 'Mx', 'XYL', 'W', 'XX']
PRM = ', '.join('const double* __restrict XY%d' % i for i in range(4)) + ', double* __restrict A, double* __restrict D, int* __restrict I, long* __restrict R, DenseMatrix<>* __restrict Mx, double* __restrict XYL, double* __restrict W, double* __restrict XX'


class Case:
    def __init__(self, name, entry, a, b, variant, traits='DfuncTraits<>', fused=False, types=(GEN,), f=2, order=2, sub=0, q=2):
        self.__dict__.update(locals())
        del self.__dict__['self']

    def key(self):
        return '%s%s/%s.%s,%s.%s/%s/%s/%s/f%d/%s' % (self.entry, self.sub if self.entry in ('face', 'faceN', 'edge', 'node') else '', self.a[0], self.a[1].name, self.b[0], self.b[1].name,
                                               self.variant, self.traits.replace(' ', ''), '+'.join(TNAME[t] for t in self.types), self.f,
                                               'o%d' % self.order if self.entry in SHAPE else 'q%d' % self.q)


def nfun(c):
    return c.a[1].nfa(), c.b[1].nfa(), c.a[1].opdim(c.a[0]), c.b[1].opdim(c.b[0])


def witness(c, fname='w_asm'):
    (oa, sa), (ob, sb) = c.a, c.b
    fn = {'tet': 'fem3Dtet', 'face': 'fem3Dface', 'faceN': 'fem3DfaceN', 'edge': 'fem3Dedge', 'node': 'fem3Dnode', 'pntL': 'fem3DpntL', 'pntX': 'fem3DpntX'}[c.entry]
    na, nb, _, _ = nfun(c)
    xyz = 'make_tetras(XY0, XY1, XY2, XY3, %d)' % c.f if c.entry != 'pntX' else 'Tetra<const double>(XY0, XY1, XY2, XY3)'
    mid = {'tet': '', 'node': '%d, ' % c.sub, 'pntL': 'ArrayView<>(XYL, %d), ArrayView<>(W, %d), ' % (4 * c.q, c.q), 'pntX': 'ArrayView<const double>(XX, %d), ArrayView<>(W, %d), ' % (3 * c.q, c.q)}.get(c.entry, '%d, ' % c.sub)
    tail = ', %d' % c.order if c.entry in SHAPE else ''
    fun = 'Fused()' if c.fused else 'OnePnt()'
    rq = '%s' % (str(c.order) + ', %d' % c.f if c.entry in SHAPE else ('%d, %d' % (c.q, c.f) if c.entry != 'node' else '%d' % c.f))
    body = ['using OA = Operator<%s, %s >;' % (oa, sa.ctype()), 'using OB = Operator<%s, %s >;' % (ob, sb.ctype()), 'using TR = %s;' % c.traits]
    am = 'DenseMatrix<> Am(A, %d, %d, %d);' % (nb, na * c.f, nb * na * c.f)
    if c.variant == 'legacy':
        fz = '' if c.entry == 'pntX' else ', %d' % c.f
        body += [am, '%s<OA, OB, TR%s>(%s, %s%s, Am%s);' % (fn, fz, xyz, mid, fun, tail), 'R[3] = Am.nRow; R[4] = Am.nCol;']
    elif c.variant == 'plain':
        body += [am, 'auto req = %s_memory_requirements<OA, OB>(%s); R[0] = req.dSize; R[1] = req.iSize;' % (fn, rq),
                 'PlainMemory<> pm; pm.ddata = D; pm.idata = I; pm.dSize = req.dSize; pm.iSize = req.iSize;',
                 '%s<OA, OB, TR>(%s, %s%s, Am, pm%s);' % (fn, xyz, mid, fun, tail), 'R[3] = Am.nRow; R[4] = Am.nCol;']
    elif c.variant == 'plainM':
        body += [am, 'OwnMem wm(D, I, Mx, R);', '%s<OA, OB, TR>(%s, %s%s, Am, static_cast<DynMem<>&>(wm)%s);' % (fn, xyz, mid, fun, tail), 'R[3] = Am.nRow; R[4] = Am.nCol;']
    elif c.variant == 'dynM':
        out = []
        va = sa.dyn(out)
        vb = va if sa.name == sb.name else sb.dyn(out)
        body += out + ['ApplyOpFromSpaceView AU(%s, &%s), AV(%s, &%s);' % (oa, va, ob, vb), am, 'OwnMem wm(D, I, Mx, R);',
                       '%s<TR>(%s, %sAU, AV, %s, Am, static_cast<DynMem<>&>(wm)%s);' % (fn, xyz, mid, fun, tail), 'R[3] = Am.nRow; R[4] = Am.nCol;']
    elif c.variant in ('tmpl', 'custom'):
        out = []
        if c.variant == 'tmpl':
            body += ['ApplyOpFromTemplate<%s, %s > AU; ApplyOpFromTemplate<%s, %s > AV;' % (oa, sa.ctype(), ob, sb.ctype())]
        else:
            va, vb = sa.dyn(out), sb.dyn(out)
            body += out
            for n, o, v in (('AU', oa, va), ('AV', ob, vb)):
                body += ['ApplyOpFromSpaceView b%s(%s, &%s); ApplyOpCustom %s(%d, [&b%s](AniMemoryX<>& mem, ArrayView<>& U){ return b%s(mem, U); }, [&b%s](uint q, uint f){ return b%s.getMemoryRequirements(q, f); }, b%s.Dim(), b%s.Nfa(), b%s.Order());'
                         % ((n, o, v, n, 1 if n == 'AU' else 2) + (n,) * 7)]
        body += [am, 'auto req = %s_memory_requirements<TR>(AU, AV, %s); R[0] = req.dSize; R[1] = req.iSize; R[2] = req.mSize;' % (fn, rq),
                 'PlainMemoryX<> pm; pm.ddata = D; pm.idata = I; pm.dSize = req.dSize; pm.iSize = req.iSize; pm.mdata = Mx; pm.mSize = req.mSize;',
                 '%s<TR>(%s, %sAU, AV, %s, Am, pm%s);' % (fn, xyz, mid, fun, tail), 'R[3] = Am.nRow; R[4] = Am.nCol;']
    elif c.variant in ('dyn', 'own'):
        out = []
        va = sa.dyn(out)
        vb = va if sa.name == sb.name else sb.dyn(out)
        body += out
        body += [('ApplyOpFromSpaceView AU(%s, &%s), AV(%s, &%s);' if c.variant == 'dyn' else 'ApplyOpFromSpace AU(%s, FemSpace(%s)), AV(%s, FemSpace(%s));') % (oa, va, ob, vb), am,
                 'auto req = %s_memory_requirements<TR>(AU, AV, %s); R[0] = req.dSize; R[1] = req.iSize; R[2] = req.mSize;' % (fn, rq),
                 'PlainMemoryX<> pm; pm.ddata = D; pm.idata = I; pm.dSize = req.dSize; pm.iSize = req.iSize; pm.mdata = Mx; pm.mSize = req.mSize;',
                 '%s<TR>(%s, %sAU, AV, %s, Am, pm%s);' % (fn, xyz, mid, fun, tail), 'R[3] = Am.nRow; R[4] = Am.nCol;']
    else:
        raise KeyError(c.variant)
    return 'extern "C" void %s(%s){\n    %s\n}\n' % (fname, PRM, '\n    '.join(body))


def phis(mod, name, sp, op):
    r = run(mod, name, APPLY_ARGS)
    t = Table(r, 1, 1, sp.nfa(), sp.opdim(op))
    if not t.complete():
        raise Broken('operator values of %s %s are not available' % (op, sp.name))
    return [[pdiff(t.val[0][0][k], dofs_atom(j)) for k in range(t.dim)] for j in range(sp.nfa())]


def at(v, r, lams):
    def ren(a):
        k = atom_key(a)
        if k[0] in ('X0', 'J'):
            return atom(k[0], r, *k[2:]) if r else None
        if k[0] == 'L':
            return lams[k[2] - 1]
        return None
    return avn.deep_subst(v, ren)


def cart(r, lam3):
    return [X0(r, m) + sum((J(r, m, k) * lam3[k - 1] for k in (1, 2, 3)), ZERO) for m in range(3)]


class Tensor:
    """the user's tensor: an opaque function of the point and of the element number"""
    def __init__(self, case, expect, const):
        self.c, self.expect, self.const = case, expect, const
        self.calls = []
        self.bad = []

    def find(self, X):
        if self.const:
            return (0, 0)
        for rn, P in self.expect.items():
            if all(same(x, p) for x, p in zip(X, P)):
                return rn
        return None

    def kind(self, r, n):
        t = self.c.types
        tr = self.c.traits
        if '<-1' in tr:
            return t[r % len(t)]
        if '<-2' in tr or self.c.fused or self.const:
            return t[0]
        return t[(n + r) % len(t)]

    def fill(self, ev, D, off, d1, d2, r, n, t):
        if t == NULL:
            return
        if t == SCALAR:
            ev.store(avn.Ptr(D.base, D.off + lift(8 * off)), atom('T', r, n, 0, 0), 8)
            return
        for j in range(d2):
            for i in range(d1):
                a, b = (min(i, j), max(i, j)) if t == SYMM else (i, j)
                ev.store(avn.Ptr(D.base, D.off + lift(8 * (off + i + d1 * j))), atom('T', r, n, a, b), 8)

    def one(self, ev, a, i):
        d1, d2, it = (int(x.const()) for x in a[2:5])
        X = [ev.load(avn.Ptr(a[0].base, a[0].off + lift(8 * k)), 8, 'f64') for k in range(3)] if not self.const else None
        rn = self.find(X)
        self.calls.append(rn)
        na, nb, da, db = nfun(self.c)
        want = (db * (3 if self.c.entry == 'faceN' else 1), da)
        if (d1, d2) != want:
            self.bad.append('the tensor is asked for a %dx%d matrix instead of %dx%d' % ((d1, d2) + want))
        if rn is None:
            self.bad.append('the tensor is evaluated at a point that is not a quadrature point of any element (%s)' % show(X[0], 80))
            rn = (0, 0)
        elif not self.const and it != rn[0]:
            self.bad.append('the tensor is evaluated at point %d of element %d but told the element number %d' % (rn[1], rn[0], it))
        t = self.kind(*rn)
        self.fill(ev, a[1], 0, d1, d2, rn[0], rn[1], t)
        return lift(t)

    def fused(self, ev, a, i):
        d1, d2, q, f, xs, ds = (int(x.const()) for x in a[2:8])
        t = self.c.types[0]
        if xs < 3 * q * f or ds < d1 * d2 * q * f:
            self.bad.append('views handed to the fused tensor are too small: %d coordinates, %d tensor values' % (xs, ds))
        for r in range(f):
            for n in range(q):
                off = 3 * (n + q * r)
                X = [ev.load(avn.Ptr(a[0].base, a[0].off + lift(8 * (off + k))), 8, 'f64') for k in range(3)]
                rn = self.find(X)
                self.calls.append(rn)
                if rn != (r, n):
                    self.bad.append('point %d of element %d in the fused tensor view is not that quadrature point' % (n, r))
                self.fill(ev, a[1], d1 * d2 * (n + q * r), d1, d2, r, n, t)
        return lift(t)


def tval(case, tens, r, n, i, j, da, rows):
    """entry (i, j) of the tensor at that point"""
    t = tens.kind(r, n)
    if tens.const:
        r = n = 0
    if t in (GEN, SYMM):
        if t == SYMM and i > j:
            i, j = j, i
        return atom('T', r, n, i, j)
    one = ONE if t == NULL else atom('T', r, n, 0, 0)
    if rows == da:
        return one if i == j else ZERO
    return one  # identity with a single P0-like column: every row gets the value


def geometry(c, mod):
    """(points {r,n: L123}, weights [n], measure r -> R | None, normals)"""
    f = c.f
    if c.entry in SHAPE:
        nc = SHAPE[c.entry][1]
        r = run(mod, 'w_rule', ['P', 'W', 'R'])
        q = int(need_const(r.cell('R', 0), 'number of points'))
        wg = [r.cell('W', 8 * n) for n in range(q)]
        bar = [[r.cell('P', 8 * (nc * n + k)) for k in range(nc)] for n in range(q)]
    elif c.entry == 'node':
        q, wg, bar = 1, [ONE], [[ONE]]
    else:
        q = c.q
        wg = [atom('in', 'W', 8 * n, 8) for n in range(q)]
        bar = [[lam(n, k) for k in range(4)] for n in range(q)]
    vid = {'tet': [0, 1, 2, 3], 'pntL': [0, 1, 2, 3], 'pntX': [0, 1, 2, 3], 'node': [c.sub], 'edge': list(EDGES[c.sub % 6])}.get(c.entry) or [(c.sub + i) % 4 for i in range(3)]
    L = []
    for n in range(q):
        row = [ZERO] * 4
        for k, v in zip(vid, bar[n]):
            row[k] = row[k] + v
        L.append(row)

    def edge(r, a, b):
        return [vertex(r, b, m) - vertex(r, a, m) for m in range(3)]

    def measure(r):
        if c.entry == 'tet':
            return avn.fnatom('fabs', det(r)) * lift(Fr(1, 6))
        if c.entry == 'edge':
            return avn.Eval.libm(None, 'sqrt', [sum((x * x for x in edge(r, *vid)), ZERO)])
        if c.entry in ('face', 'faceN'):
            return avn.Eval.libm(None, 'sqrt', [sum((x * x for x in cross(r)), ZERO)]) * lift(Fr(1, 2))
        return ONE

    def cross(r):
        u, v = edge(r, vid[0], vid[1]), edge(r, vid[0], vid[2])
        return [u[(i + 1) % 3] * v[(i + 2) % 3] - u[(i + 2) % 3] * v[(i + 1) % 3] for i in range(3)]
    return q, wg, L, measure, cross, vid


def analyse(c):
    (oa, sa), (ob, sb) = c.a, c.b
    na, nb, da, db = nfun(c)
    src = PRE_DYN + DECL + witness(c) + w_apply('w_pa', sa.ctype(), oa, 1, 1) + w_apply('w_pb', sb.ctype(), ob, 1, 1)
    if c.entry in SHAPE:
        s, n = SHAPE[c.entry]
        src += RULE % (s, c.order, n, n)
    mod = witness_ir(src, name='asm', light=True)
    key = c.key()
    wh = 'anifem++/fem/operations: %s (%s interface)' % ({'tet': 'fem3Dtet', 'face': 'fem3Dface', 'faceN': 'fem3DfaceN', 'edge': 'fem3Dedge', 'node': 'fem3Dnode'}.get(c.entry, 'fem3D' + c.entry), {'legacy': 'memory-less', 'plain': 'template with external memory', 'dyn': 'run-time', 'own': 'run-time, owning', 'plainM': 'template with dynamic memory', 'dynM': 'run-time with dynamic memory', 'tmpl': 'run-time over template operators', 'custom': 'run-time over user-supplied operators'}[c.variant])
    q, wg, L, measure, cross, vid = geometry(c, mod)
    expect = {(r, n): cart(r, L[n][1:]) for r in range(c.f) for n in range(q)}
    const = ',true' in c.traits.replace(' ', '')
    tens = Tensor(c, expect, const)

    def load(ev, base, off, sz, ty):
        if base == 'XX' and sz == 8:
            i = off // 8
            return cart(0, [lam(i // 3, k) for k in (1, 2, 3)])[i % 3]
        return onload(ev, base, off, sz, ty)
    r = run(mod, 'w_asm', ARGS, calls={'h_D': tens.one, 'h_DF': tens.fused}, load=load)
    obl = {'I': [], 'T': [], 'M': []}
    cnt = {'matrix_entries': 0, 'tensor_calls': len(tens.calls)}
    if r.noreturn:
        obl['I'].append((key + '/evaluates', False, 'always ends in an exception', wh))
        return obl, cnt
    obl['T'].append((key + '/calls', not tens.bad, '; '.join(sorted(set(tens.bad))[:3]), wh))
    t0 = tens.kind(0, 0)
    need = set() if const else set(expect)
    free = '<1' in c.traits or (t0 == NULL and ('<-' in c.traits) and len(c.types) == 1)
    if not free and not c.fused:
        miss = sorted(need - set(tens.calls))
        if '<-1' in c.traits:
            miss = [x for x in miss if tens.kind(*x) != NULL]
        obl['T'].append((key + '/every-point', not miss, 'the tensor is never evaluated at point %s' % (miss[:2],), wh))
    # sizes
    shape = (int(need_const(r.cell('R', 24), 'rows')), int(need_const(r.cell('R', 32), 'columns')))
    obl['I'].append((key + '/shape', shape == (nb, na * c.f), 'matrix is reported as %dx%d instead of %dx%d' % (shape + (nb, na * c.f)), wh))
    # memory
    if c.variant != 'legacy':
        for base, cell, unit in (('D', 0, 8), ('I', 8, 4)) + ((('Mx', 16, 32),) if c.variant not in ('plain',) else ()):
            size = int(need_const(r.cell('R', cell), 'requirement'))
            obl['M'].append((key + '/memory/' + base, r.extent(base) <= size * unit, 'touches %d units of workspace %s, %d announced' % (-(-r.extent(base) // unit), base, size), wh))
    obl['M'].append((key + '/output', r.extent('A') <= 8 * na * nb * c.f, 'writes %d matrix entries instead of %d' % (r.extent('A') // 8, na * nb * c.f), wh))
    obl['M'].append((key + '/locals', not r.oob, 'accesses a local or allocated block out of bounds: %s' % r.oob[:2], wh))
    bad = sorted(b for b in r.written() if b in ('XY0', 'XY1', 'XY2', 'XY3', 'XYL', 'W', 'XX'))
    obl['M'].append((key + '/inputs', not bad, 'writes to its input(s) %s' % bad, wh))
    g = sorted(r.gwrites)
    obl['M'].append((key + '/static', not g, 'writes to static storage: %s' % g[:3], wh))
    # values
    pa = phis(mod, 'w_pa', sa, oa)
    pb = pa if (oa, sa.name) == (ob, sb.name) else phis(mod, 'w_pb', sb, ob)
    rows = db * (3 if c.entry == 'faceN' else 1)
    err = stale = None
    for e in range(c.f):
        ua = [[[at(v, e, L[n][1:]) for v in u] for u in pa] for n in range(q)]
        ub = ua if pb is pa else [[[at(v, e, L[n][1:]) for v in u] for u in pb] for n in range(q)]
        mes = measure(e)
        nrm = cross(e) if c.entry == 'faceN' else None
        for ia in range(na):
            # D * OpA(phi_ia) per row and point
            du = []
            for n in range(q):
                row = []
                for k in range(rows):
                    s = ZERO
                    for l in range(da):
                        if ua[n][ia][l].n.t:
                            s = s + tval(c, tens, e, n, k, l, da, rows) * ua[n][ia][l]
                    row.append(s)
                if nrm:
                    row = [sum((row[x + 3 * k] * nrm[x] for x in range(3)), ZERO) for k in range(db)]
                du.append([s * wg[n] for s in row])
            for ib in range(nb):
                cnt['matrix_entries'] += 1
                got = r.cell('A', 8 * (ib + nb * (ia + na * e)))
                if not isinstance(got, R) or any(k[0] == 'in' and k[1] in WORK and k[1] != 'W' for k in map(atom_key, atoms_of(got, deep=True))):
                    stale = stale or 'entry (%d, %d) of element %d is never written or depends on previous buffer contents' % (ib, ia, e)
                    continue
                s = ZERO
                for n in range(q):
                    for k in range(db):
                        v = ub[n][ib][k]
                        if v.n.t and du[n][k].n.t:
                            s = s + v * du[n][k]
                if nrm:
                    # outward unit normal times area: orientation decides the sign
                    x = [vertex(e, [v for v in range(4) if v not in vid][0], m) - vertex(e, vid[0], m) for m in range(3)]
                    side = sum((nrm[m] * x[m] for m in range(3)), ZERO)
                    sg = ratio(side, det(e))
                    good = True
                    for g, x, w in zip(by_orientation(got, e), by_orientation(s, e), (1, -1)):
                        ex = x * lift(Fr(-1 if sg * w > 0 else 1, 2))
                        good = good and (same(g, ex) or same(reduce_roots(g), reduce_roots(ex)))
                else:
                    ex = s * mes
                    good = same(got, ex) or all(same(reduce_roots(x), reduce_roots(y)) for x, y in zip(by_orientation(got, e), by_orientation(ex, e)))
                if not good:
                    err = err or 'entry (%d, %d) of element %d is not the quadrature sum of the operator values and the tensor' % (ib, ia, e)
    obl['M'].append((key + '/stale', stale is None, stale or '', wh))
    obl['I'].append((key + '/identity', err is None and stale is None, err or stale or '', wh))
    return obl, cnt


V3P1, V3P2 = Vec(3, 'P1'), Vec(3, 'P2')
G, ID = 'GRAD', 'IDEN'
VAR = ('legacy', 'plain', 'dyn')
MVAR = ('plainM', 'dynM')
# operator pairs: single blocks, several blocks on either or both sides, different numbers of rows
PAIRS = [((G, S('P1')), (G, S('P1'))), ((ID, S('P2')), (ID, S('P2'))), ((ID, S('P0')), (G, S('P1'))), ((ID, V3P1), (ID, V3P1)), ((G, V3P1), (ID, S('P1'))), ((ID, S('P1')), (G, V3P1)),
         (('DIV', S('RT0')), (ID, S('P0'))), ((ID, S('ND0')), ('CURL', S('ND0'))), ((ID, Com(V3P1, S('P0'))), (ID, Com(V3P1, S('P0')))), ((ID, Com(Vec(2, 'P1'), S('CR1'))), (ID, S('P2'))),
         (('DUDY', S('P2')), (ID, Com(Vec(2, 'P1'), S('P0')))), ((ID, Union(S('P1'), S('B4'))), ('DUDX', S('P1')))]
OWN = [((ID, Vec(2, 'P1')), (ID, V3P1)), ((ID, S('P1')), (ID, S('P2'))), ((ID, Com(Vec(2, 'P1'), S('P0'))), (ID, Com(V3P1, S('P0')))), ((ID, Com(S('P1'), S('P0'))), (ID, Com(S('P0'), S('P1')))),
       ((ID, S('P2')), ('DUDX', S('P2'))), ((ID, Union(S('P1'), S('B4'))), (ID, Union(S('P1'), S('B2')))), ((ID, Com(S('P1'), S('P0'))), (ID, Com(S('P1'), S('P0'), S('P0')))), ((G, S('P1')), (G, S('P1')))]
TRAITS = [('DfuncTraits<0, false>', False, (GEN, SCALAR, SYMM, NULL)), ('DfuncTraits<-1, false>', False, (GEN, SCALAR)), ('DfuncTraits<-1, false>', False, (SYMM, NULL)),
          ('DfuncTraits<-2, false>', False, (GEN,)), ('DfuncTraits<-2, false>', False, (SCALAR,)), ('DfuncTraits<-2, false>', False, (NULL,)), ('DfuncTraits<-2, false>', False, (SYMM,)),
          ('DfuncTraits<1, false>', False, (NULL,)), ('DfuncTraits<2, false>', False, (SCALAR,)), ('DfuncTraits<3, false>', False, (SYMM,)), ('DfuncTraits<4, false>', False, (GEN,)),
          ('DfuncTraits<0, true>', False, (GEN,)), ('DfuncTraits<-1, true>', False, (SCALAR,)), ('DfuncTraits<-2, true>', False, (SYMM,)), ('DfuncTraits<0, true>', False, (NULL,)),
          ('DfuncTraits<1, true>', False, (NULL,)), ('DfuncTraits<2, true>', False, (SCALAR,)), ('DfuncTraits<3, true>', False, (SYMM,)), ('DfuncTraits<4, true>', False, (GEN,)),
          ('DfuncTraitsFusive<>', True, (GEN,)), ('DfuncTraitsFusive<>', True, (SCALAR,)), ('DfuncTraitsFusive<>', True, (SYMM,)), ('DfuncTraitsFusive<>', True, (NULL,))]


def square(p):
    return p[0][1].opdim(p[0][0]) == p[1][1].opdim(p[1][0])


def cases(pid):
    out = []
    deep = TIER == 'thorough'
    if pid == 'I01':
        for p in PAIRS:
            for v in VAR:
                out.append(Case('', 'tet', p[0], p[1], v, types=(GEN,)))
                if deep:
                    out.append(Case('', 'tet', p[0], p[1], v, types=(GEN,), f=3, order=1))
        for p in PAIRS:
            if p[0][1].kind == 'Com' and square(p) or p[0] == p[1]:
                for v in VAR:
                    out.append(Case('', 'tet', p[0], p[1], v, traits='DfuncTraits<1, true>', types=(NULL,), order=1))
        for i, p in enumerate(PAIRS):
            for v in MVAR:
                if deep or (i + MVAR.index(v)) % 2 == 0:
                    out.append(Case('', 'tet', p[0], p[1], v, types=(GEN,), order=1 + i % 2))
        for i, p in enumerate(PAIRS):
            for v in ('tmpl', 'custom'):
                if deep or (i + (v == 'tmpl')) % 2 == 0:
                    out.append(Case('', 'tet', p[0], p[1], v, types=(GEN,), order=1 + i % 2))
        # operators that are told apart only by comparing spaces
        for p in OWN:
            out.append(Case('', 'tet', p[0], p[1], 'own', types=(GEN,), f=1, order=1))
    elif pid == 'I02':
        few = [PAIRS[0], PAIRS[3], PAIRS[8], PAIRS[9]]
        for i, p in enumerate(few):
            for v in VAR:
                for s in range(4):
                    if deep or (i + s) % 4 == VAR.index(v):
                        out.append(Case('', 'face', p[0], p[1], v, sub=s, order=2, f=2 if i else 1))
                for s in range(6):
                    if deep or (i + s) % 3 == VAR.index(v):
                        out.append(Case('', 'edge', p[0], p[1], v, sub=s, order=3, f=2 if i else 1))
                for s in range(4):
                    if deep or (i + s) % 4 == VAR.index(v):
                        out.append(Case('', 'node', p[0], p[1], v, sub=s, f=2 if i else 1))
                out.append(Case('', 'pntL', p[0], p[1], v, f=2))
                out.append(Case('', 'pntX', p[0], p[1], v, f=1))
        for i, p in enumerate(few[:2] if not deep else few):
            for v in MVAR:
                k = 2 * i + MVAR.index(v)
                for e, s in (('face', k), ('edge', k + 2), ('node', k), ('pntL', 0), ('pntX', 0)):
                    out.append(Case('', e, p[0], p[1], v, sub=s, order=2, f=2 if e != 'pntX' else 1))
        for i, v in enumerate(MVAR):
            out.append(Case('', 'faceN', (G, S('P1')), (ID, S('P1')), v, sub=i + 1, f=2, order=2))
        for p in [((G, S('P1')), (ID, S('P1'))), ((ID, S('RT0')), (ID, S('P1'))), ((G, Vec(2, 'P1')), (ID, Vec(2, 'P1')))]:
            for v in VAR:
                for s in range(4):
                    if not deep and (s + VAR.index(v)) % 2:
                        continue
                    out.append(Case('', 'faceN', p[0], p[1], v, sub=s, f=(2 if p[0][1].kind == "P1" and s > 1 else 1) if not deep else 2, order=2 if p[0][1].kind != 'RT0' else 1))
    elif pid == 'I03':
        pairs = [((ID, V3P1), (ID, V3P1)), ((ID, S('P0')), (G, S('P1'))), ((ID, Com(Vec(2, 'P1'), S('P0'))), (G, S('P1')))]
        for p in pairs:
            for tr, fu, ty0 in TRAITS:
                ty = ty0
                if p[0][1].kind == 'P0' and SYMM in ty:
                    ty = tuple(GEN if t == SYMM else t for t in ty)
                    if '<3' in tr:
                        continue
                for v in VAR:
                    if not deep and p is not pairs[0] and (pairs.index(p) + TRAITS.index((tr, fu, ty0))) % 3 != VAR.index(v):
                        continue
                    out.append(Case('', 'tet', p[0], p[1], v, traits=tr, fused=fu, types=ty))
                for v in MVAR:
                    if deep or p is pairs[0] and TRAITS.index((tr, fu, ty0)) % 4 == 2 * MVAR.index(v):
                        out.append(Case('', 'tet', p[0], p[1], v, traits=tr, fused=fu, types=ty))
    return out


RULESX = {'I01': 'Volume assembly returns, entry by entry, the quadrature sum of test operator, tensor and trial operator values times the element volume; all interfaces.',
          'I02': 'Face, face-normal, edge, node and point integrals return the corresponding sums at exactly the points of that face, edge, node or list.',
          'I03': 'All declared tensor kinds and granularities give the same integral for the same tensor; the tensor is asked only at quadrature points with the right element number and dimensions.',
          'M03': 'Assembly stays inside the announced workspace, writes only its matrix, reads no stale memory, writes no static storage.'}


def job(pid, c):
    o, cnt = analyse(c)
    if pid == 'M03':
        obl = o['M']
    elif pid == 'I03':
        obl = o['I'] + o['T']
    else:
        obl = o['I'] + [x for x in o['T'] if not x[1]]
    return {'obl': obl, 'counts': cnt}


def weight(c):
    na, nb, da, db = nfun(c)
    return -na * nb * da * db * c.f


def body(pid):
    def go(c):
        cs = cases(pid) if pid != 'M03' else [x for p in ('I01', 'I02', 'I03') for x in cases(p)]
        if pid == 'M03' and TIER != 'thorough':
            seen = {}
            for x in cs:
                seen.setdefault((x.entry, x.a[0], x.a[1].name, x.b[0], x.b[1].name, x.variant), x)
            cs = list(seen.values())
        if os.environ.get('ONLY'):
            cs = [x for x in cs if os.environ['ONLY'] in x.key()]
        c.count('integration_cases', len(cs))
        collect(c, [(job, (pid, x)) for x in sorted(cs, key=weight)])
        if not os.environ.get('ONLY'):
            c.need('integration cases', len(cs), 30)
        c.assumptions = ['real arithmetic, non-degenerate elements; numeric rule constants compared to 1e-11',
                         'for the listed operator pairs, tensor kinds, quadrature orders and numbers of fused elements; every vertex, weight and tensor value']
    return go


if __name__ == '__main__':
    pid = sys.argv[1]
    main(pid, RULESX[pid], body(pid))
