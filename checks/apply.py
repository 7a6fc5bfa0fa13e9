"""I04: values of operators at given points, at Cartesian or barycentric coordinates, with or without a tensor."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from asm import *
import asm

ONLY = os.environ.get('ONLY', '')


class Rows:
    """stands for the test side: only its number of rows matters"""
    kind = 'rows'

    def __init__(self, n):
        self.n, self.name = n, 'rows%d' % n

    def opdim(self, op):
        return self.n

    def nfa(self):
        return 1


#            variant: (coordinates, tensor, run-time, several elements)
VARIANT = {'L memory-less': ('L', 0, 0), 'L matrices memory-less': ('L', 0, 0), 'L matrices': ('L', 0, 0), 'L': ('L', 0, 0), 'L run-time': ('L', 0, 1), 'L owning': ('L', 0, 1),
           'X memory-less': ('X', 0, 0), 'X pointers memory-less': ('X', 0, 0), 'X one point': ('X', 0, 0), 'X': ('X', 0, 0), 'X pointers': ('X', 0, 0), 'X run-time': ('X', 0, 1), 'D L': ('L', 1, 1), 'D X': ('X', 1, 1),
           'L memory': ('L', 0, 0), 'X memory': ('X', 0, 0), 'L run-time memory': ('L', 0, 1), 'X run-time memory': ('X', 0, 1), 'D L memory': ('L', 1, 1), 'D X memory': ('X', 1, 1),
           'L template operator': ('L', 0, 1), 'X custom operator': ('X', 0, 1)}


def own(v):
    return v.endswith(' memory')


def wit(c, v):
    (op, sp), f, q = c.a, c.f, c.q
    co, ten, dyn = VARIANT[v]
    dim, nfa = sp.opdim(op), sp.nfa()
    rows = c.b[1].n if ten else dim
    T = 'make_tetras(XY0, XY1, XY2, XY3, %d)' % f
    M = ', '.join('DenseMatrix<const double>(XY%d, 3, %d)' % (k, f) for k in range(4))
    TX = 'Tetra<const double>(XY0, XY1, XY2, XY3)'
    P4 = 'XY0, XY1, XY2, XY3'
    VL, VX = 'ArrayView<>(XYL, %d)' % (4 * q), 'ArrayView<const double>(XX, %d)' % (3 * q)
    if f == 1:
        T = 'Tetra<const double>(XY0, XY1, XY2, XY3)' if v == 'L' else T
    body = ['using Op = Operator<%s, %s >; using TR = %s;' % (op, sp.ctype(), c.traits), 'DenseMatrix<> dm(Mx0, %d, %d), um(A, %d, %d);' % (nfa, f, rows * q, f), 'ArrayView<> dv(Mx0, %d), uv(A, %d);' % (nfa, rows * q)]
    if dyn:
        out = []
        n = sp.dyn(out)
        if v == 'L template operator':
            body += ['ApplyOpFromTemplate<%s, %s > AU;' % (op, sp.ctype())]
        elif v == 'X custom operator':
            body += out + ['ApplyOpFromSpaceView B(%s, &%s); ApplyOpCustom AU(1, [&B](AniMemoryX<>& mem, ArrayView<>& U){ return B(mem, U); }, [&B](uint q, uint f){ return B.getMemoryRequirements(q, f); }, B.Dim(), B.Nfa(), B.Order());' % (op, n)]
        else:
            body += out + [('ApplyOpFromSpace AU(%s, FemSpace(%s));' if v == 'L owning' else 'ApplyOpFromSpaceView AU(%s, &%s);') % (op, n)]
        fn = 'fem3Dapply' + co
        if own(v):
            body += ['OwnMem wm(D, I, Mx, R); DynMem<>& pm = wm;']
        else:
            body += ['auto req = %s_memory_requirements%s(%sAU, %d, %d);' % (fn, '<TR>' if ten else '', '%d, ' % rows if ten else '', q, f), 'R[0] = req.dSize; R[1] = req.iSize; R[2] = req.mSize;',
                 'PlainMemoryX<> pm; pm.ddata = D; pm.idata = I; pm.dSize = req.dSize; pm.iSize = req.iSize; pm.mdata = Mx; pm.mSize = req.mSize;']
        if ten:
            body += ['%s<TR>(%s, %s, dm, AU, %d, %s, um, pm);' % (fn, T if co == 'L' else TX, VL if co == 'L' else VX, rows, 'Fused()' if c.fused else 'OnePnt()')]
        else:
            body += ['%s(%s, %s, dm, AU, um, pm);' % (fn, T if co == 'L' else TX, VL if co == 'L' else VX)]
        body += ['R[3] = um.nRow; R[4] = um.nCol;']
    else:
        if own(v):
            body += ['OwnMem wm(D, I, Mx, R); DynMem<>& pm = wm;']
        elif 'memory-less' not in v and v != 'X one point':
            body += ['auto req = fem3Dapply%s_memory_requirements<Op>(%d, %d); R[0] = req.dSize; R[1] = req.iSize; PlainMemory<> pm; pm.ddata = D; pm.idata = I; pm.dSize = req.dSize; pm.iSize = req.iSize;' % (co, q, f)]
        body += {'L memory-less': 'fem3DapplyL<Op, %d>(%s, %s, dm, um);' % (f, T, VL), 'L matrices memory-less': 'fem3DapplyL<Op, %d>(%s, %s, dm, um);' % (f, M, VL), 'L': 'fem3DapplyL<Op>(%s, %s, dm, um, pm);' % (T, VL),
                 'L matrices': 'fem3DapplyL<Op>(%s, %s, dm, um, pm);' % (M, VL),
                 'X memory-less': 'fem3DapplyX<Op>(%s, %s, dv, uv);' % (TX, VX), 'X pointers memory-less': 'fem3DapplyX<Op>(%s, %s, dv, uv);' % (P4, VX), 'X one point': 'fem3DapplyX<Op>(%s, XX, dv, uv);' % P4,
                 'X': 'fem3DapplyX<Op>(%s, %s, dv, uv, pm);' % (TX, VX), 'X pointers': 'fem3DapplyX<Op>(%s, %s, dv, uv, pm);' % (P4, VX)}[v.replace(' memory', '') if own(v) else v].split('\n')
        body += ['R[3] = um.nRow; R[4] = um.nCol;'] if co == 'L' else ['R[3] = %d; R[4] = 1;' % (rows * q)]
    return 'extern "C" void w_app(%s, double* __restrict Mx0){\n    %s\n}\n' % (PRM, '\n    '.join(body))


AARGS = ARGS + ['U0']


def one(c, v):
    op, sp = c.a
    co, ten, dyn = VARIANT[v]
    dim, nfa = sp.opdim(op), sp.nfa()
    rows = c.b[1].n if ten else dim
    key = '%s/%s %s/q%d f%d%s' % (v, op, sp.name, c.q, c.f, '/%s/%s/%d rows' % (c.traits.replace(' ', ''), '+'.join(TNAME[t] for t in c.types), rows) if ten else '')
    mod = witness_ir(PRE_DYN + DECL + wit(c, v) + w_apply('w_pa', sp.ctype(), op, 1, 1), name='app', light=True)
    wh = 'anifem++/fem/operations/eval.inl: fem3Dapply%s' % co
    L = [[lam(n, k) for k in range(4)] for n in range(c.q)]
    expect = {(r, n): cart(r, L[n][1:]) for r in range(c.f) for n in range(c.q)}
    const = ',true' in c.traits.replace(' ', '')
    tens = Tensor(c, expect, const)

    def load(ev, base, off, sz, ty):
        if base == 'XX' and sz == 8:
            return cart(0, [lam(off // 24, k) for k in (1, 2, 3)])[off // 8 % 3]
        return onload(ev, base, off, sz, ty)
    r = run(mod, 'w_app', AARGS, calls={'h_D': tens.one, 'h_DF': tens.fused}, load=load)
    obl = []
    cnt = {'values': c.f * c.q * rows, 'tensor_calls': len(tens.calls)}
    if r.noreturn:
        return {'obl': [(key + '/evaluates', False, 'always ends in an exception', wh)], 'counts': cnt}
    if ten:
        obl.append((key + '/calls', not tens.bad, '; '.join(sorted(set(tens.bad))[:3]), wh))
    got = (int(need_const(r.cell('R', 24), 'rows')), int(need_const(r.cell('R', 32), 'columns')))
    obl.append((key + '/shape', got == (rows * c.q, c.f), 'the result is reported as %dx%d instead of %dx%d' % (got + (rows * c.q, c.f)), wh))
    if 'memory-less' not in v and v != 'X one point':
        for base, cell, unit in (('D', 0, 8), ('I', 8, 4)) + ((('Mx', 16, 32),) if dyn else ()):
            size = int(need_const(r.cell('R', cell), 'requirement'))
            obl.append((key + '/memory ' + base, r.extent(base) <= size * unit, 'touches %d units of workspace %s, %d announced' % (-(-r.extent(base) // unit), base, size), wh))
    w = sorted(b for b in r.written() if b in ('XY0', 'XY1', 'XY2', 'XY3', 'XYL', 'XX', 'U0', 'W'))
    obl.append((key + '/inputs', not w, 'writes to its input(s) %s' % w, wh))
    obl.append((key + '/output', r.extent('A') <= 8 * rows * c.q * c.f, 'writes %d numbers instead of %d' % (r.extent('A') // 8, rows * c.q * c.f), wh))
    obl.append((key + '/locals', not r.oob, 'accesses a local block out of bounds: %s' % r.oob[:2], wh))
    pa = phis(mod, 'w_pa', sp, op)
    err = ''
    for e in range(c.f):
        for n in range(c.q):
            ua = [[at(x, e, L[n][1:]) for x in u] for u in pa]
            val = [sum((ua[j][k] * atom('in', 'U0', 8 * (j + nfa * e), 8) for j in range(nfa) if ua[j][k].n.t), ZERO) for k in range(dim)]
            if ten:
                val = [sum((tval(c, tens, e, n, k, l, dim, rows) * val[l] for l in range(dim) if val[l].n.t), ZERO) for k in range(rows)]
            for k in range(rows):
                g = r.cell('A', 8 * (k + rows * n + rows * c.q * e))
                if not isinstance(g, R):
                    err = err or 'component %d at point %d of element %d is not written' % (k, n, e)
                elif not same(g, val[k]) and not all(same(reduce_roots(x), reduce_roots(y)) for x, y in zip(by_orientation(g, e), by_orientation(val[k], e))):
                    err = err or 'component %d at point %d of element %d is %s, expected %s' % (k, n, e, show(g, 200), show(val[k], 200))
    obl.append((key + '/value', not err, err, wh))
    return {'obl': obl, 'counts': cnt}


def cases4():
    out = []
    deep = TIER == 'thorough'
    ops = [(ID, S('P2')), (G, S('P1')), (ID, V3P1), (G, V3P2), ('DIV', S('RT0')), ('CURL', S('ND0')), (ID, Com(V3P1, S('P0'))), (ID, Union(S('P1'), S('B4'))), ('DUDY', S('P3')), (ID, Com(Vec(2, 'P1'), S('CR1'))), ('DIV', Vec(3, 'P2')), (G, Com(VecT(3, Union(S('P1'), S('B4'))), S('P1')))]
    for i, p in enumerate(ops):
        for j, (v, (co, ten, dyn)) in enumerate(VARIANT.items()):
            if ten or not deep and i >= (1 if j > 13 else 4) and (i + j) % 2:
                continue
            if dyn and p[0] not in p[1].ops(True) or not dyn and p[0] not in p[1].ops():
                continue
            big = p[1].nfa() > 12
            q, f = 1 if v == 'X one point' else 2, 1 if co == 'X' else 2
            if p[1].nfa() >= 30:
                q = f = 1
            out.append((Case('', 'app', p, (ID, Rows(1)), v, q=q, f=f), v))
            if co == 'L' and v == 'L':
                out.append((Case('', 'app', p, (ID, Rows(1)), v, q=1, f=1), v))
            if v in ('L', 'L run-time', 'X run-time', 'X') and not big:
                out.append((Case('', 'app', p, (ID, Rows(1)), v, q=3, f=f), v))
    # tensors: kind and granularity, square and not
    few = [((ID, V3P1), 3), ((ID, Com(Vec(2, 'P1'), S('P0'))), 3), ((G, S('P2')), 3), ((ID, V3P1), 2), ((ID, S('P1')), 4), ((G, V3P1), 1), ((ID, Com(S('P1'), S('P0'))), 2)]
    for i, (p, rows) in enumerate(few):
        sqr = p[1].opdim(p[0]) == rows
        for z, (tr, fu, ty) in enumerate(TRAITS):
            if not sqr and (set(ty) != {GEN} and '<-1' not in tr and '<0' not in tr):
                continue
            if not sqr:
                ty = (GEN,)
            for v in ('D L', 'D X', 'D L memory', 'D X memory'):
                if own(v) and not deep and (i + z) % 4 != ('X' in v):
                    continue
                if not deep and i not in (0, 3) and (z + i + ('X' in v)) % 3:
                    continue
                out.append((Case('', 'app', p, (ID, Rows(rows)), v, traits=tr, fused=fu, types=ty, q=2, f=2 if 'L' in v else 1), v))
    return out


def i04(c):
    collect(c, [(one, x) for x in cases4() if ONLY in '%s %s %s' % (x[1], x[0].a[1].name, x[0].traits)])


if __name__ == '__main__':
    main('I04', 'Values at points equal the operator applied to the function, times the tensor, in every interface.', i04)
