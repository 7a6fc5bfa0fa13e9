"""S01: spaces built with the composition operators and functions behave as the composition they denote."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from asm import *
from interp import places, parts, closure, Func, load, TIER
import asm
import avn

ONLY = os.environ.get('ONLY', '')
P0, P1, P2, P3, B2, B4, CR1, RT0, ND0 = [S(k) for k in ('P0', 'P1', 'P2', 'P3', 'B2', 'B4', 'CR1', 'RT0', 'ND0')]
VAR = {k: 'l%s' % k for k in DYN}
LEAVES = ' '.join('FemSpace %s{%s{}};' % (VAR[k], DYN[k]) for k in DYN)


def Pw(s, n):
    return VecT(n, s)


# what the caller writes -> the composition it stands for
FORM = [
    ('lP1 * lP0', Com(P1, P0)), ('lRT0 * lP0', Com(RT0, P0)),
    ('lP1 * lP0 * lB2', Com(P1, P0, B2)), ('lP1 * (lP0 * lB2)', Com(P1, P0, B2)), ('(lP1 * lP0) * (lB2 * lCR1)', Com(P1, P0, B2, CR1)),
    ('lP1 + lB4', Union(P1, B4)), ('lP1 + lB2 + lB4', Union(P1, B2, B4)), ('lP1 + (lB2 + lB4)', Union(P1, B2, B4)), ('lB4 + lP1', Union(B4, P1)),
    ('lP1 ^ 3', Pw(P1, 3)), ('lP2 ^ 1', Pw(P2, 1)), ('pow(lCR1, 2)', Pw(CR1, 2)), ('(lP1 ^ 2) ^ 2', Pw(Pw(P1, 2), 2)), ('lND0 ^ 2', Pw(ND0, 2)),
    ('(lP2 ^ 3) * lP1', Com(Pw(P2, 3), P1)), ('((lP1 + lB4) ^ 3) * lP1', Com(Pw(Union(P1, B4), 3), P1)), ('(lP1 ^ 3) + (lB4 ^ 3)', Union(Pw(P1, 3), Pw(B4, 3))),
    ('(lP1 * lP0) ^ 2', Pw(Com(P1, P0), 2)), ('((lP1 * lP0) ^ 2) * lB2', Com(Pw(Com(P1, P0), 2), B2)), ('lP1 * (lP1 + lB4)', Com(P1, Union(P1, B4))), ('(lP1 + lB4) * (lP1 + lB4)', Com(Union(P1, B4), Union(P1, B4))),
    ('make_complex_raw({lP1, lP0, lB2})', Com(P1, P0, B2)), ('make_complex_raw({lP1 * lP0, lB2})', Com(Com(P1, P0), B2)), ('make_complex_raw({lCR1, lP0 * lP1})', Com(CR1, Com(P0, P1))),
    ('make_complex_with_simplification({lP1 * lP0, lB2})', Com(P1, P0, B2)), ('make_complex_with_simplification({lCR1, lP0 * lP1, lP1 + lB4})', Com(CR1, P0, P1, Union(P1, B4))),
    ('make_union_raw({lP1, lB4})', Union(P1, B4)), ('make_union_raw({lP1 + lB2, lB4})', Union(Union(P1, B2), B4)),
    ('make_union_with_simplification({lP1 + lB2, lB4})', Union(P1, B2, B4)), ('make_union_with_simplification({lB4, lP1 + lB2})', Union(B4, P1, B2)), ('make_union_with_simplification({lP1 ^ 3, lB4 ^ 3})', Union(Pw(P1, 3), Pw(B4, 3))),
    ('lP3', P3), ('lP1.copy()', P1), ('(lP1 * lP0 * lB2).copy()', Com(P1, P0, B2)), ('((lP1 + lB4) ^ 3).copy()', Pw(Union(P1, B4), 3)), ('(lP1 + lB4).copy()', Union(P1, B4)),
    ('(lP1 * lP0 * lB2).subSpace(1)', P0), ('(((lP1 * lP0) ^ 2) * lB2).subSpace({0, 1})', Com(P1, P0)), ('(((lP1 * lP0) ^ 2) * lB2).subSpace({0, 1, 0})', P1), ('(((lP1 * lP0) ^ 2) * lB2).subSpace()', Com(Pw(Com(P1, P0), 2), B2)),
    ('((lP1 + lB4) ^ 3).subSpace(2)', Union(P1, B4)), ('((lP1 + lB4) ^ 3).subSpace({2, 1})', B4), ('(lCR1 * (lND0 ^ 2)).subSpace({1, 0})', ND0),
]


def gather(sp):
    return {'Vec': 'VectorType', 'VecT': 'VectorType', 'Com': 'ComplexType', 'Union': 'UnionType'}.get(sp.kind, 'UniteType')


PRM = ', '.join('const double* __restrict XY%d' % i for i in range(4)) + ', double* __restrict XYL, double* __restrict dofs, double* __restrict U, double* __restrict D, int* __restrict I, long* __restrict R, DenseMatrix<>* __restrict Mx, void* UD'
NAMES = ['XY0', 'XY1', 'XY2', 'XY3', 'XYL', 'dofs', 'U', 'D', 'I', 'R', 'Mx', 'UD']


def fn(name, body):
    return 'extern "C" void %s(%s){\n    %s\n}\n' % (name, PRM, body)


KINDN = {1: 'n', 2: 'e', 4: 'e', 8: 'f', 16: 'f', 32: 'c'}
OWNOPS = [('own', 'IDEN'), ('view', 'GRAD'), ('own', 'DUDY'), ('own', 'GRAD'), ('view', 'IDEN')]


def form(text, sp):
    nfa, dim = sp.nfa(), sp.dim()
    make = LEAVES + ' FemSpace fs = %s; ' % text
    src = PRE_DYN + 'extern "C" int h_f(const std::array<double, 3>& X, double* res, uint dim, void* user_data);\n' + OWNMEM
    src += fn('w_info', make + 'R[0] = fs.dim(); R[1] = fs.order(); R[2] = fs.dofMap().NumDofOnTet(); R[3] = fs.gatherType() == BaseFemSpace::BaseTypes::%s; R[4] = fs.isValid();' % gather(sp))
    src += fn('w_dofs', make + 'for (int i = 0; i < %d; ++i) { auto o = fs.dofMap().LocalOrderOnTet(DofT::TetOrder(i)); R[3*i] = o.etype; R[3*i+1] = o.nelem; R[3*i+2] = o.gid; }' % nfa)
    ops = [('own', 'IDEN')] + ([('view', 'GRAD'), ('own', 'DUDZ')] if nfa <= 14 else [])
    if 'DIV' in sp.ops() and nfa <= 12:
        ops += [('own', 'DIV'), ('view', 'CURL')]
    for w, op in ops:
        src += fn('w_%s_%s' % (w, op), make + r'''
    auto A = fs.%s(%s);
    auto req = fem3DapplyL_memory_requirements(A, 1, 1);
    R[0] = req.dSize; R[1] = req.iSize; R[2] = A.Nfa(); R[3] = A.Dim(); R[4] = A.Order(); R[5] = req.mSize; R[6] = fs.dimOP(%s); R[7] = fs.orderOP(%s);
    DenseMatrix<> dm(dofs, A.Nfa(), 1), um(U, A.Dim(), 1);
    PlainMemoryX<> pm; pm.ddata = D; pm.idata = I; pm.dSize = req.dSize; pm.iSize = req.iSize; pm.mdata = Mx; pm.mSize = req.mSize;
    fem3DapplyL(make_tetras(XY0, XY1, XY2, XY3, 1), ArrayView<>(XYL, 4), dm, A, um, pm);''' % ('getOP_own' if w == 'own' else 'getOP', op, op, op))
        src += w_apply('w_p_' + op, sp.ctype(), op, 1, 1)
    for i in range(nfa):
        if nfa > 14 and i % 4:
            continue
        src += fn('w_f%d' % i, make + 'ArrayView<> ud(U, %d); auto req = fs.interpolateOnDOF_mem_req(%d, 5); R[0] = req.dSize; R[1] = req.iSize; R[2] = req.mSize; '
                  'PlainMemoryX<> pm; pm.ddata = D; pm.idata = I; pm.dSize = req.dSize; pm.iSize = req.iSize; pm.mdata = Mx; pm.mSize = req.mSize; fs.interpolateOnDOF(Tetra<const double>(XY0, XY1, XY2, XY3), h_f, ud, %d, pm, UD, 5);' % (nfa, i, i))
        src += fn('w_g%d' % i, 'ArrayView<> ud(U, %d); Dof<%s >::interpolate(Tetra<const double>(XY0, XY1, XY2, XY3), h_f, ud, %d, UD, 5);' % (nfa, sp.ctype(), i))
    mod = witness_ir(src, name='compose', light=True)
    obl = []
    key = text
    wh = 'anifem++/fem/fem_space: the space %s, standing for %s' % (text, sp.name)

    def ok(k, c, msg):
        obl.append((key + '/' + k, bool(c), msg, wh))
    r = run(mod, 'w_info', NAMES)
    if r.noreturn:
        ok('builds', False, 'always ends in an exception')
        return {'obl': obl, 'counts': {'forms': 1}}
    g = [r.cell('R', 8 * i) for i in range(5)]
    g = [int(x.const()) if isinstance(x, R) and x.const() is not None else None for x in g]
    ok('attributes', g == [dim, sp.order(), nfa, 1, 1], 'reports dimension, order, number of degrees of freedom %s instead of %s, %s kind' % (g[:3], [dim, sp.order(), nfa], 'expected' if g[3] else 'another'))
    r = run(mod, 'w_dofs', NAMES)
    pl = places(sp)
    for i in range(nfa):
        t, e, gid = [r.cell('R', 8 * (3 * i + k)) for k in range(3)]
        bad = any(not isinstance(x, R) or x.const() is None for x in (t, e, gid))
        got = None if bad else (KINDN.get(int(t.const())), int(e.const()), int(gid.const()))
        ok('dof %d' % i, got == pl[i] + (i,), 'degree of freedom %d is reported on %s instead of %s' % (i, got, pl[i] + (i,)))
    vals = 0
    for w, op in ops:
        r = run(mod, 'w_%s_%s' % (w, op), NAMES)
        p = run(mod, 'w_p_' + op, NAMES[:10])
        if r.noreturn:
            ok('%s %s' % (w, op), False, 'always ends in an exception')
            continue
        od = sp.opdim(op)
        num = [r.cell('R', 8 * i) for i in range(8)]
        num = [int(x.const()) if isinstance(x, R) and x.const() is not None else None for x in num]
        ok('%s %s/sizes' % (w, op), num[2:4] == [nfa, od] and num[6] == od and num[4] == num[7], 'reports %s degrees of freedom, dimension %s and %s, order %s and %s; expected %d and %d' % (num[2], num[3], num[6], num[4], num[7], nfa, od))
        ok('%s %s/memory' % (w, op), r.extent('D') <= 8 * num[0] and r.extent('I') <= 4 * num[1] and r.extent('Mx') <= 32 * num[5] and not r.oob, 'touches more memory than announced')
        bad = ''
        for k in range(od):
            a, b = r.cell('U', 8 * k), p.cell('U', 8 * k)
            vals += 1
            if not (isinstance(a, R) and isinstance(b, R) and (same(a, b) or all(same(x, y) for x, y in zip(by_orientation(a), by_orientation(b))))):
                bad = bad or 'component %d is %s, the composition gives %s' % (k, show(a, 150) if isinstance(a, R) else a, show(b, 150) if isinstance(b, R) else b)
        ok('%s %s/value' % (w, op), not bad, bad)
    for i in range(nfa):
        if nfa > 14 and i % 4:
            continue
        f = Func(dim)
        r = run(mod, 'w_f%d' % i, NAMES, calls={'h_f': f}, load=load)
        q = run(mod, 'w_g%d' % i, NAMES, calls={'h_f': Func(dim)}, load=load)
        a, b = r.cell('U', 8 * i), q.cell('U', 8 * i)
        vals += 1
        ok('functional %d' % i, isinstance(a, R) and isinstance(b, R) and (same(a, b) or same(reduce_roots(a), reduce_roots(b))) and not f.bad, f.bad or 'the functional is %s, the composition gives %s' % (show(a, 150) if isinstance(a, R) else a, show(b, 150) if isinstance(b, R) else b))
    return {'obl': obl, 'counts': {'forms': 1, 'values': vals}}


# spaces that are the same, and spaces that are not
EQUAL = [('lP1 * lP0 * lB2', 'lP1 * (lP0 * lB2)'), ('lP1 + lB2 + lB4', 'lP1 + (lB2 + lB4)'), ('lP1 ^ 3', 'FemSpace(VectorFemSpace(3, std::make_shared<P1Space>()))'), ('lP1', 'FemSpace(P1Space{})'),
         ('(lP2 ^ 3) * lP1', '((lP2 ^ 3) * lP1).copy()'), ('((lP1 + lB4) ^ 3) * lP1', 'make_complex_raw({make_union_raw({lP1, lB4}) ^ 3, lP1})'), ('make_complex_with_simplification({lP1 * lP0, lB2})', 'lP1 * lP0 * lB2'), ('FemSpace()', 'FemSpace()'),
         ('((lP1 * lP0) ^ 2).subSpace(1)', 'lP1 * lP0')]
DIFFER = [('lP1', 'lP2'), ('lP1', 'lB4'), ('lP1', 'lCR1'), ('lRT0', 'lND0'), ('lB2', 'lP2'), ('lP1 ^ 2', 'lP1 ^ 3'), ('lP1 ^ 2', 'lP2 ^ 2'), ('lP1 * lP0', 'lP0 * lP1'), ('lP1 * lP0', 'lP1 * lP0 * lP0'), ('lP1 + lB4', 'lP1 + lB2'), ('lP1 + lB4', 'lP1 * lB4'),
          ('lP1 + lB4', 'lP1 + lB4 + lB2'), ('lP1 ^ 2', 'lP1 * lP1'), ('lP1', 'lP1 ^ 1'), ('lP1 * (lP1 + lB4)', 'lP1 * (lP1 + lB2)'), ('((lP1 * lP0) ^ 2) * lB2', '((lP1 * lP0) ^ 2) * lP2'), ('lP1', 'FemSpace()'), ('FemSpace()', 'lP1'), ('lP0', 'lP1'), ('lB2', 'lB4')]


def equal(pairs, want):
    src = PRE_DYN
    for n, (a, b) in enumerate(pairs):
        src += fn('w_e%d' % n, LEAVES + ' FemSpace a = %s, b = %s; R[0] = a == b; R[1] = b == a; R[2] = a.getOP_own(IDEN) == b.getOP_own(IDEN); R[3] = a.getOP(GRAD) == %s.getOP(GRAD); R[4] = a.getOP(GRAD) == b.getOP(IDEN); R[5] = a == a;' % (a, b, 'a' if want else 'b') if 'FemSpace()' not in (a, b) else
                  LEAVES + ' FemSpace a = %s, b = %s; R[0] = a == b; R[1] = b == a; R[5] = a == a;' % (a, b))
    mod = witness_ir(src, name='equal', light=True)
    obl = []
    for n, (a, b) in enumerate(pairs):
        r = run(mod, 'w_e%d' % n, NAMES)
        g = [r.cell('R', 8 * i) for i in range(6)]
        g = [int(x.const()) if isinstance(x, R) and x.const() is not None else None for x in g]
        w = [want, want] + ([want, want, 0] if 'FemSpace()' not in (a, b) else [None] * 3) + [1]
        obl.append(('%s vs %s/equality' % (a, b), not r.noreturn and all(x is None or x == y for x, y in zip(w, g)), 'compares %s, expected %s (spaces both ways, operators owned, viewed, different operators, itself)' % (g, w),
                    'anifem++/fem/fem_space: comparison of %s with %s' % (a, b)))
    return {'obl': obl, 'counts': {'comparisons': len(pairs)}}


def s01(c):
    jobs = [(form, (t, s)) for t, s in FORM]
    jobs += [(equal, (EQUAL[i:i + 4], 1)) for i in range(0, len(EQUAL), 4)] + [(equal, (DIFFER[i:i + 5], 0)) for i in range(0, len(DIFFER), 5)]
    jobs = [j for j in jobs if not ONLY or ONLY in (j[1][0] if isinstance(j[1][0], str) else 'equality')]
    jobs.sort(key=lambda j: -j[1][1].nfa() if j[0] is form else 0)
    collect(c, jobs)
    c.assumptions = ['elements are non-degenerate']


if __name__ == '__main__':
    main('S01', 'A space written with the composition operators has the degrees of freedom, functionals and operator values of the composition it stands for, and compares equal to exactly the same compositions.', s01)
