"""P01: interpolation onto the degrees of freedom of chosen parts of the tetrahedron, dof by dof, by a constant or by the projection on a region."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from asm import *
from dof import bary
import asm
import avn
avn.POS.add(atom_id('n0'))   # the positions of iterators are handed over as joined integers

ONLY = os.environ.get('ONLY', '')
NV = {'n': 4, 'e': 6, 'f': 4, 'c': 1}
FACEV = [(0, 1, 2), (1, 2, 3), (2, 3, 0), (3, 0, 1)]
PLACES = {'P0': 'c', 'P1': 'n', 'P2': 'ne', 'P3': 'neef', 'B2': 'e', 'B4': 'c', 'CR1': 'f', 'RT0': 'f', 'ND0': 'e'}


def places(sp):
    """element carrying each degree of freedom"""
    if sp.kind in ('Vec', 'VecT'):
        return places(sp.parts[0]) * sp.n
    if sp.parts:
        return sum((places(p) for p in sp.parts), [])
    s = PLACES[sp.kind]
    return sum(([(k, i) for i in range(NV[k]) for _ in range(s.count(k))] for k in 'nefc' if k in s), [])


def closure(k, i):
    if k == 'n':
        return {(k, i)}
    vs = set(EDGES[i] if k == 'e' else FACEV[i] if k == 'f' else range(4))
    out = {(k, i)} | {('n', v) for v in vs} | {('e', j) for j, e in enumerate(EDGES) if set(e) <= vs}
    return out | ({('f', j) for j in range(4)} if k == 'c' else set())


CALL = {'n': 'setNode(%d)', 'e': 'setEdge(%d, %s)', 'f': 'setFace(%d, %s)'}


def pick(k, i, cl=False):
    b = 'true' if cl else 'false'
    code = 'sp.setCell(%s);' % b if k == 'c' else 'sp.' + (CALL[k] % (i if k == 'n' else (i, b))) + ';'
    return ('%s%d%s' % (k, i, ' closed' if cl else ''), code, closure(k, i) if cl else {(k, i)})


def both(*s):
    return (' + '.join(x[0] for x in s), ' '.join(x[1] for x in s), set().union(*[x[2] for x in s]))


PART = [pick('n', i) for i in range(4)] + [pick(k, i, cl) for k in 'ef' for i in range(NV[k]) for cl in (0, 1)] + [pick('c', 0), pick('c', 0, 1)]
MIX = [('none', '', set()), both(pick('n', 1), pick('e', 4), pick('f', 2)), both(pick('f', 1, 1), pick('c', 0)), both(pick('f', 0, 1), pick('f', 3, 1), pick('e', 1)),
       both(pick('e', 0, 1), pick('e', 5, 1)), both(pick('n', 0), pick('n', 3), pick('c', 0)), ('nodes and edges', 'sp.setNodes(); sp.setEdges();', {(k, i) for k in 'ne' for i in range(NV[k])}),
       ('faces', 'sp.setFaces();', {('f', i) for i in range(4)})]

PRMS = ', '.join('const double* __restrict XY%d' % i for i in range(4)) + ', double* __restrict U, double* __restrict D, int* __restrict I, long* __restrict R, DenseMatrix<>* __restrict Mx, void* UD, double* __restrict C'
PARGS = ['XY0', 'XY1', 'XY2', 'XY3', 'U', 'D', 'I', 'R', 'Mx', 'UD', 'C']
HF = 'extern "C" int h_f(const std::array<double, 3>& X, double* res, uint dim, void* user_data);\n#define TT Tetra<const double>(XY0, XY1, XY2, XY3)\n' \
     'struct Fn { double* c; int operator()(const std::array<double, 3>& X, double* res, uint dim, void* ud) const { int r = h_f(X, res, dim, ud); for (uint i = 0; i < dim; ++i) res[i] *= *c; return r; } };\n' \
     'static DynMem<double, int>* dynmem(){ static DynMem<double, int> m; return &m; }\n' + OWNMEM
PM = 'R[0] = req.dSize; R[1] = req.iSize; R[2] = req.mSize; PlainMemoryX<> pm; pm.ddata = D; pm.idata = I; pm.dSize = req.dSize; pm.iSize = req.iSize; pm.mdata = Mx; pm.mSize = req.mSize;'
PM1 = 'R[0] = req.dSize; R[1] = req.iSize; PlainMemory<> pm; pm.ddata = D; pm.idata = I; pm.dSize = req.dSize; pm.iSize = req.iSize;'


OWN = 'OwnMem wm(D, I, Mx, R); DynMem<>& pm = wm;'


def wit(name, body):
    return 'extern "C" void %s(%s){\n    %s\n}\n' % (name, PRMS, body)


def code(sp, nfa, ord, how, sel='', extra=''):
    """one interpolation call"""
    out = []
    v = sp.dyn(out)
    space = ' '.join(out)
    base = 'const BaseFemSpace& bs = %s;' % v
    t = sp.ctype()
    own = how.endswith(' memory')
    how = how[:-7] if own else how
    mem = lambda req: OWN if own else 'auto req = bs.%s; %s' % (req, PM)
    u = 'ArrayView<> ud(U, %d);' % nfa
    spc = 'DofT::TetGeomSparsity sp; %s' % sel
    return {
        'one': lambda: '%s %s %s %s bs.interpolateOnDOF(TT, h_f, ud, %s, pm, UD, %d);' % (space, base, u, mem('interpolateOnDOF_mem_req(%s, 1, %d)' % (extra, ord)), extra, ord),
        'one functor': lambda: '%s %s %s %s bs.interpolateOnDOF(TT, Fn{C}, ud, %s, pm, UD, %d);' % (space, base, u, mem('interpolateOnDOF_mem_req(%s, 1, %d)' % (extra, ord)), extra, ord),
        'one template': lambda: '%s Dof<%s >::interpolate(TT, h_f, ud, %s, UD, %d);' % (u, t, extra, ord),
        'run-time': lambda: '%s %s %s %s %s bs.interpolateByDOFs(TT, h_f, ud, sp, pm, UD, %d);' % (space, base, u, spc, mem('interpolateByDOFs_mem_req(%d)' % ord), ord),
        'run-time functor': lambda: '%s %s %s %s %s bs.interpolateByDOFs(TT, Fn{C}, ud, sp, pm, UD, %d);' % (space, base, u, spc, mem('interpolateByDOFs_mem_req(%d)' % ord), ord),
        'run-time part': lambda: '%s %s %s %s int ex[] = {%s}; auto vw = bs.dofMap().GetNestedDofMapView(ex, sizeof(ex)/sizeof(int)); %s bs.interpolateByDOFs(TT, Fn{C}, ud, sp, vw, pm, UD, %d);' % (
            space, base, u, spc, ', '.join(map(str, extra)), mem('interpolateByDOFs_mem_req(%d)' % ord), ord),
        'template': lambda: '%s %s interpolateByDOFs<%s >(TT, h_f, ud, sp, UD, %d);' % (u, spc, t, ord),
        'constant run-time': lambda: '%s %s %s %s bs.interpolateConstant(C[0], ud, sp);' % (space, base, u, spc),
        'constant run-time part': lambda: '%s %s %s %s int ex[] = {%s}; auto vw = bs.dofMap().GetNestedDofMapView(ex, sizeof(ex)/sizeof(int)); bs.interpolateConstant(C[0], ud, sp, vw);' % (space, base, u, spc, ', '.join(map(str, extra))),
        'constant template': lambda: '%s %s interpolateConstant<%s >(C[0], ud, sp);' % (u, spc, t),
        'region run-time': lambda: '%s %s %s auto req = bs.interpolateOnRegion_mem_req(%s, %d); %s bs.interpolateOnRegion(TT, BaseFemSpace::EvalFunctor(Fn{C}), ud, %s, %s, pm, UD, %d);' % (space, base, u, extra[0], ord, PM, extra[0], extra[1], ord),
        'region template': lambda: '%s auto req = interpolateByRegion_memory_requirements<%s, double, int>(%s, %d); %s interpolateByRegion<%s >(TT, Fn{C}, ud, %s, %s, pm, UD, %d);' % (u, t, extra[0], ord, PM1, t, extra[0], extra[1], ord),
        'region memory-less': lambda: '%s interpolateByRegion<%s >(TT, Fn{C}, ud, %s, %s, UD, %d);' % (u, t, extra[0], extra[1], ord),
    }[how]()


class Func:
    """the interpolated function: one unknown value per point and component"""
    def __init__(self, dim):
        self.dim, self.calls, self.bad = dim, 0, ''

    def __call__(self, ev, a, i):
        X = [ev.load(avn.Ptr(a[0].base, a[0].off + lift(8 * k)), 8, 'f64') for k in range(3)]
        l = bary(X)
        if l is None:
            raise Broken('the function is evaluated at a point that is not an affine combination of the vertices')
        key = tuple(round(float(c.const()), 9) + 0.0 for c in l)
        if int(a[2].const()) != self.dim:
            self.bad = self.bad or 'the function is asked for %s values instead of %d' % (a[2].const(), self.dim)
        if not (isinstance(a[3], avn.Ptr) and a[3].base == 'UD'):
            self.bad = self.bad or 'the user data is not passed on to the function'
        self.calls += 1
        for j in range(int(a[2].const())):
            ev.store(avn.Ptr(a[1].base, a[1].off + lift(8 * j)), atom('F', key, j), 8)
        return ZERO


def load(ev, base, off, sz, ty):
    if base == 'C' and off == 0 and sz == 8:
        return atom('C')
    return onload(ev, base, off, sz, ty)


def touched(r, nfa):
    t = sorted({o // 8 for o, s in r.touched.get('U', {}) if 'w' in r.touched['U'][o, s]})
    rd = sorted({o // 8 for o, s in r.touched.get('U', {}) if 'r' in r.touched['U'][o, s] and o // 8 not in t})
    return t, rd


def memory(obl, key, r, dyn, wh):
    for base, c, unit in (('D', 0, 8), ('I', 8, 4)) + ((('Mx', 16, 32),) if dyn else ()):
        size = int(need_const(r.cell('R', c), 'requirement'))
        obl.append((key + '/memory ' + base, r.extent(base) <= size * unit, 'touches %d units of workspace %s, %d announced' % (-(-r.extent(base) // unit), base, size), wh))


def parts(sp):
    """the components a caller may address: (chain, dofs)"""
    out = []

    def go(s, chain, shift):
        if s.kind in ('Vec', 'VecT'):
            ps = [s.parts[0]] * s.n
        elif s.kind == 'Com':
            ps = s.parts
        else:
            return
        k = shift
        for i, p in enumerate(ps):
            out.append((chain + [i], list(range(k, k + p.nfa()))))
            go(p, chain + [i], k)
            k += p.nfa()
    go(sp, [], 0)
    return out


def by_dofs(sp, sels, ord):
    nfa, dim = sp.nfa(), sp.dim()
    place = places(sp)
    chains = parts(sp)
    jobs, src = [], PRE_DYN + HF
    for i in range(nfa):
        for how in ('one', 'one template'):
            src += wit('w_%s%d' % (how.replace(' ', '_'), i), code(sp, nfa, ord, how, extra=str(i)))
    for n, s in enumerate(sels):
        for how in ('run-time', 'template', 'run-time functor', 'constant run-time', 'constant template'):
            if how == 'run-time functor' and n % 3:
                continue
            jobs.append((how, s, '', set(range(nfa))))
        if n % 3:
            jobs.append(('run-time memory' if n % 3 == 1 else 'run-time functor memory', s, '', set(range(nfa))))
        for ch, ds in chains[:]:
            if (n + len(jobs)) % 4 == 0 or n == 0:
                jobs.append(('run-time part memory' if len(jobs) % 2 else 'run-time part', s, ch, set(ds)))
            if (n + len(jobs)) % 3 == 0 or n == 0:
                jobs.append(('constant run-time part', s, ch, set(ds)))
    solo = [(how, i) for how in ('one memory', 'one functor', 'one functor memory') for i in range(nfa) if nfa < 8 or i % 3 == 1]
    jobs += [(how, ('dof %d' % i, '', {place[i]}), i, {i}) for how, i in solo]
    for n, (how, s, extra, _) in enumerate(jobs):
        src += wit('w_j%d' % n, code(sp, nfa, ord, how, s[1], extra))
    mod = witness_ir(src, name='interp', light=True)
    cnt = {'selections': 0, 'values': 0}
    single = {}
    obl = []
    for how in ('one', 'one template'):
        for i in range(nfa):
            f = Func(dim)
            r = run(mod, 'w_%s%d' % (how.replace(' ', '_'), i), PARGS, calls={'h_f': f}, load=load)
            single[how, i] = r.cell('U', 8 * i)
    for n, (how, s, extra, dofs) in enumerate(jobs):
        f = Func(dim)
        key = '%s/%s%s/%s/o%d' % (sp.name, how, ' ' + '.'.join(map(str, extra)) if isinstance(extra, list) else '', s[0], ord)
        wh = 'anifem++/fem: interpolation of %s on %s (%s)' % (sp.name, s[0], how)
        r = run(mod, 'w_j%d' % n, PARGS, calls={'h_f': f}, load=load)
        if r.noreturn:
            obl.append((key + '/evaluates', False, 'always ends in an exception', wh))
            continue
        want = sorted(i for i in dofs if place[i] in s[2])
        t, rd = touched(r, nfa)
        obl.append((key + '/target', t == want, 'writes the degrees of freedom %s instead of %s' % (t, want), wh))
        obl.append((key + '/reads', not rd and not r.oob, 'reads degrees of freedom %s of the result or leaves a local block' % rd, wh))
        err = f.bad
        for i in want:
            g = r.cell('U', 8 * i)
            if 'constant' in how:
                w = atom('C')
            else:
                w = single['one template' if how == 'template' else 'one', i]
                if how.replace(' memory', '') in ('run-time functor', 'run-time part', 'one functor') and isinstance(w, R):
                    w = w * atom('C')
            cnt['values'] += 1
            if not (isinstance(g, R) and isinstance(w, R) and (same(g, w) or same(reduce_roots(g), reduce_roots(w)))):
                err = err or 'degree of freedom %d gets %s, the interpolation on that degree alone gives %s' % (i, show(g, 150) if isinstance(g, R) else g, show(w, 150) if isinstance(w, R) else w)
        cnt['selections'] += 1
        obl.append((key + '/value', not err, err, wh))
        if how.startswith(('run-time', 'one')):
            memory(obl, key, r, True, wh)
    return {'obl': obl, 'counts': cnt}


REG = {'n': ('DofT::NODE', ''), 'e': ('DofT::EDGE_UNORIENT', 'segment'), 'E': ('DofT::EDGE_ORIENT', 'segment'), 'f': ('DofT::FACE_UNORIENT', 'triangle'), 'F': ('DofT::FACE_ORIENT', 'triangle'), 'c': ('DofT::CELL', 'tetrahedron')}


def region(sp, which, ord, hows):
    nfa, dim = sp.nfa(), sp.dim()
    place = places(sp)
    ucalls = [(k, i) for k, i in which]
    src = PRE_DYN + HF + w_apply('w_pa', sp.ctype(), 'IDEN', 1, 1)
    for sh, nv in (('segment', 2), ('triangle', 3), ('tetrahedron', 4)):
        src += (RULE % (sh, ord, nv, nv)).replace('w_rule', 'w_rule_' + sh)
    jobs = [(how, k, i) for how in hows for k, i in ucalls]
    for n, (how, k, i) in enumerate(jobs):
        src += wit('w_j%d' % n, code(sp, nfa, ord, how, extra=(REG[k][0], str(i))))
    node = [i for k, i in which if k == 'n']
    for n, i in enumerate(sorted({d for d in range(nfa) if place[d] in [('n', j) for j in node]})):
        for how in ('one', 'one template'):
            src += wit('w_%s%d' % (how.replace(' ', '_'), i), code(sp, nfa, ord, how, extra=str(i)))
    mod = witness_ir(src, name='region', light=True)
    pa = phis(mod, 'w_pa', sp, 'IDEN')
    rules = {}
    for sh, nv in (('segment', 2), ('triangle', 3), ('tetrahedron', 4)):
        r = run(mod, 'w_rule_' + sh, ['P', 'W', 'R'])
        np = int(need_const(r.cell('R', 0), 'points'))
        rules[sh] = [([r.cell('P', 8 * (nv * n + k)) for k in range(nv)], r.cell('W', 8 * n)) for n in range(np)]
    obl, cnt = [], {'regions': 0, 'matrix_entries': 0}
    for n, (how, k, i) in enumerate(jobs):
        name = {'E': 'oriented ', 'F': 'oriented '}.get(k, '') + {'n': 'node', 'e': 'edge', 'f': 'face', 'c': 'cell'}[k.lower()] + str(i)
        key = '%s/%s/%s/o%d' % (sp.name, how, name, ord)
        wh = 'anifem++/fem: interpolation of %s over %s (%s)' % (sp.name, name, how)
        f = Func(dim)
        solves = []

        def solve(kind):
            def h(ev, a, ins):
                A, B, N, M, X = (a[0], a[1], int(a[2].const()), int(a[3].const()), a[4])
                ld = lambda p, j: ev.load(avn.Ptr(p.base, p.off + lift(8 * j)), 8, 'f64')
                m = [[ld(A, x + N * y) for y in range(N)] for x in range(N)]
                b = [[ld(B, x + N * y) for y in range(M)] for x in range(N)]
                if kind == 'spd' and isinstance(a[5], avn.Ptr):
                    for j in range(N * (N + 1) // 2):
                        ev.store(avn.Ptr(a[5].base, a[5].off + lift(8 * j)), atom('factor', len(solves), j), 8)
                for y in range(M):
                    for x in range(N):
                        ev.store(avn.Ptr(X.base, X.off + lift(8 * (x + N * y))), atom('SOL', len(solves), x, y), 8)
                solves.append((m, b, N, M))
                return None
            return h
        r = run(mod, 'w_j%d' % n, PARGS, calls={'h_f': f, '_ZN3Ani14cholesky_solveIdEEvPKT_S3_iiPS1_S4_': solve('spd')}, load=load)
        if r.noreturn:
            obl.append((key + '/evaluates', False, 'always ends in an exception', wh))
            continue
        kk = k.lower()
        sel = closure(kk, i)
        want = sorted(d for d in range(nfa) if place[d] in sel)
        t, rd = touched(r, nfa)
        obl.append((key + '/target', t == want, 'writes the degrees of freedom %s instead of %s' % (t, want), wh))
        obl.append((key + '/reads', not rd and not r.oob, 'reads degrees of freedom %s of the result or leaves a local block' % rd, wh))
        if 'memory-less' not in how:
            memory(obl, key, r, 'run-time' in how, wh)
        err = f.bad
        cnt['regions'] += 1
        if kk == 'n':
            w1 = 'one template' if 'run-time' not in how else 'one'
            for d in want:
                f1 = Func(dim)
                w = run(mod, 'w_%s%d' % (w1.replace(' ', '_'), d), PARGS, calls={'h_f': f1}, load=load).cell('U', 8 * d)
                g = r.cell('U', 8 * d)
                if not (isinstance(g, R) and isinstance(w, R) and same(g, w * atom('C'))):
                    err = err or 'degree of freedom %d gets %s' % (d, show(g, 150) if isinstance(g, R) else g)
            obl.append((key + '/value', not err, err, wh))
            continue
        if not want:
            obl.append((key + '/value', not err, err, wh))
            continue
        vs = EDGES[i] if kk == 'e' else FACEV[i] if kk == 'f' else range(4)
        pts = []
        for p, w in rules[REG[kk][1]]:
            lam4 = [ZERO] * 4
            for q, v in enumerate(vs):
                lam4[v] = p[q]
            pts.append((lam4, w))
        M0 = [[ZERO] * len(want) for _ in want]
        B0 = [ZERO] * len(want)
        for lam4, w in pts:
            val = [[at(pa[d][c], 0, lam4[1:]) for c in range(dim)] for d in want]
            fk = tuple(round(float(c.const()), 9) + 0.0 for c in lam4[1:])
            for x in range(len(want)):
                B0[x] = B0[x] + w * sum((val[x][c] * atom('F', fk, c) * atom('C') for c in range(dim)), ZERO)
                for y in range(len(want)):
                    M0[x][y] = M0[x][y] + w * sum((val[x][c] * val[y][c] for c in range(dim)), ZERO)
        eqv = lambda p, q: same(p, q) or same(reduce_roots(p), reduce_roots(q)) or all(same(reduce_roots(x), reduce_roots(y)) for x, y in zip(by_orientation(p), by_orientation(q)))
        U = [r.cell('U', 8 * d) for d in want]
        if any(not isinstance(u, R) for u in U):
            err = err or 'a value is missing'
        elif len(solves) == 1:
            m, b, N, Mc = solves[0]
            perm = []
            for u in U:
                a = [x for x in range(N) if same(u, atom('SOL', 0, x, 0))]
                perm.append(a[0] if a else None)
            if N != len(want) or Mc != 1 or None in perm or len(set(perm)) != N:
                err = err or 'the system has %d unknowns for the %d degrees of freedom of the region, or its solution is not stored as solved' % (N, len(want))
            else:
                sc = ratio(m[perm[0]][perm[0]], M0[0][0]) if isinstance(m[perm[0]][perm[0]], R) else None
                sc = lift(sc or 1)
                for x in range(N):
                    if not eqv(b[perm[x]][0], B0[x] * sc):
                        err = err or 'right-hand side of degree of freedom %d is %s, expected %s' % (want[x], show(b[perm[x]][0], 150), show(B0[x] * sc, 150))
                    for y in range(N):
                        cnt['matrix_entries'] += 1
                        g = m[perm[x]][perm[y]]
                        if not isinstance(g, R):
                            err = err or 'matrix entry (%d, %d) is not set' % (want[x], want[y])
                        elif not eqv(g, M0[x][y] * sc):
                            err = err or 'matrix entry (%d, %d) is %s, expected %s' % (want[x], want[y], show(g, 150), show(M0[x][y] * sc, 150))
        else:
            # solved some other way: the values themselves have to satisfy the equations
            for x in range(len(want)):
                res = sum((M0[x][y] * U[y] for y in range(len(want))), ZERO) - B0[x]
                if not eqv(res, ZERO):
                    err = err or 'the values do not satisfy the equation of degree of freedom %d' % want[x]
        obl.append((key + '/value', not err, err, wh))
    return {'obl': obl, 'counts': cnt}


V3, V2 = Vec(3, 'P1'), Vec(2, 'P2')


def p01(c):
    deep = TIER == 'thorough'
    jobs = []
    spaces = ELEM + [V3, V2, Vec(3, 'P0'), VecT(2, S('ND0')), Com(V3, S('P0')), Com(V2, S('P1')), Com(S('RT0'), S('P0')), Com(VecT(2, Com(S('P1'), S('B4'))), S('CR1')), Union(S('P1'), S('B4')), VecT(3, Union(S('P1'), S('B4'))), Com(VecT(3, Union(S('P1'), S('B4'))), S('P1'))]
    for n, s in enumerate(spaces):
        sels = PART + MIX if deep or s in ELEM and s.nfa() <= 10 else [x for k, x in enumerate(PART + MIX) if (k + n) % 3 == 0 or k >= len(PART)]
        jobs.append((by_dofs, (s, sels, 5)))
        if deep:
            jobs.append((by_dofs, (s, MIX, 2)))
    allr = [(k, i) for k in 'nef' for i in range(NV[k])] + [('c', 0), ('E', 2), ('F', 1)]
    for n, s in enumerate(spaces):
        if s.nfa() > 20 and not deep:
            continue
        some = allr if s.nfa() <= 6 or deep else [x for k, x in enumerate(allr) if (k + n) % 2 == 0 or k >= 14]
        jobs.append((region, (s, some, 2, ['region template', 'region run-time'])))
    jobs.append((region, (S('P2'), allr[4:6] + allr[10:12] + allr[14:15], 3, ['region memory-less'])))
    jobs = [j for j in jobs if not ONLY or ONLY in '%s %s' % (j[0].__name__, j[1][0].name)]
    jobs.sort(key=lambda j: -j[1][0].nfa())
    c.count('spaces', len(spaces))
    collect(c, jobs)
    c.assumptions = ['elements are non-degenerate; the Cholesky solution of the projection system is taken as the solution (decided by G02)']


if __name__ == '__main__':
    main('P01', 'Interpolation sets exactly the degrees of freedom on the chosen parts, each to its own functional, to the constant, or to the projection on the region.', p01)
