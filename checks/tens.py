"""E01: strain invariants, their derivatives and stress transformations.  E02: algebra of the physical tensors."""
import itertools
import os
import sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from frame import *
from fem import same
from alg import *
import avn
from ad import HEAD, inp, fn, sym_id, canon, eq, UN

ONLY = os.environ.get('ONLY', '')
SIG = 'const double* __restrict A, const double* __restrict B, const double* __restrict C, const double* __restrict S, double* __restrict O'
# kind of object: C++ type, number of stored values, access to component, symmetric storage position
def arr(nm, n, s=0):
    return 'std::array<double, %d>{%s}' % (n, ', '.join('%s[%d]' % (nm, s + i) for i in range(n)))


def nst(k, N):
    return {'arr': N, 'sym': N * (N + 1) // 2, 'mtx': N * N, 't4': N ** 4, 's4': N * N * (N * N + 1) // 2, 'b4': (N * (N + 1) // 2) * (N * (N + 1) // 2 + 1) // 2}[k]


def ctype(k, N):
    return {'arr': 'PhysArr<%d>', 'sym': 'SymMtx<%d>', 'mtx': 'PhysMtx<%d>', 't4': 'Tensor4Rank<%d>', 's4': 'SymTensor4Rank<%d>', 'b4': 'BiSymTensor4Rank<%d>'}[k] % N


def rank(k):
    return {'arr': 1, 'sym': 2, 'mtx': 2}.get(k, 4)


def pos(k, N, ix):
    """documented storage position of a component"""
    if k == 'arr':
        return ix[0]
    if k == 'sym':
        return sym_id(N, *ix)
    if k == 'mtx':
        return N * ix[0] + ix[1]
    i, j, q, l = ix
    if k == 't4':
        return l + N * (q + N * (j + N * i))
    if k == 's4':
        return sym_id(N * N, j + N * i, l + N * q)
    return sym_id(N * (N + 1) // 2, sym_id(N, i, j), sym_id(N, q, l))


def comps(k, N):
    return list(itertools.product(range(N), repeat=rank(k)))


def acc(k, v, ix):
    return '%s[%d]' % (v, ix[0]) if k == 'arr' else '%s(%s)' % (v, ', '.join(map(str, ix)))


def val(k, N, nm):
    return {ix: inp(nm, pos(k, N, ix)) for ix in comps(k, N)}


def make(k, N, nm):
    return '%s(%s)' % (ctype(k, N), arr(nm, nst(k, N)))


class W:
    """one operation: C++ statements with result kind, and the expected components"""
    def __init__(self, name, decl, expr, rk, N, want, where):
        self.name, self.decl, self.expr, self.rk, self.N, self.want, self.where = name, decl, expr, rk, N, want, where

    def code(self, i):
        if self.rk == 'num':
            out = 'O[0] = %s;' % self.expr
        elif self.rk == 'raw':
            out = self.expr
        else:
            out = 'auto r = %s; ' % self.expr
            out += ' '.join('O[%d] = %s;' % (n, acc(self.rk, 'r', ix)) for n, ix in enumerate(comps(self.rk, self.N)))
        return 'extern "C" void w_%d(%s){ %s %s }\n' % (i, SIG, self.decl, out)

    def keys(self):
        if self.rk == 'num':
            return [()]
        if self.rk == 'raw':
            return list(self.want)
        return comps(self.rk, self.N)


UNITS = []


def unit(i):
    return run(UNITS[i])


def run(ws):
    obl = []
    try:
        mod = witness_ir(HEAD + ''.join(w.code(i) for i, w in enumerate(ws)), name='tens')
    except CompileError as e:
        if len(ws) > 1:
            return {'obl': sum((run([w])['obl'] for w in ws), []), 'counts': {'operations': len(ws)}}
        msg = [x for x in str(e).split('\n') if 'error:' in x][:1] or [str(e)]
        return {'obl': [(ws[0].name, False, 'does not compile: ' + msg[0][-300:], ws[0].where)], 'counts': {'operations': 1}}
    for i, w in enumerate(ws):
        ev = avn.Eval(mod, 'w_%d' % i, args={n: avn.Ptr(x) for n, x in enumerate(['A', 'B', 'C', 'S', 'O'])})
        try:
            r = ev.run()
        except avn.Opaque as e:
            raise Broken('%s: %s' % (w.name, e))
        bad = None
        if r.noreturn:
            bad = 'always ends in an exception'
        for n, ix in enumerate(w.keys()):
            if bad:
                break
            v = r.cell('O', 8 * n)
            e = lift(w.want[ix])
            if not isinstance(v, R) or not eq(v, e):
                bad = 'component %s is %s instead of %s' % (ix, show(v, 120) if isinstance(v, R) else 'never written', show(e, 120))
        obl.append((w.name, bad is None, bad or '', w.where))
    return {'obl': obl, 'counts': {'operations': len(ws)}}


# ---- matrices here -------------------------------------------------------------------------------------------------
def S(xs):
    t = ZERO
    for x in xs:
        t = t + x
    return t


def mul(a, b, N):
    return {(i, j): S(a[i, k] * b[k, j] for k in range(N)) for i in range(N) for j in range(N)}


def tr(a, N):
    return {(i, j): a[j, i] for i in range(N) for j in range(N)}


def det3(a):
    return S(a[0, p[0]] * a[1, p[1]] * a[2, p[2]] * s for p, s in (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((0, 2, 1), -1), ((2, 1, 0), -1), ((1, 0, 2), -1)))


def adj3(a):
    # inverse times determinant
    return {(i, j): a[(j + 1) % 3, (i + 1) % 3] * a[(j + 2) % 3, (i + 2) % 3] - a[(j + 1) % 3, (i + 2) % 3] * a[(j + 2) % 3, (i + 1) % 3] for i in range(3) for j in range(3)}


def eye(N, c=1):
    return {(i, j): (lift(c) if i == j else ZERO) for i in range(N) for j in range(N)}


def algebra():
    out = []
    PT = 'anifem++/autodiff/physical_tensors.inl'
    P3 = 'anifem++/autodiff/physical_tensors_3d.inl'
    for N in (2, 3, 4):
        wh = P3 if N == 3 else PT
        kinds = ['arr', 'sym', 'mtx', 't4', 's4', 'b4']
        if N == 4:
            kinds = ['arr', 'sym', 'mtx'] + (['s4', 'b4'] if TIER == 'thorough' else [])
        for k in kinds:
            T = ctype(k, N)
            cs = comps(k, N)
            a, b = val(k, N, 'A'), val(k, N, 'B')
            s0 = inp('S', 0)
            d = 'auto a = %s, b = %s; ' % (make(k, N, 'A'), make(k, N, 'B'))

            def add(nm, expr, rk, want, decl=None):
                out.append(W('%s %s' % (T, nm), d if decl is None else decl, expr, rk, N, want, wh))
            add('components', 'a', k, a)
            add('+', 'a + b', k, {i: a[i] + b[i] for i in cs})
            add('-', 'a - b', k, {i: a[i] - b[i] for i in cs})
            add('negation', '-a', k, {i: -a[i] for i in cs})
            add('* number', 'a * S[0]', k, {i: a[i] * s0 for i in cs})
            add('number *', 'S[0] * a', k, {i: a[i] * s0 for i in cs})
            add('/ number', 'a / S[0]', k, {i: a[i] / s0 for i in cs})
            add('+=', '(a += b)', k, {i: a[i] + b[i] for i in cs})
            add('-=', '(a -= b)', k, {i: a[i] - b[i] for i in cs})
            add('*=', '(a *= S[0])', k, {i: a[i] * s0 for i in cs})
            add('/=', '(a /= S[0])', k, {i: a[i] / s0 for i in cs})
            add('SquareFrobNorm', 'a.SquareFrobNorm()', 'num', {(): S(a[i] * a[i] for i in cs)})
            add('Dot', 'a.Dot(b)', 'num', {(): S(a[i] * b[i] for i in cs)})
            if rank(k) == 4:
                wr = cs[-1][:1] + cs[1][1:]
                p = pos(k, N, wr)
                add('write through (i,j,k,l)', '(a(%s) = S[0], a)' % ', '.join(map(str, wr)), k, {i: (s0 if pos(k, N, i) == p else a[i]) for i in cs})
                for mk_ in (['sym'] if k == 'b4' else ['sym', 'mtx']):
                    x, y = val(mk_, N, 'A'), val(mk_, N, 'B')
                    dd = 'auto a = %s, b = %s; ' % (make(mk_, N, 'A'), make(mk_, N, 'B'))
                    add('TensorSquare(%s)' % mk_, '%s::TensorSquare(a)' % T, k, {i: x[i[:2]] * x[i[2:]] for i in cs}, dd)
                    add('TensorSymMul2(%s)' % mk_, '%s::TensorSymMul2(a, b)' % T, k, {i: x[i[:2]] * y[i[2:]] + y[i[:2]] * x[i[2:]] for i in cs}, dd)
            if rank(k) == 2:
                x, y = val('arr', N, 'B'), val('arr', N, 'C')
                dv = 'auto a = %s; auto f = %s; auto s = %s; ' % (make(k, N, 'A'), make('arr', N, 'B'), make('arr', N, 'C'))
                add('Trace', 'a.Trace()', 'num', {(): S(a[i, i] for i in range(N))})
                mv = {(i,): S(a[i, j] * x[j,] for j in range(N)) for i in range(N)}
                add('Mul(PhysArr)', 'a.Mul(f)', 'arr', mv, dv)
                add('Mul(array)', 'a.Mul(%s)' % arr('B', N), 'arr', mv)
                add('Dot(f, s)', 'a.Dot(f, s)', 'num', {(): S(a[i, j] * x[i,] * y[j,] for i in range(N) for j in range(N))}, dv)
                add('Identity', '%s::Identity(S[0])' % T, k, {i: (s0 if i[0] == i[1] else ZERO) for i in cs}, '')
                x1, y1 = val('arr', N, 'A'), val('arr', N, 'B')
                df = 'auto f = %s; auto s = %s; ' % (make('arr', N, 'A'), make('arr', N, 'B'))
                add('TensorSquare', '%s::TensorSquare(f)' % T, k, {i: x1[i[0],] * x1[i[1],] for i in cs}, df)
                add('TensorSymMul2', '%s::TensorSymMul2(f, s)' % T, k, {i: x1[i[0],] * y1[i[1],] + x1[i[1],] * y1[i[0],] for i in cs}, df)
                add('write through (i,j)', '(a(%d, 0) = S[0], a)' % (N - 1), k, {i: (s0 if pos(k, N, i) == pos(k, N, (N - 1, 0)) else a[i]) for i in cs})
                ab = mul(a, b, N)
                if k == 'mtx':
                    add('*', 'a * b', k, ab)
                    add('Transpose', 'a.Transpose()', k, tr(a, N))
                    add('Sym', 'a.Sym()', 'sym', {i: (a[i] + a[i[1], i[0]]) / 2 for i in cs})
                    add('column-major', '%s(%s, false)' % (T, arr('A', N * N)), k, tr(a, N), '')
                else:
                    # a symmetric result can only hold the product of commuting matrices
                    ac = mul(a, {i: a[i] * s0 + (inp('S', 1) if i[0] == i[1] else ZERO) for i in a}, N)
                    add('* (commuting)', 'a * (a * S[0] + %s::Identity(S[1]))' % T, k, ac)
                    add('Transpose', 'a.Transpose()', k, a) if N != 3 else None
                    low = {i: inp('A', max(i) * (max(i) + 1) // 2 + min(i)) for i in cs}
                    if N != 3:
                        add('lower-triangular input', '%s(%s, false)' % (T, arr('A', nst(k, N))), k, low, '')
                    m = val('mtx', N, 'B')
                    dm = 'auto a = %s; auto m = %s; ' % (make('sym', N, 'A'), make('mtx', N, 'B'))
                    add('* PhysMtx', 'a * m', 'mtx', mul(a, m, N), dm)
                    add('PhysMtx *', 'm * a', 'mtx', mul(m, a, N), dm)
                    add('+ PhysMtx', 'a + m', 'mtx', {i: a[i] + m[i] for i in cs}, dm)
                    add('PhysMtx +', 'm + a', 'mtx', {i: a[i] + m[i] for i in cs}, dm)
                    add('- PhysMtx', 'a - m', 'mtx', {i: a[i] - m[i] for i in cs}, dm)
                    add('PhysMtx -', 'm - a', 'mtx', {i: m[i] - a[i] for i in cs}, dm)
                    add('PhysMtx(SymMtx)', 'PhysMtx<%d>(a)' % N, 'mtx', a)
                if N == 3:
                    add('Det', 'a.Det()', 'num', {(): det3(a)})
                    ad = adj3(a)
                    add('Adj', 'a.Adj()', k, ad)
                    add('Inv', 'a.Inv()', k, {i: ad[i] / det3(a) for i in cs})
            if k in ('sym', 's4', 'b4'):
                n = nst(k, N)
                f4 = ['i', 'j'] if k == 'sym' else ['i', 'j', 'k', 'l']
                st = ' '.join('{ auto q = %s::index(%d); O[%d] = %s::continuous_index(q); }' % (T, p, p, T) for p in range(n))
                add('index maps are mutually inverse', st, 'raw', {p: lift(p) for p in range(n)}, '')
                rep = {}
                for i in cs:
                    rep.setdefault(pos(k, N, i), i)
                st = ' '.join('{ auto q = %s::index(%d); %s }' % (T, p, ' '.join('O[%d] = q.%s;' % (p * len(f4) + u, x) for u, x in enumerate(f4))) for p in range(n))
                add('index of every stored value', st, 'raw', {p * len(f4) + u: lift(rep[p][u]) for p in range(n) for u in range(len(f4))}, '')
                st = ' '.join('O[%d] = a.index_duplication(%d);' % (p, p) for p in range(n))
                cnt = {}
                for i in cs:
                    cnt[pos(k, N, i)] = cnt.get(pos(k, N, i), 0) + 1
                add('multiplicity of every stored value', st, 'raw', {p: lift(cnt[p]) for p in range(n)})
                add('iteration', 'int n = 0; for (auto it = a.begin(); it != a.end(); ++it, ++n) O[n] = *it; O[n] = n;', 'raw', {p: (inp('A', p) if p < n else lift(n)) for p in range(n + 1)})
                add('iterator arithmetic', 'auto it = a.begin(); O[0] = *(it + %d); O[1] = it[%d]; it += %d; O[2] = it[-1]; O[3] = a.end() - it; O[4] = *(a.end() - 1); auto im = it--; O[5] = *im; O[6] = *it; O[7] = (it < im) + 2 * (it > im) + 4 * (it <= im) + 8 * (it >= im) + 16 * (it == im) + 32 * (it != im);' % (n // 2, n - 1, n - 2), 'raw',
                    {0: inp('A', n // 2), 1: inp('A', n - 1), 2: inp('A', n - 3), 3: lift(2), 4: inp('A', n - 1), 5: inp('A', n - 2), 6: inp('A', n - 3), 7: lift(1 + 4 + 32)})
        # conversions
        def conv(k1, k2, src=None):
            T2 = ctype(k2, N) if isinstance(k2, str) else 'PhysArr<%d>' % k2
            x = val(k1, N, 'A')
            if isinstance(k2, str):
                out.append(W('tensor_convert<%s>(%s)' % (T2, ctype(k1, N)), 'auto a = %s; ' % make(k1, N, 'A'), 'tensor_convert<%s>(a)' % T2, k2, N, src or {i: x[min_rep(k2, N, i)] for i in comps(k2, N)}, PT))

        def min_rep(k2, N, i):
            # the component whose value is stored when several components share storage
            for j in comps(k2, N):
                if pos(k2, N, j) == pos(k2, N, i):
                    return j
        for p in (('sym', 'mtx'), ('mtx', 'sym'), ('s4', 't4'), ('t4', 's4'), ('b4', 't4'), ('t4', 'b4'), ('b4', 's4'), ('s4', 'b4')):
            if N < 4 or rank(p[0]) == 2:
                conv(*p)
        for k in ('sym', 'mtx', 't4', 's4', 'b4'):
            if N == 4 and rank(k) == 4:
                continue
            n = nst(k, N)
            out.append(W('tensor_convert<PhysArr<%d>>(%s)' % (n, ctype(k, N)), 'auto a = %s; ' % make(k, N, 'A'), 'auto r = tensor_convert<PhysArr<%d>>(a); for (int i = 0; i < %d; ++i) O[i] = r[i];' % (n, n), 'raw', N, {p: inp('A', p) for p in range(n)}, PT))
            out.append(W('tensor_convert<%s>(PhysArr<%d>)' % (ctype(k, N), n), 'PhysArr<%d> a(%s); ' % (n, arr('A', n)), 'tensor_convert<%s>(a)' % ctype(k, N), k, N, val(k, N, 'A'), PT))
        n = N * N
        x = val('sym', N, 'A')
        out.append(W('tensor_convert<PhysArr<%d>>(%s)' % (n, ctype('sym', N)), 'auto a = %s; ' % make('sym', N, 'A'), 'auto r = tensor_convert<PhysArr<%d>>(a); for (int i = 0; i < %d; ++i) O[i] = r[i];' % (n, n), 'raw', N, {i * N + j: x[i, j] for i in range(N) for j in range(N)}, PT))
        out.append(W('tensor_convert<%s>(PhysArr<%d>)' % (ctype('sym', N), n), 'PhysArr<%d> a(%s); ' % (n, arr('A', n)), 'tensor_convert<%s>(a)' % ctype('sym', N), 'sym', N, {(i, j): inp('A', min(i, j) * N + max(i, j)) for i in range(N) for j in range(N)}, PT))
    return [w for w in out if w is not None]


# ---- mechanics -------------------------------------------------------------------------------------------------------
def dsym(f, nm, i, j):
    """derivative with respect to a symmetric matrix argument: W' : dE"""
    a = inp(nm, sym_id(3, i, j))
    t = min(atoms_of(a))

    def rule(x):
        if x == t:
            return ONE
        k = atom_key(x)
        if isinstance(k, tuple) and k[0] == 'fn':
            y = from_key(k[2])
            return UN[k[1]](y)[1] * diff(y, rule)
        return ZERO
    d = diff(f, rule)
    return d if i == j else d / 2


def mech():
    out = []
    CI = 'anifem++/autodiff/cauchy_strain_invariants.inl'
    CA = 'anifem++/autodiff/cauchy_strain_autodiff.h'
    E = val('sym', 3, 'A')
    C = {i: E[i] * 2 + (ONE if i[0] == i[1] else ZERO) for i in E}
    f, s = [inp('B', i) for i in range(3)], [inp('C', i) for i in range(3)]
    C2 = mul(C, C, 3)
    trC = S(C[i, i] for i in range(3))
    I3 = det3(C)
    inv = {
        'I1': (trC, ''), 'I2': ((trC * trC - S(C2[i, i] for i in range(3))) / 2, ''), 'I3': (I3, ''), 'J': (fn('sqrt', I3), ''),
        'I4fs': (S(f[i] * C[i, j] * s[j] for i in range(3) for j in range(3)), 'f, s'),
        'I5fs': (S(f[i] * C2[i, j] * s[j] for i in range(3) for j in range(3)), 'f, s'),
        'I0fs': (S(f[i] * s[i] for i in range(3)), 'f, s'),
    }
    d = 'using namespace Ani::Mech; auto E = %s; auto f = %s; auto s = %s; (void) f; (void) s; ' % (make('sym', 3, 'A'), arr('B', 3), arr('C', 3))
    for nm, (v, ar) in inv.items():
        D = {i: dsym(v, 'A', *i) for i in comps('sym', 3)}
        DD = {}
        for i in comps('b4', 3):
            p = pos('b4', 3, i)
            DD[i] = next((DD[j] for j in DD if pos('b4', 3, j) == p), None) or dsym(D[i[:2]], 'A', *i[2:])
        full = 'E' + (', ' + ar if ar else '')
        out.append(W('C_%s' % nm, d, 'C_%s(%s)' % (nm, full), 'num', 3, {(): v}, CI))
        out.append(W('C_%s_dE' % nm, d, 'C_%s_dE(%s)' % (nm, full), 'sym', 3, D, CI))
        out.append(W('C_%s_ddE' % nm, d, 'C_%s_ddE(%s)' % (nm, full), 'b4', 3, DD, CI))
        short = {'I0fs': ['C_I0fs(f, s)', 'C_I0fs_dE<double>()', 'C_I0fs_ddE<double>()'], 'I1': [None, 'C_I1_dE<double>()', 'C_I1_ddE<double>()'], 'I2': [None, None, 'C_I2_ddE<double>()'],
                 'I4fs': [None, 'C_I4fs_dE(f, s)', 'C_I4fs_ddE<double>(f, s)'], 'I5fs': [None, None, 'C_I5fs_ddE(f, s)']}.get(nm, [])
        for e, k, w in zip(short, ('num', 'sym', 'b4'), ({(): v}, D, DD)):
            if e:
                out.append(W(e, d, e, k, 3, w, CI))
        init = 'int nd = %d; ' + ('%s<> x(nd, f, s); ' if nm == 'I0fs' else '%s<> x(nd, E' + (', f, s); ' if ar else '); '))
        for nd in (0, 1, 2):
            out.append(W('%s value, order %d' % (nm, nd), d + init % (nd, nm), 'x()', 'num', 3, {(): v}, CA))
            if nd >= 1:
                out.append(W('%s gradient, order %d' % (nm, nd), d + init % (nd, nm), 'x.D()', 'sym', 3, D, CA))
        out.append(W('%s Hessian' % nm, d + init % (2, nm), 'x.DD()', 'b4', 3, DD, CA))
        out.append(W('%s order' % nm, d + init % (2, nm), 'x.m_dif', 'num', 3, {(): lift(2)}, CA))
        # re-initialisation of an existing object
        ini = 'x.Init(2, f, s)' if nm == 'I0fs' else 'x.Init(2, E%s)' % (', f, s' if ar else '')
        out.append(W('%s re-initialised' % nm, d + '%s<> x; %s; ' % (nm, ini), 'x.D()', 'sym', 3, D, CA))
        # the declared structure says which derivatives other operations may skip
        st = '%s<>::State::' % nm
        out.append(W('%s declares its derivatives' % nm, d, 'O[0] = %sNotTrivialDeriv; O[1] = %sNotTrivialSecondDeriv;' % (st, st), 'raw', 3,
                     {0: lift(int(any(D[i].const() != 0 for i in D))), 1: lift(int(any(DD[i].const() != 0 for i in DD)))}, CA))
    F, dF = val('mtx', 3, 'A'), val('mtx', 3, 'B')
    I = eye(3)
    G = {i: F[i] + I[i] for i in F}
    dm = 'using namespace Ani::Mech; auto F = %s; auto dF = %s; ' % (make('mtx', 3, 'A'), make('mtx', 3, 'B'))

    def strain(F):
        m = mul(tr(F, 3), F, 3)
        return {i: (m[i] - I[i]) / 2 for i in m}

    def dstrain(F, dF):
        m, n = mul(tr(dF, 3), F, 3), mul(tr(F, 3), dF, 3)
        return {i: (m[i] + n[i]) / 2 for i in m}
    out.append(W('F_to_E', dm, 'F_to_E(F)', 'sym', 3, strain(F), CI))
    out.append(W('grU_to_E', dm, 'grU_to_E(F)', 'sym', 3, strain(G), CI))
    out.append(W('F_and_dF_to_dE', dm, 'F_and_dF_to_dE(F, dF)', 'sym', 3, dstrain(F, dF), CI))
    out.append(W('grU_and_dgrU_to_dE', dm, 'grU_and_dgrU_to_dE(F, dF)', 'sym', 3, dstrain(G, dF), CI))
    Sv = val('sym', 3, 'B')
    dS = val('b4', 3, 'C')
    ds = 'using namespace Ani::Mech; auto F = %s; auto Sv = %s; auto dS = %s; ' % (make('mtx', 3, 'A'), make('sym', 3, 'B'), make('b4', 3, 'C'))
    out.append(W('S_to_P', ds, 'S_to_P(F, Sv)', 'mtx', 3, mul(G, Sv, 3), CI))
    D = {}
    for i, j, k, l in comps('s4', 3):
        D[i, j, k, l] = (Sv[l, j] if i == k else ZERO) + S(G[i, n] * G[k, m] * dS[n, j, m, l] for n in range(3) for m in range(3))
    out.append(W('dS_to_dP', ds, 'dS_to_dP(F, Sv, dS)', 's4', 3, D, CI))
    # stress of an energy given through automatic differentiation
    w = inv['I1'][0] * inv['J'][0] + inv['I5fs'][0] * inv['I5fs'][0]
    Dw = {i: dsym(w, 'A', *i) for i in comps('sym', 3)}
    out.append(W('gradient of I1*J + I5fs^2', d + 'auto w = I1<>(2, E) * J<>(2, E) + sq(I5fs<>(2, E, f, s)); ', 'w.D()', 'sym', 3, Dw, CA))
    return out


def body(c):
    ws = mech() if PID == 'E01' else algebra()
    if ONLY:
        ws = [w for w in ws if ONLY in w.name]
    names = [w.name for w in ws]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1][:3]
    UNITS.extend(ws[i:i + (4 if PID == 'E01' else 12)] for i in range(0, len(ws), 4 if PID == 'E01' else 12))
    collect(c, [(unit, (i,)) for i in range(len(UNITS))])
    if not ONLY:
        c.need('operations', len(ws), 70 if PID == 'E01' else 250)
    c.assumptions = ['real arithmetic; matrices to be inverted are regular; C = I + 2E positive definite'] + (
        ['determinant and inverse of general size use pivoting with a tolerance and are not covered; size 3 is'] if PID == 'E02' else [])


RULE = {'E01': 'Every invariant, its derivatives with respect to the symmetric strain and every stress transformation equals its definition as a rational function of unknown inputs.',
        'E02': 'Every tensor operation gives, component by component, the tensor expression it names; index maps and storage agree with the documented layout.'}
if __name__ == '__main__':
    PID = sys.argv[1]
    main(PID, RULE[PID], body)
