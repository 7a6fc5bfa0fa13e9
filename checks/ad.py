"""A01/A02: automatic differentiation.  Every operation is applied to operands whose value, first and second derivatives
are unknowns; the returned value and derivatives are compared with the chain rule."""
import os
import sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from frame import *
from fem import same, assume_sign, need_const
from alg import *
import avn

HEAD = r'''
#include <algorithm>
#include <array>
#include <cmath>
#include <numeric>
#include "anifem++/autodiff/cauchy_strain_autodiff.h"
using namespace Ani;
'''
# storage -> (type, gradient components, hessian components); a component is (index tuple)
STORE = {
    'arr3': ('PhysArrStorageSet<3>', 3, 6, [(i,) for i in range(3)]),
    'arr2': ('PhysArrStorageSet<2>', 2, 3, [(i,) for i in range(2)]),
    'sym3': ('PhysSymTensorStorageSet<3>', 6, 21, [(i, j) for i in range(3) for j in range(3)]),
    'sym2': ('PhysSymTensorStorageSet<2>', 3, 6, [(i, j) for i in range(2) for j in range(2)]),
    'full2': ('PhysTensorStorageSet<2>', 4, 10, [(i, j) for i in range(2) for j in range(2)]),
    'full3': ('PhysTensorStorageSet<3>', 9, 45, [(i, j) for i in range(3) for j in range(3)]),
}


def leaf(kind, nm, st, nd, iv=0):
    """C++ construction of one operand reading the unknowns from array nm"""
    T, g, h, _ = STORE[st]
    arr = lambda n, s: '{%s}' % ', '.join('%s[%d]' % (nm, s + i) for i in range(n))
    G = 'typename %s::GradientType(std::array<double, %d>{%s})' % (T, g, arr(g, 1))
    H = 'typename %s::HessianType(std::array<double, %d>{%s})' % (T, h, arr(h, 1 + g))
    x = nm.lower()
    if kind == 'full':
        return 'ADVal<ADState<true, true, true>, %s> %s(%d, %s[0], %s, %s);' % (T, x, nd, nm, G, H)
    if kind == 'first':
        return 'ADVal<ADState<true, true, false>, %s> %s(%d, %s[0], %s, typename %s::HessianType());' % (T, x, nd, nm, G, T)
    if kind == 'var':
        return 'Var<%s> %s(%d, %s[0], %d);' % (T, x, iv, nm, nd)
    if kind == 'param':
        return 'Param<%s> %s(%s[0]);' % (T, x, nm)
    if kind == 'value':
        return 'double %s = %s[0];' % (x, nm)
    raise KeyError(kind)


OUT = r'''
template<class ST> struct Out;
%s
'''


def outf(st):
    T, g, h, ids = STORE[st]
    n = len(ids)
    s = []
    for a, i in enumerate(ids):
        ix = 'std::array<std::size_t, %d>{%s}' % (len(i), ', '.join(map(str, i)))
        s.append('O[%d] = d(%s);' % (1 + a, ix))
        for b, j in enumerate(ids):
            jx = 'std::array<std::size_t, %d>{%s}' % (len(j), ', '.join(map(str, j)))
            s.append('O[%d] = dd(%s, %s);' % (1 + n + a * n + b, ix, jx))
    return 'template<class E> static inline void put(const E& r, double* __restrict O, long* __restrict R){ O[0] = r(); R[0] = r.m_dif; auto d = r.D(); auto dd = r.DD(); %s }\n' % '\n    '.join(s)


def inp(nm, i):
    return atom('in', nm, 8 * i, 8)


def sym_id(n, i, j):
    if i > j:
        i, j = j, i
    return (2 * n - 1 - i) * i // 2 + j


def comp(kind, nm, st, iv=0):
    """value, gradient dict, hessian dict of an operand as unknowns, in the library's documented storage order"""
    T, g, h, ids = STORE[st]
    v = inp(nm, 0)
    D = {i: ZERO for i in ids}
    H = {(i, j): ZERO for i in ids for j in ids}
    n = max(max(i) for i in ids) + 1
    lin = {i: (i[0] if st.startswith('arr') else sym_id(n, *i) if st.startswith('sym') else i[0] * n + i[1]) for i in ids}
    if kind in ('full', 'first'):
        D = {i: inp(nm, 1 + lin[i]) for i in ids}
    if kind == 'full':
        H = {(i, j): inp(nm, 1 + g + sym_id(g, lin[i], lin[j])) for i in ids for j in ids}
    if kind == 'var':
        D = {i: (ONE if lin[i] == iv else ZERO) for i in ids}
    return v, D, H


# ---- canonical forms of the elementary functions -----------------------------------------------------------------
def fn(name, *a):
    return avn.fnatom(name, *a)


def expo(y):
    """exp(y) with the integer multiples of logarithms in y taken out as powers"""
    p, rest = ONE, y
    if not y.d:
        for m, q in list(y.n.t.items()):
            if len(m) == 1 and m[0][1] == 1 and Fr(q).denominator == 1:
                k = atom_key(m[0][0])
                if isinstance(k, tuple) and k[:2] == ('fn', 'log'):
                    p = p * from_key(k[2]) ** int(q)
                    rest = rest - atom(*k) * q
    if rest.const() == 0:
        return p
    return p * atom('fn', 'EXP', rest.key())


def canon(v):
    def f(a):
        k = atom_key(a)
        if not (isinstance(k, tuple) and k[0] == 'fn' and all(isinstance(x, tuple) and x[0] == 'R' for x in k[2:])):
            return None
        x = [canon(from_key(y)) for y in k[2:]]
        n = k[1]
        if n in ('sin', 'cos', 'tan'):
            # both signs of the argument are odd/even functions of one atom
            sg = ONE
            if x[0].n.t and x[0].n.t[min(x[0].n.t)] < 0:
                x[0], sg = -x[0], -ONE
            t = atom('fn', 'tanhalf', x[0].key())
            s, c = t * 2 / (ONE + t * t) * sg, (ONE - t * t) / (ONE + t * t)
            return {'sin': s, 'cos': c, 'tan': s / c}[n]
        if n in ('exp', 'expm1', 'sinh', 'cosh', 'tanh'):
            y, inv = x[0], False
            if y.n.t and y.n.t[min(y.n.t)] < 0:
                y, inv = -y, True
            e = ONE
            e = expo(y)
            if inv:
                e = ONE / e
            return {'exp': e, 'expm1': e - 1, 'sinh': (e - ONE / e) / 2, 'cosh': (e + ONE / e) / 2, 'tanh': (e * e - 1) / (e * e + 1)}[n]
        if n == 'log1p':
            return atom('fn', 'log', (x[0] + 1).key())
        if n == 'hypot':
            return atom('fn', 'sqrt', (x[0] * x[0] + x[1] * x[1]).key())
        if n == 'pow':
            if x[1].const() is not None and Fr(x[1].const()).denominator == 1:
                return x[0] ** int(x[1].const())
            return expo(x[1] * canon(fn('log', x[0])))
        return None
    return avn.deep_subst(v, f)


def eq(a, b):
    return same(a, b) or same(canon(a), canon(b))


# value, first, second derivative of the unary functions
UN = {
    'exp': lambda x: [fn('exp', x)] * 3,
    'expm1': lambda x: [fn('exp', x) - 1, fn('exp', x), fn('exp', x)],
    'log': lambda x: [fn('log', x), ONE / x, -ONE / (x * x)],
    'log1p': lambda x: [fn('log', x + 1), ONE / (x + 1), -ONE / (x + 1) ** 2],
    'sqrt': lambda x: [fn('sqrt', x), ONE / (fn('sqrt', x) * 2), -ONE / (fn('sqrt', x) * x * 4)],
    'cbrt': lambda x: [fn('cbrt', x), fn('cbrt', x) / (x * 3), fn('cbrt', x) * -2 / (x * x * 9)],
    'sin': lambda x: [fn('sin', x), fn('cos', x), -fn('sin', x)],
    'cos': lambda x: [fn('cos', x), -fn('sin', x), -fn('cos', x)],
    'tan': lambda x: [fn('tan', x), ONE / fn('cos', x) ** 2, fn('tan', x) * 2 / fn('cos', x) ** 2],
    'atan': lambda x: [fn('atan', x), ONE / (x * x + 1), x * -2 / (x * x + 1) ** 2],
    'asin': lambda x: [fn('asin', x), ONE / fn('sqrt', ONE - x * x), x / ((ONE - x * x) * fn('sqrt', ONE - x * x))],
    'acos': lambda x: [fn('acos', x), -ONE / fn('sqrt', ONE - x * x), -x / ((ONE - x * x) * fn('sqrt', ONE - x * x))],
    'sinh': lambda x: [fn('sinh', x), fn('cosh', x), fn('sinh', x)],
    'cosh': lambda x: [fn('cosh', x), fn('sinh', x), fn('cosh', x)],
    'tanh': lambda x: [fn('tanh', x), ONE / fn('cosh', x) ** 2, fn('tanh', x) * -2 / fn('cosh', x) ** 2],
    'sq': lambda x: [x * x, x * 2, lift(2)],
    'cube': lambda x: [x ** 3, x * x * 3, x * 6],
    'operator-': lambda x: [-x, -ONE, ZERO],
    'make_ADVal': lambda x: [x, ONE, ZERO],
    'make_shell': lambda x: [x, ONE, ZERO],
}
# value, da, db, daa, dab, dbb
BIN = {
    '+': lambda a, b: [a + b, ONE, ONE, ZERO, ZERO, ZERO],
    '-': lambda a, b: [a - b, ONE, -ONE, ZERO, ZERO, ZERO],
    '*': lambda a, b: [a * b, b, a, ZERO, ONE, ZERO],
    '/': lambda a, b: [a / b, ONE / b, -a / (b * b), ZERO, -ONE / (b * b), a * 2 / b ** 3],
    'pow': lambda a, b: (lambda v, l: [v, v * b / a, v * l, v * b * (b - 1) / (a * a), v * (ONE + b * l) / a, v * l * l])(fn('pow', a, b), fn('log', a)),
    'atan2': lambda a, b: (lambda r: [fn('atan2', a, b), b / r, -a / r, a * b * -2 / (r * r), (a * a - b * b) / (r * r), a * b * 2 / (r * r)])(a * a + b * b),
    'hypot': lambda a, b: (lambda h: [h, a / h, b / h, b * b / h ** 3, -a * b / h ** 3, a * a / h ** 3])(fn('sqrt', a * a + b * b)),
}


class Job:
    def __init__(self, st, op, kinds, nd, expr, want, signs=(), ivs=None):
        self.st, self.op, self.kinds, self.nd, self.expr, self.want, self.signs = st, op, kinds, nd, expr, want, signs
        self.ivs = ivs or list(range(len(kinds)))

    def key(self):
        return '%s(%s)/%s/d%d' % (self.op, ','.join(self.kinds), self.st, self.nd)


NAMES = 'ABC'


def source(jobs):
    st = jobs[0].st
    src = HEAD + outf(st)
    for n, j in enumerate(jobs):
        ls = ' '.join(leaf(k, NAMES[i], st, j.nd, j.ivs[i]) for i, k in enumerate(j.kinds))
        src += 'extern "C" void w_%d(const double* __restrict A, const double* __restrict B, const double* __restrict C, double* __restrict O, long* __restrict R){ %s auto r = %s; put(r, O, R); }\n' % (n, ls, j.expr)
    return src


UNITS = []          # filled before the worker processes are forked


def unit(i):
    return job(UNITS[i])


def job(jobs):
    """one translation unit of operations"""
    obl = []
    wh = 'anifem++/autodiff/autodiff.inl'
    try:
        mod = witness_ir(source(jobs), name='ad')
    except CompileError as e:
        if len(jobs) > 1:
            res = [job([j]) for j in jobs]
            return {'obl': sum((r['obl'] for r in res), []), 'counts': {'operations': sum(r['counts']['operations'] for r in res)}}
        return {'obl': [(jobs[0].key(), False, 'does not compile: ' + str(e)[:200], wh)], 'counts': {'operations': 1}}
    for n, j in enumerate(jobs):
        ids = STORE[j.st][3]
        ops = [comp(k, NAMES[i], j.st, j.ivs[i]) for i, k in enumerate(j.kinds)]
        w = j.want(*[o[0] for o in ops])
        ev = avn.Eval(mod, 'w_%d' % n, args={i: avn.Ptr(x) for i, x in enumerate(['A', 'B', 'C', 'O', 'R'])})
        try:
            r = ev.run()
        except avn.Opaque as e:
            raise Broken('%s: %s' % (j.key(), e))
        if r.noreturn:
            obl.append((j.key(), False, 'always ends in an exception', wh))
            continue
        m = len(ids)
        sg = [(s(*[o[0] for o in ops]), t) for s, t in j.signs]

        def get(i):
            v = r.cell('O', 8 * i)
            if not isinstance(v, R):
                return None
            return assume_sign(v, sg) if sg else v
        bad = None

        def cmp(i, e, what):
            nonlocal bad
            if bad:
                return
            v = get(i)
            if v is None or not eq(v, e):
                bad = '%s is %s instead of %s' % (what, 'never written' if v is None else show(v, 90), show(e, 90))
        cmp(0, w[0], 'the value')
        na = len(ops)
        g1 = w[1:1 + na]
        g2 = {}
        p = 1 + na
        for x in range(na):
            for y in range(x, na):
                g2[x, y] = w[p]
                p += 1
        if j.nd >= 1 and any(k != 'param' and k != 'value' for k in j.kinds):
            for a, i in enumerate(ids):
                cmp(1 + a, sum((g1[x] * ops[x][1][i] for x in range(na)), ZERO), 'first derivative by component %s' % (i,))
        if j.nd >= 2 and any(k != 'param' and k != 'value' for k in j.kinds):
            for a, i in enumerate(ids):
                for b, k in enumerate(ids):
                    e = ZERO
                    for x in range(na):
                        e = e + g1[x] * ops[x][2][i, k] + g2[x, x] * ops[x][1][i] * ops[x][1][k]
                        for y in range(x + 1, na):
                            e = e + g2[x, y] * (ops[x][1][i] * ops[y][1][k] + ops[x][1][k] * ops[y][1][i])
                    cmp(1 + m + a * m + b, e, 'second derivative by components %s and %s' % (i, k))
        obl.append((j.key(), bad is None, bad or '', wh))
    return {'obl': obl, 'counts': {'operations': len(jobs)}}


def operations():
    out = []
    KU = ['full', 'first', 'var', 'param']
    deep = TIER == 'thorough'
    for f, w in UN.items():
        e = '-a' if f == 'operator-' else '%s(a)' % f
        for k in KU:
            for nd in (0, 1, 2):
                if k == 'param' and nd:
                    continue
                out.append(Job('arr3' if deep or nd == 2 else 'arr2', f, [k], nd, e, w))
        if f in ('exp', 'sqrt', 'sq', 'tanh', 'operator-', 'cube') or deep:
            for st in ('sym3', 'sym2', 'full2'):
                out.append(Job(st, f, ['full'], 2, e, w))
    pairs = [(a, b) for a in KU for b in KU if (a, b) != ('param', 'param')]
    for op, w in BIN.items():
        for a, b in pairs:
            if op == 'hypot':
                if a != b:
                    continue
                e = 'hypot({a, b})'
            else:
                e = 'a %s b' % op if len(op) == 1 else '%s(a, b)' % op
            pos = [(lambda *v: v[0], 1), (lambda *v: v[1], 1)] if op == 'pow' else []
            for nd in (0, 1, 2):
                if nd < 2 and not deep and (a, b) not in (('full', 'full'), ('var', 'full'), ('full', 'param'), ('param', 'var'), ('first', 'var')):
                    continue
                out.append(Job('arr3' if deep else 'arr2', op, [a, b], nd, e, w, pos, [0, 1]))
            if op not in ('hypot',) and (a, b) == ('var', 'var'):
                out.append(Job('arr2', op, [a, b], 2, e, w, pos, [1, 1]))
            if (a, b) == ('full', 'full') and (deep or op in '*/'):
                for st in ('sym3', 'sym2', 'full2'):
                    out.append(Job(st, op, [a, b], 2, e, w, pos))
        if op in '+-*/':
            for k in ('full', 'first', 'var'):
                for kinds in ([k, 'value'], ['value', k]):
                    out.append(Job('arr2', op, kinds, 2, 'a %s b' % op, w))
            out.append(Job('arr2', op + '=', ['full', 'full'], 2, '(a %s= b, a)' % op, w))
    for k in ('full', 'first', 'var'):
        out.append(Job('arr2', 'pow', [k, 'value'], 2, 'pow(a, b)', BIN['pow'], [(lambda *v: v[0], 1), (lambda *v: v[1], 1)]))
        out.append(Job('arr2', 'pow', ['value', k], 2, 'pow(a, b)', BIN['pow'], [(lambda *v: v[0], 1)]))
        for z in ('0.0', '0L', '0'):
            out.append(Job('arr2', 'pow' + z, [k], 2, 'pow(a, %s)' % z, lambda x: [ONE, ZERO, ZERO]))
        for q in (-4, -3, -2, -1, 1, 2, 3, 4, 7):
            for t in ('L', ''):
                if t or q in (-2, 3):
                    out.append(Job('arr2', 'pow%d%s' % (q, t), [k], 2, 'pow(a, %d%s)' % (q, t), lambda x, q=q: [x ** q, x ** (q - 1) * q, x ** (q - 2) * (q * (q - 1))]))
        for n, h in ((1, lambda x: x), (3, None)):
            if n == 1:
                out.append(Job('arr2', 'hypot1', [k], 2, 'hypot({a})', lambda x: [x, ONE, ZERO], [(lambda x: x, 1)]))
            else:
                def h3(x, y, z):
                    v = [x, y, z]
                    h = fn('sqrt', x * x + y * y + z * z)
                    return [h] + [t / h for t in v] + [(ONE if a == b else ZERO) / h - v[a] * v[b] / h ** 3 for a in range(3) for b in range(a, 3)]
                out.append(Job('arr3', 'hypot3', [k] * 3, 2, 'hypot({a, b, c})', h3))
        for s in (1, -1):
            out.append(Job('arr2', 'abs%+d' % s, [k], 2, 'abs(a)', lambda x, s=s: [x * s, lift(s), ZERO], [(lambda x: x, s)]))
            out.append(Job('arr2', 'sign%+d' % s, [k], 2, 'sign(a)', lambda x, s=s: [lift(s), ZERO, ZERO], [(lambda x: x, s)]))
            for b in ('full', 'first', 'var'):
                for f in ('min', 'max'):
                    first = (s < 0) == (f == 'min')
                    out.append(Job('arr2', '%s%+d' % (f, s), [k, b], 2, '%s(a, b)' % f, lambda x, y, p=first: [x if p else y, ONE if p else ZERO, ZERO if p else ONE, ZERO, ZERO, ZERO], [(lambda x, y: x - y, s)]))
                for c, t in (('<', s < 0), ('>', s > 0), ('<=', s < 0), ('>=', s > 0), ('==', False), ('!=', True)):
                    if b == 'full':
                        out.append(Job('arr2', 'cmp%s%+d' % (c, s), [k, b], 0, 'Param<PhysArrStorageSet<2>>(a %s b ? 1 : 0)' % c, lambda x, y, t=t: [lift(int(t))] + [ZERO] * 5, [(lambda x, y: x - y, s)]))
    # compositions: results are usable as operands of further operations
    G = [('exp(a * b) / a', 'arr2'), ('sqrt(sq(a) + sq(b)) * a', 'arr2'), ('pow(a, 3L) / (1.0 + b * b)', 'arr2'), ('2.0 / a - b / (a * a)', 'arr2'), ('log(a / b) * (a - b)', 'arr2')]
    for e, st in G:
        for k in (('full', 'full'), ('var', 'var'), ('var', 'param'), ('first', 'full')):
            out.append(Job(st, 'expr ' + e.replace(' ', ''), list(k), 2, e, lambda x, y, e=e: symbolic(e, x, y)))
    return out


def symbolic(e, x, y):
    """value and derivatives of a composed expression, differentiated here"""
    ns = dict(a=x, b=y, sq=lambda v: v * v, exp=lambda v: fn('exp', v), sqrt=lambda v: fn('sqrt', v), log=lambda v: fn('log', v), pow=lambda v, n: v ** n)
    v = eval(e.replace('3L', '3').replace('1.0', '1').replace('2.0', '2'), ns)
    v = lift(v)
    xa, ya = [min(atoms_of(t)) for t in (x, y)]

    def d(f, a):
        def rule(t):
            k = atom_key(t)
            if t == a:
                return ONE
            if isinstance(k, tuple) and k[0] == 'fn':
                arg = from_key(k[2])
                return UN[k[1]](arg)[1] * d(arg, a)
            return ZERO
        return diff(f, rule)
    return [v, d(v, xa), d(v, ya), d(d(v, xa), xa), d(d(v, xa), ya), d(d(v, ya), ya)]


def body(c):
    js = operations()
    if os.environ.get('ONLY'):
        js = [j for j in js if os.environ['ONLY'] in j.key()]
    by = {}
    for j in js:
        by.setdefault(j.st, []).append(j)
    units = []
    for st, l in by.items():
        n = {'sym3': 1, 'full3': 1, 'sym2': 4, 'full2': 4}.get(st, 8)
        units += [l[i:i + n] for i in range(0, len(l), n)]
    c.count('operand_combinations', len(js))
    UNITS.extend(units)
    collect(c, [(unit, (i,)) for i in range(len(units))])
    if not os.environ.get('ONLY'):
        c.need('operations', len(js), 300)
    c.assumptions = ['real arithmetic inside the domain of each function; elementary functions are those of <cmath>',
                     'operand kinds: full, first-derivative-only, variable, parameter, plain value; gradients of 2 and 3 variables, symmetric and full matrices']


if __name__ == '__main__':
    main(sys.argv[1], 'For operands with unknown value and derivatives the value, gradient and Hessian every operation returns equal the chain rule.', body)
