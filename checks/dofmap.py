"""F01: local numbering of degrees of freedom.  F02: iteration restricted to parts of the tetrahedron.  F03: nested maps.

The maps are built by the library from symbolic counts: every number of degrees of freedom per element, every vector
length and every position is an arbitrary non-negative integer symbol (avn.POS); the value numbering decides comparisons and
divisions of such forms by the signs of their coefficients, so one evaluation stands for all counts."""
import itertools
import os
import sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from frame import *
from alg import *
import avn

ONLY = os.environ.get('ONLY', '')
E = [4, 6, 6, 4, 4, 1]
DIM = [0, 1, 1, 2, 2, 3]
TN = ['node', 'edge-unoriented', 'edge-oriented', 'face-unoriented', 'face-oriented', 'cell']
VOL = [[1], [1, 2], [1, 2], [1, 3, 6], [1, 3, 6], [1, 4, 6, 12, 24]]
OFF = [0, 1, 3, 5, 8, 11, 16]
HEAD = '''
#include "anifem++/fem/fem_space.h"
#include "anifem++/fem/tetdofmap.cpp"
using namespace Ani; using namespace Ani::DofT;
typedef std::shared_ptr<BaseDofMap> MP;
typedef std::vector<MP> MV;
template<class T> static VectorDofMapC<T> mkV(unsigned m, const T& b){ return VectorDofMapC<T>(int(m), b); }
template<class... T> static ComplexDofMapC<T...> mkC(const T&... b){ return ComplexDofMapC<T...>(b...); }
template<class A, class B> static ComplexDofMapC<A, B> mkS(const A& a, const B& b){ ComplexDofMapC<A, B> r; r.template set<1>(b); r.template set<0>(a); return r; }
static MP push(const MV& v){ auto c = std::make_shared<ComplexDofMap>(); for (auto& x: v) c->PushBack(x); return c; }
typedef std::array<unsigned, 6> A6;
static inline void put(unsigned* __restrict& O, unsigned x){ *O++ = x; }
static inline void put(unsigned* __restrict& O, const LocalOrder& o){ put(O, o.gid); put(O, o.leid); put(O, o.etype); put(O, o.nelem); put(O, o.stype); put(O, o.lsid); }
#define SIG const unsigned* __restrict n, const unsigned* __restrict q, unsigned* __restrict O
'''


def sym(name):
    a = atom(name)
    avn.POS.add(atom_id(name))
    return a


sym('n0')   # some length is always arbitrary


class Node:
    """shape of a map: U (counts), S (symmetry counts), V(sub), C(subs); slots index the input array n"""
    def __init__(self, k, *subs):
        self.k, self.subs = k, subs

    def layout(self, s=0):
        self.slot = s
        s += {'U': 6, 'S': 16, 'V': 1, 'C': 0}[self.k]
        for x in self.subs:
            s = x.layout(s)
        return s

    def name(self):
        return self.k if not self.subs else self.k + '(' + ','.join(x.name() for x in self.subs) + ')'

    def uni(self):
        if self.k == 'U':
            return 'UniteDofMap(A6{%s})' % ', '.join('n[%d]' % (self.slot + i) for i in range(6))
        return 'UniteDofMap(DofSymmetries(%s))' % ', '.join('std::array<unsigned, %d>{%s}' % (len(v), ', '.join('n[%d]' % (self.slot + OFF[t] + i) for i in range(len(v)))) for t, v in enumerate(VOL))

    def rt(self, form='ctor'):
        if self.k in 'US':
            return 'MP(std::make_shared<UniteDofMap>(%s))' % self.uni()
        if self.k == 'V':
            return 'MP(std::make_shared<VectorDofMap>(int(n[%d]), %s))' % (self.slot, self.subs[0].rt(form))
        v = 'MV{%s}' % ', '.join(x.rt(form) for x in self.subs)
        return 'push(%s)' % v if form == 'push' else 'MP(std::make_shared<ComplexDofMap>(%s))' % v

    def wrap(self, form):
        """DofMap handle built with the operators of the handle"""
        if self.k in 'US':
            return 'DofMap(%s)' % self.uni()
        if self.k == 'V':
            return ('pow(%s, n[%d])' if form == 'pow' else '(%s ^ n[%d])') % (self.subs[0].wrap(form), self.slot)
        if form == 'mul':
            return '(' + ' * '.join(x.wrap(form) for x in self.subs) + ')'
        return ('merge' if form != 'simp' else 'merge_with_simplifications') + '(std::vector<DofMap>{%s})' % ', '.join(x.wrap(form) for x in self.subs)

    def ct(self, form='ctor'):
        if self.k in 'US':
            return self.uni()
        if self.k == 'V':
            return 'mkV(n[%d], %s)' % (self.slot, self.subs[0].ct(form))
        return ('mkS' if form == 'set' else 'mkC') + '(%s)' % ', '.join(x.ct(form) for x in self.subs)

    # reference model; val maps a slot to its value
    def n(self, val, t):
        if self.k == 'U':
            return val[self.slot + t]
        if self.k == 'S':
            return sum((lift(v) * val[self.slot + OFF[t] + i] for i, v in enumerate(VOL[t])), ZERO)
        if self.k == 'V':
            return val[self.slot] * self.subs[0].n(val, t)
        return sum((x.n(val, t) for x in self.subs), ZERO)

    def N(self, val):
        return sum((lift(E[t]) * self.n(val, t) for t in range(6)), ZERO)

    def leaves(self, path=()):
        if not self.subs:
            yield path, self
        for i, x in enumerate(self.subs):
            yield from x.leaves(path + (i,))

    def place(self, val, path, comp, t, e, l):
        """(tetrahedron index, index on the element) of degree l of a leaf"""
        if not self.subs:
            return sum((lift(E[k]) * self.n(val, k) for k in range(t)), ZERO) + lift(e) * self.n(val, t) + l, l
        x = self.subs[path[0]]
        g, le = x.place(val, path[1:], comp, t, e, l)
        if self.k == 'V':
            c = comp[self.slot]
            return c * x.N(val) + g, c * x.n(val, t) + le
        for y in self.subs[:path[0]]:
            g, le = g + y.N(val), le + y.n(val, t)
        return g, le

    def chain(self, path):
        r = [self]
        for i in path:
            r.append(r[-1].subs[i])
        return r


U, S = (lambda: Node('U')), (lambda: Node('S'))
V = lambda x: Node('V', x)
C = lambda *x: Node('C', *x)


def evalf(mod, fname, val, q, args=None):
    def onload(ev, base, off, sz, ty):
        if base in ('n', 'q') and sz == 4 and off % 4 == 0:
            d = val if base == 'n' else q
            if off // 4 in d:
                return d[off // 4]
        return None
    ev = avn.Eval(mod, fname, args={0: avn.Ptr('n'), 1: avn.Ptr('q'), 2: avn.Ptr('O')}, onload=onload)
    try:
        r = ev.run()
    except avn.Opaque as e:
        raise Broken('%s: %s' % (fname, e))
    return r


def out(r, i):
    return r.cell('O', 4 * i, 4)


def show_(x):
    try:
        return show(x, 120)
    except Exception:
        return repr(x)[:120]


def cmp_(r, i, want, what):
    """'' when output i is the wanted form"""
    g = out(r, i)
    if isinstance(g, R) and (g - want).const() == 0:
        return ''
    if isinstance(g, R) and g.const() is not None and want.const() is not None and (int(g.const()) - int(want.const())) % (1 << 32) == 0:
        return ''
    return '%s is %s, expected %s' % (what, show_(g) if g is not None else 'not written', show_(want))


WH = 'anifem++/fem/tetdofmap.{h,inl,cpp}'


# ---------------------------------------------------------------- F01
# one point of the numbering: symmetric leaf -> (group, position)
def points(leaf, t):
    if leaf.k == 'U':
        return [(None, None)]
    return [(s, p) for s in range(len(VOL[t])) for p in range(VOL[t][s])]


def value(shape, leaf, path, t, sp):
    """symbolic counts around one degree of freedom of `leaf`: (val, component indices, leid in the leaf)"""
    n = shape.layout()
    val = {i: sym('n%d' % i) for i in range(n)}
    for x in vslots(shape):
        val[x] = val[x] + ONE
    comp = {}
    for x in shape.chain(path):
        if x.k == 'V':
            comp[x.slot] = sym('c%d' % x.slot)
            val[x.slot] = comp[x.slot] + ONE + sym('d%d' % x.slot)
    l, r = sym('l'), sym('r')
    if leaf.k == 'U':
        val[leaf.slot + t] = l + ONE + r
        return val, comp, l
    s, p = sp
    val[leaf.slot + OFF[t] + s] = l + ONE + r
    le = sum((lift(VOL[t][i]) * val[leaf.slot + OFF[t] + i] for i in range(s)), ZERO) + lift(VOL[t][s]) * l + lift(p)
    return val, comp, le


# outputs of one query: 1 TetDofID, 2 LocalOrderOnTet(gid), 3 LocalOrderOnTet(locus), 4 TypeOnTet, 5 iterator, 6 at
def query(m, acc, t, e, iq):
    """C++ of one query about (t, e, q[2iq]=index on element, q[2iq+1]=tetrahedron index)"""
    lg = 'LocGeomOrder(uchar(%d), uchar(%d), q[%d])' % (1 << t, e, 2 * iq)
    td = 'TetOrder(q[%d])' % (2 * iq + 1)
    d = {'m': m, 'a': acc, 'lg': lg, 'td': td, 'g': 'q[%d]' % (2 * iq + 1)}
    return ('put(O, {m}{a}TetDofID({lg})); put(O, {m}{a}LocalOrderOnTet({td})); put(O, {m}{a}LocalOrderOnTet({lg})); put(O, {m}{a}TypeOnTet({g}));'
            ' put(O, *({m}{a}begin() + int({g}))); put(O, {m}{a}at({td})); put(O, {m}{a}at({lg})); put(O, {m}{a}isValidIndex({lg}) && {m}{a}isValidIndex({td}));').format(**d)


NQ = 1 + 6 + 6 + 1 + 6 + 6 + 6 + 1


def holder(kind, shape):
    """declaration of the map in a witness, and how to access it"""
    k, _, f = kind.partition(':')
    if k == 'rt':
        return 'MP m = %s;' % shape.rt(f or 'ctor'), 'm', '->'
    if k == 'ct':
        return 'auto mm = %s; const BaseDofMap& m = mm;' % shape.ct(f or 'ctor'), 'm', '.'
    return 'DofMap m = %s;' % shape.wrap(f), 'm', '.'


F1 = []


def f1_jobs():
    j = []
    for sh in [lambda: U(), lambda: S(), lambda: V(U()), lambda: V(S()), lambda: C(U(), U()), lambda: C(U(), U(), U()), lambda: C(S(), S()), lambda: V(C(U(), U())), lambda: C(V(U()), U(), V(U())),
               lambda: V(V(U())), lambda: C(C(U(), U()), U()), lambda: C(V(C(U(), V(U()))), U())]:
        x = sh()
        leaf = not x.subs
        kinds = ['rt', 'ct'] if not leaf else ['rt']
        if x.k == 'C' and (TIER == 'thorough' or x.name() in ('C(U,U)', 'C(V(U),U,V(U))')):
            kinds.append('rt:push')
            if len(x.subs) == 2:
                kinds.append('ct:set')
        if leaf or x.name() in ('V(U)', 'C(U,U)', 'C(V(U),U,V(U))'):
            kinds += ['h:merge'] + (['h:pow'] if 'V' in x.name() else [])
        for k in kinds:
            j.append((sh, k))
    if TIER == 'thorough':
        for sh in [lambda: V(V(V(U()))), lambda: V(C(S(), V(S()))), lambda: C(V(C(U(), U(), U())), V(U()), C(U(), V(U())))]:
            for k in ('rt', 'ct'):
                j.append((sh, k))
    return [x for x in j if ONLY in x[0]().name() + ' ' + x[1]]


def numbering(i):
    mk, kind = F1[i]
    sh = mk()
    sh.layout()
    nm = sh.name() + ' ' + kind
    dec, m, acc = holder(kind, sh)
    src = HEAD
    plan = []
    for path, leaf in sh.leaves():
        for t in range(6):
            es = list(range(E[t]))
            for sp in points(leaf, t):
                if leaf.k == 'S' and sh.subs and sp[1] not in (0, VOL[t][sp[0]] - 1):
                    continue
                if leaf.k == 'S' and sh.subs:
                    es = [E[t] - 1]
                fn = 'w_q%d' % len(plan)
                src += 'extern "C" void %s(SIG){ %s %s }\n' % (fn, dec, ' '.join(query(m, acc, t, e, k) for k, e in enumerate(es)))
                plan.append((fn, path, t, sp, es))
    src += 'extern "C" void w_n(SIG){ %s for (int t = 0; t < 6; ++t){ put(O, %s%sNumDof(1 << t)); put(O, %s%sNumDofOnTet(1 << t)); put(O, %s%sNumDofs()[t]); put(O, %s%sNumDofsOnTet()[t]); } put(O, %s%sNumDofOnTet()); put(O, %s%send() - %s%sbegin()); put(O, %s%sNestedDim()); }\n' % ((dec,) + (m, acc) * 8)
    src += 'extern "C" void w_bad(SIG){ %s put(O, %s%sat(TetOrder(q[0]))); }\n' % (dec, m, acc)
    src += 'extern "C" void w_mask(SIG){ %s put(O, %s%sGetGeomMask()); for (int t = 0; t < 6; ++t) put(O, %s%sDefinedOn(1 << t)); }\n' % (dec, m, acc, m, acc)
    mod = witness_ir(src, name='dofmap', light=True)
    obl = []
    leaves = dict(sh.leaves())
    np = 0
    for fn, path, t, sp, es in plan:
        leaf = leaves[path]
        val, comp, le = value(sh, leaf, path, t, sp)
        q = {}
        for k, e in enumerate(es):
            g, l = sh.place(val, path, comp, t, e, le)
            q[2 * k], q[2 * k + 1] = l, g
        r = evalf(mod, fn, val, q)
        st, ls = (lift(255), lift(255)) if leaf.k == 'U' else (lift(sp[0]), lift(sp[1]))
        bad = 'the query does not return' if r.noreturn else ''
        if not bad:
            for k, e in enumerate(es):
                g, l = q[2 * k + 1], q[2 * k]
                o = k * NQ
                lo = [(g, 'index'), (l, 'index on element'), (lift(1 << t), 'type'), (lift(e), 'element'), (st, 'symmetry group'), (ls, 'position in group')]
                bad = cmp_(r, o, g, 'TetDofID')
                for b, w in ((1, 'LocalOrderOnTet(index)'), (7, 'LocalOrderOnTet(locus)'), (14, 'iterator'), (20, 'at(index)'), (26, 'at(locus)')):
                    for z, (v, x) in enumerate(lo):
                        bad = bad or cmp_(r, o + b + z, v, '%s.%s' % (w, x))
                bad = bad or cmp_(r, o + 13, lift(1 << t), 'TypeOnTet') or cmp_(r, o + 32, ONE, 'isValidIndex')
                if bad:
                    bad = 'degree %s of %s %d: %s' % (show_(l), TN[t], e, bad)
                    break
                np += 1
        obl.append(('%s leaf%s %s%s' % (nm, ''.join(map(str, path)), TN[t], '' if sp[0] is None else ' s%d.%d' % sp), not bad, bad, WH))
    # counts, for all values
    val = {i: sym('n%d' % i) for i in range(sh.layout())}
    vm = {}
    r = evalf(mod, 'w_n', {**val, **{x: val[x] + ONE for x in vslots(sh)}}, {})
    val.update({x: val[x] + ONE for x in vslots(sh)})
    bad = 'does not return' if r.noreturn else ''
    for t in range(6):
        for k, w in enumerate((sh.n(val, t), lift(E[t]) * sh.n(val, t)) * 2):
            bad = bad or cmp_(r, 4 * t + k, w, '%s(%s)' % (('NumDof', 'NumDofOnTet', 'NumDofs', 'NumDofsOnTet')[k], TN[t]))
    bad = bad or cmp_(r, 24, sh.N(val), 'NumDofOnTet()') or cmp_(r, 25, sh.N(val), 'end() - begin()')
    bad = bad or cmp_(r, 26, {'U': ZERO, 'S': ZERO, 'V': val[sh.slot] if sh.k == 'V' else ZERO, 'C': lift(len(sh.subs))}[sh.k], 'NestedDim()')
    obl.append((nm + ' counts', not bad, bad, WH))
    r = evalf(mod, 'w_bad', val, {0: sh.N(val) + sym('l')})
    obl.append((nm + ' at() past the end', r.noreturn, '' if r.noreturn else 'at() accepts an index that is not less than the number of degrees of freedom', WH))
    # mask: per type, present or absent
    ml = list(sh.leaves())
    bad = ''
    for pat in range(64):
        val = {}
        for i in range(sh.layout()):
            val[i] = sym('n%d' % i) + ONE
        for j, (path, leaf) in enumerate(ml):
            for t in range(6):
                on = (pat >> ((t + j) % 6)) & 1 if j % 2 == 0 else (pat >> ((t + j) % 6)) & (pat >> (t % 6)) & 1
                if not on:
                    for x in ([leaf.slot + t] if leaf.k == 'U' else range(leaf.slot + OFF[t], leaf.slot + OFF[t + 1])):
                        val[x] = ZERO
        r = evalf(mod, 'w_mask', val, {})
        want = sum(1 << t for t in range(6) if sh.n(val, t).n.t)
        bad = cmp_(r, 0, lift(want), 'GetGeomMask()')
        for t in range(6):
            bad = bad or cmp_(r, 1 + t, lift((want >> t) & 1), 'DefinedOn(%s)' % TN[t])
        if bad:
            bad += ' for types ' + ','.join(TN[t] for t in range(6) if (want >> t) & 1)
            break
    obl.append((nm + ' defined types', not bad, bad, WH))
    return {'obl': obl, 'counts': {'map_shapes': 1, 'numbering_points': np}}


def vslots(sh):
    r = [sh.slot] if sh.k == 'V' else []
    for x in sh.subs:
        r += vslots(x)
    return r


# products of handles, on maps with fixed counts
PA = {'A': [1, 2, 0, 1, 0, 1], 'B': [0, 1, 3, 0, 2, 0], 'D': [2, 0, 0, 0, 0, 0]}
PROD = ['A*A', 'A*B', 'B*A', '(A*A)*A', 'A*(A*A)', '(A*A)*(A*A)', '(A^2)*(A^3)', '(A^3)*(A^2)', '(A^2)*A', 'A*(A^2)', '(A^2)*B', 'B*(A^2)', '(A^2)*(B^2)', '(A*B)*A', '(A*B)*B', 'B*(B*A)', 'A*(B*A)', '(A*B)*(B*A)', '(A*B)*(A*B)',
        '(A*B)*(D*A)', '(A*(B^2))*B', '(A*(B^2))*(B*D)', '(A*(B^2))*((B^3)*D)', '((B^2)*A)*((A^2)*D)', '(A^2)^3', '(A*B)^2', '((A*B)^2)*(A*B)', '(A*B)*((A*B)^2)', '((A*B)^2)*A', '((A^2)^2)*(A^2)', 'A^1', '(A^1)*A', 'A*(A^1)', 'pow(A,2)*A', 'A*pow(A^2,2)',
        'pow(A^2,2)*(A^2)', 'pow(A,2)^2', 'pow(A*B,2)*(B*A)', 'pow(pow(A,2),3)', 'merge_with_simplifications({A,A,B,B,A})', 'merge_with_simplifications({A,B*D,D,A*A})', 'merge_with_simplifications({A})', 'merge({A,A,B})', 'merge({A*B,B})*B', 'merge({A,merge({B,D})})*D', 'D*merge({merge({D,A}),B})',
        'merge({A,merge({B,D})})*merge({merge({D,A}),B})']


def flat(e):
    """product expression -> its leaves in order"""
    class T(tuple):
        def __mul__(a, b):
            return T(tuple.__add__(a, b))

        def __xor__(a, k):
            return T(tuple(a) * k)
    cat = lambda l: T(sum((tuple(x) for x in l), ()))
    env = {k: T((k,)) for k in PA}
    env.update(pow=lambda a, k: a ^ k, merge=cat, merge_with_simplifications=cat)
    # ^ binds weaker than * (also in C++), so the powers of the list above are bracketed
    return tuple(eval(e.replace('{', '[').replace('}', ']'), {'__builtins__': {}}, env))


NPROD = 8


def products(i):
    es = [e for e in PROD[i::NPROD] if ONLY in 'product ' + e]
    dec = ' '.join('DofMap %s(UniteDofMap(A6{%s}));' % (k, ', '.join(map(str, v))) for k, v in PA.items())
    src = HEAD
    for k, e in enumerate(es):
        cpp = e.replace('{', 'std::vector<DofMap>{')
        src += '''extern "C" void w_p%d(SIG){ %s DofMap m = %s; put(O, m.NumDofOnTet()); for (int t = 0; t < 6; ++t){ put(O, m.NumDof(1 << t)); put(O, m.NumDofOnTet(1 << t)); }
        for (unsigned i = 0; i < m.NumDofOnTet(); ++i){ auto o = m.LocalOrderOnTet(TetOrder(i)); put(O, o); put(O, m.TetDofID(o.getGeomOrder())); } put(O, m == m); put(O, m == (%s)); }\n''' % (k, dec, cpp, cpp)
    mod = witness_ir(src, name='dofmul', light=True)
    obl = []
    for k, e in enumerate(es):
        bad = product(evalf(mod, 'w_p%d' % k, {}, {}), flat(e))
        obl.append(('product ' + e, not bad, bad, WH))
    return {'obl': obl, 'counts': {'products': len(es)}}


def product(r, fl):
    if r.noreturn:
        return 'the product does not return'
    tot = [sum(PA[x][t] for x in fl) for t in range(6)]
    want = [sum(E[t] * tot[t] for t in range(6))]
    for t in range(6):
        want += [tot[t], E[t] * tot[t]]
    g, le = 0, [0] * 6
    for x in fl:
        for t in range(6):
            for el in range(E[t]):
                for l in range(PA[x][t]):
                    want += [g, le[t] + l, 1 << t, el, 255, 255, g]
                    g += 1
        for t in range(6):
            le[t] += PA[x][t]
    want += [1, 1]
    for k, w in enumerate(want):
        bad = cmp_(r, k, lift(w), 'number of degrees' if k < 13 else 'comparison with an equal product' if k >= len(want) - 2 else '%s of degree %d' % (('index', 'index on element', 'type', 'element', 'symmetry group', 'position in group', 'TetDofID')[(k - 13) % 7], (k - 13) // 7))
        if bad:
            return bad
    return ''


def f01(c):
    global F1
    F1 = f1_jobs()
    collect(c, [(numbering, (i,)) for i in range(len(F1))] + [(products, (i,)) for i in range(NPROD) if any(ONLY in 'product ' + e for e in PROD[i::NPROD])])



# ---------------------------------------------------------------- F02
SETS = {'P1': {0}, 'P2': {0, 1}, 'ND': {2}, 'RT': {4}, 'CR': {3}, 'P0': {5}, 'B': {1}, 'MIX': {1, 2, 3, 4}, 'ALL': {0, 1, 2, 3, 4, 5}, 'EO': {0, 1, 2}, 'NO': set()}
NE = [4, 6, 4, 1]
FACES = [(0, 1, 2), (1, 2, 3), (2, 3, 0), (3, 0, 1)]
EDGES = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]


def closure(d, i):
    if d == 0:
        return {(0, i)}
    if d == 1:
        return {(1, i)} | {(0, v) for v in EDGES[i]}
    if d == 2:
        f = set(FACES[i])
        return {(2, i)} | {(0, v) for v in f} | {(1, k) for k, e in enumerate(EDGES) if set(e) <= f}
    return {(k, j) for k in range(4) for j in range(NE[k])}


def sparsities(level):
    r = [closure(3, 0)]
    r += [closure(2, 1), closure(2, 3), closure(1, 4), {(0, 2)}, {(1, 0), (1, 3), (1, 5)}, {(2, 0), (2, 2)}, {(3, 0)}, {(0, 3), (3, 0)}, {(0, 1), (2, 3)}, {(1, 2), (2, 1), (3, 0)}, set()]
    if level:
        r += [{(d, i)} for d in range(4) for i in range(NE[d])] + [closure(d, i) for d in (1, 2) for i in range(NE[d])] + [{(d, i) for i in range(NE[d])} for d in range(3)]
    if level > 1:
        x = 12345
        for _ in range(60):
            x = (x * 1103515245 + 12345) % (1 << 31)
            b = x >> 8
            r.append({(d, i) for d in range(4) for i in range(NE[d]) if (b >> (4, 10, 0, 14)[d] + i) & 1})
    out = []
    for x in r:
        if x not in out:
            out.append(x)
    return out


def parse(txt):
    """'C(V2(P2),ND)' -> shape with the type sets of its leaves and the lengths of its vectors"""
    pos = [0]
    attr = []

    def node():
        i = pos[0]
        j = i
        while j < len(txt) and txt[j] not in '(),':
            j += 1
        w = txt[i:j]
        pos[0] = j
        subs = []
        if j < len(txt) and txt[j] == '(':
            while txt[pos[0]] != ')':
                pos[0] += 1
                subs.append(node())
            pos[0] += 1
        if w[0] == 'V' and subs:
            x = Node('V', *subs)
            attr.append((x, int(w[1:])))
        elif w == 'C':
            x = Node('C', *subs)
        elif w[0] == '*':
            x = Node('S')
            attr.append((x, SETS[w[1:]]))
        else:
            x = Node('U')
            attr.append((x, SETS[w]))
        return x
    r = node()
    r.layout()
    return r, attr


def states(sh, attr, val, mid, pre=()):
    """blocks of degrees of freedom: [(dim, element, first state, state to increment)]; a state is (gid, leid, type, element, group, position)"""
    vec = {x.slot: m for x, m in attr if x.k == 'V'}
    res = []
    for path, leaf in sh.leaves():
        ts = next(s for x, s in attr if x is leaf)
        vs = [x.slot for x in sh.chain(path) if x.k == 'V']
        for comp in itertools.product(*[range(vec[v]) for v in vs]):
            cv = {v: lift(c) for v, c in zip(vs, comp)}
            it = iter(comp)
            if pre and tuple(next(it) if x.k == 'V' else p for x, p in zip(sh.chain(path), path))[:len(pre)] != pre:
                continue
            for t in sorted(ts):
                for e in range(E[t]):
                    if leaf.k == 'S':
                        l0 = 0
                        ls = [(s, p) for s in range(len(VOL[t])) for p in range(VOL[t][s])]
                        for n, (s, p) in enumerate(ls):
                            st = sh.place(val, path, cv, t, e, lift(n)) + (1 << t, e, s, p)
                            res.append((DIM[t], e, st, None if mid else st, None))
                        continue
                    f = sh.place(val, path, cv, t, e, ZERO) + (1 << t, e, 255, 255)
                    l = sym('l%d' % (leaf.slot + t)) if mid else val[leaf.slot + t] - ONE
                    st = sh.place(val, path, cv, t, e, l) + (1 << t, e, 255, 255)
                    nx = sh.place(val, path, cv, t, e, l + ONE) + (1 << t, e, 255, 255)
                    res.append((DIM[t], e, f, st, nx))
    return res


def counts(sh, attr, mid):
    val = {}
    for x, a in attr:
        if x.k == 'V':
            val[x.slot] = lift(a)
        elif x.k == 'S':
            for t in range(6):
                for k in range(len(VOL[t])):
                    val[x.slot + OFF[t] + k] = ONE if t in a else ZERO
        else:
            for t in range(6):
                i = x.slot + t
                val[i] = ZERO if t not in a else (sym('l%d' % i) + sym('r%d' % i) + lift(2)) if mid else sym('n%d' % i) + ONE
    return val


F2 = []
SHAPES2 = ['ALL', 'P2', 'ND', 'MIX', 'EO', 'NO', 'V3(P1)', 'V2(P2)', 'V3(ND)', 'V2(MIX)', 'V2(ALL)', 'C(P2,P1)', 'C(P1,P0)', 'C(P0,P1)', 'C(P1,P0,P1)', 'C(ND,P2)', 'C(P2,ND)', 'C(RT,CR,P0)', 'C(CR,RT)',
           'C(V3(P2),P1)', 'C(V2(P2),ND,P0)', 'C(B,V2(P1),CR)', 'V2(C(P2,P0))', 'V2(C(P0,P1))', 'V2(C(ND,P2))', 'V2(V2(P2))', 'C(C(P1,RT),P2)', 'C(P0,P0)', '*ALL', 'V2(*P2)', 'C(*P2,*CR)']


def f2_jobs():
    r = []
    for s in SHAPES2:
        for k in (['rt', 'ct'] if '(' in s else ['rt']):
            r.append((s, k))
    return [x for x in r if ONLY in ' '.join(x)]


def key6(st):
    return tuple((x if isinstance(x, R) else lift(x)).key() for x in st[:4])


def iteration(i):
    txt, kind = F2[i]
    sh, attr = parse(txt)
    kind_, _, pre = kind.partition('@')
    pre = tuple(int(x) for x in pre.split('.')) if pre else ()
    dec, m, acc = holder(kind_, sh)
    if pre:
        dec += ' int dd[] = {%s}; auto vw = %s%sGetNestedDofMap%s(dd, %d);' % (', '.join(map(str, pre)), m, acc, 'View' if kind_ == 'rt' else '', len(pre))
        m, acc = 'vw', '.'
    lv = {x: a for x, a in attr}
    obl, npos = [], 0
    nb = len(states(sh, attr, counts(sh, attr, False), False))
    mset = 'TetGeomSparsity sp; for (int d = 0; d < 4; ++d) for (int i = 0; i < 6; ++i) if ((q[d] >> i) & 1) sp.set(d, i);'
    src = HEAD
    for pref in (0, 1):
        src += 'extern "C" void w_b%d(SIG){ %s %s LocalOrder lo; %s%sBeginByGeomSparsity(sp, lo, %d); put(O, lo); auto it = %s%sbeginBySparsity(sp, %d); put(O, *it); put(O, it == %s%sendBySparsity()); }\n' % (pref, dec, mset, m, acc, pref, m, acc, pref, m, acc)
        src += ('extern "C" void w_i%d(SIG){ %s %s for (unsigned k = 0; k < q[4]; ++k){ LocalOrder lo(q[5+6*k], uchar(q[7+6*k]), uchar(q[8+6*k]), q[6+6*k], uchar(q[9+6*k]), uchar(q[10+6*k]));'
                ' %s%sIncrementByGeomSparsity(sp, lo, %d); put(O, lo); } }\n') % (pref, dec, mset, m, acc, pref)
    mod = witness_ir(src, name='dofit', light=True)

    def six(r, o):
        return [out(r, o + z) for z in range(6)]

    def isend(x):
        return isinstance(x[0], R) and x[0].const() is not None and int(x[0].const()) % (1 << 32) == (1 << 32) - 1

    level = 2 if TIER == 'thorough' else 1 if txt in ('ALL', 'C(V2(P2),ND,P0)') else 0
    for sp in sparsities(level):
        bits = {d: lift(sum(1 << j for k, j in sp if k == d)) for d in range(4)}
        spn = '{' + ','.join('%s%d' % ('nefc'[d], j) for d, j in sorted(sp)) + '}'
        for pref in (0, 1):
            key = '%s %s %s%s' % (txt, kind, spn, ' by element' if pref else '')
            bad = ''
            for mid in (False, True):
                val = counts(sh, attr, mid)
                bl = [b for b in states(sh, attr, val, mid, pre) if (b[0], b[1]) in sp and b[3] is not None]
                q = dict(bits)
                q[4] = lift(len(bl))
                for k, b in enumerate(bl):
                    for z in range(6):
                        q[5 + 6 * k + z] = b[3][z] if isinstance(b[3][z], R) else lift(b[3][z])
                r = evalf(mod, 'w_i%d' % pref, val, q)
                if r.noreturn:
                    bad = 'an increment does not return'
                    break
                if mid:
                    for k, b in enumerate(bl):
                        for z, w in enumerate(b[4]):
                            bad = bad or cmp_(r, 6 * k + z, w if isinstance(w, R) else lift(w), 'after degree %s of %s %d the next one: field %d' % (show_(b[3][1]), 'type %d,' % b[3][2], b[3][3], z))
                        npos += 1
                    continue
                first = {key6(b[2]): k for k, b in enumerate(bl)}
                nxt = []
                for k in range(len(bl)):
                    x = six(r, 6 * k)
                    if isend(x):
                        nxt.append('end')
                    elif all(isinstance(y, R) for y in x) and key6(x) in first:
                        j = first[key6(x)]
                        nxt.append(j)
                        for z in (4, 5):
                            bad = bad or cmp_(r, 6 * k + z, lift(bl[j][2][z]), 'symmetry of the next degree')
                    else:
                        bad = bad or 'after the last degree of %s %d comes %s, which is no first degree of an element in the set' % ('type %d,' % bl[k][3][2], bl[k][3][3], '(' + ', '.join(show_(y) for y in x[:4]) + ')')
                        nxt.append(None)
                    npos += 1
                rb = evalf(mod, 'w_b%d' % pref, val, bits)
                if rb.noreturn:
                    bad = bad or 'beginBySparsity does not return'
                if not bad:
                    x = six(rb, 0)
                    if [y.key() for y in x] != [y.key() for y in six(rb, 6)]:
                        bad = 'beginBySparsity and BeginByGeomSparsity differ'
                    bad = bad or cmp_(rb, 12, ONE if isend(x) else ZERO, 'begin == end')
                    cur = 'end' if isend(x) else first.get(key6(x)) if all(isinstance(y, R) for y in x) else None
                    if cur is None:
                        bad = bad or 'iteration begins at (%s), which is no degree of the set' % ', '.join(show_(y) for y in x[:4])
                    seq = []
                    while not bad and cur != 'end':
                        if cur in seq:
                            bad = 'iteration never ends'
                            break
                        seq.append(cur)
                        cur = nxt[cur]
                    if not bad and len(seq) != len(bl):
                        miss = [bl[k] for k in range(len(bl)) if k not in seq]
                        bad = '%d of %d groups of degrees are never visited, e.g. those from (index %s, on element %s) of type %d, element %d' % (
                            len(miss), len(bl), show_(miss[0][2][0]), show_(miss[0][2][1]), miss[0][2][2], miss[0][2][3])
                    if not bad and pref:
                        ks = [(bl[k][0], bl[k][1]) for k in seq]
                        if ks != sorted(ks):
                            bad = 'elements are not visited one after another: %s' % ks
                if bad:
                    break
            obl.append((key, not bad, bad, WH))
    return {'obl': obl, 'counts': {'map_shapes': 1, 'iteration_states': npos}}


def sets_ref(x, op):
    x = set(x)
    k, a = op
    full = {(d, i) for d in range(4) for i in range(NE[d])}
    if k == 'set':
        return x | a
    if k == 'unset':
        return x - a
    y, z = a
    return {'&': y & z, '|': y | z, '^': y ^ z, '~': full - y}[k]


def setops():
    """(name, C++ statement on sp, reference operation)"""
    full = [(d, i) for d in range(4) for i in range(NE[d])]
    P = 'Node Edge Face Cell'.split()
    r = []
    for d, i in full:
        cl = closure(d, i)
        arg = '%d' % i if d < 3 else ''
        for k in ('set', 'unset'):
            r.append(('%s%s(%s)' % (k, P[d], arg), 'sp.%s%s(%s);' % (k, P[d], arg), (k, {(d, i)})))
            r.append(('%s(%d,%d)' % (k, d, i), 'sp.%s(%d, %d);' % (k, d, i), (k, {(d, i)})))
            r.append(('%s(%d,%d,closure)' % (k, d, i), 'sp.%s(%d, %d, true);' % (k, d, i), (k, cl)))
            if d:
                r.append(('%s%s(%s,closure)' % (k, P[d], arg), 'sp.%s%s(%s);' % (k, P[d], arg + (', ' if arg else '') + 'true'), (k, cl)))
    for d in range(4):
        al = {(d, i) for i in range(NE[d])}
        for k in ('set', 'unset'):
            r.append(('%s(%d)' % (k, d), 'sp.%s(uchar(%d));' % (k, d), (k, al)))
            if d < 3:
                r.append(('%s%ss()' % (k, P[d]), 'sp.%s%ss();' % (k, P[d]), (k, al)))
    r.append(('clear()', 'sp.clear();', ('unset', set(full))))
    return r


def sets(i):
    part = 8
    ops = setops()[i::part]
    src = HEAD + '''
static inline __attribute__((always_inline)) TetGeomSparsity mk(const unsigned* q){ TetGeomSparsity sp; for (int d = 0; d < 4; ++d) for (int i = 0; i < 6; ++i) if ((q[d] >> i) & 1) sp.set(d, i); return sp; }
static inline __attribute__((always_inline)) void show(const TetGeomSparsity& sp, unsigned* __restrict O){
    put(O, sp.empty()); for (int d = 0; d < 4; ++d){ put(O, sp.empty(d)); auto e = sp.getElemsIds(d); put(O, e.second); for (int i = 0; i < 6; ++i) put(O, i < e.second ? e.first[i] : 99); }
    auto p = sp.beginPos(); for (int k = 0; k < 16; ++k){ put(O, p.isValid() ? 10*p.elem_dim + p.elem_num : 99); p = sp.nextPos(p); } put(O, p == sp.endPos());
    for (int d = 0; d < 4; ++d){ auto p = sp.beginPos(d); for (int k = 0; k < 7; ++k){ put(O, p.isValid() ? 10*p.elem_dim + p.elem_num : 99); p = sp.nextPosOnDim(p); } } }
'''
    for k, (nm, cpp, ref) in enumerate(ops):
        src += 'extern "C" void w_o%d(SIG){ auto sp = mk(q); %s show(sp, O); }\n' % (k, cpp)
    two = [('a & b', '&'), ('a | b', '|'), ('a ^ b', '^'), ('~a', '~')] if i == 0 else []
    for k, (e, z) in enumerate(two):
        src += 'extern "C" void w_t%d(SIG){ auto a = mk(q), b = mk(q + 4); (void) b; show(%s, O); }\n' % (k, e)
    if i == 0:
        src += 'extern "C" void w_s(SIG){ auto a = mk(q), b = mk(q + 4); a.set(b); show(a, O); }\nextern "C" void w_u(SIG){ auto a = mk(q), b = mk(q + 4); a.unset(b); show(a, O); }\n'
    mod = witness_ir(src, name='dofset', light=True)
    full = {(d, j) for d in range(4) for j in range(NE[d])}
    pats = [set(), full, {(0, 1), (0, 2), (1, 0), (1, 3), (1, 5), (2, 0), (2, 3)}, full - {(0, 1), (0, 2), (1, 0), (1, 3), (1, 5), (2, 0), (2, 3)}]

    def want(x):
        w = [int(not x)]
        for d in range(4):
            y = sorted(j for k, j in x if k == d)
            w += [int(not y), len(y)] + y + [99] * (6 - len(y))
        z = [10 * d + j for d, j in sorted(x)]
        w += (z + [99] * 16)[:16] + [1]
        for d in range(4):
            z = [10 * d + j for k, j in sorted(x) if k == d]
            w += (z + [99] * 7)[:7]
        return w

    def bits(x, o=0):
        return {o + d: lift(sum(1 << j for k, j in x if k == d)) for d in range(4)}

    def look(fn, q, x):
        r = evalf(mod, fn, {}, q)
        if r.noreturn:
            return 'does not return'
        for k, w in enumerate(want(x)):
            b = cmp_(r, k, lift(w), 'output %d of the enumeration' % k)
            if b:
                return b + ' for the set {%s}' % ','.join('%s%d' % ('nefc'[d], j) for d, j in sorted(x))
        return ''
    obl = []
    for k, (nm, cpp, ref) in enumerate(ops):
        bad = ''
        for p in pats:
            bad = bad or look('w_o%d' % k, bits(p), sets_ref(p, ref))
        obl.append(('TetGeomSparsity ' + nm, not bad, bad, WH))
    more = [('w_t%d' % k, e, z) for k, (e, z) in enumerate(two)] + ([('w_s', 'a.set(b)', '|'), ('w_u', 'a.unset(b)', '-')] if i == 0 else [])
    for fn, e, z in more:
        bad = ''
        for a in pats:
            for b in pats:
                x = a - b if z == '-' else sets_ref(a, (z, (a, b)))
                bad = bad or look(fn, {**bits(a), **bits(b, 4)}, x)
        obl.append(('TetGeomSparsity ' + e, not bad, bad, WH))
    return {'obl': obl, 'counts': {'set_operations': len(obl)}}


def f02(c):
    global F2
    F2 = f2_jobs()
    collect(c, [(iteration, (i,)) for i in range(len(F2))] + ([(sets, (i,)) for i in range(8)] if ONLY in 'sets' else []))


# ---------------------------------------------------------------- F03
F3 = []


def f3_jobs():
    j = []
    shapes = [lambda: V(U()), lambda: C(U(), U()), lambda: C(V(U()), U(), V(U())), lambda: V(C(U(), U())), lambda: V(V(U())), lambda: C(S(), S()), lambda: V(S()), lambda: C(V(C(U(), V(U()))), U())]
    for sh in shapes:
        for k in ('rt', 'ct'):
            j.append((sh, k))
        if sh().name() in ('V(U)', 'C(V(U),U,V(U))'):
            j.append((sh, 'h:merge'))
    if TIER == 'thorough':
        for sh in [lambda: C(C(U(), V(U())), C(V(U()), U())), lambda: V(V(V(U()))), lambda: C(V(C(S(), V(S()))), S())]:
            j += [(sh, 'rt'), (sh, 'ct')]
    return [x for x in j if ONLY in x[0]().name() + ' ' + x[1]]


def inner(sh, path=()):
    """paths of the proper parts of a map"""
    if path:
        yield path
    for i, x in enumerate(sh.subs):
        yield from inner(x, path + (i,))


def nested(i):
    mk, kind = F3[i]
    sh = mk()
    sh.layout()
    nm = sh.name() + ' ' + kind
    dec, m, acc = holder(kind, sh)
    leaves = list(sh.leaves())
    src = HEAD
    plan = []
    LG = 'LocGeomOrder(uchar(%d), uchar(%d), %s)'
    hd = kind[0] == 'h'
    for pre in inner(sh):
        nodes = sh.chain(pre)
        nd = len(pre)
        # q[0..nd) the component numbers
        base = '%s int d[] = {%s}; auto v = %s%sGetNestedDofMapView(d, %d); auto w = %s%sGetNestedDofMap(d, %d); auto s = %s%sGetSubDofMap(d, %d);' % (
            dec, ', '.join('int(q[%d])' % k for k in range(nd)), m, acc, nd, m, acc, nd, m, acc, nd)
        sa = '.' if hd else '->'
        two = 'auto v1 = %s%sGetNestedDofMapView(d, 1); int d2[] = {0, %s}; auto v2 = v1.GetNestedDofMapView(d2, %d);' % (m, acc, ', '.join('d[%d]' % k for k in range(1, nd)), nd) if nd > 1 else ''
        for path, leaf in leaves:
            if path[:nd] != pre:
                continue
            for t in range(6):
                sps = points(leaf, t)
                for sp in sps:
                    if leaf.k == 'S' and (sp[1] != VOL[t][sp[0]] - 1):
                        continue
                    es = [0, E[t] - 1] if E[t] > 1 else [0]
                    fn = 'w_v%d' % len(plan)
                    b = base + two
                    for k, e in enumerate(es):
                        o = nd + 4 * k   # sub leid, sub gid, full leid, full gid
                        sl, fl = LG % (1 << t, e, 'q[%d]' % o), LG % (1 << t, e, 'q[%d]' % (o + 2))
                        sg, fg = 'TetOrder(q[%d])' % (o + 1), 'TetOrder(q[%d])' % (o + 3)
                        b += (' put(O, v.TetDofID({sl})); put(O, v.LocalOrderOnTet({sg})); put(O, v.LocalOrderOnTet({sl})); put(O, w.TetDofID({sl})); put(O, w.LocalOrderOnTet({sg})); put(O, s{sa}LocalOrderOnTet({sg}));'
                              ' put(O, v.isValidOutputIndex({fg})); put(O, v.isValidOutputIndex({fl})); put(O, v.isValidOutputIndex(LocalOrder({fg}, {fl}))); put(O, w.isValidOutputIndex(LocalOrder({fg}, {fl}))); put(O, {v2}.TetDofID({sl}));').format(
                                  sl=sl, sg=sg, fl=fl, fg=fg, sa=sa, v2='v2' if two else 'v')
                    src += 'extern "C" void %s(SIG){ %s }\n' % (fn, b)
                    plan.append((fn, pre, path, t, sp, es))
        src += ('extern "C" void w_c%s(SIG){ %s for (int t = 0; t < 6; ++t){ put(O, v.NumDof(1 << t)); put(O, v.NumDofOnTet(1 << t)); put(O, w.NumDofs()[t]); put(O, s%sNumDof(1 << t)); } put(O, v.NumDofOnTet()); put(O, w.NumDofOnTet()); put(O, s%sNumDofOnTet());'
                ' put(O, v.isValidOutputIndex(TetOrder(q[%d]))); for (int t = 0; t < 6; ++t) put(O, v.isValidOutputIndex(LocGeomOrder(uchar(1 << t), 0, q[%d + t]))); }\n') % ('_'.join(map(str, pre)), base, sa, sa, nd, nd + 1)
        src += 'extern "C" void w_x%s(SIG){ %s int d[] = {%s}; auto v = %s%sGetNestedDofMapView(d, %d); auto w = %s%sGetNestedDofMap(d, %d); put(O, !v.base()); put(O, !w.base()); put(O, %s); }\n' % (
            '_'.join(map(str, pre)), dec, ', '.join('int(q[%d])' % k for k in range(nd)), m, acc, nd, m, acc, nd, '!%s%sGetSubDofMap(d, %d)' % ('m.base()', '->', nd) if hd else '!%s%sGetSubDofMap(d, %d)' % (m, acc, nd))
    comp_ok = kind == 'rt' and sh.k in 'VC'
    if comp_ok:
        ty = {'V': 'VectorDofMap', 'C': 'ComplexDofMap'}[sh.k]
        src += 'extern "C" void w_comp(SIG){ %s auto& cm = static_cast<const %s&>(*m); auto a = cm.ComponentID(TetOrder(q[0])); put(O, a.gid); put(O, a.cgid); put(O, a.part_id); put(O, cm.TetDofID(a.part_id, a.cgid));' % (dec, ty)
        src += ' auto b = cm.ComponentID(ElemOrder(uchar(q[1]), q[2])); put(O, b.etype); put(O, b.gid); put(O, b.cgid); put(O, b.part_id); }\n'
    mod = witness_ir(src, name='dofnest', light=True)
    obl, np = [], 0
    by = dict(leaves)

    def dims(pre, comp):
        return {k: (comp[x.slot] if x.k == 'V' else lift(p)) for k, (x, p) in enumerate(zip(sh.chain(pre), pre))}

    for fn, pre, path, t, sp, es in plan:
        leaf = by[path]
        val, comp, le = value(sh, leaf, path, t, sp)
        sub = sh.chain(pre)[-1]
        q = dims(pre, comp)
        nd = len(pre)
        at = []
        for k, e in enumerate(es):
            g, l = sh.place(val, path, comp, t, e, le)
            sg, sl = sub.place(val, path[nd:], comp, t, e, le)
            q.update({nd + 4 * k: sl, nd + 4 * k + 1: sg, nd + 4 * k + 2: l, nd + 4 * k + 3: g})
            at.append((g, l, sg, sl))
        r = evalf(mod, fn, val, q)
        st = (lift(255), lift(255)) if leaf.k == 'U' else (lift(sp[0]), lift(sp[1]))
        bad = 'the query does not return' if r.noreturn else ''
        for k, e in enumerate(es):
            if bad:
                break
            g, l, sg, sl = at[k]
            full = [g, l, lift(1 << t), lift(e), st[0], st[1]]
            part = [sg, sl] + full[2:]
            want = [('view: TetDofID', g)] + [('view: LocalOrderOnTet(index)', x) for x in full] + [('view: LocalOrderOnTet(locus)', x) for x in full] + [('nested map: TetDofID', g)] + \
                [('nested map: LocalOrderOnTet(index)', x) for x in full] + [('part: LocalOrderOnTet(index)', x) for x in part] + [('isValidOutputIndex(index)', ONE), ('isValidOutputIndex(locus)', ONE), ('view: isValidOutputIndex', ONE),
                                                                                                                         ('nested map: isValidOutputIndex', ONE), ('view of a view: TetDofID', g)]
            for z, (w, x) in enumerate(want):
                bad = bad or cmp_(r, k * len(want) + z, x, w)
            if bad:
                bad = 'component %s, degree on %s %d: %s' % ([show_(q[z]) for z in range(nd)], TN[t], e, bad)
            np += 1
        obl.append(('%s part%s leaf%s %s%s' % (nm, ''.join(map(str, pre)), ''.join(map(str, path)), TN[t], '' if sp[0] is None else ' s%d.%d' % sp), not bad, bad, WH))
    for pre in inner(sh):
        nodes = sh.chain(pre)
        sub, nd = nodes[-1], len(pre)
        val = {k: sym('n%d' % k) for k in range(sh.layout())}
        comp = {}
        for x in vslots(sh):
            val[x] = val[x] + ONE
        for x in nodes[:-1]:
            if x.k == 'V':
                comp[x.slot] = sym('c%d' % x.slot)
                val[x.slot] = comp[x.slot] + ONE + sym('d%d' % x.slot)
        # offset of the part
        off, lof = ZERO, [ZERO] * 6
        for x, p in zip(nodes, pre):
            if x.k == 'V':
                c = comp[x.slot]
                off = off + c * x.subs[0].N(val)
                lof = [y + c * x.subs[0].n(val, t) for t, y in enumerate(lof)]
            else:
                for y in x.subs[:p]:
                    off = off + y.N(val)
                    lof = [z + y.n(val, t) for t, z in enumerate(lof)]
        u = '_'.join(map(str, pre))
        for which in ('past', 'before'):
            q = dims(pre, comp)
            r_ = sym('r')
            q[nd] = off + sub.N(val) + r_ if which == 'past' else off - ONE - r_
            for t in range(6):
                q[nd + 1 + t] = lof[t] + sub.n(val, t) + r_ if which == 'past' else lof[t] - ONE - r_
            r = evalf(mod, 'w_c' + u, val, q)
            bad = 'the query does not return' if r.noreturn else ''
            for t in range(6):
                for z, (w, x) in enumerate((('view: NumDof', sub.n(val, t)), ('view: NumDofOnTet', lift(E[t]) * sub.n(val, t)), ('nested map: NumDofs', sub.n(val, t)), ('part: NumDof', sub.n(val, t)))):
                    bad = bad or cmp_(r, 4 * t + z, x, '%s(%s)' % (w, TN[t]))
                bad = bad or cmp_(r, 28 + t, ZERO, 'isValidOutputIndex of a locus %s the part, %s' % (which, TN[t]))
            for z in range(3):
                bad = bad or cmp_(r, 24 + z, sub.N(val), 'NumDofOnTet of the %s' % ('view', 'nested map', 'part')[z])
            bad = bad or cmp_(r, 27, ZERO, 'isValidOutputIndex of an index %s the part' % which)
            obl.append(('%s part%s counts, indices %s' % (nm, ''.join(map(str, pre)), which), not bad, bad, WH))
        # a component that does not exist
        last = nodes[-2]
        for w, x in (('past the last', (val[last.slot] if last.k == 'V' else lift(len(last.subs))) + sym('r')), ('negative', -ONE - sym('r'))):
            q = dims(pre, comp)
            q[nd - 1] = x
            r = evalf(mod, 'w_x' + u, val, q)
            bad = 'the query does not return' if r.noreturn else ''
            for z in range(3):
                bad = bad or cmp_(r, z, ONE, 'absence of the %s' % ('view', 'nested map', 'part')[z])
            obl.append(('%s part%s %s component' % (nm, ''.join(map(str, pre)), w), not bad, bad, WH))
    if comp_ok:
        for path, leaf in leaves:
            for t in range(6):
                sp = points(leaf, t)[-1]
                val, comp, le = value(sh, leaf, path, t, sp)
                g, l = sh.place(val, path, comp, t, E[t] - 1, le)
                x = sh.subs[path[0]]
                sg, sl = x.place(val, path[1:], comp, t, E[t] - 1, le)
                pid = comp[sh.slot] if sh.k == 'V' else lift(path[0])
                r = evalf(mod, 'w_comp', val, {0: g, 1: lift(1 << t), 2: l})
                bad = 'ComponentID does not return' if r.noreturn else ''
                for z, (w, x) in enumerate((('gid', g), ('cgid', sg), ('part', pid), ('TetDofID(part, cgid)', g), ('element type', lift(1 << t)), ('index on element', l), ('index on element in the part', sl), ('part of the element index', pid))):
                    bad = bad or cmp_(r, z, x, 'ComponentID: ' + w)
                obl.append(('%s leaf%s %s component of an index' % (nm, ''.join(map(str, path)), TN[t]), not bad, bad, WH))
    return {'obl': obl, 'counts': {'map_shapes': 1, 'nested_points': np}}


def f03(c):
    global F3, F2
    F3 = f3_jobs()
    F2 = [x for x in [('C(V2(P2),ND,P0)', 'rt@0'), ('C(V2(P2),ND,P0)', 'ct@0.1'), ('C(V2(P2),ND,P0)', 'ct@1'), ('C(V2(P2),ND,P0)', 'rt@2'), ('V2(C(P0,P1))', 'rt@1'), ('V2(C(ND,P2))', 'ct@1.1'), ('V3(ND)', 'rt@2'), ('C(C(P1,RT),P2)', 'rt@0.1'),
                      ('C(C(P1,RT),P2)', 'ct@0'), ('V2(*P2)', 'rt@1')] if ONLY in ' '.join(x)]
    collect(c, [(nested, (i,)) for i in range(len(F3))] + [(iteration, (i,)) for i in range(len(F2))])


# ---------------------------------------------------------------- F05
PERMS = list(itertools.permutations(range(4)))
DOC = {(2, 1): 'abb bab bba', (2, 2): 'abc bca cab acb cba bac', (3, 1): 'abbb babb bbab bbba', (3, 2): 'aabb abab baab abba baba bbaa',
       (3, 3): 'abcc bcac cabc acbc cbac bacc bcca cacb accb cbca ccba ccab',
       (3, 4): 'abcd bcad cabd acbd cbad bacd abdc bcda cadb acdb cbda badc adbc bdca cdab adcb cdba bdac dabc dbca dcab dacb dcba dbac', (1, 1): 'ab ba'}


def elem_nodes(d, e):
    return [(e,), EDGES[e] if d == 1 else (), tuple((e + k) % 4 for k in range(3)), (0, 1, 2, 3)][d]


def reordered(d, e, s, l, perm):
    """index on the element whose nodes are taken in the order of their new numbers"""
    if s == 0 or d == 0:
        return l
    pats = DOC[d, s].split()
    nodes = elem_nodes(d, e)
    o = sorted(range(len(nodes)), key=lambda k: perm[nodes[k]])
    return pats.index(''.join(pats[l][k] for k in o))


def sym_jobs():
    return [x for x in ['reorder', 'tables'] + ['perm ' + s for s in SPACES5] if ONLY in x]


# maps whose tetrahedron permutations are formed: documented symmetry groups of the d.o.f.s
SPACES5 = {
    'nodes': 'UniteDofMap(DofSymmetries({1}))', 'nodes x2': 'UniteDofMap(DofSymmetries({2}))', 'edges S1': 'UniteDofMap(DofSymmetries({1}, {1,0}))', 'edges S2': 'UniteDofMap(DofSymmetries({1}, {0,0}, {0,1}, {1,0,0}))',
    'edges S2x2': 'UniteDofMap(DofSymmetries({0}, {1,2}))', 'edges oriented': 'UniteDofMap(DofSymmetries({0}, {0,0}, {1,0}))', 'faces oriented': 'UniteDofMap(DofSymmetries({0}, {0,0}, {0,0}, {0,0,0}, {1,0,0}))',
    'faces S3': 'UniteDofMap(DofSymmetries({1}, {0,0}, {0,0}, {1,1,0}))', 'faces S6': 'UniteDofMap(DofSymmetries({0}, {0,0}, {0,0}, {0,0,1}))', 'cell S1 S4 S6': 'UniteDofMap(DofSymmetries({0}, {0,0}, {0,0}, {0,0,0}, {0,0,0}, {1,1,1,0,0}))', 'cell S12': 'UniteDofMap(DofSymmetries({0}, {0,0}, {0,0}, {0,0,0}, {0,0,0}, {0,0,0,1,0}))', 'cell S24': 'UniteDofMap(DofSymmetries({0}, {0,0}, {0,0}, {0,0,0}, {0,0,0}, {0,0,0,0,1}))',
    'vector of nodes': 'mkV(3, UniteDofMap(DofSymmetries({1})))', 'vector of edges S2': 'mkV(2, UniteDofMap(DofSymmetries({0}, {0,1})))',
    'mixture': 'mkC(UniteDofMap(DofSymmetries({1})), mkV(2, UniteDofMap(DofSymmetries({0}, {1,0}))), UniteDofMap(DofSymmetries({0}, {0,0}, {0,0}, {0,0,0}, {1,0,0}, {0,1,0,0,0})))',
    'library P0': 'mapof<FemFix<FEM_P0>>()', 'library P1': 'mapof<FemFix<FEM_P1>>()', 'library P2': 'mapof<FemFix<FEM_P2>>()', 'library P3': 'mapof<FemFix<FEM_P3>>()', 'library RT0': 'mapof<FemFix<FEM_RT0>>()', 'library ND0': 'mapof<FemFix<FEM_ND0>>()',
    'library CR1': 'mapof<FemFix<FEM_CR1>>()'}
F5 = []


def symmetry(i):
    job = F5[i]
    obl = []
    if job == 'reorder':
        src = HEAD + '''extern "C" void w_r(SIG){ unsigned char p[4] = {(unsigned char)n[0], (unsigned char)n[1], (unsigned char)n[2], (unsigned char)n[3]};
          const int el[6] = {4, 6, 6, 4, 4, 1}; for (int t = 0; t < 6; ++t) for (int e = 0; e < el[t]; ++e) for (int s = 0; s < DofSymmetries::symmetries_amount(1 << t); ++s) for (int l = 0; l < DofSymmetries::symmetry_volume(1 << t, s); ++l)
            put(O, DofSymmetries::index_on_reorderd_elem(1 << t, e, s, l, p)); }
          extern "C" void w_l(SIG){ for (int t = 0; t < 6; ++t){ put(O, DofSymmetries::symmetries_amount(1 << t)); for (int s = 0; s < DofSymmetries::symmetries_amount(1 << t); ++s) put(O, DofSymmetries::symmetry_volume(1 << t, s)); } }'''
        mod = witness_ir(src, name='dofsym', light=True)
        res = {}
        r = evalf(mod, 'w_l', {}, {})
        bad, z = '', 0
        for t in range(6):
            for w in [len(VOL[t])] + VOL[t]:
                bad = bad or cmp_(r, z, lift(w), 'size of the symmetry groups of %s' % TN[t])
                z += 1
        obl.append(('symmetry group sizes', not bad, bad, WH))
        for perm in PERMS:
            r = evalf(mod, 'w_r', {k: lift(x) for k, x in enumerate(perm)}, {})
            z = 0
            for t in range(6):
                for e in range(E[t]):
                    for s in range(len(VOL[t])):
                        for l in range(VOL[t][s]):
                            b = cmp_(r, z, lift(reordered(DIM[t], e, s, l, perm)), 'index of degree %d of group S%d on %s %d for the node numbers %s' % (l, VOL[t][s], TN[t], e, perm)) if not r.noreturn else 'does not return'
                            z += 1
                            if b:
                                res.setdefault((t, s), b)
        for t in range(6):
            for s in range(len(VOL[t])):
                b = res.get((t, s), '')
                obl.append(('index_on_reorderd_elem %s S%d' % (TN[t], VOL[t][s]), not b, b, WH))
        return {'obl': obl, 'counts': {'node_permutations': 24}}
    if job == 'tables':
        src = HEAD + '''using namespace S4; extern "C" void w_t(SIG){ for (int e = 0; e < 6; ++e) for (int k = 0; k < 2; ++k) put(O, edge_vertex(e, k)); for (int f = 0; f < 4; ++f) for (int k = 0; k < 3; ++k) put(O, face_vertex(f, k));
          for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) put(O, find_edge_elem(a, b)); for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) for (int c = 0; c < 5; ++c) put(O, find_face_elem(a, b, c));
          std::array<std::array<uchar, 4>, 24> p; all_permutations(p); for (auto& x: p) for (auto y: x) put(O, y); auto id = identity_perm(); for (auto y: id) put(O, y);
          for (int t = 0; t < 6; ++t){ auto k = symmetry_type_key(LocalOrder(0, 1 << t, 0, 0)); put(O, k.etype); put(O, k.oriented); } }
          extern "C" void w_s(SIG){ LocalOrder lo(0, uchar(n[0]), uchar(n[1]), 0); auto d = stabilizer_data(lo); put(O, d.generators.size()); for (auto& g: d.generators) for (auto y: g) put(O, y); }
          extern "C" void w_v(SIG){ LocalOrder r(0, uchar(n[0]), 0, 0), lo(0, uchar(n[0]), uchar(n[1]), 0); auto p = perm_vertex_to_repr(r, lo); for (auto y: p) put(O, y); }
          extern "C" void w_c(SIG){ LocalOrder lo(0, uchar(n[0]), uchar(n[1]), 0); uchar g[4] = {uchar(n[2]), uchar(n[3]), uchar(n[4]), uchar(n[5])}; put(O, stabilizer_character(g, lo)); LocalOrder x = remap_local_order(lo, g); put(O, x.etype); put(O, x.nelem); }'''
        mod = witness_ir(src, name='dofsym', light=True)
        r = evalf(mod, 'w_t', {}, {})
        o = 0

        def val_():
            nonlocal o
            o += 1
            x = out(r, o - 1)
            return int(x.const()) % (1 << 32) if isinstance(x, R) and x.const() is not None else None
        ev = [tuple(val_() for k in range(2)) for e in range(6)]
        obl.append(('edge_vertex', ev == EDGES, 'edge vertices are %s' % ev if ev != EDGES else '', WH))
        fv = [tuple(val_() for k in range(3)) for f in range(4)]
        ok = [set(x) for x in fv] == [set(x) for x in FACES]
        obl.append(('face_vertex', ok, '' if ok else 'face vertices are %s' % fv, WH))
        bad = ''
        for a in range(5):
            for b in range(5):
                x = val_()
                w = EDGES.index(tuple(sorted((a, b)))) if a != b and max(a, b) < 4 else 255
                bad = bad or (x != w and 'find_edge_elem(%d,%d) is %s, expected %d' % (a, b, x, w)) or ''
        obl.append(('find_edge_elem', not bad, bad, WH))
        bad = ''
        for a, b, c in itertools.product(range(5), repeat=3):
            x = val_()
            w = [set(y) for y in FACES].index({a, b, c}) if len({a, b, c}) == 3 and max(a, b, c) < 4 else 255
            bad = bad or (x != w and 'find_face_elem(%d,%d,%d) is %s, expected %d' % (a, b, c, x, w)) or ''
        obl.append(('find_face_elem', not bad, bad, WH))
        ps = [tuple(val_() for k in range(4)) for _ in range(24)]
        ok = sorted(ps, key=str) == sorted(PERMS, key=str)
        obl.append(('all_permutations', ok, '' if ok else 'all_permutations gives %s' % ps, WH))
        idp = [val_() for k in range(4)]
        obl.append(('identity_perm', idp == [0, 1, 2, 3], '' if idp == [0, 1, 2, 3] else 'identity is %s' % idp, WH))
        keys = [(val_(), val_()) for t in range(6)]
        ok = [k[1] for k in keys] == [0, 0, 1, 0, 1, 0] and len({k[0] for k in keys}) == 4 and keys[1][0] == keys[2][0] and keys[3][0] == keys[4][0]
        obl.append(('symmetry_type_key', ok, '' if ok else 'keys are %s' % keys, WH))

        def ints(fn, val, k):
            x = evalf(mod, fn, {a: lift(b) for a, b in enumerate(val)}, {})
            if x.noreturn:
                return None
            y = [out(x, z) for z in range(k)]
            return [int(v.const()) % (1 << 32) if isinstance(v, R) and v.const() is not None else None for v in y]
        for t in range(6):
            d = DIM[t]
            bs = bv = bc = br = ''
            for e in range(E[t]):
                nodes = set(elem_nodes(d, e))
                x = ints('w_s', (1 << t, e), 1)
                if x is None or x[0] is None:
                    bs = bs or 'stabilizer_data gives no generators'
                else:
                    x = ints('w_s', (1 << t, e), 1 + 4 * x[0])[1:]
                    gens = [tuple(x[k:k + 4]) for k in range(0, len(x), 4)]
                    grp = {(0, 1, 2, 3)}
                    while True:
                        more = grp | {tuple(g[h[k]] for k in range(4)) for g in gens for h in grp if None not in g}
                        if more == grp:
                            break
                        grp = more
                    want = {p for p in PERMS if {p[v] for v in nodes} == nodes}
                    if d == 3:
                        want = set(PERMS)
                    if grp != want:
                        bs = bs or 'generators %s of the stabilizer of %s %d generate %d permutations of %d' % (gens, TN[t], e, len(grp & want), len(want))
                p = ints('w_v', (1 << t, e), 4)
                ref = elem_nodes(d, 0)
                if p is None or sorted(p, key=str) != [0, 1, 2, 3] or {p[v] for v in ref} != nodes:
                    bv = bv or 'perm_vertex_to_repr to %s %d gives %s' % (TN[t], e, p)
                for g in PERMS:
                    y = ints('w_c', (1 << t, e) + g, 3)
                    im = {g[v] for v in nodes}
                    ie = next(k for k in range(E[t]) if set(elem_nodes(d, k)) == im)
                    if y is None or y[1:] != [1 << t, ie]:
                        br = br or 'remap_local_order takes %s %d under %s to type %s element %s, expected %d' % (TN[t], e, g, y and y[1], y and y[2], ie)
                    if im == nodes:
                        vs = sorted(nodes)
                        inv = sum(g[a] > g[b] for a in vs for b in vs if a < b)
                        w = -1 if TN[t].endswith('-oriented') and inv % 2 else 1
                        if y is None or y[0] not in (w, w % (1 << 32)):
                            bc = bc or 'stabilizer_character of %s on %s %d is %s, expected %d' % (g, TN[t], e, y and y[0], w)
            for nm, b in (('stabilizer_data', bs), ('perm_vertex_to_repr', bv), ('stabilizer_character', bc), ('remap_local_order', br)):
                obl.append(('%s %s' % (nm, TN[t]), not b, b, WH))
        return {'obl': obl, 'counts': {'node_permutations': 24}}
    nm = job[5:]
    src = HEAD + ('#include "anifem++/fem/operators.h"\n#include "anifem++/fem/spaces/spaces.h"\n' if 'library' in nm else '') + '''
      template<class F> static UniteDofMap mapof(){ return Dof<F>::Map(); }
      extern "C" void w_n(SIG){ auto m = %s; put(O, m.NumDofOnTet()); for (unsigned i = 0; i < m.NumDofOnTet(); ++i) put(O, m.LocalOrderOnTet(TetOrder(i))); }
      extern "C" void w_p(SIG){ auto m = %s; unsigned char p[4] = {(unsigned char)n[0], (unsigned char)n[1], (unsigned char)n[2], (unsigned char)n[3]}; double P[40 * 40]; int N = m.NumDofOnTet(); S4::build_dof_permutation(m, p, P, N);
         for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) put(O, P[i + j * N] == 0 ? 0 : P[i + j * N] == 1 ? 1 : P[i + j * N] == -1 ? 2 : 3); }''' % ((SPACES5[nm],) * 2)
    mod = witness_ir(src, name='dofperm', light=True)
    r = evalf(mod, 'w_n', {}, {})
    N = int(out(r, 0).const())
    los = [[int(out(r, 1 + 6 * k + z).const()) for z in range(6)] for k in range(N)]   # gid leid etype nelem stype lsid
    at = {(x[2], x[3], x[1]): k for k, x in enumerate(los)}
    mats = {}
    bad = ''
    # the matrix of each node permutation; the quick tier takes generators, a few products and the rotations
    for g in PERMS if TIER == 'thorough' else [(0, 1, 2, 3), (1, 0, 2, 3), (0, 2, 1, 3), (0, 1, 3, 2), (1, 2, 3, 0), (3, 0, 2, 1), (2, 3, 0, 1), (3, 2, 1, 0)]:
        r = evalf(mod, 'w_p', {k: lift(x) for k, x in enumerate(g)}, {})
        if r.noreturn:
            bad = 'build_dof_permutation does not return'
            break
        M = [[out(r, a * N + b) for b in range(N)] for a in range(N)]
        mats[g] = [[{0: 0, 1: 1, 2: -1}.get(int(x.const()) if isinstance(x, R) and x.const() is not None else 3) for x in row] for row in M]
        for j, (gid, leid, et, ne, st, ls) in enumerate(los):
            t = et.bit_length() - 1
            d = DIM[t]
            nodes = elem_nodes(d, ne)
            im = [g[v] for v in nodes]
            e2 = next(k for k in range(E[t]) if set(elem_nodes(d, k)) == set(im))
            l2 = ls
            if st not in (0, 255) and d:
                pats = DOC[d, st].split()
                n2 = elem_nodes(d, e2)
                l2 = pats.index(''.join(pats[ls][im.index(v)] for v in n2))
            w = at.get((et, e2, leid if st == 255 else leid - ls + l2))
            vs = sorted(nodes)
            sgn = -1 if t in (2, 4) and sum(g[a] > g[b] for a in vs for b in vs if a < b) % 2 else 1
            col = [mats[g][k][j] for k in range(N)]
            want = [sgn if k == w else 0 for k in range(N)]
            if col != want:
                bad = 'under %s degree %d (%s %d, S-group %s, position %s) goes to %s, expected %s%d' % (g, j, TN[t], ne, st, ls, {k: x for k, x in enumerate(col) if x != 0}, '-' if sgn < 0 else '', w)
                break
        if bad:
            break
    obl.append(('build_dof_permutation ' + nm, not bad, bad, WH))
    return {'obl': obl, 'counts': {'node_permutations': len(mats)}}


def f05(c):
    global F5
    F5 = sym_jobs()
    collect(c, [(symmetry, (i,)) for i in range(len(F5))])


if __name__ == '__main__':
    pid = sys.argv[1]
    {'F01': lambda: main('F01', 'for every map and all symbolic counts: the tetrahedron index of a locus is the documented one and LocalOrderOnTet inverts it', f01),
     'F02': lambda: main('F02', 'iteration over chosen elements visits every degree of freedom on them once', f02),
     'F03': lambda: main('F03', 'parts of a map and their views keep the numbering of the whole', f03),
     'F05': lambda: main('F05', 'renumbering the nodes of a tetrahedron moves every degree of freedom to its documented place', f05)}[pid]()
