"""B01 B03 B04 B05 B06 M01 M02: finite-element operators, decided on the algebraic values the library computes for
opaque vertices, opaque barycentric points and opaque degrees of freedom."""
import os
import sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from frame import *
from fem import *
import avn

MIXED_UNION = Union(S('RT0'), S('RT0'))
SPACES = ELEM + [s for s in COMPOSITE]
WHERE = 'anifem++/fem: operator %s of %s (%s interface), %d point(s), %d fused element(s)'


def where(sp, key):
    p, op, q, f = key
    return WHERE % (op, sp.name, {'s': 'template', 'd': 'run-time'}[p], q, f)


def kk(sp, key, extra=''):
    p, op, q, f = key
    return '%s/%s/%s/q%d/f%d%s' % (sp.name, {'s': 'template', 'd': 'runtime'}[p], op, q, f, extra)


def usable(sp, tb, obl, also=True):
    """tables that were produced; a path that only throws or leaves output cells unset is itself a violation"""
    out = {}
    for k, t in tb.items():
        if isinstance(t, str):
            obl.append((kk(sp, k, '/evaluates'), False, t, where(sp, k)))
            continue
        if not t.complete():
            obl.append((kk(sp, k, '/complete'), False, 'some output values are never written or depend on previous buffer contents', where(sp, k)))
            continue
        out[k] = t
    return out


def each(t):
    for r in range(t.f):
        for n in range(t.q):
            yield r, n, t.val[r][n]


def derivative(u, r, n, m):
    """d u / d L_m at fixed vertices, from the point variables of point n"""
    return pdiff(u, atom_id(('L', n, m)))


def b01(sp, cfg):
    obl = []
    nderiv = 0
    ts = usable(sp, tables(sp, [cfg]), obl)
    q, f = cfg
    for p in 'sd':
        iden, grad = ts.get((p, 'IDEN', q, f)), ts.get((p, 'GRAD', q, f))
        if not iden or not grad:
            continue
        bad = None
        for r, n, u in each(iden):
            g = grad.val[r][n]
            for j in range(sp.dim()):
                for m in (1, 2, 3):
                    nderiv += 1
                    lhs = derivative(u[j], r, n, m)
                    rhs = sum((g[k + 3 * j] * J(r, k, m) for k in range(3)), ZERO)
                    if not same(lhs, rhs):
                        bad = bad or 'component %d, point %d, element %d: the gradient is not the derivative of the value (residual %s)' % (j, n, r, show(lhs - rhs, 120))
        obl.append((kk(sp, (p, 'GRAD', q, f)), bad is None, bad or '', where(sp, (p, 'GRAD', q, f))))
        for k, op in enumerate(('DUDX', 'DUDY', 'DUDZ')):
            t = ts.get((p, op, q, f))
            if not t:
                continue
            bad = None
            for r, n, u in each(t):
                for j in range(sp.dim()):
                    nderiv += 1
                    if not same(u[j], grad.val[r][n][k + 3 * j]):
                        bad = bad or 'component %d, point %d, element %d differs from the gradient component' % (j, n, r)
            obl.append((kk(sp, (p, op, q, f)), bad is None, bad or '', where(sp, (p, op, q, f))))
        t = ts.get((p, 'DIV', q, f))
        if t:
            bad = None
            for r, n, u in each(t):
                nderiv += 1
                if not same(u[0], sum((grad.val[r][n][k + 3 * k] for k in range(3)), ZERO)):
                    bad = bad or 'point %d, element %d: divergence is not the trace of the gradient' % (n, r)
            obl.append((kk(sp, (p, 'DIV', q, f)), bad is None, bad or '', where(sp, (p, 'DIV', q, f))))
        t = ts.get((p, 'CURL', q, f))
        if t:
            bad = None
            for r, n, u in each(t):
                for c in range(3):
                    nderiv += 1
                    a, b = (c + 1) % 3, (c + 2) % 3
                    g = grad.val[r][n]
                    if not same(u[c], g[a + 3 * b] - g[b + 3 * a]):
                        bad = bad or 'component %d, point %d, element %d: curl is not the antisymmetric part of the gradient' % (c, n, r)
            obl.append((kk(sp, (p, 'CURL', q, f)), bad is None, bad or '', where(sp, (p, 'CURL', q, f))))
    return {'obl': obl, 'counts': {'derivative_identities': nderiv, 'operator_tables': len(ts)}}


def b03(sp, cfg):
    obl, n_cmp = [], 0
    ts = usable(sp, tables(sp, [cfg]), obl)
    q, f = cfg
    for op in sp.ops(True):
        a, b = ts.get(('s', op, q, f)), ts.get(('d', op, q, f))
        for p, t in (('s', a), ('d', b)):
            if t:
                good = t.nfa == sp.nfa() and t.dim == sp.opdim(op)
                obl.append((kk(sp, (p, op, q, f), '/sizes'), good, 'reports %d basis functions and dimension %d, expected %d and %d' % (t.nfa, t.dim, sp.nfa(), sp.opdim(op)), where(sp, (p, op, q, f))))
        if not a or not b:
            continue
        bad = None
        for r in range(f):
            for n in range(q):
                for k in range(a.dim):
                    n_cmp += 1
                    if not same(a.val[r][n][k], b.val[r][n][k]):
                        bad = bad or 'component %d, point %d, element %d differs between the template and the run-time interface' % (k, n, r)
        obl.append((kk(sp, ('s', op, q, f), '/agree'), bad is None, bad or '', where(sp, ('d', op, q, f))))
    return {'obl': obl, 'counts': {'values_compared': n_cmp}}


def in_span(vecs, x):
    """is x in the rational span of vecs (dicts monomial -> Fraction)?"""
    rows = []

    def red(v):
        v = dict(v)
        for piv, row in rows:
            c = v.get(piv)
            if c:
                for m, y in row.items():
                    z = v.get(m, 0) - c * y
                    if abs(z) < Fr(1, 10**11):
                        v.pop(m, None)
                    else:
                        v[m] = z
        return v
    for v in vecs:
        v = red(v)
        if v:
            piv = max(v, key=lambda m: abs(v[m]))
            rows.append((piv, {m: y / v[piv] for m, y in v.items()}))
    return not red(x)


def monvec(us):
    """components of one basis function -> {(component, monomial): coefficient}"""
    out = {}
    for j, u in enumerate(us):
        u = reduce_roots(u)
        if u.d:
            return None
        for m, c in u.n.t.items():
            out[(j, m)] = Fr(c)
    return out


def b04(sp, cfg):
    obl, n_cmp = [], 0
    q, f = cfg
    ops = ['IDEN', 'GRAD', 'DUDX', 'DUDY', 'DUDZ']
    ts = usable(sp, tables(sp, [cfg], ops=ops), obl)
    parts = sp.parts * (sp.n if sp.kind in ('Vec', 'VecT') else 1)
    sub = {}
    for p in sp.parts:
        if p.name not in sub:
            sub[p.name] = usable(p, tables(p, [cfg], ops=ops), [])
    nfa = sp.nfa()
    for key, t in ts.items():
        p, op, q, f = key
        if any((p, op, q, f) not in sub[x.name] for x in parts):
            continue
        if sp.kind == 'Union':
            if op != 'IDEN':
                continue
            bad = None
            for r in range(f):
                for i in range(nfa):
                    us = [pdiff(t.val[r][0][k], dofs_atom(i + nfa * r)) for k in range(t.dim)]
                    x = monvec(us)
                    span = []
                    for part in sp.parts:
                        st = sub[part.name][p, op, q, f]
                        for l in range(part.nfa()):
                            span.append(monvec([pdiff(st.val[r][0][k], dofs_atom(l + part.nfa() * r)) for k in range(t.dim)]))
                    n_cmp += 1
                    if x is None or any(s is None for s in span):
                        continue
                    if not in_span(span, x):
                        bad = bad or 'basis function %d is not in the span of the united spaces' % i
            obl.append((kk(sp, key, '/span'), bad is None, bad or '', where(sp, key)))
            continue
        bad = None
        mul = 3 if op == 'GRAD' else 1
        for r in range(f):
            for n in range(q):
                st_i = st_k = 0
                for part in parts:
                    pt = sub[part.name][p, op, q, f]
                    pn = part.nfa()

                    def ren(a, _n=pn, _o=st_i, _r=r):
                        k = atom_key(a)
                        if k[0] == 'in' and k[1] == 'dofs':
                            i = k[2] // 8 - _n * _r
                            return atom('in', 'dofs', 8 * (i + _o + nfa * _r), 8)
                        return None
                    for k in range(mul * part.dim()):
                        n_cmp += 1
                        if not same(t.val[r][n][st_k + k], avn.deep_subst(pt.val[r][n][k], ren)):
                            bad = bad or 'component %d, point %d, element %d is not the value of the corresponding part with its own degrees of freedom' % (st_k + k, n, r)
                    st_i += pn
                    st_k += mul * part.dim()
        obl.append((kk(sp, key, '/blocks'), bad is None, bad or '', where(sp, key)))
    return {'obl': obl, 'counts': {'values_compared': n_cmp}}


def b05(sp, cfg):
    obl = []
    ts = usable(sp, tables(sp, [cfg]), obl)
    for key, t in ts.items():
        ds = [ldeg(x) for _, _, u in each(t) for x in u]
        if any(d is None for d in ds):
            obl.append((kk(sp, key, '/polynomial'), False, 'value is not a polynomial of the point', where(sp, key)))
            continue
        d = max(ds)
        obl.append((kk(sp, key, '/order'), t.order >= d, 'reported polynomial order %d is below the degree %d of the evaluated functions' % (t.order, d), where(sp, key)))
        if key[1] == 'IDEN':
            obl.append((kk(sp, key, '/order-exact'), t.order == sp.order(), 'reported polynomial order %d, the space has order %d' % (t.order, sp.order()), where(sp, key)))
    return {'obl': obl, 'counts': {'operator_tables': len(ts)}}


def single(tb, nfa, r):
    """values of the one-element table rewritten for element r"""
    def ren(a):
        k = atom_key(a)
        if k[0] in ('X0', 'J') and k[1] == 0:
            return atom(k[0], r, *k[2:])
        if k[0] == 'in' and k[1] == 'dofs':
            return atom('in', 'dofs', k[2] + 8 * nfa * r, 8)
        return None
    return [[avn.deep_subst(x, ren) for x in u] for u in tb.val[0]]


def b06(sp, cfgs):
    obl, n_cmp = [], 0
    (q0, f0), (q, f) = cfgs
    ts = usable(sp, tables(sp, [(q, 1), (q, f)]), obl)
    for (p, op, qq, ff), t in sorted(ts.items()):
        if ff != f:
            continue
        one = ts.get((p, op, q, 1))
        if not one:
            continue
        bad = None
        for r in range(f):
            exp = single(one, sp.nfa(), r)
            for n in range(q):
                for k in range(t.dim):
                    n_cmp += 1
                    if not same(t.val[r][n][k], exp[n][k]):
                        bad = bad or 'component %d, point %d of fused element %d differs from evaluating that element alone' % (k, n, r)
        # the first point must not depend on the others, and every point is treated alike
        for n in range(1, q):
            def ren(a, _n=n):
                k = atom_key(a)
                return atom('L', _n, k[2]) if k[0] == 'L' and k[1] == 0 else None
            for k in range(t.dim):
                n_cmp += 1
                if not same(one.val[0][n][k], avn.deep_subst(one.val[0][0][k], ren)):
                    bad = bad or 'component %d at point %d is not the function evaluated at the first point' % (k, n)
        obl.append((kk(sp, (p, op, q, f)), bad is None, bad or '', where(sp, (p, op, q, f))))
    return {'obl': obl, 'counts': {'values_compared': n_cmp}}


OUT = {'U', 'D', 'I', 'R', 'Mx'}


def m01(sp, cfg):
    obl = []
    ts = usable(sp, tables(sp, [cfg]), obl)
    for key, t in ts.items():
        r = t.r
        w = where(sp, key)
        for base, size, unit in (('D', t.dsize, 8), ('I', t.isize, 4)):
            ext = r.extent(base)
            obl.append((kk(sp, key, '/' + base), ext <= size * unit, 'touches %d of the %d %s elements the requirement announces' % (ext // unit, size, {'D': 'real', 'I': 'integer'}[base]), w))
        ext = r.extent('U')
        obl.append((kk(sp, key, '/output'), ext <= 8 * t.dim * t.q * t.f, 'writes %d output values instead of %d' % (ext // 8, t.dim * t.q * t.f), w))
        if key[0] == 'd':
            ms = int(need_const(r.cell('R', 40), 'mSize'))
            ext = r.extent('Mx')
            obl.append((kk(sp, key, '/Mx'), ext <= 32 * ms, 'touches %d bytes of the matrix-header workspace, %d headers announced' % (ext, ms), w))
        stale = sorted({k[1] for x in (x for _, _, u in each(t) for x in u) for k in map(atom_key, atoms_of(x, deep=True)) if k[0] == 'in' and k[1] not in ('dofs',)})
        obl.append((kk(sp, key, '/stale'), not stale, 'result depends on previous contents of %s' % stale, w))
        obl.append((kk(sp, key, '/locals'), not r.oob, 'accesses a local or allocated block out of bounds: %s' % r.oob[:2], w))
        bad = sorted(b for b in r.written() if b not in OUT and b in ('XY0', 'XY1', 'XY2', 'XY3', 'XYL', 'dofs', 'X'))
        obl.append((kk(sp, key, '/inputs'), not bad, 'writes to its input(s) %s' % bad, w))
    return {'obl': obl, 'counts': {'operator_tables': len(ts)}}


def m02(sp, cfg):
    obl = []
    ts = usable(sp, tables(sp, [cfg]), obl)
    for key, t in ts.items():
        g = sorted(t.r.gwrites)
        obl.append((kk(sp, key), not g, 'writes to static storage: %s' % g[:3], where(sp, key)))
    return {'obl': obl, 'counts': {'operator_tables': len(ts)}}


RULES = {
    'B01': (b01, 'Gradient, directional derivative, divergence and curl of every basis function equal the exact derivative of its value.'),
    'B03': (b03, 'Template and run-time interfaces compute identical values and sizes for every space and operator.'),
    'B04': (b04, 'Composite spaces evaluate exactly their parts: vector/complex blocks, union basis in the span of its parts.'),
    'B05': (b05, 'Reported polynomial order bounds the degree of the evaluated function; value operators report it exactly.'),
    'B06': (b06, 'Fused and multi-point evaluation equals one element, one point at a time.'),
    'M01': (m01, 'Workspaces touched stay inside the announced requirement, outputs inside the result, inputs unwritten.'),
    'M02': (m02, 'Evaluation writes no static storage.'),
}
CFG = {'quick': {'B01': [(1, 1), (2, 2)], 'B03': [(1, 1), (2, 2)], 'B04': [(2, 2)], 'B05': [(1, 1)], 'B06': [((1, 1), (2, 3))], 'M01': [(1, 1), (1, 2), (3, 1), (3, 2)]},
       'thorough': {'B01': [(1, 1), (2, 2), (3, 1), (1, 3)], 'B03': [(1, 1), (2, 2), (3, 1), (1, 3)], 'B04': [(1, 1), (2, 2), (3, 1), (1, 3)], 'B05': [(1, 1), (2, 1)],
                    'B06': [((1, 1), (2, 2)), ((1, 1), (3, 3))], 'M01': [(1, 1), (1, 2), (3, 1), (3, 2), (4, 4), (11, 1), (1, 5)]}}


def body(pid):
    fn, rule = RULES[pid]

    def go(c):
        cfgs = CFG['thorough' if TIER == 'thorough' else 'quick']
        cfgs = cfgs.get(pid, [(2, 2)])
        sps = [s for s in SPACES if pid != 'B04' or s.parts]
        if os.environ.get('ONLY'):
            sps = [s for s in sps if s.name in os.environ['ONLY'].split(';')]
        jobs = [(fn, (s, cfg)) for s in sorted(sps, key=lambda s: -s.nfa()) for cfg in cfgs]
        c.count('spaces', len(sps))
        collect(c, jobs)
        if not os.environ.get('ONLY'):
            c.need('finite-element spaces', len(sps), 20)
        c.assumptions = ['identities are over the rational functions of the inputs (real arithmetic), non-degenerate elements',
                         'decided for the instantiated space list and the given numbers of points and fused elements, for all vertices, points and coefficients']
    return go


if __name__ == '__main__':
    pid = sys.argv[1]
    main(pid, RULES[pid][1], body(pid))
