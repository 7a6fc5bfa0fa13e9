"""Canonical algebraic values (Laurent polynomials over interned atoms with factored denominators).

This is the value domain of the value-numbering pass in avn.py: two SSA values receive the same number
iff their canonical forms agree.  Atoms are inputs (memory cells / arguments) or uninterpreted operations
applied to canonical arguments.  No value is ever chosen for an input.
"""
from fractions import Fraction as Fr

_atoms = {}
_names = []


def atom_id(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_names)
        _atoms[key] = i
        _names.append(key)
    return i


def atom_key(i):
    return _names[i]


def rationalize(x):
    """double literal -> exact small rational when the literal is the rounding of one."""
    if x != x or x in (float('inf'), float('-inf')):
        return None
    if x == int(x) and abs(x) < 2**53:
        return Fr(int(x))
    f = Fr(x)
    r = f.limit_denominator(5000)
    if abs(r - f) <= Fr(3, 10**16) * abs(f):
        return r
    return f


class P:
    """Laurent polynomial: {monomial: coeff}; monomial = sorted tuple of (atom, exp)."""
    __slots__ = ('t', '_k')

    def __init__(self, t=None):
        self.t = t if t is not None else {}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def iszero(self):
        return not self.t

    def const(self):
        if not self.t:
            return Fr(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def add(self, o, s=1):
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + (c if s == 1 else s * c)
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return P(r)

    def scale(self, c):
        if c == 0:
            return P()
        if c == 1:
            return self
        return P({m: v * c for m, v in self.t.items()})

    def mul(self, o):
        if len(self.t) > len(o.t):
            return o.mul(self)
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return P(r)

    def powi(self, n):
        r = ONE_P
        b = self
        while n:
            if n & 1:
                r = r.mul(b)
            n >>= 1
            if n:
                b = b.mul(b)
        return r


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        v = d.get(k, 0) + e
        if v:
            d[k] = v
        else:
            del d[k]
    return tuple(sorted(d.items()))


ONE_P = P({(): Fr(1)})
_polys = {}
_polylist = []


def poly_id(p):
    k = p.key()
    i = _polys.get(k)
    if i is None:
        i = len(_polylist)
        _polys[k] = i
        _polylist.append(p)
    return i


class R:
    """num / prod(den_i ^ e_i); den is a sorted tuple of (poly id, exp)."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=()):
        self.n = n
        self.d = d if n.t else ()

    def key(self):
        return ('R', self.n.key(), self.d)

    def const(self):
        return self.n.const() if not self.d else None

    def __add__(self, o):
        o = lift(o)
        if self.d == o.d:
            return mk(self.n.add(o.n), self.d)
        if not self.n.t:
            return o
        if not o.n.t:
            return self
        da, db = dict(self.d), dict(o.d)
        lcm = dict(da)
        for k, e in db.items():
            lcm[k] = max(lcm.get(k, 0), e)
        na, nb = self.n, o.n
        for k, e in lcm.items():
            x = e - da.get(k, 0)
            if x:
                na = na.mul(_polylist[k].powi(x))
            x = e - db.get(k, 0)
            if x:
                nb = nb.mul(_polylist[k].powi(x))
        return mk(na.add(nb), tuple(sorted(lcm.items())))

    def __neg__(self):
        return R(self.n.scale(-1), self.d)

    def __sub__(self, o):
        return self + (-lift(o))

    def __mul__(self, o):
        o = lift(o)
        if not self.n.t or not o.n.t:
            return ZERO
        if not self.d and not o.d:
            return R(self.n.mul(o.n))
        d = dict(self.d)
        for k, e in o.d:
            d[k] = d.get(k, 0) + e
        return mk(self.n.mul(o.n), tuple(sorted(d.items())))

    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(self, o):
        return lift(o) - self

    def inv(self):
        if not self.n.t:
            raise ZeroDivisionError
        num = ONE_P
        for k, e in self.d:
            num = num.mul(_polylist[k].powi(e))
        if len(self.n.t) == 1:
            (m, c), = self.n.t.items()
            return R(num.mul(P({tuple((a, -e) for a, e in m): 1 / Fr(c)})))
        # normalise: strip common monomial, make leading coefficient 1
        p = self.n
        ms = list(p.t)
        common = {}
        for a, e in ms[0]:
            common[a] = e
        allat = set(a for m in ms for a, _ in m)
        com = []
        for a in allat:
            mn = min(dict(m).get(a, 0) for m in ms)
            if mn:
                com.append((a, mn))
        com = tuple(sorted(com))
        if com:
            icom = tuple((a, -e) for a, e in com)
            p = P({mono_mul(m, icom): c for m, c in p.t.items()})
            num = num.mul(P({icom: Fr(1)}))
        lead = min(p.t)
        c = p.t[lead]
        p = p.scale(1 / Fr(c))
        num = num.scale(1 / Fr(c))
        return mk(num, ((poly_id(p), 1),))

    def __truediv__(self, o):
        return self * lift(o).inv()

    def __rtruediv__(self, o):
        return lift(o) * self.inv()

    def __pow__(self, n):
        if n < 0:
            return self.inv() ** (-n)
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def __repr__(self):
        return show(self)


def mk(n, d):
    # cancel a denominator factor that equals the numerator up to scale
    if not n.t:
        return ZERO
    if d and len(n.t) > 1:
        for k, e in d:
            q = exact_div(n, _polylist[k])
            while q is not None and e > 0:
                n = q
                d = tuple((kk, ee - 1 if kk == k else ee) for kk, ee in d)
                e -= 1
                d = tuple(x for x in d if x[1])
                q = exact_div(n, _polylist[k]) if e > 0 else None
    return R(n, d)


def exact_div(a, b):
    """a / b if b divides a exactly (only attempted when cheap)."""
    if len(b.t) > len(a.t) or len(a.t) > 400:
        return None
    # graded-lex leading monomials over the union of atoms
    ats = sorted(set(x for m in a.t for x, _ in m) | set(x for m in b.t for x, _ in m))
    pos = {x: i for i, x in enumerate(ats)}

    def vec(m):
        v = [0] * len(ats)
        for x, e in m:
            v[pos[x]] = e
        return tuple(v)
    A = {vec(m): c for m, c in a.t.items()}
    B = {vec(m): c for m, c in b.t.items()}
    # shift to non-negative exponents
    mnA = tuple(min(v[i] for v in A) for i in range(len(ats)))
    mnB = tuple(min(v[i] for v in B) for i in range(len(ats)))
    A = {tuple(x - y for x, y in zip(v, mnA)): c for v, c in A.items()}
    B = {tuple(x - y for x, y in zip(v, mnB)): c for v, c in B.items()}
    lb = max(B)
    cb = B[lb]
    q = {}
    steps = 0
    while A:
        la = max(A)
        if any(x < y for x, y in zip(la, lb)):
            return None
        m = tuple(x - y for x, y in zip(la, lb))
        c = A[la] / Fr(cb)
        q[m] = c
        for v, x in B.items():
            w = tuple(i + j for i, j in zip(v, m))
            y = A.get(w, 0) - c * x
            if y:
                A[w] = y
            else:
                A.pop(w, None)
        steps += 1
        if steps > 400 or len(A) > 2000:
            return None
    sh = tuple(x - y for x, y in zip(mnA, mnB))
    return P({tuple((ats[i], e) for i, e in enumerate(tuple(x + y for x, y in zip(m, sh))) if e): c for m, c in q.items()})


def lift(x):
    if isinstance(x, R):
        return x
    if isinstance(x, (int, Fr)):
        return R(P({(): Fr(x)}) if x else P())
    if isinstance(x, float):
        return lift(rationalize(x))
    raise TypeError(x)


ZERO = R(P())
ONE = R(ONE_P)


def atom(*key):
    return R(P({((atom_id(key if len(key) > 1 else key[0]), 1),): Fr(1)}))


def atoms_of(r, deep=False):
    s = set()
    for m in r.n.t:
        s.update(a for a, _ in m)
    for k, _ in r.d:
        for m in _polylist[k].t:
            s.update(a for a, _ in m)
    if deep:
        todo = list(s)
        while todo:
            k = atom_key(todo.pop())
            for x in _walk(k):
                if x not in s:
                    s.add(x)
                    todo.append(x)
    return s


def _walk(k):
    # atoms nested inside a function-atom key: ('R', items, den)
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == 'R':
            for m, _ in k[1]:
                for a, _ in m:
                    yield a
            for pid, _ in k[2]:
                for m in _polylist[pid].t:
                    for a, _ in m:
                        yield a
        else:
            for x in k:
                yield from _walk(x)


def from_key(k):
    return R(P(dict(k[1])), k[2])


def reduce_roots(r):
    """apply sqrt(x)^2 = x, |x|^2 = x^2, cbrt(x)^3 = x to the numerator and denominators."""
    for _ in range(8):
        changed = False

        def red(p):
            nonlocal changed
            out = ZERO
            plain = {}
            for m, c in p.t.items():
                extra = None
                mm = []
                for a, e in m:
                    k = atom_key(a)
                    if isinstance(k, tuple) and len(k) == 3 and k[0] == 'fn' and k[1] in ('sqrt', 'fabs', 'cbrt'):
                        n = 3 if k[1] == 'cbrt' else 2
                        q, rem = divmod(e, n)
                        if q:
                            arg = from_key(k[2])
                            if k[1] == 'fabs':
                                arg = arg * arg
                            extra = (extra if extra is not None else ONE) * (arg ** q)
                            changed = True
                        if rem:
                            mm.append((a, rem))
                    else:
                        mm.append((a, e))
                if extra is None:
                    plain[m] = c
                else:
                    out = out + R(P({tuple(mm): c})) * extra
            return R(P(plain)) + out
        x = red(r.n)
        for k, e in r.d:
            x = x / (red(_polylist[k]) ** e)
        r = x
        if not changed:
            return r
    return r


def residual(r):
    """max |coefficient| of the numerator after root reduction (0 for an identity)."""
    r = reduce_roots(r)
    if not r.n.t:
        return 0.0
    # a numerator may still contain roots with denominators cleared
    r2 = reduce_roots(R(r.n))
    if not r2.n.t:
        return 0.0
    return max(abs(float(c)) for c in r2.n.t.values())


def same(a, b, tol=1e-11):
    a, b = lift(a), lift(b)
    if a.key() == b.key():
        return True
    d = a - b
    sc = max([1e-300] + [abs(float(c)) for c in a.n.t.values()] + [abs(float(c)) for c in b.n.t.values()])
    return residual(d) <= tol * max(sc, 1e-3)


def show_atom(a):
    k = atom_key(a)
    return show_key(k)


def show_key(k):
    if isinstance(k, str):
        return k
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == 'R':
            return show(from_key(k))
        if k and k[0] == 'fn':
            return '%s(%s)' % (k[1], ', '.join(show_key(x) for x in k[2:]))
        return '[' + ' '.join(show_key(x) for x in k) + ']'
    return str(k)


def show(r, lim=300):
    def sp(p):
        out = []
        for m, c in sorted(p.t.items()):
            cs = str(c) if c.denominator < 10**6 else '%.15g' % float(c)
            out.append('*'.join(([cs] if (c != 1 or not m) else []) + ['%s%s' % (show_atom(a), '^%d' % e if e != 1 else '') for a, e in m]))
        return ' + '.join(out) or '0'
    s = sp(r.n)
    if r.d:
        s = '(%s) / %s' % (s, '*'.join('(%s)%s' % (sp(_polylist[k]), '^%d' % e if e > 1 else '') for k, e in r.d))
    return s if len(s) < lim else s[:lim] + '...'


# ---- calculus on canonical values -------------------------------------------------
def diff(r, rules):
    """total derivative; rules(atom_id) -> R (derivative of that atom) or None (constant)."""
    out = ZERO
    ats = atoms_of(r)
    for a in ats:
        da = rules(a)
        if da is None or not da.n.t:
            continue
        out = out + pdiff(r, a) * da
    return out


def pdiff_p(p, a):
    r = {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.get(a, 0)
        if e:
            if e == 1:
                del d[a]
            else:
                d[a] = e - 1
            k = tuple(sorted(d.items()))
            v = r.get(k, 0) + c * e
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return P(r)


def pdiff(r, a):
    out = R(pdiff_p(r.n, a), r.d)
    for k, e in r.d:
        out = out - r * lift(e) * R(pdiff_p(_polylist[k], a)) / R(_polylist[k])
    return out


def subst(r, f):
    """replace atoms: f(atom_id) -> R or None (keep)."""
    cache = {}

    def g(a):
        if a not in cache:
            cache[a] = f(a)
        return cache[a]

    def sp(p):
        out = ZERO
        keep = {}
        for m, c in p.t.items():
            if all(g(a) is None for a, _ in m):
                keep[m] = c
                continue
            t = R(P({(): c}))
            rest = []
            for a, e in m:
                v = g(a)
                if v is None:
                    rest.append((a, e))
                else:
                    t = t * (v ** e)
            if rest:
                t = t * R(P({tuple(rest): Fr(1)}))
            out = out + t
        return out + R(P(keep))
    x = sp(r.n)
    for k, e in r.d:
        x = x / (sp(_polylist[k]) ** e)
    return x
