"""Algebraic value numbering over compiler IR.

Input : a function of a witness translation unit, compiled by clang (fully inlined / unrolled) from /repo's
        current headers and dumped by tools/irdump.
Output: the canonical value (lib/alg.py) of the returned value and of every memory cell written, plus the
        ordered list of calls to external marker functions.
The pass walks the acyclic SSA once in topological order.  Joins become gated (ite) values; a join of equal
values is that value.  There is no path enumeration, no chosen input and no solver.  A loop that the compiler
could not remove, an unknown call or a store through a non-constant offset makes the function `Opaque`.
"""
import math
import struct
from fractions import Fraction as Fr
from alg import *
import alg


class Opaque(Exception):
    pass


class B:
    """boolean value: constant or (key, negated)"""
    __slots__ = ('k', 'neg')

    def __init__(self, k, neg=False):
        self.k = k
        self.neg = neg

    def __invert__(self):
        if isinstance(self.k, bool):
            return B(not self.k)
        return B(self.k, not self.neg)

    def key(self):
        return ('B', self.k, self.neg)

    def const(self):
        return self.k if isinstance(self.k, bool) else None

    def __repr__(self):
        return ('!' if self.neg else '') + show_key(self.k)


class Ptr:
    __slots__ = ('base', 'off')

    def __init__(self, base, off=ZERO):
        self.base = base
        self.off = off

    def key(self):
        return ('P', self.base, self.off.key())

    def __repr__(self):
        return '&%s+%s' % (self.base, self.off)


class Agg:
    def __init__(self, items):
        self.items = dict(items)

    def key(self):
        return ('A',) + tuple(sorted((k, v.key()) for k, v in self.items.items()))


class Undef:
    def key(self):
        return ('undef',)

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Fn:
    def __init__(self, n):
        self.n = n

    def key(self):
        return ('Fn', self.n)


def fnatom(name, *args):
    return atom(('fn', name) + tuple(a.key() for a in args))


LIBM = {'pow', 'atan2', 'hypot', 'exp', 'expm1', 'log', 'log1p', 'sqrt', 'cbrt', 'sin', 'cos', 'tan', 'atan', 'asin',
        'erf', 'erfc', 'tgamma', 'lgamma', 'acos', 'sinh', 'cosh', 'tanh', 'fabs', 'floor', 'ceil', 'round', 'trunc', 'fmod', 'exp2', 'log2', 'log10'}


def bkey_cmp(p, a, b, isint):
    """canonical boolean for a <p> b, p in eq ne lt le gt ge"""
    if p == 'gt':
        return bkey_cmp('lt', b, a, isint)
    if p == 'ge':
        return ~bkey_cmp('lt', a, b, isint)
    if p == 'le':
        return ~bkey_cmp('lt', b, a, isint)
    if p == 'ne':
        return ~bkey_cmp('eq', a, b, isint)
    if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Fn) or isinstance(b, Fn):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
            a, b = a.off, b.off
            isint = True
        elif p == 'eq':
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                return B(False)
            ka, kb = sorted([repr(a.key()), repr(b.key())])
            if ka == kb:
                return B(True)
            if isinstance(a, (Ptr, Fn)) and isinstance(b, (Ptr, Fn)):
                return B(False)
            return B(('peq', ka, kb))
        else:
            raise Opaque('pointer comparison')
    if isinstance(a, Undef) or isinstance(b, Undef):
        return B(('undefcmp',))
    d = a - b
    c = d.const()
    x = c is None and const_ite(d)
    if x:
        return ite(x[0], bkey_cmp(p, x[1], ZERO, isint), bkey_cmp(p, x[2], ZERO, isint))
    if POS and isint and c is None:
        s = possign(d)
        if s is None and p == 'lt' and b.const() is not None and b.const() >= 2 ** 31 and (possign(a) or 0) >= 0:
            return B(True)
        if p == 'lt' and s is not None:
            return B(s < 0)
        if p == 'eq' and s in (1, -1):
            return B(False)
    if p == 'eq':
        if c is not None:
            return B(c == 0)
        k = d.n.key()
        n = (-d).n.key()
        # scale-normalise
        lead = min(d.n.t)
        s = R(d.n.scale(1 / Fr(d.n.t[lead])), d.d)
        return B(('eq0', s.key()))
    if c is not None:
        return B(c < 0)
    if isint and not d.d and all(x.denominator == 1 for x in d.n.t.values()):
        # a < b  <=>  a - b + 1 <= 0 ; canonical sign
        q = d + ONE
        return le0(q)
    # reals: a < b  <=> d < 0 ; not(-d < 0) is d <= 0 i.e. different bool
    lead = min(d.n.t)
    s = R(d.n.scale(1 / abs(Fr(d.n.t[lead]))), d.d)
    return B(('lt0', s.key()))


def const_ite(d):
    """(condition, constant, constant) when the value is an affine function of one conditional constant"""
    ats = {a for m in d.n.t for a, _ in m}
    if d.d or len(ats) != 1 or any(m not in ((), ((min(ats), 1),)) for m in d.n.t):
        return None
    k = atom_key(min(ats))
    if not (isinstance(k, tuple) and k[0] == 'ite' and k[1][0] == 'B' and all(isinstance(x, tuple) and x[0] == 'R' for x in k[2:4])):
        return None
    u, v = (from_key(x) for x in k[2:4])
    if u.const() is None or v.const() is None:
        return None
    s = d.n.t[((min(ats), 1),)]
    rest = R(P({m: c for m, c in d.n.t.items() if m == ()}))
    return B(k[1][1], k[1][2]), u * lift(s) + rest, v * lift(s) + rest


# Symbols standing for arbitrary non-negative integers (counts, indices): a comparison of two polynomials in them is decided
# when all coefficients of the difference have one sign; values are taken to stay below 2^31.
POS = set()


def possign(d):
    """1: positive, -1: negative, 0: not negative, None: not decided (a form that cannot be positive but can be 0: None)"""
    if d.d or not all(c.denominator == 1 and all(a in POS and e > 0 for a, e in m) for m, c in d.n.t.items()):
        return None
    if all(c >= 0 for c in d.n.t.values()):
        return 1 if d.n.t.get((), 0) > 0 else 0
    if all(c <= 0 for c in d.n.t.values()) and d.n.t.get((), 0) < 0:
        return -1
    return None


def posdiv(a, b, depth=4):
    """quotient and remainder of non-negative integer forms, None when not determined"""
    k = b.const()
    if k is not None:
        if k <= 0 or possign(a) is None or possign(a) < 0:
            return None
        q = R(P({m: Fr(c // k) for m, c in a.n.t.items() if c // k}))
        r = R(P({m: Fr(c % k) for m, c in a.n.t.items() if c % k}))
        return (q, r) if r.const() is not None else None
    if possign(b) != 1:
        return None

    def go(q, r, n):
        if (possign(r) or 0) >= 0 and possign(r) is not None and (possign(b - ONE - r) or 0) >= 0 and possign(b - ONE - r) is not None:
            return q, r
        if not n:
            return None
        # all parts of quotient and remainder are non-negative: every partial product stays below the rest, coefficient by coefficient
        cand = []
        mb, cb = next(iter(sorted(b.n.t.items(), key=lambda x: -len(x[0]))))
        for m, c in r.n.t.items():
            if c > 0 and c >= cb:
                t = R(P({m: Fr(1)})) / R(P({mb: Fr(1)}))
                if t.d or any(e < 0 for mm in t.n.t for _, e in mm):
                    continue
                k = min(r.n.t.get(x, 0) // y for x, y in (t * b).n.t.items())
                if k > 0:
                    cand.append(t * lift(k))
        for t in cand:
            x = go(q + t, r - t * b, n - 1)
            if x:
                return x
        return None
    return go(ZERO, a, depth)


def le0(q):
    lead = min(m for m in q.n.t if m != ())
    if q.n.t[lead] > 0:
        return B(('le0', q.key()))
    # q <= 0  <=> not (1 - q <= 0)
    return B(('le0', (ONE - q).key()), True)


def ite(c, a, b):
    cc = c.const()
    if cc is not None:
        return a if cc else b
    if a is b or a.key() == b.key():
        return a
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    if c.neg:
        c, a, b = ~c, b, a
    if isinstance(a, B) or isinstance(b, B):
        ac, bc = a.const(), b.const()
        if ac is True and bc is False:
            return c
        if ac is False and bc is True:
            return ~c
        return B(('ite', c.key(), a.key(), b.key()))
    if isinstance(a, R) and isinstance(b, R):
        # equality-guarded constants (v == 0 ? 0 : f) are kept as they are
        return atom(('ite', c.key(), a.key(), b.key()))
    if isinstance(a, Cat) or isinstance(b, Cat):
        w = (a if isinstance(a, Cat) else b).w
        x, y = Cat.of(a, w), Cat.of(b, w)
        if x and y:
            cuts = sorted({0, w} | {z for k in (x, y) for o, (s, _) in k.sym.items() for z in (o, o + s)})
            sym = {}
            for p, q in zip(cuts, cuts[1:]):
                u, v = x.cut(p, q - p), y.cut(p, q - p)
                if u is None or v is None:
                    raise Opaque('join of unlike values')
                sym[p] = (q - p, ite(c, u, v))
            return Cat(w, sym, bytearray(w)).norm()
    if isinstance(a, Agg) and isinstance(b, Agg):
        return Agg({k: ite(c, a.items.get(k, UNDEF), b.items.get(k, UNDEF)) for k in set(a.items) | set(b.items)})
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
        return Ptr(a.base, ite(c, a.off, b.off))
    if isinstance(a, Fn) and isinstance(b, Fn) or isinstance(a, (Ptr, IPtr)) and isinstance(b, (Ptr, IPtr)):
        return IPtr(c, a, b)
    raise Opaque('join of unlike values')


DEAD = object()


class Cat:
    """integer of w bytes made of separate values: symbolic pieces {offset: (size, value)} over constant bytes"""
    def __init__(self, w, sym, cb):
        self.w, self.sym, self.cb = w, sym, cb

    def key(self):
        return ('cat', self.w, tuple(sorted((o, s, v.key()) for o, (s, v) in self.sym.items())), bytes(self.cb))

    def const(self):
        return None

    def __repr__(self):
        return 'Cat(%d, %r, %r)' % (self.w, self.sym, self.cb)

    @staticmethod
    def of(v, w):
        """v as a Cat of w bytes, None when it cannot be seen so"""
        if isinstance(v, Cat):
            return v if v.w == w else None
        if isinstance(v, Undef):
            return Cat(w, {0: (w, v)}, bytearray(w))
        if not isinstance(v, R):
            return None
        c = v.const()
        if c is not None:
            return Cat(w, {}, bytearray((int(c) & ((1 << (8 * w)) - 1)).to_bytes(w, 'little'))) if c.denominator == 1 else None
        return Cat(w, {0: (min(w, 4), v)}, bytearray(w))

    def norm(self):
        if not self.sym:
            return lift(int.from_bytes(bytes(self.cb), 'little', signed=True))
        if len(self.sym) == 1:
            (o, (s, v)), = self.sym.items()
            if o == 0 and (s == self.w or isinstance(v, R) and not any(self.cb[s:])):
                return v
        return self

    def cut(self, o0, w):
        """bytes o0..o0+w, None when a piece is split"""
        sym = {}
        for o, (s, v) in self.sym.items():
            if o >= o0 and o + s <= o0 + w:
                sym[o - o0] = (s, v)
            elif o < o0 + w and o0 < o + s:
                if not isinstance(v, Undef):
                    return None
                a, b = max(o, o0), min(o + s, o0 + w)
                sym[a - o0] = (b - a, v)
        cb = (self.cb[o0:o0 + w] + bytearray(w))[:w]
        return Cat(w, sym, cb).norm()

    def shl(self, k):
        sym = {}
        for o, (s, v) in self.sym.items():
            if o + k + s <= self.w:
                sym[o + k] = (s, v)
            elif o + k < self.w:
                return None
        return Cat(self.w, sym, (bytearray(k) + self.cb)[:self.w]).norm()

    def merge(self, o):
        for x, y in ((self, o), (o, self)):
            for a, (s, v) in x.sym.items():
                if any(y.cb[a:a + s]):
                    return None
                if any(b < a + s and a < b + t for b, (t, _) in y.sym.items()):
                    return None
        return Cat(self.w, {**self.sym, **o.sym}, bytearray(p | q for p, q in zip(self.cb, o.cb))).norm()


class IPtr:
    """gated pointer"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def key(self):
        return ('IP', self.c.key(), self.a.key(), self.b.key())

    def map(self, f):
        return IPtr(self.c, f(self.a), f(self.b))


class Mem:
    def __init__(self):
        self.m = {}

    def copy(self):
        r = Mem()
        r.m = {k: dict(v) for k, v in self.m.items()}
        return r


class Result:
    def cell(self, base, off, sz=8):
        """final value of a memory cell; parts of merged constant stores are split; None if never written"""
        cells = self.mem.get(base, {})
        c = cells.get(off)
        if c and c[0] == sz:
            return c[1]
        for o, (s, v) in cells.items():
            if o <= off and off + sz <= o + s and isinstance(v, R) and v.const() is not None and v.const().denominator == 1:
                x = (int(v.const()) >> (8 * (off - o))) & ((1 << (8 * sz)) - 1)
                return lift(x - (1 << (8 * sz)) if x >= 1 << (8 * sz - 1) else x)
        return None

    def extent(self, base):
        """one past the last byte touched (read or written); a touch before the start counts as unbounded"""
        t = self.touched.get(base, {})
        if any(o < 0 for o, _ in t):
            return 1 << 40
        return max([0] + [o + s for o, s in t])

    def written(self):
        return {b for b, t in self.touched.items() if any('w' in h for h in t.values())}


class Eval:
    def __init__(self, mod, fname, args=None, bases=None, onload=None, markers='h_', calls=None, allow_clobber=False):
        self.mod = mod
        self.f = mod['fns'][fname]
        self.fname = fname
        self.glob = mod['globals']
        self.args = args or {}
        self.onload = onload
        self.markers = markers
        self.calls = calls or {}
        self.ssa = {}
        self.events = []
        self.fresh = 0
        self.ninstr = 0
        self.undef_reads = []
        self.assumed = []
        self.oob = []
        self.baseinfo = {}
        self.touched = {}
        self.frames = []
        self.nframe = 0
        self.dead = []
        self.ginited = set()
        self.gwrites = {}
        self.onaccess = None    # (evaluation, pointer, size, written): called at every access to memory
        self.decide_off = None  # offset that is no number -> number, when the path determines it
        self.decide_div = None  # (x, y) of an undecided division of non-negative integers -> (quotient, remainder)
        self.decide_int = None  # (predicate, x, y, unsigned) of an undecided comparison of integers -> bool: the path being analysed
        self.decide = None      # (predicate, x, y) of a comparison of reals -> bool or None: the case being analysed

    # -- operands
    def op(self, o):
        t = o[0]
        if t == 'v':
            try:
                return self.ssa[o[1]]
            except KeyError:
                raise Opaque('use of unevaluated value')
        if t == 'i':
            if o[2] == 1:
                return B(o[1] != '0')
            return lift(int(o[1]))
        if t == 'f':
            x = float.fromhex(o[1])
            r = rationalize(x)
            return lift(r) if r is not None else atom('nonfinite:%r' % x)
        if t == 'null':
            return Ptr('null')
        if t == 'undef':
            return UNDEF
        if t == 'g':
            return Ptr('@' + o[1])
        if t == 'fn':
            return Fn(o[1])
        if t == 'gep':
            b = self.op(o[1])
            if isinstance(b, Undef):
                return UNDEF
            if isinstance(b, Fn):
                raise Opaque('gep of fn')
            if not isinstance(b, (Ptr, IPtr)):
                raise Opaque('gep on non pointer')
            off = lift(o[2])
            for v, s in o[3]:
                x = self.op(v)
                if isinstance(x, B):
                    x = self.b2i(x)
                if isinstance(x, Undef):
                    return UNDEF
                if not isinstance(x, R):
                    raise Opaque('gep index')
                off = off + x * lift(s)
            return self.padd(b, off)
        if t == 'zero':
            return Agg({})
        if t == 'agg':
            return Agg({(i,): self.op(x) for i, x in enumerate(o[1])})
        if t in ('md', 'asm'):
            return UNDEF
        if t == 'ce':
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return self.op(o[2])
        raise Opaque('operand ' + str(o)[:80])

    def padd(self, p, off):
        if isinstance(p, IPtr):
            return p.map(lambda q: self.padd(q, off))
        return Ptr(p.base, p.off + off)

    def b2i(self, b):
        c = b.const()
        if c is not None:
            return lift(1 if c else 0)
        return ite(b, ONE, ZERO)

    # -- memory
    def place(self, p):
        if self.decide_off and isinstance(p, Ptr) and p.off.const() is None:
            c = self.decide_off(p.off)
            if c is not None:
                return Ptr(p.base, lift(c))
        return p

    def load(self, p, sz, ty, ln=None):
        p = self.place(p)
        if self.onaccess:
            self.onaccess(self, p, sz, False)
        if isinstance(p, IPtr):
            return ite(p.c, self.load(p.a, sz, ty, ln), self.load(p.b, sz, ty, ln))
        if not isinstance(p, Ptr):
            raise Opaque('load through %r' % (p,))
        off = p.off.const()
        base = p.base
        if off is None:
            k = self.split_off(p.off)
            if k is not None:
                return ite(k[0], self.load(Ptr(base, k[1]), sz, ty, ln), self.load(Ptr(base, k[2]), sz, ty, ln))
        if off is None or off.denominator != 1:
            raise Opaque('load at a non-constant offset of %s: %s' % (base, show(p.off, 300)))
        off = int(off)
        cells = self.mem.m.get(base)
        if cells and off in cells and cells[off][0] == sz:
            return self.conv(cells[off][1], ty)
        if isinstance(base, str) and base.startswith('@'):
            g = self.glob.get(base[1:])
            if base == '@__libc_single_threaded':
                return ONE
            if g is not None and 'init' in g and base not in self.ginited:
                # static storage has its initial value: nothing reachable writes it (gwrites is reported otherwise)
                self._ginit(base, g)
                cells = self.mem.m.get(base, {})
                if off in cells and cells[off][0] == sz:
                    return self.conv(cells[off][1], ty)
            if g is not None and g.get('const') and not cells:
                raise Opaque('constant global %s+%d size %d' % (base, off, sz))
        if cells:
            for o, (s, v) in cells.items():
                if o < off + sz and off < o + s:
                    # part of a wider constant integer store (e.g. merged stores)
                    if isinstance(v, R) and v.const() is not None and o <= off and off + sz <= o + s and ty.startswith('i'):
                        x = (int(v.const()) >> (8 * (off - o))) & ((1 << (8 * sz)) - 1)
                        if x >= 1 << (8 * sz - 1):
                            x -= 1 << (8 * sz)
                        return lift(x) if ty != 'i1' else B(bool(x & 1))
                    r = self._combine(cells, off, sz, ty)
                    if r is not None:
                        return r
                    raise Opaque('partial overlap load %s+%d size %d vs %d,%d (%s)' % (base, off, sz, o, s, repr(v)[:80]))
        kind = self.baseinfo.get(base, ('arg',))[0]
        self._touch(base, off, sz, 'r')
        if kind in ('alloca', 'heap'):
            self.undef_reads.append((base, off, ln))
            v = UNDEF
        elif self.onload:
            v = self.onload(self, base, off, sz, ty)
            if v is None:
                v = self._in(base, off, sz, ty)
        else:
            v = self._in(base, off, sz, ty)
        self.mem.m.setdefault(base, {})[off] = (sz, v)
        self.initial.setdefault(base, {})[off] = (sz, v)
        return v

    def _combine(self, cells, off, sz, ty):
        # assemble an integer from constant narrower cells
        if not ty.startswith('i'):
            if ty == 'double' and sz == 8:
                pass
            return None
        x = 0
        o = off
        while o < off + sz:
            if o not in cells or not isinstance(cells[o][1], R) or cells[o][1].const() is None or cells[o][0] + o > off + sz:
                return self._cat(cells, off, sz)
            s, v = cells[o]
            x |= (int(v.const()) & ((1 << (8 * s)) - 1)) << (8 * (o - off))
            o += s
        if x >= 1 << (8 * sz - 1):
            x -= 1 << (8 * sz)
        return lift(x)

    def _cat(self, cells, off, sz):
        """integer assembled from narrower, or cut from a wider, separately stored values"""
        if not POS:
            return None
        sym, cb, seen = {}, bytearray(sz), set()
        for o, (s, v) in sorted(cells.items()):
            if not (o < off + sz and off < o + s):
                continue
            if isinstance(v, B):
                v = self.b2i(v)
            if not isinstance(v, (R, Undef, Cat)):
                return None
            c = Cat.of(v, s)
            if c is None:
                return None
            a, b = max(o, off), min(o + s, off + sz)
            x = c.cut(a - o, b - a)
            if x is None:
                return None
            if isinstance(x, R) and x.const() is None:
                sym[a - off] = (b - a, x)
            else:
                x = Cat.of(x, b - a)
                sym.update({a - off + k: t for k, t in x.sym.items()})
                cb[a - off:b - off] = x.cb
            seen.update(range(a - off, b - off))
        k = 0
        while k < sz:
            if k not in seen:
                m = k
                while m < sz and m not in seen:
                    m += 1
                sym[k] = (m - k, UNDEF)
                k = m
            else:
                k += 1
        return Cat(sz, sym, cb).norm()

    def _in(self, base, off, sz, ty):
        if ty == 'ptr':
            return Ptr('*(%s+%d)' % (base, off))
        if ty == 'i1':
            return B(('in', str(base), off))
        return atom(('in', str(base), off, sz))

    def _ginit(self, base, g):
        if base in self.ginited:
            return
        self.ginited.add(base)
        d = self.mem.m.setdefault(base, {})
        for off, sz, o in g.get('init', []):
            if off in d:
                continue
            try:
                d[off] = (sz, self.op(o))
            except Opaque:
                d[off] = (sz, UNDEF)

    def conv(self, v, ty):
        if ty == 'i1' and isinstance(v, R):
            c = v.const()
            if c is not None:
                return B(bool(int(c) & 1))
            return self.i2b(v)
        if ty == 'double' and isinstance(v, R):
            c = v.const()
            if c is not None and abs(c) > 2**52 and c.denominator == 1:
                # integer constant reinterpreted as double bits (merged constant stores)
                x = struct.unpack('<d', struct.pack('<q', int(c)))[0]
                return lift(rationalize(x))
        return v

    def i2b(self, v):
        # integer 0/1 value -> bool
        k = None
        if not v.d and len(v.n.t) == 1:
            (m, c), = v.n.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                k = atom_key(m[0][0])
                if isinstance(k, tuple) and k[0] == 'ite' and k[2] == ONE.key() and k[3] == ZERO.key():
                    return B(k[1][1], k[1][2])
        return ~bkey_cmp('eq', v, ZERO, True)

    def _touch(self, base, off, sz, how):
        if how == 'w' and isinstance(base, str) and base.startswith('@'):
            self.gwrites.setdefault(base, set()).add((off, sz))
            if base not in self.ginited and base[1:] in self.glob and 'init' in self.glob[base[1:]]:
                self._ginit(base, self.glob[base[1:]])
        t = self.touched.setdefault(base, {})
        t.setdefault((off, sz), set()).add(how)
        bi = self.baseinfo.get(base)
        if bi and bi[0] in ('alloca', 'heap') and bi[1] is not None and (off < 0 or off + sz > bi[1]):
            self.oob.append((base, off, sz, bi[1]))

    def store(self, p, v, sz, ty=None):
        p = self.place(p)
        if self.onaccess:
            self.onaccess(self, p, sz, True)
        if isinstance(p, Ptr) and p.off.const() is None:
            k = self.split_off(p.off)
            if k is not None:
                p = IPtr(k[0], Ptr(p.base, k[1]), Ptr(p.base, k[2]))
        if isinstance(p, IPtr):
            va = self.load(p.a, sz, ty)
            self.store(p.a, ite(p.c, v, va), sz, ty)
            vb = self.load(p.b, sz, ty)
            self.store(p.b, ite(p.c, vb, v), sz, ty)
            return
        if not isinstance(p, Ptr):
            raise Opaque('store through %r' % (p,))
        off = p.off.const()
        if off is None or off.denominator != 1:
            raise Opaque('store at a non-constant offset of %s' % (p.base,))
        off = int(off)
        if isinstance(v, Agg):
            raise Opaque('aggregate store')
        if isinstance(v, Cat):
            done = set()
            for o, (s, x) in v.sym.items():
                self.store(Ptr(p.base, lift(off + o)), x, s)
                done.update(range(o, o + s))
            k = 0
            while k < v.w:
                m = k
                while m < v.w and m not in done:
                    m += 1
                n = k
                while n < m:
                    s = next(z for z in (8, 4, 2, 1) if n + z <= m and (off + n) % z == 0)
                    self.store(Ptr(p.base, lift(off + n)), lift(int.from_bytes(bytes(v.cb[n:n + s]), 'little', signed=True)), s)
                    n += s
                k = m + 1 if m == k else m
            return
        if isinstance(v, B) and sz >= 1:
            v = self.b2i(v)
        self._touch(p.base, off, sz, 'w')
        cells = self.mem.m.setdefault(p.base, {})
        for o in [o for o, (s, _) in cells.items() if o < off + sz and off < o + s and not (o == off and s == sz)]:
            s, ov = cells.pop(o)
            # keep the non-overwritten bytes of constants
            if isinstance(ov, R) and ov.const() is not None and ov.const().denominator == 1 and s <= 16:
                raw = (int(ov.const()) & ((1 << (8 * s)) - 1)).to_bytes(s, 'little')
                for b in range(o, o + s):
                    if not (off <= b < off + sz):
                        cells[b] = (1, lift(int.from_bytes(raw[b - o:b - o + 1], 'little', signed=True)))
        cells[off] = (sz, v)

    def memcpy(self, d, s, n):
        d, s = self.place(d), self.place(s)
        if self.onaccess:
            self.onaccess(self, s, 1, False)
            self.onaccess(self, d, 1, True)
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Opaque('memcpy of non pointers')
        so, do = s.off.const(), d.off.const()
        n = n.const()
        if so is None or do is None or n is None:
            raise Opaque('memcpy with non-constant range')
        so, do, n = int(so), int(do), int(n)
        if isinstance(s.base, str) and s.base.startswith('@') and s.base[1:] in self.glob and 'init' in self.glob[s.base[1:]]:
            self._ginit(s.base, self.glob[s.base[1:]])
        cells = dict(self.mem.m.get(s.base, {}))
        kind = self.baseinfo.get(s.base, ('arg',))[0]
        # materialise unread argument cells as 8-byte cells
        if kind == 'arg' and not (isinstance(s.base, str) and s.base.startswith('@')):
            o = so
            while o < so + n:
                hit = [(x, z) for x, (z, _) in cells.items() if x <= o < x + z]
                if hit:
                    o = hit[0][0] + hit[0][1]
                    continue
                z = 8 if o + 8 <= so + n and not any(o < x < o + 8 for x in cells) else 4 if o + 4 <= so + n else 1
                v = self.load(Ptr(s.base, lift(o)), z, 'double' if z == 8 else 'i%d' % (8 * z))
                cells[o] = (z, v)
                o += z
        dst = self.mem.m.setdefault(d.base, {})
        for o in [o for o, (z, _) in dst.items() if do <= o < do + n]:
            del dst[o]
        if n:
            self._touch(d.base, do, n, 'w')
        for o, (z, v) in cells.items():
            if so <= o and o + z <= so + n:
                dst[do + o - so] = (z, v)

    def memset(self, d, v, n):
        if self.onaccess:
            self.onaccess(self, d, 1, True)
        do, n = d.off.const(), n.const()
        vc = v.const()
        if do is None or n is None or vc is None:
            raise Opaque('memset with non-constant range')
        do, n, vc = int(do), int(n), int(vc) & 255
        self._touch(d.base, do, n, 'w')
        dst = self.mem.m.setdefault(d.base, {})
        for o in [o for o, (z, _) in dst.items() if do <= o < do + n]:
            del dst[o]
        self.lazyset = getattr(self, 'lazyset', [])
        # cells are typed on demand: store bytes as 8-byte units plus a tail
        o = do
        while o < do + n:
            z = 8 if (o + 8 <= do + n and o % 8 == 0) else 4 if (o + 4 <= do + n and o % 4 == 0) else 1
            x = int.from_bytes(bytes([vc] * z), 'little', signed=True)
            dst[o] = (z, lift(x))
            o += z

    # -- control flow
    def run(self):
        self.initial = {}
        self.mem = Mem()
        self.budget = getattr(self, 'budget', 3000000)
        args = [self.args.get(n, self._defarg(n, a)) for n, a in enumerate(self.f['args'])]
        r = self.exec(self.fname, args)
        res = Result()
        res.noreturn = r is None
        res.ret = r.get('ret') if r else None
        res.mem = self.mem.m
        res.initial = self.initial
        res.events = self.events
        res.dead = self.dead
        res.ninstr = self.ninstr
        res.undef_reads = self.undef_reads
        res.oob = self.oob
        res.touched = self.touched
        res.gwrites = self.gwrites
        res.assumed = self.assumed
        return res

    def cfg(self, name):
        c = self.mod.setdefault('_cfg', {})
        if name in c:
            return c[name]
        f = self.mod['fns'][name]
        blocks = {b: ins for b, ins in f['bbs']}
        succ = {}
        for b, ins in f['bbs']:
            t = ins[-1]
            s = []
            if t['op'] == 'br':
                s = t['succ']
            elif t['op'] == 'switch':
                s = [x[1] for x in t['cases']] + [t['def']]
            elif t['op'] == 'invoke':
                s = [t['norm']]
            succ[b] = list(dict.fromkeys(s))
        rets = [b for b in blocks if blocks[b][-1]['op'] == 'ret']
        live = set(rets)
        pred = {b: [] for b in blocks}
        for b in blocks:
            for x in succ[b]:
                pred[x].append(b)
        todo = list(rets)
        while todo:
            for p in pred[todo.pop()]:
                if p not in live:
                    live.add(p)
                    todo.append(p)
        # immediate post-dominators on the live subgraph (exit = None)
        order, seen = [], set(rets)
        st = [(r, iter(pred[r])) for r in rets]
        stack = []
        seen = set()
        for r in rets:
            if r in seen:
                continue
            seen.add(r)
            stack.append((r, iter(pred[r])))
            while stack:
                b, it = stack[-1]
                for p in it:
                    if p not in seen:
                        seen.add(p)
                        stack.append((p, iter(pred[p])))
                        break
                else:
                    stack.pop()
                    order.append(b)
        order.reverse()
        idx = {b: i + 1 for i, b in enumerate(order)}
        idx[None] = 0
        ip = {None: None}
        ch = True
        while ch:
            ch = False
            for b in order:
                ss = [x for x in succ[b] if x in live]
                if b in rets:
                    new = None
                else:
                    new = False
                    for x in ss:
                        if x in ip:
                            if new is False:
                                new = x
                            else:
                                y = x
                                while new != y:
                                    while idx[new] > idx[y]:
                                        new = ip[new]
                                    while idx[y] > idx[new]:
                                        y = ip[y]
                    if new is False:
                        continue
                if b not in ip or ip[b] != new:
                    ip[b] = new
                    ch = True
        # cyclic?
        col = {}
        cyc = False
        ent = f['bbs'][0][0]
        stack = [(ent, iter(succ[ent]))]
        col[ent] = 1
        while stack and not cyc:
            b, it = stack[-1]
            for x in it:
                if col.get(x) == 1:
                    cyc = True
                    break
                if x not in col:
                    col[x] = 1
                    stack.append((x, iter(succ[x])))
                    break
            else:
                col[b] = 2
                stack.pop()
        c[name] = (blocks, live, ip, ent, cyc)
        return c[name]

    def exec(self, name, args):
        """abstract execution of one function on canonical values; None when it never returns."""
        if len(self.frames) > 60:
            raise Opaque('call depth')
        f = self.mod['fns'][name]
        F = self.cfg(name)
        save = self.ssa
        self.ssa = {}
        self.nframe += 1
        self.frames.append((name, self.nframe, {}))
        for a, v in zip(f['args'], args):
            self.ssa[a[0]] = v
        try:
            if F[3] not in F[1]:
                r = None
                self.dead.append((name, 'entry', [(i['fn'][1], i) for b in F[0].values() for i in b if i['op'] in ('call', 'invoke') and i['fn'][0] == 'fn']))
            else:
                r = self.region(F, F[3], {}, None)
        finally:
            self.ssa = save
            self.frames.pop()
        return r

    def phivals(self, F, b, prev):
        r = {}
        for i in F[0][b]:
            if i['op'] != 'phi':
                break
            for p, v in i['in']:
                if p == prev:
                    r[i['id']] = self.op(v)
                    break
        return r

    def region(self, F, b, phis, stop):
        blocks, live, ip, ent, cyc = F
        while True:
            if b == stop and b is not None:
                return phis
            self.ssa.update(phis)
            t = None
            for i in blocks[b]:
                if i['op'] == 'phi':
                    continue
                self.ninstr += 1
                if self.ninstr > self.budget:
                    raise Opaque('instruction budget exhausted in ' + self.fname)
                if self.inst(i) is DEAD:
                    return None
                t = i
            if t['op'] == 'ret':
                return {'ret': self.op(t['ops'][0]) if t['ops'] else None}
            outs = None
            if t['op'] == 'br':
                if 'cond' in t and t['succ'][0] != t['succ'][1]:
                    c = self.op(t['cond'])
                    if isinstance(c, Undef):
                        raise Opaque('branch on an uninitialised value')
                    cc = c.const()
                    if cc is None:
                        outs = [(c, t['succ'][0]), (None, t['succ'][1])]
                    else:
                        tgt = t['succ'][0 if cc else 1]
                else:
                    tgt = t['succ'][0]
            elif t['op'] == 'switch':
                v = self.op(t['cond'])
                if isinstance(v, Undef):
                    raise Opaque('switch on an uninitialised value')
                vb = v if isinstance(v, B) else None
                if vb is not None:
                    v = self.b2i(v)
                vc = v.const()
                if vc is not None:
                    tgt = t['def']
                    for cv, s in t['cases']:
                        if (int(cv[1]) - vc) % (1 << int(cv[2])) == 0:
                            tgt = s
                elif vb is not None:
                    to = {int(cv[1]) & 1: s for cv, s in t['cases']}
                    outs = [(vb, to.get(1, t['def'])), (None, to.get(0, t['def']))]
                else:
                    outs = []
                    for cv, s in t['cases']:
                        c = self.eqc(v, self.op(cv))
                        if c.const() is False:
                            continue
                        outs.append((c, s))
                    outs.append((None, t['def']))
            elif t['op'] == 'invoke':
                tgt = t['norm']
            else:
                return None
            if outs is not None:
                dead = [o for o in outs if o[1] not in live]
                lv = [o for o in outs if o[1] in live]
                if dead:
                    self.assumed.append((self.frames[-1][0], [c for c, _ in dead], t.get('ln')))
                if not lv:
                    return None
                if len(lv) == 1:
                    tgt = lv[0][1]
                    outs = None
                else:
                    if lv[-1][0] is not None:
                        lv[-1] = (None, lv[-1][1])
                    outs = lv
            if outs is None:
                if tgt not in live:
                    self.dead.append((self.frames[-1][0], b, [(i['fn'][1], i) for i in blocks[tgt] if i['op'] in ('call', 'invoke') and i['fn'][0] == 'fn']))
                    return None
                phis = self.phivals(F, tgt, b)
                b = tgt
                continue
            join = ip[b]
            act = self.frames[-1][2]
            act[b] = act.get(b, 0) + 1
            if act[b] > 24:
                raise Opaque('loop with a data-dependent trip count in ' + self.frames[-1][0])
            mem0, ssa0 = self.mem, self.ssa
            acc = None
            rs = []
            for c, tgt in outs:
                self.mem = mem0.copy()
                self.ssa = dict(ssa0) if cyc else ssa0
                r = self.region(F, tgt, self.phivals(F, tgt, b), join)
                rs.append((c, r, self.mem, self.ssa))
            act[b] -= 1
            rs2 = [x for x in rs if x[1] is not None]
            if len(rs2) < len(rs):
                self.assumed.append((self.frames[-1][0], [x[0] for x in rs if x[1] is None], t.get('ln')))
            if not rs2:
                return None
            _, r, m, s = rs2[-1]
            for c, r1, m1, s1 in reversed(rs2[:-1]):
                if c is None:
                    c = B(True)
                r = {k: (None if r1[k] is None else ite(c, r1[k], r[k])) for k in r1}
                m = self.mergemem(c, m1, m)
                if cyc and s is not s1:
                    s = self.mergessa(c, s1, s, ssa0)
            self.mem, self.ssa = m, s
            if join is None:
                return r
            phis = r
            b = join

    def eqc(self, v, c):
        """v == c, distributed over gated values"""
        if isinstance(v, R) and c.const() is not None:
            k = self.single_ite(v)
            if k is not None:
                cond, a, b = k
                x, y = self.eqc(a, c), self.eqc(b, c)
                return ite(cond, x, y)
        return bkey_cmp('eq', v, c, True)

    def single_ite(self, v):
        if not v.d and len(v.n.t) == 1:
            (m, c), = v.n.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                k = atom_key(m[0][0])
                if isinstance(k, tuple) and k[0] == 'ite' and k[2][0] == 'R' and k[3][0] == 'R':
                    return B(k[1][1], k[1][2]), from_key(k[2]), from_key(k[3])
        return None

    def split_off(self, off):
        """first gated integer inside an offset: (cond, offset if true, offset if false)"""
        if off.d:
            return None
        for a in sorted(atoms_of(off)):
            k = atom_key(a)
            if isinstance(k, tuple) and k[0] == 'ite' and k[2][0] == 'R' and k[3][0] == 'R':
                return (B(k[1][1], k[1][2]), subst(off, lambda x: from_key(k[2]) if x == a else None),
                        subst(off, lambda x: from_key(k[3]) if x == a else None))
        return None

    def mergessa(self, c, s1, s2, s0):
        r = dict(s0)
        for k in s1:
            x, y = s1[k], s2.get(k)
            if y is None:
                continue
            if x is y:
                r[k] = x
                continue
            try:
                r[k] = ite(c, x, y)
            except Opaque:
                r.pop(k, None)
        return r

    def mergemem(self, c, m1, m2):
        r = Mem()
        for base in set(m1.m) | set(m2.m):
            c1, c2 = m1.m.get(base, {}), m2.m.get(base, {})
            t = r.m.setdefault(base, {})
            for off in set(c1) | set(c2):
                e1, e2 = c1.get(off), c2.get(off)
                if e1 is e2:
                    t[off] = e1
                    continue
                sz = (e1 or e2)[0]
                if e1 and e2 and e1[0] != e2[0]:
                    continue
                if e1 is None or e2 is None:
                    # not written on one side: the value it had before
                    cc = c1 if e1 is None else c2
                    if any(o < off + sz and off < o + s for o, (s, _) in cc.items()):
                        continue
                    ini = self.initial.get(base, {}).get(off)
                    kind = self.baseinfo.get(base, ('arg',))[0]
                    if ini and ini[0] == sz:
                        v = ini[1]
                    elif kind in ('alloca', 'heap'):
                        v = UNDEF
                    else:
                        oth = (e1 or e2)[1]
                        ty = 'ptr' if isinstance(oth, Ptr) else 'double'
                        v = self.onload(self, base, off, sz, ty) if self.onload else None
                        if v is None:
                            v = self._in(base, off, sz, ty)
                        self.initial.setdefault(base, {})[off] = (sz, v)
                    v1, v2 = (v, e2[1]) if e1 is None else (e1[1], v)
                else:
                    v1, v2 = e1[1], e2[1]
                t[off] = (sz, ite(c, v1, v2))
        return r

    def _defarg(self, n, a):
        ty = a[2]
        if ty == 'ptr':
            return Ptr(a[1] or 'arg%d' % n)
        if ty == 'i1':
            return B(('arg', a[1] or 'arg%d' % n))
        return atom(a[1] or 'arg%d' % n)

    # -- instructions
    def inst(self, i):
        op = i['op']
        if op in ('br', 'switch', 'ret', 'unreachable'):
            return
        ty = i['ty']
        if op == 'alloca':
            base = 'alloca%d.%d' % (self.frames[-1][1], i['id'])
            self.baseinfo[base] = ('alloca', i.get('sz'))
            self.ssa[i['id']] = Ptr(base)
            return
        if op == 'getelementptr':
            self.ssa[i['id']] = self.op(i['gep'])
            return
        if op == 'load':
            p = self.op(i['ops'][0])
            if ty.startswith('{') or ty.startswith('[') or ty.startswith('<'):
                raise Opaque('aggregate load')
            self.ssa[i['id']] = self.load(p, i['sz'], ty, i.get('ln'))
            return
        if op == 'store':
            self.store(self.op(i['ops'][1]), self.op(i['ops'][0]), i['sz'], i.get('sty'))
            return
        if op in ('call', 'invoke'):
            return self.call(i)
        if op == 'extractvalue':
            a = self.op(i['ops'][0])
            k = tuple(i['idx'])
            if isinstance(a, Undef):
                self.ssa[i['id']] = UNDEF
                return
            v = a.items.get(k)
            if v is None:
                sub = {kk[len(k):]: vv for kk, vv in a.items.items() if kk[:len(k)] == k}
                v = Agg(sub) if sub else (B(False) if ty == 'i1' else ZERO)
            self.ssa[i['id']] = v
            return
        if op == 'insertvalue':
            a = self.op(i['ops'][0])
            v = self.op(i['ops'][1])
            d = dict(a.items) if isinstance(a, Agg) else {}
            k = tuple(i['idx'])
            if isinstance(v, Agg):
                for kk, vv in v.items.items():
                    d[k + kk] = vv
            else:
                d[k] = v
            self.ssa[i['id']] = Agg(d)
            return
        ops = [self.op(o) for o in i['ops']]
        self.ssa[i['id']] = self.arith(op, ops, i)

    def arith(self, op, a, i):
        ty = i['ty']
        if POS and (any(isinstance(x, Cat) for x in a) or op == 'shl' and len(a) == 2 and all(isinstance(x, R) for x in a) and a[0].const() is None and a[1].const() is not None and a[1].const() >= 32):
            r = self.cat(op, a, i)
            if r is not None:
                return r
        if any(isinstance(x, Undef) for x in a):
            if op == 'freeze':
                return ZERO if ty != 'i1' else B(False)
            if op == 'select' and not isinstance(a[0], Undef):
                return ite(a[0], a[1], a[2])
            return UNDEF
        if op in ('icmp', 'fcmp'):
            pred = i['pred']
            x, y = a
            if op == 'icmp':
                if isinstance(x, B) and isinstance(y, B):
                    if pred in ('eq', 'ne'):
                        yc, xc = y.const(), x.const()
                        if yc is None and xc is not None:
                            x, y, xc, yc = y, x, yc, xc
                        if yc is not None:
                            r = x if yc else ~x
                            return r if pred == 'eq' else ~r
                    x, y = self.b2i(x), self.b2i(y)
                isint = True
                uns = pred[0] == 'u'
                p = pred if pred in ('eq', 'ne') else pred[1:]
                if uns:
                    # constants are canonical signed; compare unsigned
                    w = i.get('w') or self.width(i['ops'])
                    x, y = self.uns(x, w), self.uns(y, w)
                    if w and isinstance(x, R) and isinstance(y, R):
                        # trivially decided unsigned facts
                        if p == 'lt' and y.const() == 0:
                            return B(False)
                        if p == 'ge' and y.const() == 0:
                            return B(True)
                        if p == 'gt' and y.const() == 0:
                            p = 'ne'
                        elif p == 'le' and y.const() == 0:
                            p = 'eq'
                        elif p == 'lt' and y.const() == 1:
                            p, y = 'eq', ZERO
                        elif p == 'ge' and y.const() == 1:
                            p, y = 'ne', ZERO
                        elif p == 'le' and x.const() == 1:
                            x, p, y = y, 'ne', ZERO
                        elif p == 'lt' and x.const() == 0:
                            x, p, y = y, 'ne', ZERO
                    if POS and p in ('lt', 'le', 'gt', 'ge') and isinstance(x, R) and isinstance(y, R):
                        sx, sy = possign(x), possign(y)
                        if sx == -1 and sy in (0, 1):   # wrapped below zero: larger than any count
                            return B(p in ('gt', 'ge'))
                        if sy == -1 and sx in (0, 1):
                            return B(p in ('lt', 'le'))
                b = bkey_cmp(p, x, y, isint)
                if self.decide_int and b.const() is None and isinstance(x, R) and isinstance(y, R):
                    v = self.decide_int(p, x, y, uns)
                    if v is not None:
                        return B(v)
                return b
            if pred in ('ord', 'uno'):
                return B(pred == 'ord')
            if pred in ('true', 'false'):
                return B(pred == 'true')
            b = bkey_cmp({'eq': 'eq', 'ne': 'ne'}.get(pred[1:], pred[1:]), x, y, False)
            if self.decide and b.const() is None and isinstance(x, R) and isinstance(y, R):
                v = self.decide(pred[1:], x, y)
                if v is not None:
                    return B(v)
            return b
        if op == 'select':
            return ite(a[0], a[1], a[2])
        if op in ('fadd', 'add'):
            if isinstance(a[0], Ptr) or isinstance(a[1], Ptr):
                p, n = (a if isinstance(a[0], Ptr) else (a[1], a[0]))
                if isinstance(n, Ptr):
                    raise Opaque('pointer + pointer')
                return Ptr(p.base, p.off + n)
            if ty == 'i1':
                return self.bxor(a[0], a[1])
            return self.wrap(self.num(a[0]) + self.num(a[1]), ty)
        if op in ('fsub', 'sub'):
            if isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
                if a[0].base == a[1].base:
                    return a[0].off - a[1].off
                ad = [ZERO if q.base == 'null' else atom(('address', q.base)) for q in a]
                return ad[0] + a[0].off - ad[1] - a[1].off
            if isinstance(a[0], Ptr):
                return Ptr(a[0].base, a[0].off - a[1])
            return self.wrap(self.num(a[0]) - self.num(a[1]), ty)
        if op in ('fmul', 'mul'):
            if ty == 'i1':
                return self.band(a[0], a[1])
            return self.wrap(self.num(a[0]) * self.num(a[1]), ty)
        if op == 'fneg':
            return -a[0]
        if op == 'fdiv':
            if not a[1].n.t:
                return fnatom('fdiv', a[0], a[1])
            return a[0] / a[1]
        if op in ('sext', 'zext'):
            x = a[0]
            if isinstance(x, B):
                c = x.const()
                if c is not None:
                    return lift((-1 if op == 'sext' else 1) if c else 0)
                return ite(x, lift(-1) if op == 'sext' else ONE, ZERO)
            if isinstance(x, R) and x.const() is not None and op == 'zext':
                w = i.get('w') or self.width([i['ops'][0]]) or 64
                return self.uns(x, w)
            return x
        if op in ('trunc',):
            x = a[0]
            if ty == 'i1':
                if isinstance(x, B):
                    return x
                c = x.const()
                if c is not None:
                    return B(bool(int(c) & 1))
                return self.i2b(x)
            return self.wrap(x, ty) if isinstance(x, R) else x
        if op in ('bitcast', 'freeze', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            return self.conv(a[0], ty) if op == 'bitcast' else a[0]
        if op in ('sitofp', 'uitofp'):
            x = a[0]
            if isinstance(x, B):
                return self.b2i(x) if op == 'uitofp' else ite(x, lift(-1), ZERO)
            if op == 'uitofp' and x.const() is not None:
                w = i.get('w') or self.width([i['ops'][0]]) or 64
                return self.uns(x, w)
            return x
        if op in ('fptosi', 'fptoui'):
            c = a[0].const()
            if c is not None:
                return lift(int(c))
            if all(v.denominator == 1 for v in a[0].n.t.values()) and not a[0].d:
                pass
            return fnatom('fptosi', a[0])
        w = int(ty[1:]) if ty[:1] == 'i' and ty[1:].isdigit() else 64
        if ty == 'i1':
            if op == 'and':
                return self.band(a[0], a[1])
            if op == 'or':
                return ~self.band(~a[0], ~a[1])
            if op == 'xor':
                return self.bxor(a[0], a[1])
        if all(isinstance(x, R) for x in a):
            cs = [x.const() for x in a]
            if all(c is not None for c in cs):
                x, y = (int(c) for c in cs)
                M = (1 << w) - 1
                ux, uy = x & M, y & M
                try:
                    r = {'and': lambda: ux & uy, 'or': lambda: ux | uy, 'xor': lambda: ux ^ uy, 'shl': lambda: ux << uy,
                         'lshr': lambda: ux >> uy, 'ashr': lambda: x >> uy, 'udiv': lambda: ux // uy, 'urem': lambda: ux % uy,
                         'sdiv': lambda: int(Fr(x, y)) if True else 0, 'srem': lambda: x - y * int(Fr(x, y))}[op]()
                except (KeyError, ZeroDivisionError):
                    raise Opaque('arith ' + op)
                r &= M
                if r >= 1 << (w - 1):
                    r -= 1 << w
                return lift(r)
            if POS and op in ('lshr', 'ashr') and cs[1] is not None and int(cs[1]) >= 31 and possign(a[0]) in (0, 1):
                return ZERO
            if POS and op in ('udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr'):
                d = lift(1 << int(cs[1])) if op[1:] == 'shr' and cs[1] is not None else a[1]
                qr = posdiv(a[0], d) if op[1:] != 'shr' or cs[1] is not None else None
                if not qr and self.decide_div and cs[0] != 0 and (op[1:] != 'shr' or cs[1] is not None):
                    qr = self.decide_div(a[0], d)
                if qr:
                    return qr[1] if op.endswith('rem') else qr[0]
            if op == 'shl' and cs[1] is not None:
                return a[0] * lift(1 << int(cs[1]))
            if op == 'or' and i['ops'] and cs[1] == 0:
                return a[0]
            if op in ('and', 'or') and cs[1] is not None and op == 'and' and int(cs[1]) & ((1 << w) - 1) == (1 << w) - 1:
                return a[0]
            if op == 'and' and (cs[1] == 0 or cs[0] == 0):
                return ZERO
            if op == 'xor' and -1 in cs:
                return lift(-1) - (a[0] if cs[1] == -1 else a[1])
            if op in ('sdiv', 'udiv', 'ashr', 'lshr') and cs[1] is not None:
                k = int(cs[1]) if op.endswith('div') else 1 << int(cs[1])
                if k and all((c / k).denominator == 1 for c in a[0].n.t.values()) and not a[0].d:
                    return R(a[0].n.scale(Fr(1, k)))
                return fnatom('idiv', a[0], lift(k))
            if op in ('urem', 'srem'):
                return fnatom('irem', a[0], a[1])
            if POS and op == 'or':
                x, y = (a[0], a[1]) if a[1].const() is not None else (a[1], a[0])
                c = y.const()
                if c == 0:
                    return x
                if c is not None and x.const() is None and int(c) % (1 << 32) == 0 and i['ty'] == 'i64' and (possign(x) or 0) >= 0 and possign(x) is not None:
                    m = Cat.of(x, 8).merge(Cat.of(y, 8))
                    if m is not None:
                        return m
            if POS and op in ('and', 'or', 'xor') and (a[0].const() is None) != (a[1].const() is None):
                # low bits of a count whose variable part is a multiple of a larger power of two
                x, c = (a[0], int(a[1].const())) if a[1].const() is not None else (a[1], int(a[0].const()))
                k = x.n.t.get((), 0)
                if (possign(x) or 0) >= 0 and possign(x) is not None and k >= 0:
                    g = 0
                    for m_, v in x.n.t.items():
                        if m_:
                            g = math.gcd(g, int(v))
                    g &= -g
                    if op == 'and' and c < 0 and g >= -c and (-c) & (-c - 1) == 0:
                        return x - lift(k) + lift(int(k) & c)
                    if 0 <= c < g:
                        k = int(k) % g
                        z = {'and': k & c, 'or': k | c, 'xor': k ^ c}[op]
                        return lift(z) if op == 'and' else x - lift(k) + lift(z)
            if op in ('and', 'or', 'xor'):
                x, y = sorted(a, key=lambda v: repr(v.key()))
                return fnatom(op, x, y)
            return fnatom(op, *a)
        if op == 'and' and any(isinstance(x, Fn) for x in a) and any(isinstance(x, R) and x.const() == 1 for x in a):
            return ZERO     # pointer to member function: the low bit marks virtual ones
        if op == 'and' and any(isinstance(x, Ptr) for x in a):
            # alignment arithmetic; every memory object starts at a 16-byte boundary
            p, m = (a[0], a[1]) if isinstance(a[0], Ptr) else (a[1], a[0])
            o = p.off.const()
            c = m.const() if isinstance(m, R) else None
            if o is None and c is not None and -16 <= c < 0 and (-int(c)) & (-int(c) - 1) == 0 and isinstance(p.off, R) and not p.off.d \
                    and all(v.denominator == 1 and v % -int(c) == 0 for m_, v in p.off.n.t.items() if m_):
                k = p.off.n.t.get((), 0)
                return Ptr(p.base, p.off - lift(k) + lift(int(k) & int(c)))
            if o is not None and c is not None:
                if -16 <= c < 0:
                    return Ptr(p.base, lift(int(o) & int(c)))
                if 0 <= c < 16:
                    return lift(int(o) & int(c))
        if op in ('and', 'or', 'xor') and any(isinstance(x, Ptr) for x in a):
            raise Opaque('bit operation on pointer')
        raise Opaque('instruction %s %s' % (op, [type(x).__name__ + ' ' + repr(x)[:60] for x in a]))

    def cat(self, op, a, i):
        ty = i['ty']
        w = int(ty[1:]) // 8 if ty[:1] == 'i' and ty[1:].isdigit() else 0
        x = a[0]
        if op == 'trunc' and w:
            return x.cut(0, w)
        if op == 'zext':
            return Cat(w, x.sym, x.cb + bytearray(w - x.w)).norm()
        if op == 'freeze':
            return Cat(x.w, {o: (s, v) for o, (s, v) in x.sym.items() if not isinstance(v, Undef)}, x.cb).norm()
        if op in ('shl', 'lshr') and isinstance(a[1], R) and a[1].const() is not None and int(a[1].const()) % 8 == 0:
            k = int(a[1].const()) // 8
            x = Cat.of(x, w)
            return x and (x.shl(k) if op == 'shl' else x.cut(k, w))
        if op == 'ashr' and isinstance(a[1], R) and a[1].const() is not None and int(a[1].const()) % 8 == 0:
            k = int(a[1].const()) // 8
            v = Cat.of(a[0], w).cut(k, w - k)       # the upper part, a number with a sign
            return v if isinstance(v, R) else None
        if op in ('or', 'add', 'xor'):
            x, y = Cat.of(a[0], w), Cat.of(a[1], w)
            return x and y and x.merge(y)
        if op == 'and':
            x, y = (a[0], a[1]) if isinstance(a[0], Cat) else (a[1], a[0])
            if isinstance(y, R) and y.const() is not None:
                m = (int(y.const()) & ((1 << (8 * w)) - 1)).to_bytes(w, 'little')
                sym = {}
                for o, (s, v) in x.sym.items():
                    if all(b == 255 for b in m[o:o + s]):
                        sym[o] = (s, v)
                    elif any(m[o:o + s]):
                        return None
                return Cat(w, sym, bytearray(p & q for p, q in zip(x.cb, m))).norm()
        if op == 'icmp' and i['pred'] in ('eq', 'ne'):
            x, y = Cat.of(a[0], (a[0] if isinstance(a[0], Cat) else a[1]).w), Cat.of(a[1], (a[0] if isinstance(a[0], Cat) else a[1]).w)
            if x and y:
                r = B(True)
                cuts = sorted({0, x.w} | {z for c in (x, y) for o, (s, _) in c.sym.items() for z in (o, o + s)})
                for p, q in zip(cuts, cuts[1:]):
                    u, v = x.cut(p, q - p), y.cut(p, q - p)
                    if u is None or v is None or isinstance(u, (Cat, Undef)) or isinstance(v, (Cat, Undef)):
                        return None
                    r = self.band(r, bkey_cmp('eq', u, v, True))
                return r if i['pred'] == 'eq' else ~r
        return None

    def num(self, x):
        if isinstance(x, B):
            return self.b2i(x)
        if isinstance(x, R):
            return x
        raise Opaque('not a number')

    def band(self, x, y):
        for p, q in ((x, y), (y, x)):
            c = p.const()
            if c is True:
                return q
            if c is False:
                return B(False)
        if x.key() == y.key():
            return x
        if x.k == y.k:
            return B(False)
        k = tuple(sorted([x.key(), y.key()], key=repr))
        return B(('and',) + k)

    def bxor(self, x, y):
        for p, q in ((x, y), (y, x)):
            c = p.const()
            if c is not None:
                return ~q if c else q
        if x.k == y.k:
            return B(x.neg != y.neg)
        neg = x.neg != y.neg
        k = tuple(sorted([repr(x.k), repr(y.k)]))
        return B(('xor',) + k, neg)

    def width(self, ops):
        for o in ops:
            if o[0] == 'i':
                return o[2]
        return None

    def uns(self, x, w):
        if isinstance(x, R) and x.const() is not None and w:
            c = int(x.const())
            if c < 0:
                return lift(c + (1 << w))
        return x

    def wrap(self, r, ty):
        if ty[:1] == 'i' and ty[1:].isdigit():
            c = r.const()
            if c is not None and c.denominator == 1:
                w = int(ty[1:])
                c = int(c) & ((1 << w) - 1)
                if c >= 1 << (w - 1):
                    c -= 1 << w
                return lift(c)
        return r

    def call(self, i):
        fn = self.op(i['fn'])
        name = fn.n if isinstance(fn, Fn) else None
        ty = i['ty']

        def setr(v):
            if 'id' in i:
                self.ssa[i['id']] = v
        if isinstance(fn, Undef) or name is None and not isinstance(fn, Fn):
            raise Opaque('indirect call')
        if name.startswith('llvm.'):
            p = name.split('.')
            k = p[1]
            if k in ('lifetime', 'assume', 'dbg', 'invariant', 'experimental', 'prefetch', 'trap', 'donothing', 'va_start', 'va_end', 'stackrestore'):
                setr(UNDEF)
                return
            a = [self.op(x) for x in i['args']]
            if k in ('memcpy', 'memmove'):
                return self.memcpy(a[0], a[1], a[2])
            if k == 'memset':
                return self.memset(a[0], a[1], a[2])
            if any(isinstance(x, Undef) for x in a[:1]):
                setr(UNDEF)
                return
            if k in ('fabs', 'sqrt', 'pow', 'exp', 'log', 'sin', 'cos', 'floor', 'ceil', 'round', 'exp2', 'log2', 'trunc'):
                return setr(self.libm(k, a))
            if k == 'powi':
                c = a[1].const()
                if c is not None:
                    return setr(a[0] ** int(c))
            if k == 'is':
                return setr(B(isinstance(a[0], R) and a[0].const() is not None))
            if k == 'expect':
                return setr(a[0])
            if k in ('fmuladd', 'fma'):
                return setr(a[0] * a[1] + a[2])
            if k in ('smax', 'umax', 'maxnum', 'maximum', 'smin', 'umin', 'minnum', 'minimum'):
                x, y = a[0], a[1]
                cx, cy = x.const(), y.const()
                mx = 'max' in k
                if cx is not None and cy is not None:
                    if k[0] == 'u':
                        w = int(p[-1][1:])
                        ux, uy = self.uns(x, w).const(), self.uns(y, w).const()
                        return setr(x if ((ux >= uy) == mx) else y)
                    return setr(x if ((cx >= cy) == mx) else y)
                if x.key() == y.key():
                    return setr(x)
                if self.decide_int and k[0] in 'us' and isinstance(x, R) and isinstance(y, R):
                    v = self.decide_int('ge', x, y, k[0] == 'u')
                    if v is not None:
                        return setr(x if v == mx else y)
                x, y = sorted((x, y), key=lambda v: repr(v.key()))
                return setr(fnatom('max' if mx else 'min', x, y))
            if k == 'abs':
                c = a[0].const()
                if c is not None:
                    return setr(lift(abs(c)))
                return setr(fnatom('fabs', a[0]))
            if k in ('umul', 'smul', 'uadd', 'sadd', 'usub', 'ssub') and p[2] == 'with':
                x, y = a
                r = x * y if 'mul' in k else x + y if 'add' in k else x - y
                return setr(Agg({(0,): r, (1,): B(False)}))
            if k == 'copysign':
                return setr(fnatom('copysign', *a))
            if k == 'ctpop':
                c = a[0].const()
                if c is not None:
                    w = int(p[-1][1:])
                    return setr(lift(bin(int(c) & ((1 << w) - 1)).count('1')))
                return setr(fnatom('ctpop', a[0]))
            if k in ('cttz', 'ctlz'):
                c = a[0].const()
                if c is not None:
                    w = int(p[-1][1:])
                    x = int(c) & ((1 << w) - 1)
                    if k == 'cttz':
                        return setr(lift((x & -x).bit_length() - 1 if x else w))
                    return setr(lift(w - x.bit_length()))
                return setr(fnatom(k, a[0]))
            if k in ('stacksave',):
                return setr(UNDEF)
            if k in ('fshl', 'fshr', 'bswap', 'usub', 'uadd', 'bitreverse'):
                return setr(fnatom(name, *[x for x in a if isinstance(x, R)]))
            raise Opaque('intrinsic ' + name)
        a = [self.op(x) for x in i['args']]
        if name in self.calls:
            r = self.calls[name](self, a, i)
            return setr(r if r is not None else UNDEF)
        if name.startswith(self.markers):
            self.events.append((name, a))
            if ty == 'void':
                return
            if ty == 'ptr':
                return setr(Ptr('ret:%s#%d' % (name, len(self.events))))
            r = fnatom(name, *[x for x in a])
            return setr(B(('call', r.key())) if ty == 'i1' else r)
        if name in LIBM:
            return setr(self.libm(name, a))
        if name in self.mod['fns']:
            r = self.exec(name, a)
            if r is None:
                return DEAD
            return setr(r['ret'] if r['ret'] is not None else UNDEF)
        if i.get('noret'):
            self.dead.append((self.frames[-1][0], None, [(name, i)]))
            return DEAD
        if name in ('_Znwm', '_Znam', 'malloc'):
            self.fresh += 1
            base = 'heap%d' % self.fresh
            c = a[0].const()
            self.baseinfo[base] = ('heap', int(c) if c is not None else None)
            return setr(Ptr(base))
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', 'free', '_ZdlPvmSt11align_val_t'):
            return
        if name == 'memcpy' or name == 'memmove':
            self.memcpy(a[0], a[1], a[2])
            return setr(a[0])
        if name == 'ilogb':
            x = a[0].const()
            if x is None or x <= 0:
                raise Opaque('ilogb of a non-constant')
            e = 0
            while x >= 2:
                x, e = x / 2, e + 1
            while x < 1:
                x, e = x * 2, e - 1
            return setr(lift(e))
        if name in ('memcmp', 'bcmp'):
            return setr(self.memcmp(a[0], a[1], a[2]))
        if name in ('__cxa_guard_acquire',):
            return setr(ONE)
        if name in ('__cxa_guard_release', '__cxa_atexit'):
            return setr(ZERO)
        raise Opaque('call to ' + name)

    def memcmp(self, p, q, n):
        c = n.const() if isinstance(n, R) else None
        if c is None or not (isinstance(p, Ptr) and isinstance(q, Ptr)):
            raise Opaque('memcmp of an unknown range')
        o, c = 0, int(c)
        while o < c:
            p_, q_ = Ptr(p.base, p.off + lift(o)), Ptr(q.base, q.off + lift(o))
            for sz in (4, 8, 1, 2):
                if sz > c - o:
                    continue
                try:
                    x, y = self.load(p_, sz, 'i%d' % (8 * sz)), self.load(q_, sz, 'i%d' % (8 * sz))
                    break
                except Opaque:
                    continue
            else:
                raise Opaque('memcmp of unknown contents')
            if isinstance(x, R) and isinstance(y, R):
                d = (x - y).const()
                if d is None and (possign(x - y) or 0):
                    d = possign(x - y)
            else:
                d = 0 if not isinstance(x, R) and not isinstance(y, R) and x.key() == y.key() else None
            if d is None:
                raise Opaque('memcmp of undecided contents')
            if d:
                return lift(1 if d > 0 else -1)   # only compared with zero by the callers met so far
            o += sz
        return ZERO

    def libm(self, k, a):
        if getattr(self, "decide", None) and k == 'fabs' and a[0].const() is None:
            v = self.decide('lt', a[0], ZERO)
            if v is not None:
                return -a[0] if v else a[0]
        if getattr(self, "decide", None) and k == 'sqrt' and a[0].const() is None:
            r = sqroot(a[0])
            v = self.decide('lt', r, ZERO) if r is not None else None
            if v is not None:
                return -r if v else r
        if k in ('sqrt', 'fabs', 'cbrt'):
            c = a[0].const()
            if c is not None:
                if k == 'fabs':
                    return lift(abs(c))
                import math
                if k == 'sqrt' and c >= 0:
                    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                    if n * n == c.numerator and d * d == c.denominator:
                        return lift(Fr(n, d))
            if k == 'fabs' and not a[0].d and len(a[0].n.t) == 1:
                (m, c), = a[0].n.t.items()
                if all(isinstance(atom_key(x), tuple) and atom_key(x)[:2] in (('fn', 'sqrt'), ('fn', 'fabs')) for x, _ in m):
                    return R(P({m: abs(c)}))
            if k == 'fabs' and a[0].n.t:
                c = abs(a[0].n.t[min(a[0].n.t)])
                if a[0].n.t[min(a[0].n.t)] < 0:
                    return lift(Fr(c)) * fnatom(k, a[0] * lift(Fr(-1) / c))
                return fnatom(k, a[0]) if c == 1 else lift(Fr(c)) * fnatom(k, a[0] * lift(Fr(1) / c))
            if k == 'sqrt' and a[0].n.t:
                import math
                c = Fr(a[0].n.t[min(a[0].n.t)])
                if c > 0 and c != 1:
                    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                    if n * n == c.numerator and d * d == c.denominator:
                        return lift(Fr(n, d)) * fnatom(k, a[0] * lift(1 / c))
            return fnatom(k, a[0])
        if k == 'pow':
            c = a[1].const()
            if c is not None and c.denominator == 1 and 0 <= c <= 8:
                return a[0] ** int(c)
        return fnatom(k, *a)


def sqroot(r):
    """a form whose square is r, None when r is no visible square"""
    import math

    def num(c):
        c = Fr(c)
        if c < 0:
            return None
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        return Fr(n, d) if n * n == c.numerator and d * d == c.denominator else None
    if len(r.n.t) != 1 or any(e % 2 for _, e in r.d):
        return None
    (m, c), = r.n.t.items()
    c = num(c)
    if c is None or any(e % 2 for _, e in m):
        return None
    return R(P({tuple((a, e // 2) for a, e in m): c}), tuple((k, e // 2) for k, e in r.d))


def deep_subst(r, f):
    """substitute atoms everywhere, also inside the arguments of function, comparison and selection atoms"""
    cache = {}
    lib = Eval.libm

    def key(k):
        if isinstance(k, tuple):
            if len(k) == 3 and k[0] == 'R':
                return go(from_key(k)).key()
            return tuple(key(x) for x in k)
        return k

    def g(a):
        if a in cache:
            return cache[a]
        v = f(a)
        if v is None:
            k = atom_key(a)
            if isinstance(k, tuple) and k and k[0] in ('fn', 'ite'):
                n = key(k)
                if n != k:
                    if n[0] == 'fn' and n[1] in LIBM and all(isinstance(x, tuple) and x[0] == 'R' for x in n[2:]):
                        v = lib(None, n[1], [from_key(x) for x in n[2:]])
                    else:
                        v = atom(*n)
        cache[a] = v
        return v

    def go(x):
        return subst(x, g)
    return go(r)
