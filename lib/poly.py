"""Path-sensitive analysis over integers: comparisons that are not decided split the path, which is remembered as linear
inequalities over non-negative integer symbols (a polyhedron)."""
import itertools
import math
import os
import pickle
from fractions import Fraction as Fr
from frame import *
from alg import *
import avn


def sym(name):
    a = atom(name)
    avn.POS.add(atom_id(name))
    return a


sym('n0')


# ---------------------------------------------------------------- linear inequalities over non-negative integers
def linear(e):
    """R -> ({symbol: coefficient}, constant) with integer coefficients"""
    if e.d:
        return None
    v, k = {}, Fr(0)
    for m, c in e.n.t.items():
        if not m:
            k = c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] in avn.POS:
            v[m[0][0]] = c
        else:
            return None
    return v, k


def tight(v, k):
    """the row with coprime integer coefficients and the constant rounded down (for integer points)"""
    m = 1
    for c in v.values():
        if c.denominator != 1:
            m = m * c.denominator // math.gcd(m, c.denominator)
    g = 0
    for c in v.values():
        g = math.gcd(g, int(c * m))
    return {b: Fr(int(c * m) // g) for b, c in v.items()}, Fr((k * m) // g)


def normal(rows):
    d = {}
    for v, k in rows:
        v = {b: c for b, c in v.items() if c}
        if v:
            v, k = tight(v, Fr(k))
        elif k >= 0:
            continue
        key = tuple(sorted(v.items()))
        if key not in d or k < d[key]:
            d[key] = k
    return d


def empty(rows):
    """no non-negative integer point satisfies all rows (coefficients, constant): sum + constant >= 0 (Fourier-Motzkin with
    rounding; False when a point may exist)"""
    rows = normal(rows)
    while True:
        live = []
        for v, k in rows.items():
            if not (k >= 0 and all(c >= 0 for _, c in v)):
                if k < 0 and all(c <= 0 for _, c in v):
                    return True
                live.append((dict(v), k))
        if not live:
            return False
        out = None
        # an equality with a unit coefficient
        for v, k in live:
            w = rows.get(tuple(sorted((b, -c) for b, c in v.items())))
            if w is None:
                continue
            if w < -k:
                return True
            a = next((b for b, c in v.items() if abs(c) == 1), None)
            if w == -k and a is not None:
                s = v[a]
                sub, l = {b: -c / s for b, c in v.items() if b != a}, -k / s
                out = [(sub, l)]
                for u, h in live:
                    c = u.get(a, 0)
                    out.append(({b: u.get(b, 0) + c * sub.get(b, 0) for b in set(u) | set(sub) if b != a}, h + c * l) if c else (u, h))
                break
        if out is None:
            cnt = {}
            for v, k in live:
                for a, c in v.items():
                    x = cnt.setdefault(a, [0, 0, 0])
                    x[c < 0] += 1
                    x[2] |= abs(c) != 1
            a = min(cnt, key=lambda z: (cnt[z][2] and cnt[z][1] > 0, (cnt[z][0] + 1) * cnt[z][1] - cnt[z][0] - cnt[z][1]))
            up = [(v, k) for v, k in live if v.get(a, 0) > 0] + [({a: Fr(1)}, Fr(0))]
            dn = [(v, k) for v, k in live if v.get(a, 0) < 0]
            out = [(v, k) for v, k in live if a not in v]
            for (v, k), (w, l) in itertools.product(up, dn):
                p, q = -w[a], v[a]
                out.append(({b: p * v.get(b, 0) + q * w.get(b, 0) for b in set(v) | set(w) if b != a}, p * k + q * l))
        rows = normal(out)
        if len(rows) > 4000:
            raise Broken('too many inequalities')


def diff(l):
    """sum + constant >= 0 of the form x - y + k >= 0, x + k >= 0 or k - y >= 0: (x, y, k) with None for zero"""
    v, k = l
    if len(v) > 2 or any(abs(c) != 1 for c in v.values()):
        return None
    pos = [a for a, c in v.items() if c > 0]
    neg = [a for a, c in v.items() if c < 0]
    if len(pos) > 1 or len(neg) > 1:
        return None
    return (pos or [None])[0], (neg or [None])[0], k


class Dbm:
    """closed difference bounds: d[x][y] is the largest known lower bound of x - y"""
    def __init__(self):
        self.d = {None: {None: 0}}
        self.dead = False

    def var(self, x):
        if x not in self.d:
            for y in self.d:
                self.d[y][x] = None
            self.d[x] = {y: None for y in self.d}
            self.d[x][x] = 0
            self.add(x, None, 0)

    def add(self, x, y, k):
        """x - y >= -k"""
        if x is not None:
            self.var(x)
        if y is not None:
            self.var(y)
        d, w = self.d, -k
        if d[x][y] is not None and d[x][y] >= w:
            return
        if d[y][x] is not None and d[y][x] + w > 0:
            self.dead = True
            return
        for a in d:
            if d[a][x] is None:
                continue
            for b in d:
                if d[y][b] is None:
                    continue
                z = d[a][x] + w + d[y][b]
                if d[a][b] is None or d[a][b] < z:
                    d[a][b] = z

    def known(self, x, y, k):
        """x - y + k >= 0 for sure"""
        if x is not None:
            self.var(x)
        if y is not None:
            self.var(y)
        return self.d[x][y] is not None and self.d[x][y] + k >= 0

    def never(self, x, y, k):
        return self.known(y, x, -k - 1)


class Found(Exception):
    """a violation found by another process"""


class Path:
    def __init__(self, script, facts=()):
        self.script, self.taken, self.facts = script, [], []
        self.split = []
        self.out = None         # explore(): where a forked process reports
        self.forks = False
        self.count = 0
        self.dbm = Dbm()        # exact while every fact is a difference
        for f in facts:
            self.learn(linear(f))

    def learn(self, l):
        self.facts.append(l)
        if self.dbm:
            t = diff(l)
            if t:
                self.dbm.add(*t)
            else:
                self.dbm = None

    def holds(self, e):
        """e >= 0 on this path: True, False (never), None"""
        s = avn.possign(e)
        if s is not None:
            return s >= 0
        l = linear(e)
        if l is None:
            raise Broken('comparison of %s' % show(e, 100))
        v, k = l
        if self.dbm:
            t = diff(l)
            if t:
                return True if self.dbm.known(*t) else False if self.dbm.never(*t) else None
        if empty(self.facts + [({a: -c for a, c in v.items()}, -k - 1)]):
            return True
        if empty(self.facts + [l]):
            return False
        return None

    def ge(self, e):
        h = self.holds(e)
        if h is None:
            n = len(self.taken)
            h = self.fork() if self.forks else self.script[n] if n < len(self.script) else True
            self.taken.append(h)
            v, k = linear(e)
            self.learn((v, k) if h else ({a: -c for a, c in v.items()}, -k - 1))
            self.split.append(('' if h else 'not ') + show(e, 80) + ' >= 0')
        return h

    def fork(self):
        """a copy of the process takes the True branch first"""
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            os.close(r)
            self.out, self.count = w, 0
            return True
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            d = f.read()
        os.waitpid(pid, 0)
        if not d:
            raise Broken('a process exploring a branch ended without a report')
        n, err, broken = pickle.loads(d)
        self.count += n
        if broken:
            raise Broken(broken)
        if err:
            raise Found(err)
        return False

    def decide(self, pred, x, y, uns):
        if linear(x) is None or linear(y) is None:
            return None
        if uns:
            nx, ny = not self.ge(x), not self.ge(y)      # below zero means wrapped: larger than any size
            if nx != ny:
                return (pred in ('gt', 'ge')) if nx else (pred in ('lt', 'le'))
        if pred == 'ge':
            return self.ge(x - y)
        if pred == 'gt':
            return self.ge(x - y - ONE)
        if pred == 'le':
            return self.ge(y - x)
        if pred == 'lt':
            return self.ge(y - x - ONE)
        eq = self.ge(x - y) and self.ge(y - x)
        return eq == (pred == 'eq')

    def div(self, x, y):
        """quotient and remainder; small quotients are found by splitting, otherwise the quotient becomes a new number"""
        if linear(x) is None or linear(y) is None or self.holds(x) is not True or self.holds(y - ONE) is not True:
            return None
        k = y.const()
        if k is None:
            q = 0
            while self.ge(x - y * lift(q + 1)):
                q += 1
                if q > 32:
                    return None
            return lift(q), x - y * lift(q)
        q = R(P({m: Fr(c // k) for m, c in x.n.t.items() if c // k}))
        r = x - q * y
        if self.holds(r) is not True or self.holds(y - ONE - r) is not True:
            q = sym('quotient%d' % len(self.facts))
            r = x - q * y
            self.learn(linear(r))
            self.learn(linear(y - ONE - r))
            if k <= 32:
                c = 0
                while c + 1 < k and self.ge(r - lift(c + 1)):
                    c += 1
                r = lift(c)
        return q, r

    def offset(self, x):
        """the number x is on this path, by splitting"""
        if linear(x) is None or self.holds(x) is not True:
            return None
        for c in range(0, 1024):
            if not self.ge(x - lift(c + 1)):
                return c
        return None

    def le(self, x, y):
        return self.holds(y - x) is True


def paths(mod, fn, args, onload=None, calls=None, facts=(), limit=4000, after=None):
    """every path of a function: (Path, result); after(path, result) may split the path further"""
    todo = [[]]
    n = 0
    while todo:
        s = todo.pop()
        p = Path(s, facts)
        ev = avn.Eval(mod, fn, args=args, onload=onload, calls=dict(calls(p)) if calls else None)
        ev.decide_int = p.decide
        ev.decide_div = p.div
        try:
            r = ev.run()
        except avn.Opaque as e:
            raise Broken('%s: %s (%s)' % (fn, e, '; '.join(p.split)))
        if after:
            after(p, r)
        for i in range(len(s), len(p.taken)):
            todo.append(p.taken[:i] + [False])
        n += 1
        if n > limit:
            raise Broken('%s: more than %d paths' % (fn, limit))
        yield p, r


def explore(mod, fn, args, onload, calls, facts, limit, after, bad):
    """every path of a function: (number of paths, first complaint); the process is copied where a path splits, so common
    beginnings are analysed once.  after(path, result) raises `bad` to complain"""
    p = Path([], facts)
    p.forks = True
    ev = avn.Eval(mod, fn, args=args, onload=onload, calls=dict(calls(p)))
    ev.decide_int = p.decide
    ev.decide_div = p.div
    ev.decide_off = p.offset
    err = broken = ''
    try:
        after(p, ev.run())
    except Found as e:
        err = str(e)
    except bad as e:
        err = '%s%s' % (e, ' (path: %s)' % '; '.join(p.split) if p.split else '')
    except avn.Opaque as e:
        if 'through undef' in str(e):
            err = 'computes with memory nobody wrote: %s (path: %s)' % (e, '; '.join(p.split))
        else:
            broken = '%s: %s (%s)' % (fn, e, '; '.join(p.split))
    except Broken as e:
        broken = str(e)
    except BaseException as e:
        if p.out is None:
            raise
        broken = '%s: %s' % (type(e).__name__, e)
    p.count += 1
    if p.count > limit:
        broken = '%s: more than %d paths' % (fn, limit)
    if p.out is not None:
        with os.fdopen(p.out, 'wb') as f:
            f.write(pickle.dumps((p.count, err, broken)))
        os._exit(0)
    if broken:
        raise Broken(broken)
    return p.count, err
