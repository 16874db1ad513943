"""Exact equality of rational expressions: polynomial normalisation over cut points.

Candidate cut points are found by evaluating every sub-term modulo a prime (a guess
only); each merge is then *proved* by exact polynomial arithmetic over Q, so nothing
depends on the random evaluation.
"""
import random, time
from fractions import Fraction
from . import terms as tm
from .terms import T

PR = (1 << 61) - 1
STAT = {'merges': 0, 'identities': 0, 'time': 0.0, 'toolarge': 0}


class TooLarge(Exception):
    pass


# ---- polynomials: dict monomial(tuple of (atom id, exp)) -> int|Fraction
def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            del r[m]
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for k, e in n:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


LIMIT = 60000


def pmul(a, b):
    if len(a) * len(b) > 4000000:
        raise TooLarge()
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooLarge()
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


PONE = {(): 1}


def canon(p):
    """-> (leading coefficient, monic key, monic poly)"""
    ms = sorted(p.items())
    lc = ms[-1][1]
    if lc == 1:
        q = p
        key = tuple(ms)
    else:
        q = {m: Fraction(c) / lc for m, c in p.items()}
        q = {m: (int(c) if c.denominator == 1 else c) for m, c in q.items()}
        key = tuple(sorted(q.items()))
    return lc, key, q


class RF:
    """num / prod(factor^e); factors: dict key->(poly, exp)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n = n
        self.d = d


def rf_const(c):
    return RF({(): c} if c else {}, {})


def dmul(d):
    r = PONE
    for k, (p, e) in d.items():
        for _ in range(e):
            r = pmul(r, p)
    return r


def rf_add(a, b):
    if not a.n:
        return b
    if not b.n:
        return a
    if not a.d and not b.d:
        return RF(padd(a.n, b.n), {})
    d = dict(a.d)
    for k, (p, e) in b.d.items():
        if k not in d or d[k][1] < e:
            d[k] = (p, e)
    na, nb = a.n, b.n
    for k, (p, e) in d.items():
        ea = a.d.get(k, (p, 0))[1]
        for _ in range(e - ea):
            na = pmul(na, p)
        eb = b.d.get(k, (p, 0))[1]
        for _ in range(e - eb):
            nb = pmul(nb, p)
    n = padd(na, nb)
    if not n:
        return RF({}, {})
    # cheap cancellation: try to divide by single factors when the numerator is a multiple by construction
    return rf_cancel(RF(n, d))


def pdivexact(a, b):
    """exact division of a by b (both dict polys), or None"""
    if len(b) == 1:
        (mb, cb), = b.items()
        r = {}
        db = dict(mb)
        for m, c in a.items():
            dm = dict(m)
            for k, e in mb:
                x = dm.get(k, 0) - e
                if x < 0:
                    return None
                if x:
                    dm[k] = x
                else:
                    del dm[k]
            v = Fraction(c) / cb
            r[tuple(sorted(dm.items()))] = int(v) if v.denominator == 1 else v
        return r
    if len(a) > 6000 or len(b) > 400:
        return None
    # division with respect to the lexicographic order: the remainder is zero iff b divides a
    import heapq
    key = lambda m: tuple((-k, e) for k, e in m)
    mb = max(b, key=key)
    cb = b[mb]
    rest = [(m, c) for m, c in b.items() if m != mb]
    # smallest terms have to divide as well (cheap rejection)
    ma, mlo = min(a, key=key), min(b, key=key)
    d = dict(ma)
    for k, e in mlo:
        if d.get(k, 0) < e:
            return None
    rem = dict(a)
    neg = lambda m: tuple((k, -e) for k, e in m) + ((1 << 62, 0),)
    heap = [(neg(m), m) for m in rem]
    heapq.heapify(heap)
    q = {}
    steps = 0
    while rem:
        _, m = heapq.heappop(heap)
        c = rem.get(m)
        if c is None:
            continue
        d = dict(m)
        for k, e in mb:
            x = d.get(k, 0) - e
            if x < 0:
                return None
            if x:
                d[k] = x
            else:
                del d[k]
        qm = tuple(sorted(d.items()))
        v = Fraction(c) / cb
        v = int(v) if v.denominator == 1 else v
        q[qm] = v
        del rem[m]
        steps += len(rest) + 1
        if steps > 400000 or len(q) > len(a):
            return None
        for n, e in rest:
            t = mmul(qm, n)
            o = rem.get(t)
            if o is None:
                rem[t] = -v * e
                heapq.heappush(heap, (neg(t), t))
            else:
                o -= v * e
                if o:
                    rem[t] = o
                else:
                    del rem[t]
    return q


def rf_cancel(r):
    if not r.d:
        return r
    n, d = r.n, dict(r.d)
    ch = False
    for k in list(d):
        p, e = d[k]
        while e:
            q = pdivexact(n, p)
            if q is None:
                break
            n = q
            e -= 1
            ch = True
        if e:
            d[k] = (p, e)
        else:
            del d[k]
    return RF(n, d) if ch else r


def rf_mul(a, b):
    if not a.n or not b.n:
        return RF({}, {})
    # cancel factors of one side with the numerator of the other when identical
    d = dict(a.d)
    for k, (p, e) in b.d.items():
        if k in d:
            d[k] = (p, d[k][1] + e)
        else:
            d[k] = (p, e)
    r = RF(pmul(a.n, b.n), d)
    return rf_cancel(r) if d else r


def rf_inv(a):
    if not a.n:
        raise ZeroDivisionError()
    lc, key, mon = canon(a.n)
    n = dmul(a.d)
    v = Fraction(1) / lc
    n = pscale(n, int(v) if v.denominator == 1 else v)
    if len(mon) == 1 and () in mon:
        return RF(n, {})
    # split a monomial into its variables
    if len(mon) == 1:
        (m, _), = mon.items()
        d = {}
        for k, e in m:
            q = {((k, 1),): 1}
            d[canon(q)[1]] = (q, e)
        return RF(n, d)
    return RF(n, {key: (mon, 1)})


class Ctx:
    """equivalence classes of terms under a set of assumed equalities"""

    def __init__(self, equalities=(), seed=1):
        self.rep = {}
        self.sigc = {}
        self.rng = random.Random(seed)
        self.leafv = {}
        self.table = {}
        self.nfc = {}
        self.seen = set()
        self.cuts = set()
        self.byid = {}
        for a, b in equalities:
            self.union(a, b)

    def find(self, t):
        r = self.rep.get(t, t)
        while r is not t:
            t = r
            r = self.rep.get(t, t)
        return r

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a is b:
            return
        # prefer constants, then older/simple terms as representatives
        if b.op == 'rc' or (a.op != 'rc' and (b.id < a.id)):
            a, b = b, a
        self.rep[b] = a
        self.cuts.add(a)

    def leaf(self, key):
        v = self.leafv.get(key)
        if v is None:
            v = self.leafv[key] = self.rng.randrange(1, PR)
        return v

    def sig(self, t):
        t = self.find(t)
        c = self.sigc
        if t in c:
            return c[t]
        stack = [t]
        while stack:
            x = stack[-1]
            if x in c:
                stack.pop()
                continue
            op = x.op
            if op in ('radd', 'rmul', 'rdiv'):
                a, b = self.find(x.args[0]), self.find(x.args[1])
                todo = [y for y in (a, b) if y not in c]
                if todo:
                    stack.extend(todo)
                    continue
                va, vb = c[a], c[b]
                if op == 'radd':
                    v = (va + vb) % PR
                elif op == 'rmul':
                    v = va * vb % PR
                else:
                    v = va * pow(vb, PR - 2, PR) % PR if vb else self.leaf(('div0', x.id))
            elif op == 'rc':
                f = x.args[0]
                v = f.numerator % PR * pow(f.denominator % PR, PR - 2, PR) % PR
            elif op == 'uf':
                ar = [self.find(y) for y in x.args[1:]]
                todo = [y for y in ar if y not in c]
                if todo:
                    stack.extend(todo)
                    continue
                v = self.leaf(('uf', x.args[0]) + tuple(c[y] for y in ar))
            elif op == 'rite':
                a, b = self.find(x.args[1]), self.find(x.args[2])
                todo = [y for y in (a, b) if y not in c]
                if todo:
                    stack.extend(todo)
                    continue
                v = self.leaf(('ite', x.args[0].id, c[a], c[b])) if c[a] != c[b] else c[a]
            else:
                v = self.leaf(x.id)
            c[x] = v
            stack.pop()
        return c[t]

    # ---------------------------------------------------------------- normal form
    def nf(self, t, skip, top, budget):
        """normal form over cut points. `skip`: number of merged levels to look through"""
        memo = {}

        def go(t, lv, first):
            r = self.find(t)
            if not first and r in self.cuts and r.op in ('radd', 'rmul', 'rdiv'):
                if lv <= 0:
                    self.byid[r.id] = r
                    return RF({((r.id, 1),): 1}, {})
                lv -= 1
            if first:
                r2 = t
            else:
                r2 = r
            k = (r2, lv)
            if k in memo:
                return memo[k]
            op = r2.op
            if op == 'rc':
                f = r2.args[0]
                v = rf_const(int(f) if f.denominator == 1 else f)
            elif op == 'radd':
                v = rf_add(go(r2.args[0], lv, False), go(r2.args[1], lv, False))
            elif op == 'rmul':
                v = rf_mul(go(r2.args[0], lv, False), go(r2.args[1], lv, False))
            elif op == 'rdiv':
                d = go(r2.args[1], lv, False)
                if not d.n:
                    raise TooLarge()
                v = rf_mul(go(r2.args[0], lv, False), rf_inv(d))
            else:
                q = self.find(r2)
                if q.op == 'rc':
                    f = q.args[0]
                    v = rf_const(int(f) if f.denominator == 1 else f)
                elif q.op == 'uf' and q.args[0] == 'sqrt':
                    self.byid[q.id] = q
                    v = RF({((q.id, 1),): 1}, {})
                else:
                    self.byid[q.id] = q
                    v = RF({((q.id, 1),): 1}, {})
            memo[k] = v
            return v

        return go(t, skip, top)

    def squares(self, rf):
        """reduce sqrt(x)^2 -> x  (valid where x >= 0, which the caller has to know)"""
        return rf

    def prove_pair(self, a, b, deadline):
        for skip in (0, 1, 2, 3, 5, 9, 99):
            try:
                na = self.nf(a, skip, True, None)
                nb = self.nf(b, skip, True, None)
                d = rf_add(na, RF(pscale(nb.n, -1), nb.d))
                if not d.n:
                    STAT['identities'] += 1
                    return True
            except (TooLarge, ZeroDivisionError, RecursionError):
                STAT['toolarge'] += 1
                return False
            if time.time() > deadline:
                return False
        return False

    def sweep(self, roots, deadline):
        """merge provably equal sub-terms bottom up"""
        nodes = set()
        stack = list(roots)
        while stack:
            x = stack.pop()
            if x in self.seen or x in nodes:
                continue
            if x.op in ('radd', 'rmul', 'rdiv'):
                nodes.add(x)
                stack.append(x.args[0])
                stack.append(x.args[1])
            elif x.op in ('uf', 'rite'):
                nodes.add(x)
                stack.extend(y for y in tm.children(x) if y.op in ('radd', 'rmul', 'rdiv', 'uf', 'rite', 'rv', 'rsel', 'rc', 'i2r'))
            else:
                nodes.add(x)
        for x in sorted(nodes, key=lambda n: n.id):
            self.seen.add(x)
            if x.op == 'rc':
                s = self.sig(x)
                self.table.setdefault(s, x)
                continue
            if self.find(x) is not x:
                continue
            s = self.sig(x)
            y = self.table.get(s)
            if y is None:
                self.table[s] = x
                continue
            if self.find(y) is self.find(x):
                continue
            if time.time() > deadline:
                return
            if x.op == 'rite' and y.op == 'rite':
                if x.args[0] is y.args[0] and self.find(x.args[1]) is self.find(y.args[1]) and self.find(x.args[2]) is self.find(y.args[2]):
                    self.union(y, x)
                continue
            if x.op == 'rite' or y.op == 'rite':
                if x.op == 'rite' and self.find(x.args[1]) is self.find(y) and self.find(x.args[2]) is self.find(y):
                    self.union(y, x)
                    continue
            if x.op == 'uf' and y.op == 'uf':
                if x.args[0] == y.args[0] and all(self.find(p) is self.find(q) for p, q in zip(x.args[1:], y.args[1:])):
                    self.union(y, x)
                continue
            if self.prove_pair(x, y, deadline):
                STAT['merges'] += 1
                self.union(y, x)

    def equal(self, a, b, timeout=60):
        """True (proved) / False (differs at a random point) / None (unknown)"""
        t0 = time.time()
        try:
            if self.find(a) is self.find(b):
                return True
            if self.sig(a) != self.sig(b):
                return False
            import sys
            if sys.getrecursionlimit() < 20000:
                sys.setrecursionlimit(20000)
            self.sweep([a, b], t0 + timeout)
            if self.find(a) is self.find(b):
                return True
            if self.prove_pair(a, b, t0 + timeout * 2):
                self.union(a, b)
                return True
            return None
        finally:
            STAT['time'] += time.time() - t0
