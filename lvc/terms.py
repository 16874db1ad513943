"""Hash-consed terms (mathematical Int / Real / Bool) with on-the-fly normalisation.

Ints are Python ints or T nodes in linear normal form; reals are T nodes
('rc' constants included); Bools are Python bools or T nodes.
"""
from fractions import Fraction

_tab = {}
_nid = [0]


class T:
    __slots__ = ('op', 'args', 'id', 'z', 'lo', 'hi', 'aux', '__weakref__')

    def __repr__(self):
        return show(self)


def reset():
    """only between independent harness runs"""
    pass


INF = float('inf')


def mk(op, args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _nid[0] += 1
        t.id = _nid[0]
        t.z = None
        t.lo = -INF
        t.hi = INF
        t.aux = None
        _tab[k] = t
    return t


# ------------------------------------------------------------------ ints
_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return '%s!%d' % (base, _fresh[0])


def ivar(name, lo=-INF, hi=INF):
    t = mk('iv', (name,))
    t.lo = max(t.lo, lo)
    t.hi = min(t.hi, hi)
    return t


def lin_parts(a):
    """-> (const, dict atom->coef)"""
    if isinstance(a, int):
        return a, ()
    if a.op == 'lin':
        return a.args[0], a.args[1]
    return 0, ((a, 1),)


def mklin(c, items):
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    t = mk('lin', (c, items))
    if t.aux is None:
        lo = hi = c
        for a, k in items:
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
        t.lo, t.hi, t.aux = lo, hi, True
    return t


def irange(a):
    if isinstance(a, int):
        return a, a
    if a.op == 'lin':          # atoms' bounds may have been tightened since
        c, items = a.args
        lo = hi = c
        for x, k in items:
            if k > 0:
                lo += k * x.lo
                hi += k * x.hi
            else:
                lo += k * x.hi
                hi += k * x.lo
        return lo, hi
    return a.lo, a.hi


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    ca, ia = lin_parts(a)
    cb, ib = lin_parts(b)
    if not ib:
        return mklin(ca + cb, ia)
    if not ia:
        return mklin(ca + cb, ib)
    d = dict(ia)
    for x, k in ib:
        v = d.get(x, 0) + k
        if v:
            d[x] = v
        else:
            del d[x]
    return mklin(ca + cb, tuple(sorted(d.items(), key=lambda p: p[0].id)))


def imulc(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    c, i = lin_parts(a)
    return mklin(c * k, tuple((x, q * k) for x, q in i))


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return iadd(a, imulc(b, -1))


def imul(a, b):
    if isinstance(a, int):
        return imulc(b, a)
    if isinstance(b, int):
        return imulc(a, b)
    # distribute so that products of atoms are canonical
    ca, ia = lin_parts(a)
    cb, ib = lin_parts(b)
    r = ca * cb
    for x, k in ia:
        r = iadd(r, imulc(x, k * cb)) if cb else r
    for y, k in ib:
        r = iadd(r, imulc(y, k * ca)) if ca else r
    for x, k in ia:
        for y, q in ib:
            p, s = (x, y) if x.id <= y.id else (y, x)
            m = mk('imul', (p, s))
            bs = []
            for u in (p.lo, p.hi):
                for v in (s.lo, s.hi):
                    bs.append(0 if (u == 0 or v == 0) else u * v)
            m.lo, m.hi = max(m.lo, min(bs)), min(m.hi, max(bs))
            r = iadd(r, imulc(m, k * q))
    return r


def exactdiv(t, k):
    """t / k when t is visibly a multiple of k"""
    if isinstance(t, int):
        return t // k if t % k == 0 else None
    if t.op == 'iite':
        a, b = exactdiv(t.args[1], k), exactdiv(t.args[2], k)
        return None if a is None or b is None else iite(t.args[0], a, b)
    c, items = lin_parts(t)
    if c % k:
        return None
    r = c // k
    for x, q in items:
        if q % k == 0:
            r = iadd(r, imulc(x, q // k))
        elif x is not t and x.op == 'iite':
            d = exactdiv(x, k)
            if d is None:
                return None
            r = iadd(r, imulc(d, q))
        else:
            return None
    return r


def idivc(a, k):
    """floor division by a positive constant"""
    if isinstance(a, int):
        return a // k
    if k == 1:
        return a
    c, i = lin_parts(a)
    if all(q % k == 0 for _, q in i):
        return mklin(c // k, tuple((x, q // k) for x, q in i))
    r = exactdiv(a, k)
    if r is not None:
        return r
    t = mk('idiv', (a, k))
    lo, hi = irange(a)
    t.lo = lo // k if lo != -INF else -INF
    t.hi = hi // k if hi != INF else INF
    return t


def imodc(a, k):
    if isinstance(a, int):
        return a % k
    lo, hi = irange(a)
    if lo >= 0 and hi < k:
        return a
    c, i = lin_parts(a)
    i2 = tuple((x, q % k) for x, q in i if q % k)
    c2 = c % k
    if not i2:
        return c2
    a2 = mklin(c2, i2)
    lo, hi = irange(a2)
    if lo >= 0 and hi < k:
        return a2
    t = mk('imod', (a2, k))
    t.lo, t.hi = 0, k - 1
    return t


def iite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    t = mk('iite', (c, a, b))
    la, ha = irange(a)
    lb, hb = irange(b)
    t.lo, t.hi = min(la, lb), max(ha, hb)
    return t


def ile0(d):
    """d <= 0"""
    if isinstance(d, int):
        return d <= 0
    lo, hi = irange(d)
    if hi <= 0:
        return True
    if lo > 0:
        return False
    c, i = lin_parts(d)
    g = 0
    from math import gcd
    for _, q in i:
        g = gcd(g, abs(q))
    if g > 1:
        d = mklin(-((-c) // g), tuple((x, q // g) for x, q in i))  # c + g*e <= 0 <=> ceil(c/g)+e <= 0
    return mk('ile0', (d,))


def ile(a, b):
    return ile0(isub(a, b))


def ilt(a, b):
    return ile0(iadd(isub(a, b), 1))


def ieq(a, b):
    d = isub(a, b)
    if isinstance(d, int):
        return d == 0
    lo, hi = irange(d)
    if lo > 0 or hi < 0:
        return False
    c, i = lin_parts(d)
    if i[0][1] < 0:
        d = imulc(d, -1)
    from math import gcd
    c, i = lin_parts(d)
    g = 0
    for _, q in i:
        g = gcd(g, abs(q))
    if c % g:
        return False
    if g > 1:
        d = mklin(c // g, tuple((x, q // g) for x, q in i))
    # case split through a single ite atom
    c, i = lin_parts(d)
    if len(i) == 1 and i[0][0].op == 'iite' and abs(i[0][1]) == 1:
        cc, x, y = i[0][0].args
        v = -c * i[0][1]
        if isinstance(x, int) or isinstance(y, int):
            ex, ey = ieq(x, v), ieq(y, v)
            return bor(band(cc, ex), band(bnot(cc), ey))
    return mk('ieq0', (d,))


# ------------------------------------------------------------------ bools
def bnot(a):
    if isinstance(a, bool):
        return not a
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ile0':
        return ile0(isub(1, a.args[0]))
    if a.op == 'rlt':
        return rle(a.args[1], a.args[0])
    if a.op == 'rle':
        return rlt(a.args[1], a.args[0])
    if a.op == 'or':
        return band(bnot(a.args[0]), bnot(a.args[1]))
    if a.op == 'and':
        return bor(bnot(a.args[0]), bnot(a.args[1]))
    return mk('not', (a,))


def band(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('and', (a, b))


def bor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    if bnot(a) is b:
        return True
    return mk('or', (a, b))


def bimp(a, b):
    return bor(bnot(a), b)


def biff(a, b):
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    if a is b:
        return True
    return mk('iff', (a, b) if a.id < b.id else (b, a))


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return bor(band(c, a), band(bnot(c), b))


def bvar(name):
    return mk('bv', (name,))


# ------------------------------------------------------------------ reals
def rc(x):
    return mk('rc', (Fraction(x),))


R0 = rc(0)
R1 = rc(1)
RM1 = rc(-1)


def rvar(name):
    return mk('rv', (name,))


def radd(a, b):
    if a.op == 'rc' and b.op == 'rc':
        return rc(a.args[0] + b.args[0])
    if a is R0:
        return b
    if b is R0:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('radd', (a, b))


def rneg(a):
    if a.op == 'rc':
        return rc(-a.args[0])
    return rmul(RM1, a)


def rsub(a, b):
    if a is b:
        return R0
    return radd(a, rneg(b))


def rmul(a, b):
    if a.op == 'rc' and b.op == 'rc':
        return rc(a.args[0] * b.args[0])
    if a is R0 or b is R0:
        return R0
    if a is R1:
        return b
    if b is R1:
        return a
    if b.op == 'rc':
        a, b = b, a
    if a.op == 'rc':
        if b.op == 'rmul' and b.args[0].op == 'rc':
            return rmul(rc(a.args[0] * b.args[0].args[0]), b.args[1])
        return mk('rmul', (a, b))
    if a.id > b.id:
        a, b = b, a
    return mk('rmul', (a, b))


def rdiv(a, b):
    if b.op == 'rc' and b.args[0] != 0:
        return rmul(rc(1 / b.args[0]), a)
    return mk('rdiv', (a, b))


def rite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if c.op in ('rlt', 'rle'):          # minimum and maximum: one form whatever the order and strictness of the comparison
        x, y = c.args
        if a is x and b is y or a is y and b is x:
            small = a is x
            if x.id > y.id:
                x, y = y, x
            c = mk('rlt', (x, y))
            return mk('rite', (c, x, y) if small else (c, y, x))
    return mk('rite', (c, a, b))


def rlt(a, b):
    if a is b:
        return False
    if a.op == 'rc' and b.op == 'rc':
        return a.args[0] < b.args[0]
    return mk('rlt', (a, b))


def rle(a, b):
    if a is b:
        return True
    if a.op == 'rc' and b.op == 'rc':
        return a.args[0] <= b.args[0]
    return mk('rle', (a, b))


def req(a, b):
    if a is b:
        return True
    if a.op == 'rc' and b.op == 'rc':
        return a.args[0] == b.args[0]
    if a.id > b.id:
        a, b = b, a
    return mk('req', (a, b))


def i2r(a):
    if isinstance(a, int):
        return rc(a)
    c, items = lin_parts(a)
    if c or len(items) != 1 or items[0][1] != 1:
        r = rc(c)
        for x, q in items:
            r = radd(r, rmul(rc(q), i2r(x)))
        return r
    return mk('i2r', (a,))


def r2i(a):
    """truncation towards zero"""
    if a.op == 'rc':
        f = a.args[0]
        return int(f)
    if a.op == 'i2r':
        return a.args[0]
    return mk('r2i', (a,))


def ruf(name, *args):
    return mk('uf', (name,) + args)


CONSTSEL = {}       # array name -> function of the index: known value or None


def rsel(arr, idx):
    """select from a base (symbolic) array of reals"""
    f = CONSTSEL.get(arr)
    if f:
        v = f(idx)
        if v is not None:
            return v
    return mk('rsel', (arr, idx))


def isel(arr, idx, lo, hi):
    t = mk('isel', (arr, idx))
    t.lo = max(t.lo, lo)
    t.hi = min(t.hi, hi)
    return t


# ------------------------------------------------------------------ misc
def children(t):
    op = t.op
    if op == 'lin':
        return [a for a, _ in t.args[1]]
    if op in ('rc', 'rv', 'iv', 'bv'):
        return []
    if op in ('rsel', 'isel'):
        return [t.args[1]] if isinstance(t.args[1], T) else []
    return [a for a in t.args if isinstance(a, T)]


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return '…'
    op = t.op
    s = lambda x: show(x, d + 1)
    if op == 'rc':
        return str(t.args[0])
    if op in ('rv', 'iv', 'bv'):
        return t.args[0]
    if op == 'lin':
        c, i = t.args
        r = '+'.join(('%d*' % k if k != 1 else '') + s(a) for a, k in i)
        return '(%s%s)' % (r, '%+d' % c if c else '')
    if op in ('rsel', 'isel'):
        return '%s[%s]' % (t.args[0], s(t.args[1]))
    if op == 'ile0':
        return '(%s<=0)' % s(t.args[0])
    if op == 'ieq0':
        return '(%s==0)' % s(t.args[0])
    sym = {'radd': '+', 'rmul': '*', 'rdiv': '/', 'rlt': '<', 'rle': '<=', 'req': '==', 'and': '&', 'or': '|', 'imul': '*'}
    if op in sym:
        return '(%s%s%s)' % (s(t.args[0]), sym[op], s(t.args[1]))
    return '%s(%s)' % (op, ','.join(s(a) for a in t.args))


def subst(t, mp, memo=None):
    """simultaneous substitution of atoms (dict T -> T/int), rebuilding with normalisation"""
    if not isinstance(t, T):
        return t
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x in mp:
            memo[x] = mp[x]
            stack.pop()
            continue
        ch = children(x)
        todo = [c for c in ch if c not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        if all(memo[c] is c for c in ch):
            memo[x] = x
            continue
        memo[x] = rebuild(x, memo)
    return memo[t]


def rebuild(x, memo):
    op = x.op
    g = lambda a: memo[a] if isinstance(a, T) else a
    a = x.args
    if op == 'lin':
        r = a[0]
        for y, k in a[1]:
            r = iadd(r, imulc(memo[y], k))
        return r
    if op == 'imul':
        return imul(g(a[0]), g(a[1]))
    if op == 'idiv':
        return idivc(g(a[0]), a[1])
    if op == 'imod':
        return imodc(g(a[0]), a[1])
    if op == 'iite':
        return iite(g(a[0]), g(a[1]), g(a[2]))
    if op == 'ile0':
        return ile(g(a[0]), 0)
    if op == 'ieq0':
        return ieq(g(a[0]), 0)
    if op == 'not':
        return bnot(g(a[0]))
    if op == 'and':
        return band(g(a[0]), g(a[1]))
    if op == 'or':
        return bor(g(a[0]), g(a[1]))
    if op == 'iff':
        return biff(g(a[0]), g(a[1]))
    if op == 'radd':
        return radd(g(a[0]), g(a[1]))
    if op == 'rmul':
        return rmul(g(a[0]), g(a[1]))
    if op == 'rdiv':
        return rdiv(g(a[0]), g(a[1]))
    if op == 'rite':
        return rite(g(a[0]), g(a[1]), g(a[2]))
    if op == 'rlt':
        return rlt(g(a[0]), g(a[1]))
    if op == 'rle':
        return rle(g(a[0]), g(a[1]))
    if op == 'req':
        return req(g(a[0]), g(a[1]))
    if op == 'i2r':
        return i2r(g(a[0]))
    if op == 'r2i':
        return r2i(g(a[0]))
    if op == 'rsel':
        return rsel(a[0], g(a[1]))
    if op == 'isel':
        return isel(a[0], g(a[1]), x.lo, x.hi)
    if op in ('uf', 'iuf', 'buf'):
        return mk(op, tuple(g(y) for y in a))
    raise Exception('subst ' + op)
