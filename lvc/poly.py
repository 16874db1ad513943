"""Polynomial arithmetic prover: every real atom is brought to a canonical polynomial, the
monomials become variables of a linear problem (plus squares, products of hypotheses), and
hypothesis equations are used through a Groebner basis. Every step only weakens what is known,
so 'unsat' is sound.
"""
import signal, time
from fractions import Fraction
import z3
from . import terms as tm, rat, smt
from .rat import RF, padd, pmul, pscale, rf_add, rf_mul, rf_inv, rf_const, TooLarge

STAT = {'tries': 0, 'proved': 0, 'time': 0.0, 'groebner': 0}


class Alarm(Exception):
    pass


def with_alarm(secs, f):
    def h(*a):
        raise Alarm()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Poly:
    def __init__(self, ex, st):
        self.ex, self.st = ex, st
        self.ctx = rat.Ctx()
        self.memo = {}
        self.okroot = {}
        self.mv = {}
        self.even = []
        self.G = None
        self.Q = None
        self.canon = {}      # canonical argument -> atom id (roots and absolute values)
        self.alias = {}      # atom id -> (atom id, sign)
        self.ites = []
        self.nonneg = {}     # atoms that are absolute values or roots -> z3 fact

    @staticmethod
    def absarg(t):
        """x when t is |x|"""
        if t.op != 'rite' or isinstance(t.args[0], bool):
            return None
        c, a, b = t.args
        if tm.rneg(a) is not b and tm.rneg(b) is not a:
            return None
        if c.op not in ('rlt', 'rle'):
            return None
        l, r = c.args
        if l is tm.R0:          # 0 < r
            return a if r is a else (a if tm.rneg(r) is b or r is tm.rneg(b) else None)
        if r is tm.R0:          # l < 0
            return b if l is b else None
        return None

    def canonatom(self, k):
        v = self.alias.get(k)
        if v is not None:
            return v
        self.alias[k] = k
        t = self.atom(k)
        x = self.absarg(t)
        kind = 'abs' if x is not None else ('sqrt' if t.op == 'uf' and t.args[0] == 'sqrt' else None)
        if kind is None:
            return k
        if x is None:
            x = t.args[1]
        try:
            r = self.rf(x)
        except (TooLarge, ZeroDivisionError):
            return k
        items = sorted(r.n.items())
        if kind == 'abs' and items and items[-1][1] < 0:
            items = [(m, -c) for m, c in items]
        key = (kind, tuple(items), tuple(sorted((dk, e) for dk, (p, e) in r.d.items())))
        v = self.canon.setdefault(key, k)
        self.alias[k] = v
        return v

    def rename(self, r):
        mp = {}
        for p in [r.n] + [q for q, e in r.d.values()]:
            for m in p:
                for k, e in m:
                    if k not in mp:
                        mp[k] = self.canonatom(k)
        if all(a == b for a, b in mp.items()):
            return r

        def ren(p):
            out = {}
            for m, c in p.items():
                d = {}
                for k, e in m:
                    d[mp[k]] = d.get(mp[k], 0) + e
                m2 = tuple(sorted(d.items()))
                v = out.get(m2, 0) + c
                if v:
                    out[m2] = v
                else:
                    out.pop(m2, None)
            return out
        n = ren(r.n)
        res = RF(n, {})
        for q, e in r.d.values():
            iv = rf_inv(RF(ren(q), {}))
            for _ in range(e):
                res = rf_mul(res, iv)
        return res

    def atom(self, i):
        return self.ctx.byid[i]

    def root_ok(self, i):
        """the argument of this square root is nonnegative"""
        r = self.okroot.get(i)
        if r is None:
            self.okroot[i] = False
            t = self.atom(i).args[1]
            self.ex._sp_budget = 60
            r = self.ex.nn(self.st, t, {})
            if not r:
                n = self.rf(t)
                r = not n.d and self.squares_only(n.n)
            if not r:
                try:
                    r = self.entails(tm.rle(tm.R0, t), prods=False)
                except (TooLarge, Alarm):
                    r = False
            self.okroot[i] = r
        return r

    @staticmethod
    def squares_only(p):
        return all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in p.items())

    def rf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.ctx.nf(t, 99, True, None)
            r = self.reduce(self.rename(r))
            self.memo[t] = r
        return r

    def reduce(self, r):
        for _ in range(24):
            done = True
            roots = set()
            for m in r.n:
                for k, e in m:
                    if e >= 2:
                        a = self.atom(k)
                        if (a.op == 'uf' and a.args[0] == 'sqrt') or self.absarg(a) is not None:
                            roots.add(k)
            for k in roots:
                x = self.absarg(self.atom(k))
                if x is not None:
                    S = self.rf(x)
                    S = rf_mul(S, S)
                elif not self.root_ok(k):
                    continue
                else:
                    S = self.rf(self.atom(k).args[1])
                A, B = {}, {}
                for m, c in r.n.items():
                    d = dict(m)
                    if d.get(k, 0) >= 2:
                        d[k] -= 2
                        if not d[k]:
                            del d[k]
                        B[tuple(sorted(d.items()))] = c
                    else:
                        A[m] = c
                r = rf_add(RF(A, r.d), rf_mul(RF(B, r.d), S))
                done = False
                break
            if not done:
                continue
            for key, (p, e) in list(r.d.items()):
                if len(p) == 1:
                    (m, c), = p.items()
                    if len(m) == 1 and m[0][1] == 1 and e >= 2:
                        a = self.atom(m[0][0])
                        if a.op == 'uf' and a.args[0] == 'sqrt' and self.root_ok(a.id):
                            d = dict(r.d)
                            if e == 2:
                                del d[key]
                            else:
                                d[key] = (p, e - 2)
                            r = rf_mul(RF(r.n, d), rf_inv(self.rf(a.args[1])))
                            done = False
                            break
            if done:
                return r
        return r

    def diff(self, a, b):
        x, y = self.rf(a), self.rf(b)
        return self.reduce(rf_add(x, RF(pscale(y.n, -1), y.d)))

    def ispos(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and all(e % 2 == 0 or (self.atom(k).op == 'uf' and self.atom(k).args[0] == 'sqrt') for k, e in m):
                return True         # nonzero (it is a denominator) and a product of squares and roots
        return self.squares_only(p)

    def sgn(self, r):
        """polynomial with the sign of n/d"""
        p = r.n
        for key, (q, e) in r.d.items():
            if e % 2 and not self.ispos(q):
                p = pmul(p, q)
        return p

    def mono(self, m):
        v = self.mv.get(m)
        if v is None:
            if len(m) == 1 and m[0][1] == 1:
                a = self.atom(m[0][0])
                v = smt.tr(a)
                x = self.absarg(a)
                if x is not None:
                    v = z3.Real('abs!%d' % a.id)
                    self.even.append(v >= 0)
                    self.nonneg[m[0][0]] = True
                elif a.op == 'uf' and a.args[0] == 'sqrt':
                    self.even.append(v >= 0)
                    self.nonneg[m[0][0]] = True
                elif a.op == 'rite':
                    v = z3.Real('ite!%d' % a.id)
                    self.ites.append((v, a))
            else:
                v = z3.Real('m!' + '_'.join('%d^%d' % x for x in m))
                if all(e % 2 == 0 for _, e in m):
                    self.even.append(v >= 0)
            self.mv[m] = v
        return v

    # ------------------------------------------------------------ ghost quantities
    def quantities(self, defs):
        """defs: (name, term). Later polynomials are rewritten, exactly, as polynomials in these quantities"""
        self.Q = []
        for nm, t in defs:
            r = self.rf(t)
            if r.d or not r.n:
                continue
            self.Q.append((z3.Real('q!' + nm), r.n))
        vs = sorted({k for _, p in self.Q for m in p for k, _ in m})
        ix = {k: i for i, k in enumerate(vs)}
        # gradings: weights of the variables that make every quantity homogeneous
        rows = []
        for _, p in self.Q:
            ms = [dict(m) for m in p]
            for m in ms[1:]:
                rows.append([m.get(k, 0) - ms[0].get(k, 0) for k in vs])
        self.grad = _nullspace(rows, len(vs))
        self.qix = ix
        self.qdeg = [self.mdeg(next(iter(p))) for _, p in self.Q]
        self.qmemo = {}

    def mdeg(self, m):
        d = [Fraction(0)] * len(self.grad)
        for k, e in m:
            i = self.qix[k]
            for j, g in enumerate(self.grad):
                d[j] += e * g[i]
        return tuple(d)

    def express(self, p):
        """the polynomial p as a polynomial in the quantities (z3), exact; TooLarge when it is none"""
        key = tuple(sorted(p.items()))
        if key in self.qmemo:
            r = self.qmemo[key]
            if r is None:
                raise TooLarge()
            return r
        self.qmemo[key] = None
        parts = {}
        for m, c in p.items():
            if any(k not in self.qix for k, _ in m):
                raise TooLarge()
            parts.setdefault((self.mdeg(m), sum(e for _, e in m)), {})[m] = c
        out = []
        for (dg, tot), q in parts.items():
            if tot == 0:
                out.append(z3.RealVal(str(Fraction(q[()]))))
                continue
            out.append(self.express1(q, dg, tot))
        r = z3.Sum(out) if out else z3.RealVal(0)
        self.qmemo[key] = r
        return r

    def express1(self, q, dg, tot):
        import random
        dtot = [max(sum(e for _, e in m) for m in p) for _, p in self.Q]
        cands = []

        def rec(i, left, d, cur):
            if len(cands) > 300:
                raise TooLarge()
            if left == 0:
                if all(x == 0 for x in d):
                    cands.append(tuple(cur))
                return
            if i == len(self.Q):
                return
            n = 0
            while n * dtot[i] <= left:
                rec(i + 1, left - n * dtot[i], [x - n * y for x, y in zip(d, self.qdeg[i])], cur + [(i, n)] if n else cur)
                n += 1
        rec(0, tot, list(dg), [])
        if not cands:
            raise TooLarge()
        P = (1 << 61) - 1
        rnd = random.Random(7)
        vs = sorted(self.qix)
        A = []
        for _ in range(len(cands) + 4):
            pt = {k: rnd.randrange(P) for k in vs}

            def ev(p):
                s = 0
                for m, c in p.items():
                    f = Fraction(c)
                    x = f.numerator * pow(f.denominator, -1, P) % P
                    for k, e in m:
                        x = x * pow(pt[k], e, P) % P
                    s += x
                return s % P
            qv = [ev(p) for _, p in self.Q]
            row = []
            for cd in cands:
                x = 1
                for i, n in cd:
                    x = x * pow(qv[i], n, P) % P
                row.append(x)
            A.append(row + [ev(q)])
        sol = _solve_mod(A, len(cands), P)
        if sol is None:
            raise TooLarge()
        terms = []
        chk = dict((m, -c) for m, c in q.items())
        for x, cd in zip(sol, cands):
            if not x:
                continue
            f = _ratrec(x, P)
            if f is None:
                raise TooLarge()
            e = z3.RealVal(str(f))
            pr = {(): 1}
            for i, n in cd:
                for _ in range(n):
                    e = e * self.Q[i][0]
                    pr = pmul(pr, self.Q[i][1])
            terms.append(e)
            chk = padd(chk, pscale(pr, f))
        if any(c for c in chk.values()):        # exact check of the identity
            raise TooLarge()
        return z3.Sum(terms) if terms else z3.RealVal(0)

    def lin(self, p):
        if self.Q:
            return self.express(p)
        if self.G:
            p = self.gred(p)
        ts = []
        for m, c in p.items():
            k = z3.RealVal(str(Fraction(c)))
            ts.append(k * self.mono(m) if m else k)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def lin2(self, t):
        r = self.rf(t)
        if r.d:
            raise TooLarge()
        return self.lin(r.n)

    def atomz(self, t):
        op = t.op
        if op == 'req':
            return self.lin(self.diff(t.args[0], t.args[1]).n) == 0
        p = self.sgn(self.diff(t.args[1], t.args[0]))
        return self.lin(p) >= 0 if op == 'rle' else self.lin(p) > 0

    def boolz(self, t):
        if isinstance(t, bool):
            return z3.BoolVal(t)
        op = t.op
        if op in ('req', 'rle', 'rlt'):
            try:
                return self.atomz(t)
            except (TooLarge, ZeroDivisionError):
                return smt.tr(t) if not smt.is_nl([t]) else z3.Bool('big!%d' % t.id)
        if op == 'not':
            return z3.Not(self.boolz(t.args[0]))
        if op == 'and':
            return z3.And(self.boolz(t.args[0]), self.boolz(t.args[1]))
        if op == 'or':
            return z3.Or(self.boolz(t.args[0]), self.boolz(t.args[1]))
        if op == 'iff':
            return self.boolz(t.args[0]) == self.boolz(t.args[1])
        return smt.tr(t) if not smt.is_nl([t]) else z3.Bool('big!%d' % t.id)

    # ------------------------------------------------------------ hypothesis equations
    def groebner(self, eqs, secs):
        polys = []
        for t in eqs:
            try:
                r = self.diff(t.args[0], t.args[1])
            except (TooLarge, ZeroDivisionError):
                continue
            if r.n and len(r.n) <= 60:
                polys.append(r.n)
        # defining equations of roots
        if not polys or len(polys) > 14:
            return
        import sympy
        ids = sorted({k for p in polys for m in p for k, _ in m})
        if len(ids) > 40:
            return
        self.gids = ids
        sy = {k: sympy.Symbol('x%d' % k) for k in ids}
        self.gens = [sy[k] for k in ids]

        def run():
            ps = []
            for p in polys:
                ps.append(sympy.Poly.from_dict(self.todict(p, ids), *self.gens, domain='QQ'))
            return sympy.groebner(ps, *self.gens, order='grevlex', domain='QQ')
        try:
            self.Gb = with_alarm(secs, run)
        except (Alarm, Exception):
            return
        self.G = True
        STAT['groebner'] += 1

    @staticmethod
    def todict(p, ids):
        import sympy
        ix = {k: i for i, k in enumerate(ids)}
        out = {}
        for m, c in p.items():
            e = [0] * len(ids)
            for k, x in m:
                e[ix[k]] = x
            f = Fraction(c)
            out[tuple(e)] = sympy.Rational(f.numerator, f.denominator)
        return out

    def gred(self, p):
        """normal form modulo the hypothesis equations (other atoms act as parameters)"""
        import sympy
        inner = set(self.gids)
        groups = {}
        for m, c in p.items():
            a = tuple(x for x in m if x[0] in inner)
            b = tuple(x for x in m if x[0] not in inner)
            groups.setdefault(b, {})[a] = c
        out = {}
        for b, q in groups.items():
            P = sympy.Poly.from_dict(self.todict(q, self.gids), *self.gens, domain='QQ')
            r = self.Gb.reduce(P.as_expr())[1]
            R = sympy.Poly(r, *self.gens, domain='QQ')
            for e, c in R.terms():
                if c == 0:
                    continue
                m = tuple((k, x) for k, x in zip(self.gids, e) if x)
                m = tuple(sorted(m + b))
                v = out.get(m, 0) + Fraction(int(c.p), int(c.q))
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
        return {m: (int(c) if c.denominator == 1 else c) for m, c in out.items()}

    # ------------------------------------------------------------ entailment
    def hyps(self, goal):
        st = self.st
        cs, ats = smt.cone(st.pc, smt.atoms(goal))
        fs = [f for f in st.ghost.get('facts', ()) if smt.atoms(f) <= ats]
        return cs, fs, ats

    def entails(self, goal, prods=True, timeout=4000):
        cs, fs, ats = self.hyps(goal)
        ng = tm.bnot(goal)
        sf = smt.side_facts(ats)
        lits = [c for c in cs + sf + [ng] if isinstance(c, tm.T) and c.op in ('rle', 'rlt')]
        s = z3.SolverFor('QF_LIRA') if False else z3.Solver()
        s.set('timeout', timeout)
        for c in cs + sf + fs + [ng]:
            s.add(self.boolz(c))
        for b in smt.int_bounds(ats):
            s.add(b)
        n1 = 0
        while n1 < len(self.ites):       # defining equations of conditional values and absolute values
            v, a = self.ites[n1]
            n1 += 1
            c = self.boolz(a.args[0])
            try:
                s.add(z3.Implies(c, v == self.lin2(a.args[1])), z3.Implies(z3.Not(c), v == self.lin2(a.args[2])))
            except (TooLarge, ZeroDivisionError):
                pass
        for k in list(self.nonneg):
            x = self.absarg(self.atom(k))
            if x is not None:
                try:
                    e = self.lin2(x)
                    v = self.mono(((k, 1),))
                    s.add(z3.Or(v == e, v == -e), v >= e, v >= -e)
                except (TooLarge, ZeroDivisionError):
                    pass
        for e in self.even:
            s.add(e)
        n0 = len(self.even)
        if s.check() == z3.unsat:
            return True
        if not prods:
            return False
        P = []
        for c in lits:
            try:
                p = self.sgn(self.diff(c.args[1], c.args[0]))
            except (TooLarge, ZeroDivisionError):
                continue
            if len(p) <= 40:
                P.append((p, c.op == 'rlt'))
        P = P[-12:] + [({((k, 1),): 1}, False) for k in list(self.nonneg)[:6]]
        for i in range(len(P)):
            for j in range(i, len(P)):
                if len(P[i][0]) * len(P[j][0]) > 1200:
                    continue
                q = self.sgn(self.reduce(RF(pmul(P[i][0], P[j][0]), {})))
                s.add(self.lin(q) > 0 if P[i][1] and P[j][1] else self.lin(q) >= 0)
        for e in self.even[n0:]:
            s.add(e)
        return s.check() == z3.unsat


def _nullspace(rows, n):
    m = [[Fraction(x) for x in r] for r in rows]
    piv = []
    r = 0
    for c in range(n):
        k = next((i for i in range(r, len(m)) if m[i][c]), None)
        if k is None:
            continue
        m[r], m[k] = m[k], m[r]
        iv = 1 / m[r][c]
        m[r] = [x * iv for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c]:
                f = m[i][c]
                m[i] = [a - f * b for a, b in zip(m[i], m[r])]
        piv.append(c)
        r += 1
    out = []
    for c in range(n):
        if c not in piv:
            v = [Fraction(0)] * n
            v[c] = Fraction(1)
            for i, pc in enumerate(piv):
                v[pc] = -m[i][c]
            out.append(v)
    return out


def _solve_mod(A, n, P):
    r = 0
    piv = []
    for c in range(n):
        k = next((i for i in range(r, len(A)) if A[i][c]), None)
        if k is None:
            continue
        A[r], A[k] = A[k], A[r]
        iv = pow(A[r][c], -1, P)
        A[r] = [x * iv % P for x in A[r]]
        for i in range(len(A)):
            if i != r and A[i][c]:
                f = A[i][c]
                A[i] = [(a - f * b) % P for a, b in zip(A[i], A[r])]
        piv.append(c)
        r += 1
    if any(row[n] for row in A[r:]):
        return None
    sol = [0] * n
    for i, c in enumerate(piv):
        sol[c] = A[i][n]
    return sol


def _ratrec(x, P):
    a, b, u, v = P, x, 0, 1
    while b * b * 2 > P:
        q = a // b
        a, b = b, a - q * b
        u, v = v, u - q * v
    if v == 0 or abs(v) > 1 << 29:
        return None
    return Fraction(b, v)


def prove_quantities(ex, st, goal, timeout=20000):
    """pc => goal after rewriting both, exactly, in terms of the ghost quantities of the contract"""
    defs = st.ghost.get('defs')
    if not defs:
        return False
    t0 = time.time()
    STAT['tries'] += 1
    r = False
    try:
        P = Poly(ex, st)
        P.quantities(defs)
        if goal.op in ('rle', 'rlt', 'req'):
            P.atomz(goal)        # must be expressible
        cs, fs, ats = P.hyps(goal)
        s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', timeout)
        for c in cs + fs + [tm.bnot(goal)]:
            b = P.boolz(c)
            s.add(b)
        r = s.check() == z3.unsat
    except (TooLarge, ZeroDivisionError, RecursionError):
        r = False
    STAT['time'] += time.time() - t0
    if r:
        STAT['proved'] += 1
    return r


def prove(ex, st, goal, secs=20, prods=True):
    """True when pc => goal by polynomial arithmetic"""
    t0 = time.time()
    STAT['tries'] += 1
    P = Poly(ex, st)

    def run():
        if goal.op == 'req':
            try:
                if not P.diff(*goal.args).n:
                    return True
            except (TooLarge, ZeroDivisionError):
                return False
        cs, fs, ats = P.hyps(goal)
        eqs = [c for c in cs if isinstance(c, tm.T) and c.op == 'req']
        if eqs:
            P.groebner(eqs, max(1, secs * 0.4))
            if P.G and goal.op == 'req' and not P.gred(P.diff(*goal.args).n):
                return True
        return P.entails(goal, prods)
    try:
        r = with_alarm2(secs, run)
    except (TooLarge, ZeroDivisionError, Alarm, RecursionError):
        r = False
    STAT['time'] += time.time() - t0
    if r:
        STAT['proved'] += 1
    return r


def with_alarm2(secs, f):
    # the Groebner step uses the timer itself; the outer limit is checked by size limits
    return f()
