"""Loops with a symbolic number of iterations, cut by inductive invariants.

At a loop header the verifier
  * runs the first iteration from the entry state,
  * havocs everything the loop modifies, assumes the inferred invariant, runs one
    iteration without checking (-> an arbitrary state after >= 1 iterations) and from
    there continues normally; the next back edge is covered by the invariant.
The invariant has three parts, each checked to be inductive before it is used:
  induction variables (x = x0 + step*k, k = number of completed iterations),
  Houdini candidates over integers / array comparisons,
  array lambdas (for every j < k the iteration j wrote val(j) at off(j)).
"""
from . import terms as tm, smt, ir
from .terms import T

DEBUG = False


class Cut:
    __slots__ = ('mode', 'cb')

    def __init__(self, mode, cb=None):
        self.mode, self.cb = mode, cb


class Havoc:
    """content written by an earlier iteration that the verifier does not track"""
    __slots__ = ()

    def __repr__(self):
        return 'HAVOC'


HAVOC = Havoc()


class LNode:
    """array lambda: for j in [0,k): write (off_i(j), size, val_i(j))"""
    __slots__ = ('k', 'ws')     # ws: list of (a, b, size, fun(j)->value)

    def __init__(self, k, ws):
        self.k, self.ws = k, ws


def isint(ex, v):
    return isinstance(v, int) and not isinstance(v, bool) or isinstance(v, T) and ex.isint(v)


def isbool(v):
    return isinstance(v, bool) or isinstance(v, T) and v.op in ('not', 'and', 'or', 'ile0', 'ieq0', 'rlt', 'rle', 'req', 'bv', 'iff', 'buf')


def read_lambda(ex, st, m, node, off, size, t):
    """read through a lambda node ('L', prev, LNode)"""
    ln = node[2]
    rest = None

    def below():
        m2 = m.copy()
        m2.log = node[1]
        return ex.mread(st, m2, off, size, t)
    pend = []
    for a, b, wsize, fun in reversed(ln.ws):
        d = tm.isub(off, a)
        lo = tm.imulc(tm.isub(ln.k, 1), b)
        # entirely outside of the swept range?
        c, items = tm.lin_parts(d)
        div = c % b == 0 and all(q % b == 0 for _, q in items)
        j8 = None
        if not div and b == 8 and size == 8 == wsize:
            j8 = div8(d)
            div = j8 is not None
        if not div or wsize != size:
            # overlap impossible when residues do not meet
            g = abs(b)
            for _, q in items:
                g = _gcd(g, abs(q))
            r = c % g if g else c
            if g and r >= wsize and r + size <= g:
                continue
            if b > 0:
                outside = tm.bor(tm.ile(tm.iadd(d, size), 0), tm.ile(tm.iadd(lo, wsize), d))
            else:
                outside = tm.bor(tm.ile(wsize, d), tm.ile(tm.iadd(d, size), lo))
            outside = tm.bor(outside, tm.ile(ln.k, 0))
            if ex.holds(st, outside):
                continue
            if getattr(ex, 'guess', False) and t[0] == 'double':
                return tm.rvar(tm.fresh_name('gs'))
            raise ex_unsup('read through a loop summary with another size or alignment')
        j = tm.idivc(d, b) if j8 is None else j8
        inside = tm.band(tm.ile(0, j), tm.ilt(j, ln.k))
        r = ex.decide(st, inside)
        if r is False:
            continue
        v = fun(j)
        if isinstance(v, Havoc):
            raise ex_unsup('read of a value the loop summary does not track')
        v = ex.conv(st, v, t, size)
        pend.append((inside, v))
        if r is True:
            break
    else:
        pend.append((True, below()))
    res = pend[-1][1]
    for c, v in reversed(pend[:-1]):
        res = ex.mkite(st, c, v, res, t)
    return res


def div8(t):
    return tm.exactdiv(t, 8)


def ex_unsup(msg):
    from .sx import Unsupported
    return Unsupported(msg)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def same(a, b):
    if a is b:
        return True
    if type(a) != type(b):
        return False
    if isinstance(a, (int, bool)):
        return a == b
    from .sx import Ptr
    if isinstance(a, Ptr):
        return a.r == b.r and same(a.off, b.off)
    return False


def cut(ex, st, lab, work):
    from .sx import Unsupported, PathEnd, Ptr, PIte, Undef, UNDEF
    ex.ncut = getattr(ex, 'ncut', 0) + 1
    fr = st.frames[-1]
    fn = fr.fn
    blk = fn.blocks[lab]
    phis = []
    for ins in blk:
        if ins[0] != 'phi':
            break
        phis.append((ins[1], ins[2], ex.val(st, fr, ins[2], ins[3][fr.prev])))
    nphi = len(phis)
    lvl = len(st.frames)
    npc = len(st.pc)
    entry_regions = set(st.mem)

    def start(s, vals, mode, cb=None):
        f = s.frames[-1]
        f.blk = lab
        f.ip = nphi
        for (n, t, e), v in zip(phis, vals):
            f.regs[n] = v
        f.cut = dict(f.cut)
        f.cut[lab] = Cut(mode, cb)
        f.cnt[lab] = 0
        return s

    # first iteration, from the entry state itself
    work.append(start(st.clone(), [e for _, _, e in phis], 'first'))

    id0, fr0 = tm._nid[0], tm._fresh[0]
    k = tm.ivar(tm.fresh_name('k'), 0)

    # ---------------------------------------------------------------- phi classes
    cls = ['gen'] * nphi
    step = [None] * nphi
    algn = [True] * nphi     # pointers that stay aligned: off = 8 * m

    def psym(i, v):
        """the symbol that stands for the loop variable i with value v"""
        if isinstance(v, Ptr):
            return algn[i] if isinstance(algn[i], T) else v.off
        return v

    def pval(i, v):
        """the value of that symbol when the loop variable i has the value v"""
        if isinstance(v, Ptr):
            return div8(v.off) if isinstance(algn[i], T) else v.off
        return v

    def mkphi(i):
        n, t, e = phis[i]
        if cls[i] == 'inv':
            return e
        if cls[i] == 'ind':
            if isinstance(e, Ptr):
                return Ptr(e.r, tm.iadd(e.off, tm.imulc(k, step[i])))
            if t[0] == 'double':
                return tm.radd(e, tm.rmul(step[i], tm.i2r(k)))
            return tm.iadd(e, tm.imulc(k, step[i]))
        if isinstance(e, Ptr):
            if e.r == 0:
                raise Unsupported('null pointer varied by a loop')
            if algn[i] and div8(e.off) is not None:
                m_ = tm.ivar(tm.fresh_name('pm'))
                algn[i] = m_
                return Ptr(e.r, tm.imulc(m_, 8))
            algn[i] = None
            return Ptr(e.r, tm.ivar(tm.fresh_name('po')))
        if t[0] == 'i' and t[1] == 1:
            return tm.bvar(tm.fresh_name('lb'))
        if t[0] == 'i':
            h = 1 << (t[1] - 1)
            return tm.ivar(tm.fresh_name('li'), -h, h - 1)
        if t[0] == 'double':
            return tm.rvar(tm.fresh_name('lr'))
        if isinstance(e, Undef):
            return UNDEF
        raise Unsupported('loop variable of type %s' % (t,))

    # ---------------------------------------------------------------- memory summaries
    # region -> None (unknown yet) | list of write summaries
    mods = {}
    havoc_keys = set()

    def header(vals, invs):
        s = st.clone()
        for c in invs:
            ex.add_pc(s, c)
        for r, sm in mods.items():
            m = ex.wmem(s, r)
            m.log = ('M', m.log)
            if sm:
                arr = []
                for key, (a, b, size, fun, sample) in sm.items():
                    if b == 0:
                        v = scratch_var(r, key, sample)
                        if isinstance(v, Ptr) and s.mem[v.r].name == 'vecgrow':
                            ex.wmem(s, v.r).size = v.off
                        m.log = ('W', m.log, a, size, v)
                    else:
                        arr.append((a, b, size, fun))
                if arr:
                    m.log = ('L', m.log, LNode(k, arr))
            m.log = ('M', m.log)
        s.track = set()
        return start(s, vals, 'dry')

    svars = {}
    pstep = {}      # stored pointers that move by a constant in every iteration (the end of a growing vector)

    def entry_ptr(r, key):
        a = mods[r][key][0]
        try:
            v = ex.mread(st, st.mem[r], a, 8, ir.PTR)
        except Unsupported:
            return None
        return v if isinstance(v, Ptr) else None

    def scratch_var(r, key, sample):
        x = svars.get((r, key))
        if x is not None:
            return x
        p = None
        if isinstance(sample, Ptr) and pstep.get((r, key)) != 'no':
            p = entry_ptr(r, key)
        if DEBUG: print("scratch", r, key, sample, p)
        if p is not None:
            d = pstep.get((r, key))
            if d is None:
                d = tm.isub(sample.off, p.off) if sample.r == p.r else None
                pstep[(r, key)] = d if isinstance(d, int) else 'no'
            if pstep[(r, key)] != 'no':
                x = Ptr(p.r, tm.iadd(p.off, tm.imulc(k, d)))
                svars[(r, key)] = x
                return x
        if isinstance(sample, T) and not ex.isint(sample) and not isbool(sample):
            x = tm.rvar(tm.fresh_name('ls'))
        elif isint(ex, sample):
            x = tm.ivar(tm.fresh_name('lsi'), -(1 << 63), (1 << 63) - 1)
        else:
            x = HAVOC
        svars[(r, key)] = x
        return x

    def body(s):
        """one quiet iteration; returns the states that reach the back edge (phis not yet applied)"""
        backs = []
        f = s.frames[-1]
        f.cut[lab].cb = backs.append
        q = ex.quiet
        ex.quiet = 1
        try:
            ex.explore([s])
        finally:
            ex.quiet = q
        return backs

    def backvals(b):
        f = b.frames[-1]
        return [ex.val(b, f, ins[2], ins[3][f.prev]) for ins in blk[:nphi]]

    def writes(b, r):
        """W nodes above the top marker, oldest first"""
        out = []
        node = b.mem[r].log
        while node is not None and node[0] != 'M':
            if node[0] == 'W':
                out.append((node[2], node[3], node[4]))
            else:
                raise Unsupported('range copy / nested summary inside a loop with a symbolic trip count')
            node = node[1]
        if node is None:
            raise Unsupported('loop memory marker lost')
        out.reverse()
        return out

    def eqv(s, a, b):
        if same(a, b):
            return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.r == b.r and eqv(s, a.off, b.off)
        if isint(ex, a) and isint(ex, b):
            return ex.holds(s, tm.ieq(a, b))
        if isinstance(a, T) and isinstance(b, T) and a.op in ('radd', 'rmul', 'rc', 'rv', 'i2r') and b.op in ('radd', 'rmul', 'rc', 'rv', 'i2r'):
            return ex.holds(s, tm.req(a, b))
        return False

    def coef(t):
        """offset = a + b*k -> (a, b) or None when it involves other loop symbols"""
        c, items = tm.lin_parts(t)
        a, b = c, 0
        for x, q in items:
            if x is k:
                b = q
            elif k in smt.atoms(x) or not loopsyms.isdisjoint(smt.atoms(x)):
                return None
            else:
                a = tm.iadd(a, tm.imulc(x, q))
        return a, b

    invs = []
    for rnd in range(14):
        svars.clear()
        vals = [mkphi(i) for i in range(nphi)]
        loopsyms = set()
        for i in range(nphi):
            if cls[i] == 'gen':
                v = psym(i, vals[i])
                if isinstance(v, T):
                    loopsyms.add(v)
        H = header(vals, [])
        loopsyms |= {x for x in svars.values() if isinstance(x, T)}
        # the first round only guesses which loop variables are constant or linear: what it cannot read is arbitrary
        outer, ex.guess = getattr(ex, 'guess', False), rnd == 0
        try:
            backs = body(H)
        finally:
            ex.guess = outer
        if not backs:
            return                    # at most one iteration: the entry case covers it
        stable = True
        # regions
        touched = set()
        for b in backs:
            for r in b.track:
                if r in entry_regions:
                    touched.add(r)
            for r in entry_regions:
                if r not in b.mem:
                    raise Unsupported('object destroyed inside a summarised loop')
                if b.mem[r].freed and not st.mem[r].freed:
                    raise Unsupported('object freed inside a summarised loop')
        for r in touched:
            if r not in mods:
                mods[r] = None
                stable = False
        # phi classes
        bv = [backvals(b) for b in backs]
        for i in range(nphi):
            e, v = phis[i][2], vals[i]
            if cls[i] == 'gen':
                if rnd == 0:
                    if all(same(x[i], v) for x in bv):
                        cls[i] = 'inv'
                        stable = False
                        continue
                    o = lambda z: z.off if isinstance(z, Ptr) else z
                    if isinstance(e, Ptr) and not all(isinstance(x[i], Ptr) and x[i].r == e.r for x in bv):
                        raise Unsupported('pointer moved between objects by a loop')
                if isinstance(v, Ptr) and isinstance(algn[i], T) and any(div8(x[i].off) is None for x in bv):
                    algn[i] = None
                    stable = False
                if rnd == 0:
                    if isinstance(o(v), T) and ex.isint(o(v)):
                        ds = [tm.isub(o(x[i]), o(v)) for x in bv if not isinstance(x[i], Undef)]
                        if ds and all(isinstance(d, int) and d == ds[0] and d != 0 for d in ds):
                            cls[i], step[i] = 'ind', ds[0]
                            stable = False
                    elif phis[i][1][0] == 'double' and isinstance(v, T) and isinstance(e, T):
                        ds = [z for x in bv if isinstance(x[i], T) and x[i].op == 'radd' and v in x[i].args for z in x[i].args if z is not v]
                        if len(ds) == len(bv) and all(d.op == 'rc' and d is ds[0] and d is not tm.R0 for d in ds):
                            cls[i], step[i] = 'ind', ds[0]
                            stable = False
            else:
                want = e if cls[i] == 'inv' else None
                if cls[i] == 'ind':
                    if isinstance(e, Ptr):
                        want = Ptr(e.r, tm.iadd(e.off, tm.imulc(tm.iadd(k, 1), step[i])))
                    elif phis[i][1][0] == 'double':
                        want = tm.radd(e, tm.rmul(step[i], tm.i2r(tm.iadd(k, 1))))
                    else:
                        want = tm.iadd(e, tm.imulc(tm.iadd(k, 1), step[i]))
                if not all(eqv(b, x[i], want) for b, x in zip(backs, bv)):
                    cls[i] = 'gen'
                    stable = False
        if not stable:
            continue
        # write summaries
        for r in list(mods):
            wl = [writes(b, r) for b in backs]
            sm = {}
            ok = True
            # group: same syntactic offset in all paths
            keys = []
            for ws in wl:
                for off, size, v in ws:
                    kk = (off if not isinstance(off, T) else off.id, size)
                    if kk not in keys:
                        keys.append(kk)
                    sm.setdefault(kk, [off, size, None, []])
            for b, ws in zip(backs, wl):
                last = {}
                for off, size, v in ws:
                    kk = (off if not isinstance(off, T) else off.id, size)
                    last[kk] = v
                for kk in sm:
                    sm[kk][3].append(last.get(kk))
            new, scr_vals = {}, {}
            for kk in keys:
                off, size, _, vs = sm[kk]
                ab = coef(off)
                if ab is None:
                    raise Unsupported('a loop writes at an offset that is not linear in the iteration count')
                a, bq = ab
                present = [v for v in vs if v is not None]
                if bq == 0:
                    new[(str(a), 0, size)] = (a, 0, size, None, present[0])
                    scr_vals[(str(a), 0, size)] = vs
                    continue
                # value as a function of k
                val = None
                track = all(v is not None for v in vs)
                if track:
                    val = vs[-1]
                    for b, v in list(zip(backs, vs))[-2::-1]:
                        if same(v, val):
                            continue
                        cond = True
                        for c in b.pc[npc:]:
                            cond = tm.band(cond, c)
                        if not isinstance(val, T) or not isinstance(v, T) or ex.isint(v) != ex.isint(val):
                            track = False
                            break
                        val = ex.mkite(st, cond, v, val, ('i', 64) if ex.isint(v) else ('double',))
                key = (str(a), bq, size)
                if track and isinstance(val, T) and not loopsyms.isdisjoint(smt.atoms(val)):
                    track = False
                if track and not isinstance(val, (T, int)):
                    track = False
                if (r, key) in havoc_keys:
                    track = False
                if track:
                    new[key] = (a, bq, size, _fun(val, k), val)
                else:
                    if not isinstance(present[0], T) or ex.isint(present[0]):
                        new[key] = (a, bq, size, lambda j: HAVOC, HAVOC)
                    else:
                        old = mods[r] and mods[r].get(key)
                        if old and old[4] == 'fresh':
                            new[key] = old
                        else:
                            nm = tm.fresh_name('la')
                            new[key] = (a, bq, size, (lambda nm: lambda j: tm.rsel(nm, j))(nm), 'fresh')
            oldm = mods[r]
            if DEBUG: print('keys', r, oldm and list(oldm), list(new))
            if oldm is None or set(oldm) != set(new):
                stable = False
                if oldm is not None:
                    for kk in set(oldm) - set(new):
                        if oldm[kk][1] == 0 and any(isinstance(d, int) and d for d in pstep.values()):
                            continue          # written at the entry value of a pointer that turned out to move
                        new[kk] = oldm[kk]
                        if oldm[kk][1] != 0:
                            raise Unsupported('unstable loop writes')
            else:
                for kk in new:
                    o, n = oldm[kk], new[kk]
                    if n[1] == 0:
                        if isinstance(pstep.get((r, kk)), int):
                            d, p = pstep[(r, kk)], entry_ptr(r, kk)
                            want = Ptr(p.r, tm.iadd(p.off, tm.imulc(tm.iadd(k, 1), d)))
                            if not all(isinstance(v, Ptr) and eqv(b, v, want) for b, v in zip(backs, scr_vals[kk])):
                                pstep[(r, kk)] = 'no'
                                stable = False
                        continue
                    if not (o[4] is n[4] or o[4] == n[4]):
                        havoc_keys.add((r, kk))
                        stable = False
            # distinct (write, iteration) pairs must not overlap
            arr = [x for x in new.values() if x[1] != 0]
            if arr and stable:
                disjoint(ex, st, arr, k)
                scr = [x for x in new.values() if x[1] == 0]
                for x in scr:
                    for y in arr:
                        c = tm.bor(tm.ile(tm.iadd(x[0], x[2]), tm.iadd(y[0], tm.imulc(k, y[1]))),
                                   tm.ile(tm.iadd(tm.iadd(y[0], tm.imulc(k, y[1])), y[2]), x[0]))
                        if not ex.holds(st, c):
                            raise Unsupported('scratch cell overlaps an array written by the loop')
            mods[r] = new
        if stable:
            break
    else:
        raise Unsupported('loop summary does not stabilise in %s' % ex.dname(fn.name))

    # ---------------------------------------------------------------- Houdini
    syms = {k}
    gens = []
    for i in range(nphi):
        if cls[i] == 'gen':
            v = psym(i, vals[i])
            e = pval(i, phis[i][2])
            if isinstance(v, T) and not isinstance(e, Undef):
                gens.append((v, e, i))
                syms.add(v)
    smap = {}      # scratch variables: symbol -> (region, key)
    for rk, x in svars.items():
        if isinstance(x, T):
            smap[x] = rk
            e0 = None
            try:
                key = mods[rk[0]][rk[1]]
                m0 = st.mem[rk[0]]
                e0 = ex.mread(st, m0, key[0], key[2], ('i', key[2] * 8) if ex.isint(x) else ('double',))
            except Unsupported:
                e0 = None
            if e0 is not None and not isinstance(e0, Undef):
                gens.append((x, e0, rk))
                syms.add(x)
    entry = {k: 0}
    for v, e, _ in gens:
        entry[v] = e
    cands = []

    def add(c):
        if isinstance(c, bool):
            return
        if c not in cset:
            cset.add(c)
            cands.append(c)
    cset = set()
    ints = [(v, e) for v, e, _ in gens if ex.isint(v)]
    reals = [(v, e) for v, e, _ in gens if not ex.isint(v) and not isbool(v)]
    add(tm.ile(0, k))
    for v, e in ints:
        add(tm.ieq(v, e))
        add(tm.ile(e, v))
        add(tm.ile(v, e))
        add(tm.ile(v, tm.iadd(e, k)))
        for w, f in ints:
            if v is not w:
                add(tm.ile(v, w))
                add(tm.ilt(v, w))
                add(tm.ieq(tm.isub(v, w), tm.isub(e, f)))
        for w, f in ints:
            if v is not w:
                add(tm.ile(v, f))
                add(tm.ile(f, v))
    for v, e in ints[:6]:
        for A, B in smt.RUNS:
            d = tm.isub(v, e)
            add(tm.ieq(d, tm.iite(tm.ile(k, A), 0, tm.iite(tm.ile(k, B), tm.isub(k, A), tm.isub(B, A)))))
    for v, e in ints[:6]:
        add(tm.ile(0, v))
        add(tm.ile(1, v))
        for i1, (w, f) in enumerate(ints[:6]):
            for z, h in ints[i1 + 1:6]:
                if v is not w and v is not z:
                    add(tm.ieq(v, tm.iadd(w, z)))
                    add(tm.ieq(tm.isub(v, tm.iadd(w, z)), tm.isub(e, tm.iadd(f, h))))
    for v, e in reals:
        if isinstance(e, T):
            add(tm.req(v, e))
            add(tm.rle(v, e))
            add(tm.rle(e, v))
            add(tm.rle(tm.R0, v))
            for w in smt.PIVOTS:
                add(tm.rle(v, w))
                add(tm.rle(w, v))
    pats = []
    for b in backs:
        conds = list(b.pc[npc:])
        for x in backvals(b):
            x = x.off if isinstance(x, Ptr) else x
            if isinstance(x, T):
                conds += iteconds(x)
        for c in conds:
            for lit in lits(c):
                at = smt.atoms(lit)
                if syms.isdisjoint(at):
                    continue
                p = lit.args[0] if lit.op == 'not' else lit
                if p.op in ('ile0', 'ieq0'):
                    d = p.args[0]
                    for sh in (-2, -1, 0, 1, 2):
                        add(tm.ile(tm.iadd(d, sh), 0))
                        add(tm.ile(0, tm.iadd(d, sh)))
                    if k in at:
                        prev = tm.subst(lit, {k: tm.isub(k, 1)})
                        add(tm.bor(tm.ile(k, 0), prev))
                if p.op in ('rle', 'rlt'):
                    for x in at:
                        if x.op == 'rsel' and not syms.isdisjoint(smt.atoms(x)):
                            if k not in smt.atoms(x):
                                e0 = tm.subst(x, entry)
                                add(tm.rle(x, e0))
                                add(tm.rle(e0, x))
                            for v, e in ints:
                                for sh in (-1, 0, 1):
                                    pats.append((p, x, tm.rsel(x.args[0], tm.iadd(v, sh))))
    for p, x, y in pats[:200]:
        q = tm.subst(p, {x: y})
        if isinstance(q, T):
            a, b2 = q.args
            for c in (tm.rle(a, b2), tm.rlt(a, b2), tm.rle(b2, a), tm.rlt(b2, a)):
                add(c)
    if len(cands) > 400:
        cands = cands[:400]
    # initiation
    invs = []
    for c in cands:
        c0 = tm.subst(c, entry)
        if ex.holds(st, c0):
            invs.append(c)
    # consecution
    for _ in range(40):
        H = header(vals, invs)
        backs = body(H)
        if not backs:
            break
        drop = []
        for b in backs:
            x = backvals(b)
            mp = {k: tm.iadd(k, 1)}
            bad = False
            for v, e, i in gens:
                if isinstance(i, int):
                    z = pval(i, x[i])
                else:
                    key = mods[i[0]][i[1]]
                    z = ex.mread(b, b.mem[i[0]], key[0], key[2], ('i', key[2] * 8) if ex.isint(v) else ('double',))
                if z is None:
                    raise Unsupported('misaligned pointer in a loop')
                if isinstance(z, Undef):
                    bad = True
                    z = v
                mp[v] = z
            for c in invs:
                if c in drop:
                    continue
                c1 = tm.subst(c, mp)
                if not ex.holds(b, c1):
                    drop.append(c)
        if not drop:
            break
        invs = [c for c in invs if c not in drop]
    else:
        raise Unsupported('invariant inference does not terminate')
    if DEBUG:
        print('LOOP', ex.dname(fn.name), lab, cls, step, [(str(v), str(e)) for v, e, _ in gens])
        for c in invs:
            print('   inv', tm.show(c)[:200])
    ex.invs = getattr(ex, 'invs', {})
    # ---------------------------------------------------------------- quantified facts about the earlier iterations
    def perk(t):
        """depends on the iteration count and on nothing else this loop makes"""
        at = smt.atoms(t)
        if k not in at:
            return False
        for a in at:
            if a is k or a.op in ('uf', 'iuf', 'buf'):
                continue
            if a.op in ('rsel', 'isel'):
                nm = a.args[0]
                if '!' in nm and nm.rsplit('!', 1)[1].isdigit() and int(nm.rsplit('!', 1)[1]) > fr0:
                    return False
                continue
            if a.id > id0:
                return False
        return True

    gmap = {v: i for v, e, i in gens}

    def ofgens(t):
        """made of this loop's variables and of what was there before, whatever the iteration"""
        at = smt.atoms(t)
        if k in at or not any(a in gmap for a in at):
            return False
        for a in at:
            if a in gmap or a.op in ('uf', 'iuf', 'buf'):
                continue
            if a.op in ('rsel', 'isel'):
                nm = a.args[0]
                if '!' in nm and nm.rsplit('!', 1)[1].isdigit() and int(nm.rsplit('!', 1)[1]) > fr0:
                    return False
                continue
            if a.id > id0:
                return False
        return True

    def newterm(b, x, t):
        """the value of the term t after the iteration"""
        if t in gmap:
            return newval(b, x, gmap[t], t)
        mp = {}
        for v, i in gmap.items():
            if v in smt.atoms(t):
                z = newval(b, x, i, v)
                if z is None or isinstance(z, Undef):
                    return UNDEF
                mp[v] = z
        return tm.subst(t, mp)

    def newval(b, x, i, v):
        if isinstance(i, int):
            z = pval(i, x[i])
        else:
            key = mods[i[0]][i[1]]
            z = ex.mread(b, b.mem[i[0]], key[0], key[2], ('i', key[2] * 8) if ex.isint(v) else ('double',))
        return z

    qinvs = []           # (kind, v, gen key, t(k)):   kind(v, t(j)) for every finished iteration j
    qlits = []           # per back state: conjunction that held in that iteration
    if backs and nphi < 40:
        rv = {v: i for v, e, i in gens if not ex.isint(v) and not isbool(v)}
        qs = []
        for b in backs:
            conds = list(b.pc[npc:])
            x = backvals(b)
            for z in x:
                z = z.off if isinstance(z, Ptr) else z
                if isinstance(z, T):
                    conds += iteconds(z)
            for v, i in rv.items():
                if not isinstance(i, int):
                    z = newval(b, x, i, v)
                    if isinstance(z, T):
                        conds += iteconds(z)
            for c in conds:
                for lit in lits(c):
                    p = lit.args[0] if lit.op == 'not' else lit
                    if p.op in ('rle', 'rlt'):
                        for a1, a2 in (p.args, p.args[::-1]):
                            if (a1 in rv or isinstance(a1, T) and a1 not in gmap and ofgens(a1)) and isinstance(a2, T) and perk(a2) and len(qs) < 40:
                                for kind in ('le', 'ge'):
                                    if (kind, a1, a2) not in qs:
                                        qs.append((kind, a1, a2))
            con = True
            for c in b.pc[npc:]:
                if c in invs or not perk(c):
                    continue
                con = tm.band(con, c)
            qlits.append(con)
        mkc = lambda kind, a1, a2: tm.rle(a1, a2) if kind == 'le' else tm.rle(a2, a1)
        j0 = tm.ivar(tm.fresh_name('j'), 0)
        while qs:
            bad = set()
            for b in backs:
                x = backvals(b)
                b2 = b.clone()
                try:
                    ex.add_pc(b2, tm.ilt(j0, k))
                    for q in qs:
                        ex.add_pc(b2, tm.subst(mkc(*q), {k: j0}))
                except PathEnd:
                    continue
                for q in qs:
                    if q in bad:
                        continue
                    nv = newterm(b, x, q[1])
                    if isinstance(nv, Undef) or not isinstance(nv, T):
                        bad.add(q)
                        continue
                    for st1, jj in ((b, k), (b2, j0)):
                        g = mkc(q[0], nv, tm.subst(q[2], {k: jj}))
                        if g is True:
                            continue
                        if g is False or (st1 is b and not ex.holds_split(b, g)) or (st1 is b2 and not ex.holds_split(b2, g)):
                            bad.add(q)
                            break
            if not bad:
                break
            qs = [q for q in qs if q not in bad]
        qinvs = qs
        if DEBUG:
            print('   Q', [(a, tm.show(b_)[:100], tm.show(c_)[:100]) for a, b_, c_ in qs])
        qlits = [c for c in qlits]
        disj = False
        for c in qlits:
            disj = tm.bor(disj, c)
        for b in backs:
            x = backvals(b)
            qf = list(b.ghost.get('qf', ()))
            if not isinstance(disj, bool):
                qf.append((k, tm.iadd(k, 1), disj))
            for kind, v, t in qinvs:
                # the final value does not depend on j: keep k inside it apart from the quantified one
                j = tm.ivar(tm.fresh_name('q'), 0)
                qf.append((j, tm.iadd(k, 1), mkc(kind, newterm(b, x, v), tm.subst(t, {k: j}))))
            b.ghost['qf'] = tuple(qf)
    ex.invs[(ex.dname(fn.name), lab)] = len(qinvs) + len(invs) + sum(1 for c in cls if c != 'gen') + sum(len(v) for v in mods.values() if v)
    # ---------------------------------------------------------------- continue after an arbitrary iteration
    for b in backs:
        x = backvals(b)
        b.track = st.track
        f = b.frames[-1]
        b.steps = 0
        start(b, x, 'final')
        work.append(b)


def _fun(val, k):
    return lambda j: tm.subst(val, {k: j})


def iteconds(t):
    out = []
    seen = set()
    stk = [t]
    while stk:
        x = stk.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('iite', 'rite'):
            out.append(x.args[0])
        stk.extend(tm.children(x))
    return [c for c in out if not isinstance(c, bool)][:20]


def lits(c):
    if isinstance(c, bool):
        return []
    if c.op in ('and', 'or'):
        return lits(c.args[0]) + lits(c.args[1])
    if c.op == 'not' and c.args[0].op in ('and', 'or'):
        return lits(c.args[0])
    return [c]


def disjoint(ex, st, arr, k):
    j1 = tm.ivar(tm.fresh_name('j'), 0)
    j2 = tm.ivar(tm.fresh_name('j'), 0)
    for i, (a, b, s, _, _) in enumerate(arr):
        for i2, (a2, b2, s2, _, _) in enumerate(arr):
            if i2 < i:
                continue
            o1 = tm.iadd(a, tm.imulc(j1, b))
            o2 = tm.iadd(a2, tm.imulc(j2, b2))
            sep = tm.bor(tm.ile(tm.iadd(o1, s), o2), tm.ile(tm.iadd(o2, s2), o1))
            if i == i2:
                sep = tm.bor(sep, tm.ieq(j1, j2))
            if not ex.holds(st, sep):
                raise ex_unsup('a loop writes the same cell in different iterations')
