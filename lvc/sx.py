"""Symbolic execution of LLVM IR -> verification conditions.

Memory is a set of regions (object, offset); integers are mathematical integers
with explicit wrap-around; floating point values are mathematical reals.
"""
import re, time
from fractions import Fraction
from . import terms as tm, ir, smt, rat, loops, poly
from .terms import T


class Unsupported(Exception):
    """outside the verifier's reach: an error of the check, never a violation"""


class Enough(Exception):
    """enough obligations of this contract have failed; the others are not looked at"""


class PathEnd(Exception):
    pass


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class ZeroV:
    def __repr__(self):
        return 'ZERO'


ZERO = ZeroV()


class Ptr:
    __slots__ = ('r', 'off')

    def __init__(self, r, off):
        self.r = r
        self.off = off

    def __repr__(self):
        return '&%s+%s' % (self.r, self.off)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


NULL = Ptr(0, 0)


class Mem:
    __slots__ = ('cells', 'log', 'base', 'size', 'kind', 'freed', 'name', 'elem')

    def copy(self):
        m = Mem()
        m.cells = dict(self.cells)
        m.log = self.log
        m.base = self.base
        m.size = self.size
        m.kind = self.kind
        m.freed = self.freed
        m.name = self.name
        m.elem = self.elem
        return m


# log nodes: ('W', prev, off, size, val) / ('C', prev, dst, len, srcmem, srcoff) / ('Z', prev, off, len)
# base: ('undef',) ('zero',) ('real', arrname) ('int', arrname, esz, lo, hi)


ROWSTRIDE = 1 << 32     # row i of a container of containers lives at offset i * ROWSTRIDE of one region


def rowsplit(off):
    """offset -> (row, offset inside the row)"""
    c, items = tm.lin_parts(off)
    i0 = (c + ROWSTRIDE // 2) // ROWSTRIDE
    row, rest = i0, c - i0 * ROWSTRIDE
    for a, k in items:
        if k % ROWSTRIDE == 0:
            row = tm.iadd(row, tm.imulc(a, k // ROWSTRIDE))
        else:
            rest = tm.iadd(rest, tm.imulc(a, k))
    return row, rest


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'regs', 'prev', 'ret', 'inv', 'cnt', 'allocas', 'name', 'cut', 'call_id', 'exc', 'und')

    def clone(self):
        f = Frame()
        f.fn = self.fn
        f.blk = self.blk
        f.ip = self.ip
        f.regs = dict(self.regs)
        f.prev = self.prev
        f.ret = self.ret
        f.inv = self.inv
        f.cnt = dict(self.cnt)
        f.allocas = list(self.allocas)
        f.name = self.name
        f.cut = dict(self.cut)
        f.call_id = self.call_id
        f.exc = self.exc
        f.und = dict(self.und)
        return f


class State:
    __slots__ = ('frames', 'mem', 'own', 'pc', 'inputs', 'ghost', 'retval', 'nid', 'eqs', 'steps', 'ctx', 'track', 'trail')

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.pc = list(self.pc)
        s.inputs = list(self.inputs)
        s.ghost = dict(self.ghost)
        s.retval = None
        s.nid = self.nid
        s.eqs = list(self.eqs)
        s.steps = self.steps
        s.ctx = None
        s.track = self.track
        s.trail = list(self.trail)
        return s


I1 = ('i', 1)


class Obl:
    __slots__ = ('label', 'where', 'status', 'by', 'time', 'model', 'detail')


class Exec:
    def __init__(self, mod, dem, opts=None):
        self.m = mod
        self.dem = dem
        self.opts = dict(unroll=600, max_steps=4000000, max_paths=20000, divcheck=True, boundscheck=True,
                         feas_timeout=1500, feas_nl=400, vc_timeout=10000, autocut=10, cvc5=True, poly=True, eq_timeout=60, time_limit=700)
        if opts:
            self.opts.update(opts)
        self.obls = {}           # (label) -> dict(proved=, failed=[...], unknown=[...])
        self.stubs = []          # (regex on demangled, handler)
        self.cutset = set()      # loops cut by invariants: (function, header)
        self.sumcache = {}
        self.nfork = 0
        self.paths = 0
        self.total_steps = 0
        self.funcs_seen = {}
        self.reached = set()
        self.throws = []
        self.by = {}
        self.retries = 3 if self.opts.get('hurry') else 0
        if self.opts.get('hurry'):
            self.opts.update(vc_timeout=min(self.opts['vc_timeout'], 500), cvc5_time=0)
        self.quiet = 0
        self.start = time.time()
        self.work = []
        self.fail_states = []
        self.covered_labels = {}
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------------ regions
    def new_region(self, st, size, kind, name='', base=('undef',)):
        rid = st.nid
        st.nid += 1
        m = Mem()
        m.cells = {}
        m.log = None
        m.base = base
        m.size = size
        m.kind = kind
        m.freed = False
        m.name = name
        m.elem = None
        st.mem[rid] = m
        st.own.add(rid)
        return rid

    def wmem(self, st, r):
        m = st.mem[r]
        if r not in st.own:
            m = m.copy()
            st.mem[r] = m
            st.own.add(r)
        if st.track is not None:
            st.track.add(r)
        return m

    def region(self, st, r):
        if isinstance(r, tuple) and r not in st.mem:
            self.load_global(st, r)
        return st.mem[r]

    def load_global(self, st, r):
        name = r[1]
        if r[0] == 'f':
            m = Mem()
            m.cells, m.log, m.base, m.size, m.kind, m.freed, m.name, m.elem = {}, None, ('undef',), 1, 'fn', False, name, None
            st.mem[r] = m
            return
        txt = self.m.gtext.get(name)
        m = Mem()
        m.cells, m.log, m.base, m.size, m.kind, m.freed, m.name, m.elem = {}, None, ('undef',), 1 << 20, 'global', False, name, None
        st.mem[r] = m
        if name.lstrip('@').startswith('_ZTS') and (txt is None or ' external ' in ' %s ' % txt):      # the name of a built-in type
            for i, c in enumerate(name.lstrip('@')[4:] + '\0'):
                m.cells[i] = (1, ord(c))
            m.size = len(m.cells)
            return
        if name.lstrip('@').startswith('_ZTI') and (txt is None or ' external ' in ' %s ' % txt):      # its type_info: vtable and name
            m.cells[8] = (8, Ptr((r[0], name.replace('_ZTI', '_ZTS', 1)), 0))
            m.size = 16
            return
        if txt is None:
            return
        p = ir.P(self.m, ir.tokenize(txt))
        words = []
        while p.peek() not in ('global', 'constant', 'alias', 'ifunc', None):
            x = p.next()
            words.append(x)
            if x in ('thread_local', 'addrspace') and p.peek() == '(':
                p.skip_paren()
        k = p.next()
        if k not in ('global', 'constant'):
            return
        t = p.type()
        m.size = self.m.size(t)
        if 'external' in words or 'available_externally' in words and p.peek() is None:
            return
        v = p.value(t)
        m.base = ('zero',)
        self.flatten(st, m, t, v, 0)

    def flatten(self, st, m, t, v, off):
        k = v[0]
        if k == 'Z':
            return
        if k == 'U':
            return
        if k == 'S':
            s = v[1]
            body = s[2:-1] if s[0] == 'c' else s[1:-1]
            i = 0
            o = off
            while i < len(body):
                if body[i] == '\\':
                    if body[i + 1] == '\\':
                        b = 92
                        i += 2
                    else:
                        b = int(body[i + 1:i + 3], 16)
                        i += 3
                else:
                    b = ord(body[i])
                    i += 1
                m.cells[o] = (1, b if b < 128 else b - 256)
                o += 1
            return
        if k == 'AGG':
            rt = self.m.resolve(t)
            for i, (et, ev) in enumerate(v[2]):
                if rt[0] == 'st':
                    fo, ft = self.m.field(rt, i)
                else:
                    fo, ft = i * self.m.size(rt[2]), rt[2]
                self.flatten(st, m, ft, ev, off + fo)
            return
        val = self.const(st, t, v)
        m.cells[off] = (self.m.size(t), val)

    # ------------------------------------------------------------------ constants / operands
    def const(self, st, t, v):
        k = v[0]
        if k == 'I':
            if t == I1:
                return bool(v[1])
            if t[0] in ('double', 'float'):
                return tm.rc(v[1])
            return v[1]
        if k == 'F':
            x = v[1]
            if x == float('inf'):
                return tm.rvar('INF')
            if x == float('-inf'):
                return tm.rneg(tm.rvar('INF'))
            if x != x:
                return tm.rvar('NAN')
            return tm.rc(Fraction(x))
        if k == 'N':
            return NULL
        if k == 'G':
            nm = v[1]
            if nm in self.m.ftext or (nm not in self.m.gtext):
                return Ptr(('f', nm), 0)
            tx = self.m.gtext[nm]
            if ' alias ' in ' ' + tx[:120]:
                return Ptr(('f', re.search(r'ptr @("[^"]+"|[\w.$]+)', tx).group(1).strip('"')), 0)
            return Ptr(('g', nm), 0)
        if k == 'U':
            return self.undef(t)
        if k == 'Z':
            return self.zero(t)
        if k == 'GEP':
            base = self.const(st, ir.PTR, v[2])
            return self.gep(st, v[1], base, [(it, self.const(st, it, iv)) for it, iv in v[3]])
        if k == 'CAST':
            return self.cast(st, v[1], v[2], self.const(st, v[2], v[3]), v[4])
        if k == 'BIN':
            return self.binop(st, v[1], v[2], self.const(st, v[2], v[3]), self.const(st, v[2], v[4]), set())
        if k == 'AGG':
            rt = self.m.resolve(t)
            return tuple(self.const(st, et, ev) for et, ev in v[2])
        raise Unsupported('const ' + str(v))

    def undef(self, t):
        rt = self.m.resolve(t)
        if rt[0] == 'st':
            return tuple(self.undef(f) for f in rt[1])
        if rt[0] == 'arr':
            return tuple(self.undef(rt[2]) for _ in range(rt[1]))
        if rt[0] == 'vec':
            return tuple(self.undef(rt[2]) for _ in range(rt[1]))
        return UNDEF

    def zero(self, t):
        rt = self.m.resolve(t)
        k = rt[0]
        if k == 'i':
            return False if rt[1] == 1 else 0
        if k in ('double', 'float'):
            return tm.R0
        if k == 'ptr':
            return NULL
        if k == 'st':
            return tuple(self.zero(f) for f in rt[1])
        if k in ('arr', 'vec'):
            return tuple(self.zero(rt[2]) for _ in range(rt[1]))
        raise Unsupported('zero ' + str(rt))

    def val(self, st, fr, t, v):
        k = v[0]
        if k == 'L':
            return fr.regs[v[1]]
        if k == 'I':
            if t == I1:
                return bool(v[1])
            return v[1]
        return self.const(st, t, v)

    # ------------------------------------------------------------------ solver helpers
    def decide(self, st, c, quick=True):
        """True/False when c / not c follows from the path condition, else None"""
        if isinstance(c, bool):
            return c
        ats = smt.atoms(c)
        cs, _ = smt.cone(st.pc, ats)
        if quick:
            # integer-only facts first
            pass
        to = self.opts['feas_timeout']
        if smt.is_nl(cs + [c]):
            to = self.opts['feas_nl']
        nc = tm.bnot(c)
        if smt.query(cs + [nc], to) == 'unsat':
            return True
        if smt.query(cs + [c], to) == 'unsat':
            return False
        return None

    def holds(self, st, c):
        if isinstance(c, bool):
            return c
        cs, _ = smt.cone(st.pc, smt.atoms(c))
        return smt.query(cs + [tm.bnot(c)], self.opts['feas_timeout']) == 'unsat'

    def holds_split(self, st, c, depth=3):
        """holds, with the conditional terms of c resolved first"""
        if isinstance(c, bool):
            return c
        x = self.first_ite(c)
        if x is None or depth == 0:
            return self.holds(st, c)
        for val in (True, False):
            s2 = st.clone()
            try:
                self.add_pc(s2, x.args[0] if val else tm.bnot(x.args[0]))
            except PathEnd:
                continue
            if not self.holds_split(s2, tm.subst(c, {x: x.args[1] if val else x.args[2]}), depth - 1):
                return False
        return True

    def instances(self, st, goal, more=False):
        """ground instances of the quantified loop facts at the array cells the goal speaks about"""
        qf = st.ghost.get('qf', ())
        out = []
        if not qf or not isinstance(goal, T) and not more:
            return out
        gat = [a for a in smt.atoms(goal) if a.op in ('rsel', 'isel')] if isinstance(goal, T) else []
        if more:          # and at those the path condition speaks about
            for c in st.pc:
                gat += [a for a in smt.atoms(c) if a.op in ('rsel', 'isel') and a not in gat]
        for j, hi, f in qf:
            cand = []
            for a in smt.atoms(f):
                if a.op not in ('rsel', 'isel') or not isinstance(a.args[1], T):
                    continue
                c, items = tm.lin_parts(a.args[1])
                q = [kk for x, kk in items if x is j]
                if not q or any(x is not j and j in smt.atoms(x) for x, kk in items):
                    continue
                rest = tm.isub(a.args[1], tm.imulc(j, q[0]))
                for g in gat:
                    if g.op != a.op or g.args[0] != a.args[0]:
                        continue
                    d = tm.isub(g.args[1], rest)
                    c0, it = tm.lin_parts(d)
                    if c0 % q[0] or any(kk % q[0] for x, kk in it):
                        continue
                    v = tm.mklin(c0 // q[0], tuple((x, kk // q[0]) for x, kk in it)) if it else c0 // q[0]
                    if v not in cand:
                        cand.append(v)
            for v in cand[:24 if more else 8]:
                g = tm.band(tm.ile(0, v), tm.ilt(v, hi))
                d = self.decide(st, g)
                if d is False:
                    continue
                inst = tm.subst(f, {j: v})
                inst = inst if d is True else tm.bimp(g, inst)
                if inst is not True and inst not in st.pc:
                    out.append(inst)
        return out

    def add_pc(self, st, c):
        if c is True:
            return
        if c is False:
            raise PathEnd('infeasible')
        if c.op == 'and':
            self.add_pc(st, c.args[0])
            self.add_pc(st, c.args[1])
            return
        st.pc.append(c)
        if c.op == 'req':
            st.eqs.append((c.args[0], c.args[1]))
            st.ctx = None

    # ------------------------------------------------------------------ obligations
    def obligation(self, st, goal, label, kind='vc'):
        """prove pc => goal. Returns True when proved."""
        if self.quiet:
            return True
        where = self.where(st)
        o = self.obls.setdefault(label, {'n': 0, 'proved': 0, 'failed': 0, 'unknown': 0, 'by': {}, 'time': 0.0, 'where': where})
        o['n'] += 1
        t0 = time.time()
        ins = self.instances(st, goal) if st.ghost.get('qf') else ()
        if ins:
            s2 = st.clone()
            try:
                for c in ins:
                    self.add_pc(s2, c)
                r, by, model = self.prove(s2, goal)
                by = 'quantified-instance+' + by
            except PathEnd:
                r, by, model = True, 'quantified-instance', None
        else:
            r, by, model = self.prove(st, goal)
        if r is not True and st.ghost.get('qf'):
            s2 = st.clone()
            try:
                for c in self.instances(st, goal, True):
                    self.add_pc(s2, c)
                r2, by2, m2 = self.prove(s2, goal)
            except PathEnd:
                r2, by2 = True, 'z3'
            if r2 is True:
                r, by, model = True, 'quantified-instance+' + by2, None
        if r is None and self.retries < 3 and self.opts.get('retry', True):
            # no back end decided it (the limits are wall-clock, the machine may be busy): once more with longer limits,
            # then other solver versions and seeds
            self.retries += 1
            s2 = st.clone()
            try:
                for c in (self.instances(st, goal, True) if st.ghost.get('qf') else ()):
                    self.add_pc(s2, c)
                near = list(s2.pc) if goal is False else smt.cone(s2.pc, smt.atoms(goal))[0] + [tm.bnot(goal)]
                r2 = smt.portfolio(near, near if goal is False else list(s2.pc) + [tm.bnot(goal)])
                if r2 == 'unsat':
                    r, by = True, 'solver-portfolio'
                    self.retries -= 1
                else:
                    old = dict(self.opts)
                    self.opts.update(vc_timeout=3 * old['vc_timeout'], feas_timeout=4 * old['feas_timeout'], feas_nl=8 * old['feas_nl'])
                    try:
                        r2, by2, m2 = self.prove(s2, goal)
                    finally:
                        self.opts.clear()
                        self.opts.update(old)
                    if r2 is not None:
                        r, by, model = r2, by2, m2
            except PathEnd:
                r, by = True, 'z3'
        o['time'] += time.time() - t0
        if r is True:
            o['proved'] += 1
            o['by'][by] = o['by'].get(by, 0) + 1
            return True
        if r is False:
            o['failed'] += 1
        else:
            o['unknown'] += 1
        self.nfails = getattr(self, 'nfails', 0) + 1
        if self.nfails == 1:        # the contract is not discharged: the remaining obligations are only reported, with short limits
            self.retries = 3
            self.opts.update(vc_timeout=min(self.opts['vc_timeout'], 500), cvc5_time=0, hurry=True)
        if len(self.fail_states) < 40:
            self.fail_states.append((label, where, 'failed' if r is False else 'unknown', self.extract_inputs(st, model, goal),
                                     tm.show(goal)[:600] if isinstance(goal, T) else str(goal)))
        if self.nfails >= 12:
            raise Enough()
        return False

    def where(self, st):
        return ' > '.join(self.dname(f.fn.name) for f in st.frames[-2:]) if st.frames else ''

    def dname(self, n):
        d = self.dem.get(n, n)
        return d if len(d) < 90 else d[:87] + '...'

    def rctx(self, st):
        if st.ctx is None:
            key = tuple((a.id, b.id) for a, b in st.eqs)
            c = self.__dict__.setdefault('_ctxs', {})
            if key not in c:
                if len(c) > 400:
                    c.clear()
                c[key] = rat.Ctx(st.eqs)
            st.ctx = c[key]
        return st.ctx

    def prove(self, st, goal, depth=8):
        if goal is True:
            return True, 'fold', None
        if goal is False:
            r, m = self.query_nl(list(st.pc), self.opts['vc_timeout'])
            if r == 'unsat':
                return True, 'z3', None
            return (False if r == 'sat' else None), 'z3', m
        if goal.op == 'and':
            r1 = self.prove(st, goal.args[0])
            if r1[0] is not True:
                return r1
            r2 = self.prove(st, goal.args[1])
            return r2
        if goal.op == 'req':
            r = self.rctx(st).equal(goal.args[0], goal.args[1], self.opts['eq_timeout'])
            if r is True:
                return True, 'rational-normal-form', None
            if self.first_ite(goal) is not None:
                r = self.prove_split(st, goal, depth)
                if r[0] is not None:
                    return r
            g2 = self.unify_indices(st, goal)
            if g2 is not goal:
                if g2 is True:
                    return True, 'z3+rational-normal-form', None
                if not isinstance(g2, bool) and g2.op == 'req':
                    ctx = rat.Ctx([(self._subst(x, g2), self._subst(y, g2)) for x, y in st.eqs])
                    if ctx.equal(g2.args[0], g2.args[1], self.opts['eq_timeout']) is True:
                        return True, 'z3+rational-normal-form', None
        if goal.op in ('rle', 'rlt'):
            if self.sign_prove(st, goal):
                return True, 'sign-rules+z3', None
            g2 = self.unify_indices(st, goal) if depth == 8 else goal
            if g2 is not goal:
                if g2 is True:
                    return True, 'z3', None
                if isinstance(g2, T):
                    s2 = st.clone()
                    try:
                        for c in st.pc:
                            c2 = tm.subst(c, self._unimap)
                            if c2 is not c:
                                self.add_pc(s2, c2)
                    except PathEnd:
                        return True, 'z3', None
                    r = self.prove(s2, g2, 7)
                    if r[0] is True:
                        return r
        ats = smt.atoms(goal)
        cs, _ = smt.cone(st.pc, ats)
        ng = tm.bnot(goal)
        to = self.opts['vc_timeout']
        nl = self.opts['poly'] and not self.opts.get('hurry') and (goal.op in ('rle', 'rlt', 'req') or st.ghost.get('defs')) and smt.is_nl(cs + [goal])
        if nl:
            r, m = smt.query(cs + [ng], min(to, 200 if st.ghost.get("defs") else 1000), want_model=True)
            if r == 'unknown':
                if st.ghost.get('defs'):
                    if self.first_ite(goal) is not None and depth > 0:
                        r1 = self.prove_split(st, goal, 4)
                        if r1[0] is not None:
                            return r1
                    if poly.prove_quantities(self, st, goal):
                        return True, 'ghost-quantities+z3-nlsat', None
                if goal.op in ('rle', 'rlt', 'req') and poly.prove(self, st, goal):
                    return True, 'polynomial-arithmetic+z3', None
                r, m = self.query_nl(cs + [ng], to)
        else:
            r, m = self.query_nl(cs + [ng], to)
        if r == 'unsat':
            return True, 'z3', None
        if r == 'unknown' and self.opts['cvc5'] and self.opts.get('cvc5_time', 15) > 0:
            r2 = smt.cvc5_check(cs + [ng], self.opts.get('cvc5_time', 15))
            if r2 == 'unsat':
                return True, 'cvc5', None
        if r == 'sat':
            # full model (all of the path condition)
            r3, m3 = smt.query(list(st.pc) + [ng], to, want_model=True)
            if r3 == 'unsat':
                return True, 'z3', None
            if r3 == 'sat':
                return False, 'z3', m3
            return None, 'z3', m
        return None, 'z3', None

    def query_nl(self, cs, to):
        """a query of an obligation: nonlinear ones get a short run in this process, then the other solvers, then the full time"""
        cs = [c for c in cs if c is not True]
        if any(c is False for c in cs) or not smt.is_nl(cs):
            return smt.query(cs, to, want_model=True)
        r, m = smt.query(cs, min(to, 1500), want_model=True)
        if r == 'unknown':
            if not self.opts.get('hurry') and smt.portfolio(cs, cs, 6) == 'unsat':
                return 'unsat', None
            if to > 1500:
                r, m = smt.query(cs, to, want_model=True)
        return r, m

    def first_ite(self, t):
        c = self.__dict__.setdefault('_itec', {})
        if t in c:
            return c[t]
        seen = set()
        stk = [t]
        best = None
        while stk:
            x = stk.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in ('iite', 'rite') and not isinstance(x.args[0], bool):
                if best is None or x.id < best.id:      # innermost first
                    best = x
            stk.extend(tm.children(x))
        c[t] = best
        return best

    def prove_split(self, st, goal, depth):
        """case split on the conditions of conditional terms in the goal"""
        if not isinstance(goal, T):
            return self.prove(st, goal)
        x = self.first_ite(goal)
        if x is None:
            return self.prove(st, goal, depth)
        c = x.args[0]
        d = self.decide(st, c)
        if d is not None:
            return self.prove_split(st, tm.subst(goal, {x: x.args[1] if d else x.args[2]}), depth)
        if depth <= 0:
            return None, 'z3', None
        by = None
        for val in (True, False):
            s2 = st.clone()
            try:
                self.add_pc(s2, c if val else tm.bnot(c))
            except PathEnd:
                continue
            g2 = tm.subst(goal, {x: x.args[1] if val else x.args[2]})
            if isinstance(g2, T):
                r = self.prove_split(s2, g2, depth - 1)
            else:
                r = self.prove(s2, g2)
            if r[0] is not True:
                return r
            by = r[1]
        return True, by or 'fold', None

    def _subst(self, t, g):
        return tm.subst(t, self._unimap)

    def unify_indices(self, st, goal):
        """replaces integer atoms by what the path condition proves them equal to"""
        import z3
        self._unimap = {}
        ivs = set()
        for x in smt.atoms(goal):
            if x.op == 'rsel' and isinstance(x.args[1], T):
                for a in smt.atoms(x.args[1]):
                    if a.op == 'iv':
                        ivs.add(a)
        if not ivs or len(ivs) > 12:
            return goal
        # scalars the indices may be equal to: other integer atoms of the goal and of the path condition
        ats = set()
        for c in st.pc:
            ats |= smt.atoms(c)
        others = sorted((a for a in ats | ivs if a.op == 'iv'), key=lambda a: a.id)
        key = (frozenset(c.id for c in st.pc), frozenset(a.id for a in ivs))
        cache = self.__dict__.setdefault('_unic', {})
        mp = cache.get(key)
        if mp is None:
            mp = {}
            r, m = smt.query([c for c in st.pc if not smt.is_nl([c])], 4000, want_model=True)
            if r == 'sat':
                val = {a: m.eval(smt.tr(a), model_completion=True).as_long() for a in others}
                for a in sorted(ivs, key=lambda a: -a.id):
                    if self.holds(st, tm.ieq(a, val[a])):
                        mp[a] = val[a]
                        continue
                    for b in others:
                        if b.id >= a.id or b in mp:
                            continue
                        c = val[a] - val[b]
                        e = tm.ieq(a, tm.iadd(b, c))
                        if e is not True and self.holds(st, e):
                            mp[a] = tm.iadd(b, c)
                            break
                    else:
                        # difference of two others (span = p + 1 + k)
                        done = False
                        for i, b in enumerate(others):
                            if done or b is a or b in mp:
                                continue
                            for b2 in others[i + 1:]:
                                if b2 is a or b2 in mp:
                                    continue
                                for s1, s2 in ((1, 1), (1, -1), (-1, 1)):
                                    c = val[a] - s1 * val[b] - s2 * val[b2]
                                    rhs = tm.iadd(tm.iadd(tm.imulc(b, s1), tm.imulc(b2, s2)), c)
                                    if self.holds(st, tm.ieq(a, rhs)):
                                        mp[a] = rhs
                                        done = True
                                        break
                                if done:
                                    break
            cache[key] = mp
        self._unimap = mp
        if not mp:
            return goal
        g = goal
        for _ in range(4):
            g = tm.subst(g, mp) if isinstance(g, T) else g
        return g

    # sign rules: decomposes nonlinear inequalities into linear leaf queries
    def sign_prove(self, st, goal):
        a, b = goal.args
        strict = goal.op == 'rlt'
        memo = {}
        self._sp_budget = 400
        if a is tm.R0:
            return self.pos(st, b, memo) if strict else self.nn(st, b, memo)
        if b is tm.R0:
            n = tm.rneg(a)
            return self.pos(st, n, memo) if strict else self.nn(st, n, memo)
        return False

    def leafq(self, st, c):
        if isinstance(c, bool):
            return c
        self._sp_budget -= 1
        if self._sp_budget < 0:
            return False
        cs, _ = smt.cone(st.pc, smt.atoms(c))
        if smt.is_nl([c]):
            return False
        return smt.query(cs + [tm.bnot(c)], 800) == 'unsat'

    def known(self, st, c):
        return c is True or (not isinstance(c, bool) and c in st.ghost.get('facts', ()))

    def linear(self, t):
        return not smt.is_nl([t])

    def nn(self, st, t, memo):
        k = ('nn', t)
        if k in memo:
            return memo[k]
        memo[k] = False
        r = self._nn(st, t, memo)
        memo[k] = r
        return r

    def _nn(self, st, t, memo):
        c = tm.rle(tm.R0, t)
        if isinstance(c, bool):
            return c
        if c in st.ghost.get('facts', ()) or tm.rlt(tm.R0, t) in st.ghost.get('facts', ()):
            return True
        op = t.op
        if self.linear(t) and op != 'rite':
            return self.leafq(st, c)
        if op == 'rmul':
            a, b = t.args
            if a is b:
                return True
            if self.nn(st, a, memo) and self.nn(st, b, memo):
                return True
            return self.nn(st, tm.rneg(a), memo) and self.nn(st, tm.rneg(b), memo) if a.op != 'rc' else False
        if op == 'rdiv':
            a, b = t.args
            return self.pos(st, b, memo) and self.nn(st, a, memo)
        if op == 'radd':
            return self.nn(st, t.args[0], memo) and self.nn(st, t.args[1], memo)
        if op == 'uf' and t.args[0] == 'sqrt':
            return True
        if op == 'rite':
            return self.nn(st, t.args[1], memo) and self.nn(st, t.args[2], memo)
        return False

    def pos(self, st, t, memo):
        k = ('pos', t)
        if k in memo:
            return memo[k]
        memo[k] = False
        r = self._pos(st, t, memo)
        memo[k] = r
        return r

    def _pos(self, st, t, memo):
        c = tm.rlt(tm.R0, t)
        if isinstance(c, bool):
            return c
        if c in st.ghost.get('facts', ()):
            return True
        op = t.op
        if self.linear(t) and op != 'rite':
            return self.leafq(st, c)
        if op == 'rmul':
            a, b = t.args
            if self.pos(st, a, memo) and self.pos(st, b, memo):
                return True
            return False
        if op == 'rdiv':
            a, b = t.args
            return self.pos(st, b, memo) and self.pos(st, a, memo)
        if op == 'radd':
            a, b = t.args
            if self.pos(st, a, memo):
                return self.nn(st, b, memo)
            return self.pos(st, b, memo) and self.nn(st, a, memo)
        if op == 'rite':
            return self.pos(st, t.args[1], memo) and self.pos(st, t.args[2], memo)
        return False

    # ------------------------------------------------------------------ counterexample inputs
    def extract_inputs(self, st, model, goal):
        import z3
        if model is None:
            return None
        out = []

        def num(v):
            v = model.eval(v, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            if z3.is_algebraic_value(v):
                return float(v.approx(20).as_fraction())
            return 0.0
        try:
            for inp in st.inputs:
                if inp[0] == 'r':
                    out.append('r %.17g' % num(smt.tr(inp[1])))
                elif inp[0] == 'i':
                    out.append('i %d' % (inp[1] if isinstance(inp[1], int) else num(smt.tr(inp[1]))))
                elif inp[0] == 'rows':
                    n, m = (x if isinstance(x, int) else num(smt.tr(x)) for x in inp[2:])
                    n, m = max(0, min(int(n), 40)), max(0, min(int(m), 160))
                    for i in range(n):
                        vals = [num(smt.zarr(inp[1])(i * (ROWSTRIDE // 8) + j)) for j in range(m)]
                        out.append('a %d %s' % (m, ' '.join('%.17g' % v for v in vals)))
                elif inp[0] == 'a':
                    n = inp[2] if isinstance(inp[2], int) else num(smt.tr(inp[2]))
                    n = max(0, min(int(n), 4000))
                    vals = [num(smt.zarr(inp[1])(i)) for i in range(n)]
                    if inp[3] == 's':
                        # the array is only constrained at the instantiated cells: repair monotonicity
                        for i in range(1, n):
                            if vals[i] < vals[i - 1]:
                                vals[i] = vals[i - 1]
                    out.append('a %d %s' % (n, ' '.join('%.17g' % v for v in vals)))
        except Exception as e:     # a model that cannot be read is no counterexample
            return None
        return out

    # ------------------------------------------------------------------ memory access
    def chk(self, st, p, size, what):
        """bounds obligation; returns Mem"""
        if isinstance(p, Undef):
            self.obligation(st, False, 'memory-safety')
            raise PathEnd('undef pointer')
        if p.r == 0:
            self.obligation(st, False, 'memory-safety')
            raise PathEnd('null deref')
        m = self.region(st, p.r)
        if m.freed:
            self.obligation(st, False, 'memory-safety')
            raise PathEnd('use after free')
        off = p.off
        if m.base[0] == 'realrows':
            _, _, n, rb, _ = m.base
            i, rest = rowsplit(off)
            c = tm.band(tm.band(tm.ile(0, i), tm.ilt(i, n)), tm.band(tm.ile(0, rest), tm.ile(tm.iadd(rest, size), rb)))
            if c is not True and self.opts['boundscheck']:
                self.obligation(st, c, 'memory-safety')
                self.add_pc(st, c)
            return m
        if isinstance(off, int) and isinstance(m.size, int):
            if off < 0 or off + size > m.size:
                self.obligation(st, False, 'memory-safety')
                raise PathEnd('out of bounds')
            return m
        c = tm.band(tm.ile(0, off), tm.ile(tm.iadd(off, size), m.size))
        if c is not True and self.opts['boundscheck']:
            if not self.obligation(st, c, 'memory-safety'):
                # continue under the assumption
                pass
            self.add_pc(st, c)
        return m

    def conv(self, st, v, t, size):
        """reinterpret a stored value as type t"""
        if isinstance(v, Undef):
            return UNDEF
        if isinstance(v, ZeroV):
            return self.zero(t)
        if isinstance(v, loops.Havoc):
            raise Unsupported('read of a value the loop summary does not track')
        if isinstance(v, ByteOf) and t == ('i', 8):
            return v
        k = t[0]
        if k == 'i':
            if t[1] == 1:
                if isinstance(v, (bool,)):
                    return v
                if isinstance(v, int):
                    return bool(v & 1)
                if isinstance(v, T):
                    if v.op in ('not', 'and', 'or', 'ile0', 'ieq0', 'rlt', 'rle', 'req', 'bv', 'iff', 'buf'):
                        return v
                    return tm.bnot(tm.ieq(v, 0))
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, T) and v.op in ('not', 'and', 'or', 'ile0', 'ieq0', 'rlt', 'rle', 'req', 'bv', 'iff', 'buf'):
                return tm.iite(v, 1, 0)
            if isinstance(v, int) or (isinstance(v, T) and self.isint(v)):
                return v
            if isinstance(v, Ptr) and t[1] == 64:
                return v        # pointer-typed integer (kept symbolic)
            if isinstance(v, T) and t[1] == 64:
                if v.op == 'rc':
                    if v.args[0] == 0:
                        return 0
                return v        # bits of a double carried through an i64: kept as the real
            raise Unsupported('reinterpret %r as %s' % (v, t))
        if k in ('double', 'float'):
            if isinstance(v, T) and not self.isint(v):
                return v
            if isinstance(v, int) and not isinstance(v, bool):
                if v == 0:
                    return tm.R0
                import struct
                if k == 'double':
                    f = struct.unpack('<d', struct.pack('<q', v))[0]
                    return self.const(st, t, ('F', f))
            raise Unsupported('reinterpret %r as double' % (v,))
        if k == 'ptr':
            if isinstance(v, (Ptr, PIte)):
                return v
            if isinstance(v, int) and v == 0:
                return NULL
            if isinstance(v, int):
                return Ptr(0, v)
            raise Unsupported('reinterpret %r as ptr' % (v,))
        raise Unsupported('conv type %s' % (t,))

    def isint(self, v):
        return isinstance(v, int) or v.op in ('iv', 'lin', 'imul', 'idiv', 'imod', 'iite', 'r2i', 'isel', 'iuf')

    def load(self, st, t, p):
        rt = self.m.resolve(t)
        if rt[0] == 'st':
            out = []
            for i in range(len(rt[1])):
                o, ft = self.m.field(rt, i)
                out.append(self.load(st, ft, self.padd(p, o)))
            return tuple(out)
        if rt[0] in ('arr', 'vec'):
            s = self.m.size(rt[2])
            return tuple(self.load(st, rt[2], self.padd(p, i * s)) for i in range(rt[1]))
        if isinstance(p, PIte):
            a = self.load(st, t, p.a)
            b = self.load(st, t, p.b)
            return self.mkite(st, p.c, a, b, rt)
        size = self.m.size(rt)
        m = self.chk(st, p, size, 'load')
        return self.mread(st, m, p.off, size, rt)

    def bytewise(self, st, m, off, size, t):
        """a read put together from single bytes (little endian)"""
        bs = [self.mread(st, m, tm.iadd(off, i), 1, ('i', 8)) for i in range(size)]
        if all(isinstance(b, ByteOf) and b.i == i and b.v is bs[0].v for i, b in enumerate(bs)):
            return self.conv(st, bs[0].v, t, size)
        if t[0] == 'i' and all(isinstance(b, int) or self.isint(b) for b in bs):
            tot = 0
            for i, b in enumerate(bs):
                b = int(b) if isinstance(b, bool) else b
                if tm.irange(b)[0] < 0:
                    b = tm.imodc(b, 256)
                tot = tm.iadd(tot, tm.imulc(b, 1 << (8 * i)))
            return self.wrap(st, tot, t[1])
        raise Unsupported('partial read of bytes %r' % (bs,))

    def mkite(self, st, c, a, b, t):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, Undef) or isinstance(b, Undef):
            return a if isinstance(b, Undef) else b     # undef refines to anything
        if isinstance(a, tuple):
            rt = self.m.resolve(t)
            return tuple(self.mkite(st, c, x, y, rt[1][i] if rt[0] == 'st' else rt[2]) for i, (x, y) in enumerate(zip(a, b)))
        k = t[0]
        if k == 'i':
            if t[1] == 1:
                return tm.bite(c, a, b)
            if isinstance(a, T) and not self.isint(a):
                return tm.rite(c, a, b if isinstance(b, T) else tm.R0)
            return tm.iite(c, a, b)
        if k in ('double', 'float'):
            return tm.rite(c, a, b)
        if k == 'ptr':
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                return Ptr(a.r, tm.iite(c, a.off, b.off))
            return PIte(c, a, b)
        raise Unsupported('ite type')

    def mread(self, st, m, off, size, t):
        """typed read of region contents"""
        node = m.log
        while node is not None:
            k = node[0]
            if k == 'W':
                _, prev, woff, wsize, wval = node
                d = tm.isub(off, woff)
                if isinstance(d, int):
                    if d == 0 and wsize == size:
                        return self.conv(st, wval, t, size)
                    if d >= wsize or d + size <= 0:
                        node = prev
                        continue
                    return self.subread(st, [(woff, wsize, wval)], off, d, size, t)
                if wsize == size:
                    c = tm.ieq(d, 0)
                    r = self.decide(st, c)
                    if r is True:
                        return self.conv(st, wval, t, size)
                    if r is False:
                        # distinct aligned cells of equal size do not overlap
                        if self.aligned(d, size):
                            node = prev
                            continue
                        c2 = tm.bor(tm.ile(size, d), tm.ile(d, -size))
                        if self.holds(st, c2):
                            node = prev
                            continue
                        raise Unsupported('overlapping write')
                    m2 = m.copy()
                    m2.log = prev
                    rest = self.mread(st, m2, off, size, t)
                    return self.mkite(st, c, self.conv(st, wval, t, size), rest, t)
                c2 = tm.bor(tm.ile(wsize, d), tm.ile(d, -size))
                if self.holds(st, c2):
                    node = prev
                    continue
                raise Unsupported('write of another size at a symbolic offset')
            if k == 'M':
                node = node[1]
                continue
            if k == 'L':
                from . import loops
                m2 = m.copy()
                return loops.read_lambda(self, st, m2, node, off, size, t)
            lo, ln = node[2], node[3]
            d = tm.isub(off, lo)
            inside = tm.band(tm.ile(0, d), tm.ile(tm.iadd(d, size), ln))
            outside = tm.bor(tm.ile(tm.iadd(d, size), 0), tm.ile(ln, d))
            r = self.decide(st, inside)
            if r is None and not self.opts.get('nosplit'):
                pass
            if r is False:
                if self.holds(st, outside):
                    node = node[1]
                    continue
                if size > 1 and size <= 8:
                    return self.bytewise(st, m, off, size, t)
                raise Unsupported('read straddles a copied range')

            def inner():
                if k == 'Z':
                    return self.zero(t)
                return self.mread(st, node[4], tm.iadd(node[5], d), size, t)
            if r is True:
                return inner()
            m2 = m.copy()
            m2.log = node[1]
            return self.mkite(st, inside, inner(), self.mread(st, m2, off, size, t), t)
        if isinstance(off, int):
            c = m.cells.get(off)
            if c is not None and c[0] == size:
                return self.conv(st, c[1], t, size)
            # look for covering / partial cells
            if m.cells:
                cover = []
                for o in range(off - 63 if off >= 63 else 0, off + size):
                    c = m.cells.get(o)
                    if c is not None and o + c[0] > off:
                        cover.append((o, c[0], c[1]))
                if cover:
                    return self.subread(st, cover, off, None, size, t, m)
            return self.baseread(st, m, off, size, t)
        if m.cells:
            # symbolic offset into explicit cells
            cands = []
            for o, (s, v) in m.cells.items():
                d = tm.isub(off, o)
                c = tm.ieq(d, 0)
                if c is False:
                    continue
                if s != size:
                    if self.holds(st, tm.bor(tm.ile(s, d), tm.ile(d, -size))):
                        continue
                    raise Unsupported('cell size mismatch at symbolic offset')
                dd = self.decide(st, c)
                if dd is True:
                    return self.conv(st, v, t, size)
                if dd is False:
                    continue
                cands.append((o, v, c))
            covered = False
            if cands and m.base[0] == 'undef':
                # the offset must be one of them, or the cell is uninitialised
                covered = self.holds(st, self.big_or([c for _, _, c in cands]))
            if cands:
                cands.sort(key=lambda x: x[0])
                if covered:
                    r = self.conv(st, cands[-1][1], t, size)
                    cands = cands[:-1]
                else:
                    r = self.baseread(st, m, off, size, t)
                for o, v, c in reversed(cands):
                    r = self.mkite(st, c, self.conv(st, v, t, size), r, t)
                return r
        return self.baseread(st, m, off, size, t)

    def big_or(self, cs):
        r = False
        for c in cs:
            r = tm.bor(r, c)
        return r

    def aligned(self, d, size):
        c, items = tm.lin_parts(d)
        return c % size == 0 and all(k % size == 0 for _, k in items) or size == 8 and loops.div8(d) is not None

    def subread(self, st, cover, off, d, size, t, m=None):
        cover.sort(key=lambda x: x[0] if isinstance(x[0], int) else 0)
        if all(isinstance(v, ZeroV) for _, _, v in cover) and m is None:
            return self.zero(t)
        if len(cover) == 1:
            o, s, v = cover[0]
            rel = tm.isub(off, o)
            if isinstance(rel, int) and rel >= 0 and rel + size <= s:
                if isinstance(v, ZeroV):
                    return self.zero(t)
                if isinstance(v, Undef):
                    return UNDEF
                if t[0] == 'i' and (isinstance(v, int) or (isinstance(v, T) and self.isint(v))):
                    x = tm.idivc(v if not isinstance(v, bool) else int(v), 1 << (8 * rel)) if rel else v
                    return self.wrap(st, x, t[1])
                if t[0] == 'i' and t[1] == 8 and isinstance(v, T):
                    return ByteOf(v, rel)
        if t[0] == 'i' and m is not None:
            # assemble from smaller integer cells (little endian)
            tot = 0
            pos = off
            ok = True
            cd = {o: (s, v) for o, s, v in cover}
            while pos < off + size:
                if pos in cd and pos + cd[pos][0] <= off + size:
                    s, v = cd[pos]
                    if isinstance(v, ZeroV):
                        v = 0
                    if isinstance(v, bool):
                        v = int(v)
                    if isinstance(v, Undef):
                        return UNDEF
                    if isinstance(v, ByteOf) or not (isinstance(v, int) or self.isint(v)):
                        ok = False
                        break
                    lo, hi = tm.irange(v)
                    if lo < 0:
                        v = tm.imodc(v, 1 << (8 * s))
                    tot = tm.iadd(tot, tm.imulc(v, 1 << (8 * (pos - off))))
                    pos += s
                else:
                    ok = False
                    break
            if ok:
                return self.wrap(st, tot, t[1])
        # eight bytes of one double
        if size in (8, 4) and m is not None:
            bs = [m.cells.get(off + i) for i in range(size)]
            if all(b is not None and b[0] == 1 and isinstance(b[1], ByteOf) and b[1].i == i and b[1].v is bs[0][1].v for i, b in enumerate(bs)):
                return self.conv(st, bs[0][1].v, t, size)
        raise Unsupported('partial read of a cell (%s at %s size %d)' % (cover, off, size))

    def baseread(self, st, m, off, size, t):
        b = m.base
        if b[0] == 'zero':
            return self.zero(t)
        if b[0] == 'undef':
            return UNDEF
        if b[0] == 'real':
            if t[0] in ('double',) or (t == ('i', 64)):
                return tm.rsel(b[1], self.divoff(st, off, 8))
            raise Unsupported('read of %s from a real array' % (t,))
        if b[0] == 'realrows':
            if t[0] in ('double',) or (t == ('i', 64)):
                return tm.rsel(b[1], self.divoff(st, off, 8))
            raise Unsupported('read of %s from a real array' % (t,))
        if b[0] == 'rows':          # headers of the rows of a container of containers
            _, reg, n, rb, _ = b
            c, items = tm.lin_parts(off)
            r = c % 24
            if any(q % 24 for _, q in items) or r not in (0, 8, 16) or t != ('ptr',):
                raise Unsupported('read of %s from row headers at %s' % (t, off))
            i = tm.idivc(tm.isub(off, r), 24)
            return Ptr(reg, tm.iadd(tm.imulc(i, ROWSTRIDE), 0 if r == 0 else rb))
        if b[0] == 'int':
            if t[0] == 'i' and size == b[2]:
                return tm.isel(b[1], self.divoff(st, off, b[2]), b[3], b[4])
            raise Unsupported('read of %s from an int array' % (t,))
        raise Unsupported('base')

    def divoff(self, st, off, k):
        c, items = tm.lin_parts(off)
        if c % k == 0 and all(q % k == 0 for _, q in items):
            return tm.idivc(off, k)
        # ite atoms whose arms are divisible etc.
        return tm.idivc(off, k)

    def store(self, st, t, v, p):
        rt = self.m.resolve(t)
        if rt[0] == 'st':
            for i in range(len(rt[1])):
                o, ft = self.m.field(rt, i)
                self.store(st, ft, v[i], self.padd(p, o))
            return
        if rt[0] in ('arr', 'vec'):
            s = self.m.size(rt[2])
            for i in range(rt[1]):
                self.store(st, rt[2], v[i], self.padd(p, i * s))
            return
        if isinstance(p, PIte):
            r = self.decide(st, p.c)
            if r is None:
                raise Fork(p.c)
            return self.store(st, t, v, p.a if r else p.b)
        size = self.m.size(rt)
        self.chk(st, p, size, 'store')
        m = self.wmem(st, p.r)
        self.mwrite(m, p.off, size, v)

    def mwrite(self, m, off, size, v):
        if m.log is None and isinstance(off, int):
            cells = m.cells
            c = cells.get(off)
            if c is not None and c[0] == size:
                cells[off] = (size, v)
                return
            self.clear_range(m, off, size)
            cells[off] = (size, v)
        else:
            m.log = ('W', m.log, off, size, v)

    def clear_range(self, m, off, size):
        cells = m.cells
        if not cells:
            return
        if size > 2 * len(cells) + 64:
            rng = [o for o in cells if off - 63 <= o < off + size]
        else:
            rng = range(off - 63, off + size)
        for o in list(rng):
            c = cells.get(o)
            if c is None or o + c[0] <= off:
                continue
            s, v = c
            del cells[o]
            if o < off or o + s > off + size:
                # split the remainder into bytes when the value allows it
                for b in range(o, o + s):
                    if off <= b < off + size:
                        continue
                    if isinstance(v, ZeroV):
                        cells[b] = (1, ZERO)
                    elif isinstance(v, Undef):
                        cells[b] = (1, UNDEF)
                    elif isinstance(v, int) and not isinstance(v, bool):
                        x = (v >> (8 * (b - o))) & 255
                        cells[b] = (1, x if x < 128 else x - 256)
                    elif isinstance(v, T) and not self.isint(v):
                        cells[b] = (1, ByteOf(v, b - o))
                    else:
                        raise Unsupported('partial overwrite of a cell')

    def padd(self, p, k):
        if isinstance(p, PIte):
            return PIte(p.c, self.padd(p.a, k), self.padd(p.b, k))
        if isinstance(p, Undef):
            return p
        return Ptr(p.r, tm.iadd(p.off, k))

    def memcpy(self, st, dst, src, n):
        if isinstance(n, int) and n == 0:
            return
        if isinstance(n, T):
            lo, hi = tm.irange(n)
            if not lo > 0:
                if self.holds(st, tm.ile(n, 0)):
                    return
            v = self.const_value(st, n)
            if v is not None:
                n = v
        if isinstance(dst, PIte) or isinstance(src, PIte):
            p = dst if isinstance(dst, PIte) else src
            r = self.decide(st, p.c)
            if r is None:
                raise Fork(p.c)
            pick = p.a if r else p.b
            return self.memcpy(st, pick if p is dst else dst, pick if p is src else src, n)
        if isinstance(n, int):
            ms = self.chk(st, src, n, 'memcpy')
            self.chk(st, dst, n, 'memcpy')
            if n <= 8192:
                cells = self.raw_cells(st, ms, src.off, n)
                if cells is not None:
                    md = self.wmem(st, dst.r)
                    for rel, s, v in cells:
                        self.mwrite(md, tm.iadd(dst.off, rel), s, v)
                    return
            if n <= 64 and n % 8 == 0 and any(f.cut for f in st.frames):
                # elements copied inside a summarised loop: number by number
                try:
                    vs = [self.mread(st, ms, tm.iadd(src.off, i), 8, ir.DBL) for i in range(0, n, 8)]
                except Unsupported:
                    vs = None
                if vs is not None and all(isinstance(v, T) and not self.isint(v) for v in vs):
                    md = self.wmem(st, dst.r)
                    for i, v in enumerate(vs):
                        self.mwrite(md, tm.iadd(dst.off, 8 * i), 8, v)
                    return
        else:
            # a symbolic length: in bounds whenever it is positive
            pos = tm.ile(1, n)
            r = self.decide(st, pos)
            if r is None:
                raise Fork(pos)
            if r is False:
                return
            ms = self.chk2(st, src, n)
            self.chk2(st, dst, n)
        md = self.wmem(st, dst.r)
        snap = ms.copy()
        md.log = ('C', md.log, dst.off, n, snap, src.off)

    def const_value(self, st, n):
        """concrete value of an int term when the path condition fixes it"""
        if isinstance(n, int):
            return n
        return None

    def chk2(self, st, p, n):
        if p.r == 0:
            self.obligation(st, False, 'memory-safety')
            raise PathEnd('null')
        m = self.region(st, p.r)
        c = tm.band(tm.ile(0, p.off), tm.ile(tm.iadd(p.off, n), m.size))
        if c is not True and self.opts['boundscheck']:
            self.obligation(st, c, 'memory-safety')
            self.add_pc(st, c)
        return m

    def raw_cells(self, st, m, off, n):
        """[(rel, size, value)] covering [off, off+n), or None when it cannot be enumerated"""
        if m.log is None and isinstance(off, int) and (m.base[0] in ('undef', 'zero')):
            out = []
            pos = off
            end = off + n
            cells = m.cells
            if len(cells) < n // 4:
                ks = sorted(o for o in cells if off - 63 <= o < end)
            else:
                ks = [o for o in range(off - 63, end) if o in cells]
            for o in ks:
                s, v = cells[o]
                if o + s <= off:
                    continue
                if o < off or o + s > end:
                    return None
                if o > pos:
                    out.extend(self.gap(m, pos - off, o - pos))
                out.append((o - off, s, v))
                pos = o + s
            if pos < end:
                out.extend(self.gap(m, pos - off, end - pos))
            return out
        # typed by element: arrays of doubles
        if n % 8 == 0 and n <= 2048 and self.aligned(off, 8):
            e = m.elem or (8 if m.base[0] == 'real' else None)
            if m.base[0] == 'real' or m.elem == 8:
                return [(i, 8, self.mread(st, m, tm.iadd(off, i), 8, ir.DBL)) for i in range(0, n, 8)]
        if m.base[0] == 'int' and n % m.base[2] == 0 and n <= 1024:
            e = m.base[2]
            return [(i, e, self.mread(st, m, tm.iadd(off, i), e, ('i', 8 * e))) for i in range(0, n, e)]
        return None

    def gap(self, m, rel, ln):
        v = ZERO if m.base[0] == 'zero' else UNDEF
        if v is UNDEF and ln > 64:
            out = []
            while ln > 0:
                s = min(8, ln)
                out.append((rel, s, v))
                rel += s
                ln -= s
            return out
        out = []
        while ln > 0:
            s = 8 if ln >= 8 else 1
            out.append((rel, s, v))
            rel += s
            ln -= s
        return out

    def memset(self, st, dst, byte, n):
        if isinstance(n, int) and n == 0:
            return
        if isinstance(n, T) and self.holds(st, tm.ile(n, 0)):
            return
        if isinstance(dst, PIte):
            r = self.decide(st, dst.c)
            if r is None:
                raise Fork(dst.c)
            return self.memset(st, dst.a if r else dst.b, byte, n)
        if isinstance(n, int):
            m = self.chk(st, dst, n, 'memset')
        else:
            pos = tm.ile(1, n)
            r = self.decide(st, pos)
            if r is None:
                raise Fork(pos)
            m = self.chk2(st, dst, n)
        m = self.wmem(st, dst.r)
        if isinstance(byte, int) and byte == 0:
            if isinstance(n, int) and isinstance(dst.off, int) and m.log is None:
                self.clear_range(m, dst.off, n)
                if dst.off == 0 and n == m.size and not m.cells:
                    m.base = ('zero',)
                    return
                pos = dst.off
                left = n
                while left > 0:
                    s = 8 if left >= 8 and pos % 8 == 0 else 1
                    m.cells[pos] = (s, ZERO)
                    pos += s
                    left -= s
            else:
                m.log = ('Z', m.log, dst.off, n)
            return
        if isinstance(n, int) and isinstance(dst.off, int) and isinstance(byte, int) and n <= 4096 and m.log is None:
            self.clear_range(m, dst.off, n)
            b = byte if byte < 128 else byte - 256
            for i in range(n):
                m.cells[dst.off + i] = (1, b)
            return
        if isinstance(byte, Undef):
            return
        raise Unsupported('memset')

    # ------------------------------------------------------------------ arithmetic
    def wrap(self, st, v, n):
        if isinstance(v, bool):
            v = int(v)
        h = 1 << (n - 1)
        if isinstance(v, int):
            v &= (1 << n) - 1
            return v - (1 << n) if v >= h else v
        lo, hi = tm.irange(v)
        if lo >= -h and hi < h:
            return v
        if st is not None and self.holds(st, tm.band(tm.ile(-h, v), tm.ilt(v, h))):
            # remember the bound on the node itself is not sound across paths; keep the term only
            return v
        return tm.isub(tm.imodc(tm.iadd(v, h), 1 << n), h)

    def unsigned(self, st, v, n):
        """value in [0, 2^n)"""
        if isinstance(v, int):
            return v & ((1 << n) - 1)
        lo, hi = tm.irange(v)
        if lo >= 0:
            return v
        if self.holds(st, tm.ile(0, v)):
            return v
        return tm.iite(tm.ilt(v, 0), tm.iadd(v, 1 << n), v)

    @staticmethod
    def is01(a):
        lo, hi = (a, a) if isinstance(a, int) else tm.irange(a)
        return lo is not None and hi is not None and lo >= 0 and hi <= 1

    def binop(self, st, op, t, a, b, fl):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if t == I1:
            if op == 'and' or op == 'mul':
                return tm.band(a, b)
            if op == 'or':
                return tm.bor(a, b)
            if op in ('xor', 'add', 'sub'):
                return tm.bnot(tm.biff(a, b))
            raise Unsupported('i1 ' + op)
        if t[0] == 'vec':
            return tuple(self.binop(st, op, t[2], x, y, fl) for x, y in zip(a, b))
        n = t[1]
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if isinstance(a, PIte) or isinstance(b, PIte):
                p = a if isinstance(a, PIte) else b
                r = self.decide(st, p.c)
                if r is None:
                    raise Fork(p.c)
                pick = p.a if r else p.b
                return self.binop(st, op, t, pick if a is p else a, pick if b is p else b, fl)
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r == b.r:
                    return tm.isub(a.off, b.off)
                raise Unsupported('difference of pointers to different objects')
            if op == 'add':
                if isinstance(a, Ptr) and not isinstance(b, Ptr):
                    return Ptr(a.r, tm.iadd(a.off, b))
                if isinstance(b, Ptr) and not isinstance(a, Ptr):
                    return Ptr(b.r, tm.iadd(b.off, a))
            if op == 'sub' and isinstance(a, Ptr):
                return Ptr(a.r, tm.isub(a.off, b))
            if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and b in (7, 15, 3, 1, 31):
                return tm.imodc(a.off, b + 1) if not isinstance(a.r, tuple) else 0
            if op in ('xor',) and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                return 0 if a.off == b.off else 1
            raise Unsupported('pointer arithmetic ' + op)
        if isinstance(a, ByteOf) or isinstance(b, ByteOf) or (isinstance(a, T) and not self.isint(a)) or (isinstance(b, T) and not self.isint(b)):
            if isinstance(a, T) and isinstance(b, int):
                if op == 'and' and b == 0x7fffffffffffffff:
                    return tm.rite(tm.rlt(a, tm.R0), tm.rneg(a), a)
                if op == 'xor' and b == -0x8000000000000000:
                    return tm.rneg(a)
            raise Unsupported('bit arithmetic on a double')
        if op == 'add':
            r = tm.iadd(a, b)
            return r if 'nsw' in fl and not isinstance(r, int) else self.wrap(st, r, n)
        if op == 'sub':
            r = tm.isub(a, b)
            return r if 'nsw' in fl and not isinstance(r, int) else self.wrap(st, r, n)
        if op == 'mul':
            r = tm.imul(a, b)
            return r if 'nsw' in fl and not isinstance(r, int) else self.wrap(st, r, n)
        if op == 'shl':
            if isinstance(b, int):
                r = tm.imulc(a, 1 << b)
                return r if 'nsw' in fl and not isinstance(r, int) else self.wrap(st, r, n)
            if isinstance(a, int):
                # 2^b for symbolic b: enumerate
                raise ForkVal(b)
        if op in ('ashr', 'lshr'):
            if isinstance(b, int):
                if op == 'lshr':
                    a = self.unsigned(st, a, n)
                r = tm.idivc(a, 1 << b)
                return self.wrap(st, r, n) if op == 'lshr' else r
            raise ForkVal(b)
        if op in ('udiv', 'urem'):
            a = self.unsigned(st, a, n)
            b = self.unsigned(st, b, n)
            if isinstance(b, int):
                if b == 0:
                    self.obligation(st, False, 'no-division-by-zero')
                    raise PathEnd('div0')
                r = tm.idivc(a, b) if op == 'udiv' else tm.imodc(a, b)
                return self.wrap(st, r, n)
            return self.symdiv(st, op == 'urem', a, b)
        if op in ('sdiv', 'srem'):
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    self.obligation(st, False, 'no-division-by-zero')
                    raise PathEnd('div0')
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return q if op == 'sdiv' else a - q * b
            if isinstance(b, int):
                if b == 0:
                    self.obligation(st, False, 'no-division-by-zero')
                    raise PathEnd('div0')
                k = abs(b)
                c, items = tm.lin_parts(a)
                if c % k == 0 and all(q % k == 0 for _, q in items):
                    q = tm.idivc(a, k)
                elif self.holds(st, tm.ile(0, a)):
                    q = tm.idivc(a, k)
                else:
                    q = tm.iite(tm.ile(0, a), tm.idivc(a, k), tm.imulc(tm.idivc(tm.imulc(a, -1), k), -1))
                if b < 0:
                    q = tm.imulc(q, -1)
                return q if op == 'sdiv' else tm.isub(a, tm.imulc(q, b))
            if self.holds(st, tm.band(tm.ile(0, a), tm.ile(1, b))):
                return self.symdiv(st, op == 'srem', a, b)
            raise ForkVal(b)
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if isinstance(a, int):
                    return a & b
                if b >= 0 and (b & (b + 1)) == 0:
                    return tm.imodc(a, b + 1)
                if b < 0 and ((-b) & (-b - 1)) == 0:
                    return tm.isub(a, tm.imodc(a, -b))
                lo, hi = tm.irange(a)
                if b > 0 and b == (1 << (b.bit_length() - 1)):
                    # single bit
                    k = b.bit_length() - 1
                    return tm.imulc(tm.imodc(tm.idivc(a, b), 2), b)
            if self.is01(a) and self.is01(b):
                return tm.iite(tm.ile(1, a), b, 0)
            raise Unsupported('and')
        if op == 'or':
            if isinstance(a, int) and isinstance(b, int):
                return a | b
            if 'disjoint' in fl:
                return self.wrap(st, tm.iadd(a, b), n)
            if isinstance(a, int) and a == 0:
                return b
            if isinstance(b, int) and b == 0:
                return a
            if self.is01(a) and self.is01(b):
                return tm.iite(tm.ile(1, a), 1, b)
            raise Unsupported('or')
        if op == 'xor':
            if isinstance(a, int) and isinstance(b, int):
                return a ^ b
            if isinstance(b, int) and b == -1:
                return tm.isub(-1, a)
            if isinstance(b, int) and b == 1:
                return tm.iadd(a, tm.isub(1, tm.imulc(tm.imodc(a, 2), 2)))
            raise Unsupported('xor')
        raise Unsupported(op)

    def symdiv(self, st, rem, a, b):
        if not self.holds(st, tm.ile(1, b)):
            if not self.obligation(st, tm.bnot(tm.ieq(b, 0)), 'no-division-by-zero'):
                raise PathEnd('div0')
        if self.holds(st, tm.ilt(a, b)):
            return a if rem else 0
        if self.holds(st, tm.band(tm.ile(b, a), tm.ilt(a, tm.imulc(b, 2)))):
            return tm.isub(a, b) if rem else 1
        raise ForkVal(b)

    def fbin(self, st, op, t, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if t[0] == 'vec':
            return tuple(self.fbin(st, op, t[2], x, y) for x, y in zip(a, b))
        if op == 'fadd':
            r = tm.radd(a, b)
        elif op == 'fsub':
            r = tm.rsub(a, b)
        elif op == 'fmul':
            r = tm.rmul(a, b)
        elif op == 'fdiv':
            if self.opts['divcheck'] and b.op != 'rc':
                g = tm.bnot(tm.req(b, tm.R0))
                if g is not True:
                    self.nonzero(st, b, g)
            elif b is tm.R0:
                if self.opts['divcheck']:
                    self.obligation(st, False, 'no-division-by-zero')
                return tm.ruf('div0', a)
            r = tm.rdiv(a, b)
        else:
            r = tm.ruf('fmod', a, b)
        if t[0] == 'float':
            r = self.f32(r)
        return r

    def nonzero(self, st, b, g):
        """denominator obligation: positive or negative by sign rules, else solver"""
        key = ('nz', b)
        fs = st.ghost.get('facts', ())
        if g in fs:
            return
        memo = {}
        self._sp_budget = 200
        if not self.quiet:
            if self.pos(st, b, memo) or self.pos(st, tm.rneg(b), memo):
                o = self.obls.setdefault('no-division-by-zero', {'n': 0, 'proved': 0, 'failed': 0, 'unknown': 0, 'by': {}, 'time': 0.0, 'where': self.where(st)})
                o['n'] += 1
                o['proved'] += 1
                o['by']['sign-rules+z3'] = o['by'].get('sign-rules+z3', 0) + 1
            else:
                self.obligation(st, g, 'no-division-by-zero')
        st.ghost['facts'] = frozenset(fs) | {g}

    def f32(self, r):
        if r.op == 'rc':
            import struct
            x = Fraction(struct.unpack('<f', struct.pack('<f', float(r.args[0])))[0])
            return tm.rc(x)
        if r.op == 'uf' and r.args[0] == 'f32':
            return r
        return tm.ruf('f32', r)

    def icmp(self, st, c, t, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if t == I1:
            e = tm.biff(a, b)
            if c == 'eq':
                return e
            if c == 'ne':
                return tm.bnot(e)
            if c == 'ult':
                return tm.band(tm.bnot(a), b)
            if c == 'ugt':
                return tm.band(a, tm.bnot(b))
            raise Unsupported('i1 cmp')
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            return self.pcmp(st, c, a, b)
        if isinstance(a, ByteOf) or isinstance(b, ByteOf) or (isinstance(a, T) and not self.isint(a)) or (isinstance(b, T) and not self.isint(b)):
            if c in ('eq', 'ne') and isinstance(a, T) and isinstance(b, T):
                e = tm.req(a, b)
                return e if c == 'eq' else tm.bnot(e)
            if isinstance(a, T) and b == 0 and c in ('slt', 'sgt'):
                return tm.rlt(a, tm.R0) if c == 'slt' else tm.rlt(tm.R0, a)
            if isinstance(a, T) and b == -1 and c == 'sgt':
                return tm.rle(tm.R0, a)
            raise Unsupported('int compare of real bits')
        if c == 'eq':
            return tm.ieq(a, b)
        if c == 'ne':
            return tm.bnot(tm.ieq(a, b))
        if c[0] == 'u':
            n = t[1]
            la, ha = tm.irange(a)
            lb, hb = tm.irange(b)
            if la < 0 and not isinstance(a, int) and self.holds(st, tm.ile(0, a)):
                la = 0
            if lb < 0 and not isinstance(b, int) and self.holds(st, tm.ile(0, b)):
                lb = 0
            if la < 0 or lb < 0:
                ua = a & ((1 << n) - 1) if isinstance(a, int) else (a if la >= 0 else tm.iite(tm.ilt(a, 0), tm.iadd(a, 1 << n), a))
                ub = b & ((1 << n) - 1) if isinstance(b, int) else (b if lb >= 0 else tm.iite(tm.ilt(b, 0), tm.iadd(b, 1 << n), b))
                a, b = ua, ub
        k = c[1:]
        if k == 'lt':
            return tm.ilt(a, b)
        if k == 'le':
            return tm.ile(a, b)
        if k == 'gt':
            return tm.ilt(b, a)
        if k == 'ge':
            return tm.ile(b, a)
        raise Unsupported('icmp ' + c)

    def pcmp(self, st, c, a, b):
        if isinstance(a, PIte):
            return tm.bite(a.c, self.pcmp(st, c, a.a, b), self.pcmp(st, c, a.b, b))
        if isinstance(b, PIte):
            return tm.bite(b.c, self.pcmp(st, c, a, b.a), self.pcmp(st, c, a, b.b))
        if isinstance(a, int):
            a = Ptr(0, a)
        if isinstance(b, int):
            b = Ptr(0, b)
        if a.r == b.r:
            k = c if c in ('eq', 'ne') else c[1:]
            f = {'eq': tm.ieq, 'ne': lambda x, y: tm.bnot(tm.ieq(x, y)), 'lt': tm.ilt, 'le': tm.ile,
                 'gt': lambda x, y: tm.ilt(y, x), 'ge': lambda x, y: tm.ile(y, x)}[k]
            return f(a.off, b.off)
        if c == 'eq':
            return False
        if c == 'ne':
            return True
        # addresses of different objects: ordered by region number (any fixed order is as good)
        ka, kb = str(a.r), str(b.r)
        if isinstance(a.r, int) and isinstance(b.r, int):
            ka, kb = a.r, b.r
        r = ka < kb
        return r if c[1:] in ('lt', 'le') else not r

    def fcmp(self, st, c, t, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if c == 'uno':
            return False
        if c == 'ord':
            return True
        if c == 'true':
            return True
        if c == 'false':
            return False
        k = c[1:]
        if k == 'eq':
            return tm.req(a, b)
        if k == 'ne':
            return tm.bnot(tm.req(a, b))
        if k == 'lt':
            return tm.rlt(a, b)
        if k == 'le':
            return tm.rle(a, b)
        if k == 'gt':
            return tm.rlt(b, a)
        if k == 'ge':
            return tm.rle(b, a)
        raise Unsupported('fcmp ' + c)

    def cast(self, st, op, ft, v, tt):
        if isinstance(v, Undef):
            return UNDEF
        if ft[0] == 'vec' and tt[0] == 'vec' and op != 'bitcast':
            return tuple(self.cast(st, op, ft[2], x, tt[2]) for x in v)
        if op == 'bitcast':
            if ft == tt:
                return v
            if ft[0] == 'vec' or tt[0] == 'vec':
                raise Unsupported('vector bitcast')
            return self.conv(st, v, tt, self.m.size(tt))
        if op == 'ptrtoint' or op == 'inttoptr':
            return v if not (op == 'inttoptr' and isinstance(v, int)) else Ptr(0, v)
        if op == 'zext':
            if ft == I1:
                return tm.iite(v, 1, 0)
            if isinstance(v, (T, int)) and (isinstance(v, int) or self.isint(v)):
                return self.unsigned(st, v, ft[1])
            return v
        if op == 'sext':
            if ft == I1:
                return tm.iite(v, -1, 0)
            return v
        if op == 'trunc':
            if isinstance(v, (Ptr, PIte)):
                raise Unsupported('trunc of pointer')
            if tt == I1:
                return tm.bnot(tm.ieq(tm.imodc(v, 2), 0))
            return self.wrap(st, v, tt[1])
        if op == 'sitofp':
            if ft == I1:
                return tm.rite(v, tm.RM1, tm.R0)
            return tm.i2r(v)
        if op == 'uitofp':
            if ft == I1:
                return tm.rite(v, tm.R1, tm.R0)
            return tm.i2r(self.unsigned(st, v, ft[1]))
        if op == 'fptosi' or op == 'fptoui':
            return tm.r2i(v)
        if op == 'fpext':
            return v
        if op == 'fptrunc':
            return self.f32(v)
        raise Unsupported('cast ' + op)

    def gep(self, st, bt, base, idx):
        if isinstance(base, Undef):
            return UNDEF
        off = 0
        t = bt
        first = True
        for it, iv in idx:
            if isinstance(iv, Undef):
                return UNDEF
            if first:
                off = tm.iadd(off, tm.imulc(iv, self.m.size(t)))
                first = False
                continue
            rt = self.m.resolve(t)
            if rt[0] == 'st':
                o, t = self.m.field(rt, iv)
                off = tm.iadd(off, o)
            else:
                t = rt[2]
                off = tm.iadd(off, tm.imulc(iv, self.m.size(t)))
        if isinstance(base, (int,)) and not isinstance(base, bool):
            return tm.iadd(base, off)
        return self.padd(base, off)

    # ------------------------------------------------------------------ control
    def enter(self, st, name, args, res=None, inv=None):
        fn = self.m.func(name)
        if fn is None:
            raise Unsupported('no body for ' + self.dname(name))
        if len(st.frames) > self.opts.get('max_depth', 120):
            raise Unsupported('call depth')
        fr = Frame()
        fr.fn = fn
        fr.blk = fn.order[0]
        fr.ip = 0
        fr.regs = {}
        fr.prev = None
        fr.ret = res
        fr.inv = inv
        fr.cnt = {}
        fr.allocas = []
        fr.name = name
        fr.cut = {}
        fr.call_id = None
        fr.exc = None
        fr.und = {}
        for (t, n), a in zip(fn.params, args):
            fr.regs[n] = a
        st.frames.append(fr)
        self.funcs_seen[name] = self.funcs_seen.get(name, 0) + 1

    def leave(self, st, val):
        fr = st.frames.pop()
        if fr.cut and any(c.mode == 'dry' for c in fr.cut.values()):
            raise PathEnd('loop exit')
        for r in fr.allocas:
            if r in st.mem:
                del st.mem[r]
                st.own.discard(r)
        if not st.frames:
            st.retval = val
            raise PathEnd('ret')
        up = st.frames[-1]
        if fr.ret is not None:
            up.regs[fr.ret] = val
        if fr.inv is not None:
            self.goto(st, up, fr.inv[0])

    def goto(self, st, fr, lab):
        fn = fr.fn
        body = fn.bodies.get(lab)
        src = fr.blk
        fr.prev = src
        if fr.cut:
            for l in list(fr.cut):
                if lab not in fn.bodies[l]:
                    if fr.cut[l].mode == 'dry':
                        raise PathEnd('loop exit')
                    fr.cut = {x: y for x, y in fr.cut.items() if x != l}
        if body is not None:
            if src in body:
                c = fr.cnt.get(lab, 0) + 1
                fr.cnt[lab] = c
                if lab in fr.cut:
                    fr.blk = lab
                    fr.ip = 0
                    raise BackEdge(lab, fr)
                if c > self.opts['unroll']:
                    raise Unsupported('loop bound exceeded in ' + self.dname(fn.name))
            else:
                fr.cnt[lab] = 0
                # inner loops counted afresh
                fr.und.pop(lab, None)
                if (fn.name, lab) in self.cutset:
                    fr.blk = lab
                    fr.ip = 0
                    raise LoopEntry(lab)
        fr.blk = lab
        fr.ip = 0
        self.phis(st, fr)

    def phis(self, st, fr):
        blk = fr.fn.blocks[fr.blk]
        i = 0
        vals = []
        while blk[i][0] == 'phi':
            ins = blk[i]
            vals.append((ins[1], self.val(st, fr, ins[2], ins[3][fr.prev])))
            i += 1
        for n, v in vals:
            fr.regs[n] = v
        fr.ip = i

    # ------------------------------------------------------------------ main loop
    def run(self, entry, args=()):
        while True:
            try:
                return self.run1(entry, args)
            except NeedCut as nc:
                self.cutset.add(nc.key)
                self.obls = {}
                self.fail_states = []
                self.paths = 0
                self.reached = set()
                self.quiet = 0

    def run1(self, entry, args=()):
        st = State()
        st.frames, st.mem, st.own, st.pc, st.inputs, st.ghost = [], {}, set(), [], [], {}
        st.retval, st.nid, st.eqs, st.steps, st.ctx, st.track, st.trail = None, 1, [], 0, None, None, []
        self.enter(st, entry, list(args))
        return self.explore([st])

    def explore(self, work):
        """runs every state to its end; returns list of ended (state, reason)"""
        ends = []
        while work:
            st = work.pop()
            try:
                self.exec_state(st, work)
            except PathEnd as e:
                ends.append((st, str(e)))
                self.paths += 1
                if self.paths > self.opts['max_paths']:
                    raise Unsupported('too many paths')
        return ends

    def branch(self, st, cond, work):
        """fork on a symbolic condition; st continues with the returned truth value"""
        to = self.opts['feas_timeout']
        ats = smt.atoms(cond)
        cs, _ = smt.cone(st.pc, ats)
        nc = tm.bnot(cond)
        if smt.is_nl(cs + [cond]):
            to = self.opts['feas_nl']
        t = smt.query(cs + [cond], to) != 'unsat'
        f = smt.query(cs + [nc], to) != 'unsat' if t else True
        return t, f

    def exec_state(self, st, work):
        from . import loops
        opts = self.opts
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.ip]
            self.total_steps += 1
            if self.total_steps & 1023 == 0:
                if self.total_steps > opts['max_steps']:
                    raise Unsupported('step limit')
                if time.time() - self.start > opts['time_limit']:
                    raise Unsupported('time limit')
            try:
                self.step(st, fr, ins)
            except Fork as fk:
                t, f = self.branch(st, fk.c, work)
                if not t and not f:
                    raise PathEnd('infeasible')
                if t and f:
                    o = st.clone()
                    try:
                        self.add_pc(o, tm.bnot(fk.c))
                        work.append(o)
                    except PathEnd:
                        pass
                    self.add_pc(st, fk.c)
                elif t:
                    self.add_pc(st, fk.c)
                else:
                    self.add_pc(st, tm.bnot(fk.c))
            except ForkVal as fk:
                self.forkval(st, fk.t, work)
            except Enum as en:
                # explicit case split requested by the harness
                for v in range(en.lo + 1, en.hi + 1):
                    o = st.clone()
                    of = o.frames[-1]
                    self.ret_call(o, of, ins, v)
                    if en.name:
                        o.inputs.append(('i', v))
                        o.trail.append('%s=%d' % (en.name, v))
                    work.append(o)
                if en.name:
                    st.inputs.append(('i', en.lo))
                    st.trail.append('%s=%d' % (en.name, en.lo))
                self.ret_call(st, fr, ins, en.lo)
            except Branch as br:
                cond = br.c
                t, f = self.branch(st, cond, work)
                if t and f:
                    self.nfork += 1
                    if self.opts['autocut']:
                        self.exit_undecided(fr, br)
                    o = st.clone()
                    try:
                        self.add_pc(o, tm.bnot(cond))
                        try:
                            self.goto(o, o.frames[-1], br.b)
                            work.append(o)
                        except LoopEntry as le:
                            loops.cut(self, o, le.lab, work)
                        except BackEdge as be:
                            self.backedge(o, be)
                    except PathEnd:
                        pass
                    self.add_pc(st, cond)
                    self.jump(st, fr, br.a, work)
                elif t:
                    self.add_pc(st, cond)
                    self.jump(st, fr, br.a, work)
                elif f:
                    self.add_pc(st, tm.bnot(cond))
                    self.jump(st, fr, br.b, work)
                else:
                    raise PathEnd('infeasible')
            except LoopEntry as le:
                loops.cut(self, st, le.lab, work)
                raise PathEnd('cut')
            except BackEdge as be:
                self.backedge(st, be)
                raise PathEnd('backedge')

    def exit_undecided(self, fr, br):
        for l, body in fr.fn.bodies.items():
            if fr.blk in body and l not in fr.cut and (br.a not in body) != (br.b not in body):
                n = fr.und.get(l, 0) + 1
                fr.und[l] = n
                if n > self.opts['autocut']:
                    raise NeedCut((fr.fn.name, l))

    def jump(self, st, fr, lab, work):
        from . import loops
        try:
            self.goto(st, fr, lab)
        except LoopEntry as le:
            loops.cut(self, st, le.lab, work)
            raise PathEnd('cut')
        except BackEdge as be:
            self.backedge(st, be)
            raise PathEnd('backedge')

    def backedge(self, st, be):
        c = st.frames[-1].cut[be.lab]
        if c.mode == 'dry':
            c.cb(st)

    def forkval(self, st, t, work):
        lo, hi = tm.irange(t)
        if hi - lo > 64:
            # try to narrow with the solver
            vals = []
            cs, _ = smt.cone(st.pc, smt.atoms(t))
            extra = []
            for _ in range(40):
                r, m = smt.query(cs + extra, 2000, want_model=True)
                if r == 'unsat':
                    break
                if r != 'sat':
                    raise Unsupported('value enumeration')
                v = m.eval(smt.tr(t), model_completion=True).as_long()
                vals.append(v)
                extra.append(tm.bnot(tm.ieq(t, v)))
            else:
                raise Unsupported('too many values for a symbolic integer that has to be concrete')
        else:
            vals = [v for v in range(int(lo), int(hi) + 1)]
        first = True
        alive = []
        for v in vals:
            c = tm.ieq(t, v)
            if c is False:
                continue
            cs, _ = smt.cone(st.pc, smt.atoms(c) if not isinstance(c, bool) else ())
            if c is True or smt.query(cs + [c], 2000) != 'unsat':
                alive.append(v)
        if not alive:
            raise PathEnd('infeasible')
        for v in alive[1:]:
            o = st.clone()
            self.substitute_value(o, t, v)
            work.append(o)
        self.substitute_value(st, t, alive[0])

    def substitute_value(self, st, t, v):
        self.add_pc(st, tm.ieq(t, v))
        # replace the register values that are exactly this term
        for fr in st.frames:
            for k, x in fr.regs.items():
                if x is t:
                    fr.regs[k] = v

    # ------------------------------------------------------------------ one instruction
    def step(self, st, fr, ins):
        op = ins[0]
        if op == 'load':
            p = self.val(st, fr, ir.PTR, ins[3])
            fr.regs[ins[1]] = self.load(st, ins[2], p)
        elif op == 'store':
            self.store(st, ins[2], self.val(st, fr, ins[2], ins[3]), self.val(st, fr, ir.PTR, ins[4]))
        elif op == 'gep':
            fr.regs[ins[1]] = self.gep(st, ins[2], self.val(st, fr, ir.PTR, ins[3]),
                                       [(it, self.val(st, fr, it, iv)) for it, iv in ins[4]])
        elif op == 'bin':
            t = ins[3]
            fr.regs[ins[1]] = self.binop(st, ins[2], t, self.val(st, fr, t, ins[4]), self.val(st, fr, t, ins[5]), ins[6])
        elif op == 'fbin':
            t = ins[3]
            fr.regs[ins[1]] = self.fbin(st, ins[2], t, self.val(st, fr, t, ins[4]), self.val(st, fr, t, ins[5]))
        elif op == 'icmp':
            t = ins[3]
            fr.regs[ins[1]] = self.icmp(st, ins[2], t, self.val(st, fr, t, ins[4]), self.val(st, fr, t, ins[5]))
        elif op == 'fcmp':
            t = ins[3]
            fr.regs[ins[1]] = self.fcmp(st, ins[2], t, self.val(st, fr, t, ins[4]), self.val(st, fr, t, ins[5]))
        elif op == 'cast':
            fr.regs[ins[1]] = self.cast(st, ins[2], ins[3], self.val(st, fr, ins[3], ins[4]), ins[5])
        elif op == 'br':
            self.goto(st, fr, ins[2])
            return
        elif op == 'cbr':
            c = self.val(st, fr, I1, ins[2])
            if c is True:
                self.goto(st, fr, ins[3])
            elif c is False:
                self.goto(st, fr, ins[4])
            elif isinstance(c, Undef):
                self.obligation(st, False, 'no-use-of-uninitialised-values')
                raise PathEnd('undef branch')
            else:
                raise Branch(c, ins[3], ins[4])
            return
        elif op in ('call', 'invoke'):
            self.call(st, fr, ins)
            return
        elif op == 'ret':
            v = self.val(st, fr, ins[2], ins[3]) if ins[2] is not None else None
            self.leave(st, v)
            return
        elif op == 'select':
            t = ins[2]
            c = self.val(st, fr, I1, ins[3])
            if isinstance(c, tuple):
                raise Unsupported('vector select')
            if c is True:
                fr.regs[ins[1]] = self.val(st, fr, t, ins[4])
            elif c is False:
                fr.regs[ins[1]] = self.val(st, fr, t, ins[5])
            elif isinstance(c, Undef):
                fr.regs[ins[1]] = UNDEF
            else:
                a = self.val(st, fr, t, ins[4])
                b = self.val(st, fr, t, ins[5])
                rt = self.m.resolve(t)
                fr.regs[ins[1]] = self.mkite(st, c, a, b, rt)
        elif op == 'alloca':
            n = 1
            if ins[3] is not None:
                n = self.val(st, fr, ('i', 64), ins[3])
            s = tm.imulc(n, self.m.size(ins[2])) if not isinstance(n, int) else n * self.m.size(ins[2])
            r = self.new_region(st, s, 'stack', ins[1])
            fr.allocas.append(r)
            fr.regs[ins[1]] = Ptr(r, 0)
        elif op == 'fneg':
            v = self.val(st, fr, ins[2], ins[3])
            fr.regs[ins[1]] = UNDEF if isinstance(v, Undef) else tm.rneg(v)
        elif op == 'switch':
            v = self.val(st, fr, ins[2], ins[3])
            if isinstance(v, Undef):
                self.obligation(st, False, 'no-use-of-uninitialised-values')
                raise PathEnd('undef')
            if isinstance(v, int):
                for c, l in ins[5]:
                    if c == v:
                        self.goto(st, fr, l)
                        return
                self.goto(st, fr, ins[4])
                return
            for c, l in ins[5]:
                e = tm.ieq(v, c)
                r = self.decide(st, e)
                if r is True:
                    self.goto(st, fr, l)
                    return
                if r is None:
                    raise Fork(e)
            self.goto(st, fr, ins[4])
            return
        elif op == 'extractvalue':
            v = self.val(st, fr, ins[2], ins[3])
            for i in ins[4]:
                v = v[i] if not isinstance(v, Undef) else UNDEF
            fr.regs[ins[1]] = v
        elif op == 'insertvalue':
            v = self.val(st, fr, ins[2], ins[3])
            e = self.val(st, fr, ins[4], ins[5])

            def put(v, ix):
                if not ix:
                    return e
                l = list(v)
                l[ix[0]] = put(l[ix[0]], ix[1:])
                return tuple(l)
            fr.regs[ins[1]] = put(v, ins[6])
        elif op == 'freeze':
            v = self.val(st, fr, ins[2], ins[3])
            fr.regs[ins[1]] = v
        elif op == 'unreachable':
            raise PathEnd('unreachable')
        elif op == 'landingpad':
            exc = fr.exc
            sel = 0
            for k, cv in ins[4]:
                ti = self.const(st, ir.PTR, cv)
                if k == 'catch' and self.exc_matches(exc, ti):
                    sel = self.typeid(ti)
                    break
            fr.regs[ins[1]] = (Ptr(exc[1], 0), sel)
        elif op == 'resume':
            self.unwind(st, fr.exc)
            return
        elif op == 'atomicrmw':
            p = self.val(st, fr, ir.PTR, ins[4])
            v = self.val(st, fr, ins[3], ins[5])
            old = self.load(st, ins[3], p)
            if ins[2] == 'add':
                new = self.binop(st, 'add', ins[3], old, v, set())
            elif ins[2] == 'sub':
                new = self.binop(st, 'sub', ins[3], old, v, set())
            elif ins[2] == 'xchg':
                new = v
            else:
                raise Unsupported('atomicrmw')
            self.store(st, ins[3], new, p)
            fr.regs[ins[1]] = old
        elif op == 'fence':
            pass
        elif op == 'extractelement':
            v = self.val(st, fr, ins[2], ins[3])
            i = self.val(st, fr, ('i', 64), ins[4])
            fr.regs[ins[1]] = v[i]
        elif op == 'insertelement':
            v = list(self.val(st, fr, ins[2], ins[3]))
            v[self.val(st, fr, ('i', 64), ins[5])] = self.val(st, fr, self.m.resolve(ins[2])[2], ins[4])
            fr.regs[ins[1]] = tuple(v)
        else:
            raise Unsupported('instruction %s' % (ins,))
        fr.ip += 1

    def typeid(self, ti):
        if ti.r == 0:
            return 1
        d = self.__dict__.setdefault('_tids', {})
        return d.setdefault(ti.r, len(d) + 2)

    STD_BASES = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
                 '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
                 '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
                 '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
                 '_ZTISt12domain_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
                 '_ZTISt9bad_alloc': ['_ZTISt9exception']}

    def exc_matches(self, exc, ti):
        if ti.r == 0:
            return True
        n = ti.r[1]
        return exc[0] == n or n in self.STD_BASES.get(exc[0], ())

    def unwind(self, st, exc):
        while True:
            fr = st.frames.pop()
            for r in fr.allocas:
                st.mem.pop(r, None)
                st.own.discard(r)
            if any(c.mode == 'dry' for c in fr.cut.values()):
                raise PathEnd('loop exit')
            if not st.frames:
                self.obligation(st, False, 'no-exception')
                raise PathEnd('throw ' + str(exc[0]))
            up = st.frames[-1]
            if fr.inv is not None:
                up.exc = exc
                # the invoke's frame: continue at its landing pad
                up.prev = up.blk
                self.goto(st, up, fr.inv[1])
                return

    def throw_here(self, st, fr, ins, exc):
        """exception raised by the call instruction ins of frame fr"""
        if ins[0] == 'invoke':
            fr.exc = exc
            self.goto(st, fr, ins[7])
        else:
            self.unwind(st, exc)

    def ret_call(self, st, fr, ins, val):
        if ins[1] is not None:
            fr.regs[ins[1]] = val
        if ins[0] == 'invoke':
            self.goto(st, fr, ins[6])
        else:
            fr.ip += 1

    def call(self, st, fr, ins):
        callee = ins[3]
        if callee[0] == 'ASM':
            fr.ip += 1
            return
        if callee[0] == 'G':
            name = callee[1]
        else:
            p = self.val(st, fr, ir.PTR, callee)
            if isinstance(p, PIte):
                raise Fork(p.c) if self.decide(st, p.c) is None else Unsupported('pite call')
            if isinstance(p, Undef) or not (isinstance(p.r, tuple) and p.r[0] == 'f'):
                raise Unsupported('indirect call to %s' % (p,))
            name = p.r[1]
        args = None
        h = self.sumcache.get(name)
        if h is None:
            h = self.lookup(name)
            self.sumcache[name] = h
        if h[0] == 'body':
            args = [self.val(st, fr, t, v) for t, v in ins[4]]
            if ins[0] == 'invoke':
                self.enter(st, name, args, ins[1], (ins[6], ins[7]))
            else:
                fr.ip += 1
                self.enter(st, name, args, ins[1], None)
            return
        args = [self.val(st, fr, t, v) for t, v in ins[4]]
        r = h[1](self, st, fr, ins, args)
        if r is NotImplemented:
            # the summary does not apply to this call: run the real body
            if ins[0] == 'invoke':
                self.enter(st, name, args, ins[1], (ins[6], ins[7]))
            else:
                fr.ip += 1
                self.enter(st, name, args, ins[1], None)
            return
        if r is DONE:
            return
        self.ret_call(st, fr, ins, r)

    def lookup(self, name):
        d = self.dem.get(name, name)
        for rx, h in self.stubs:
            if rx.search(d):
                return ('sum', h)
        h = self.lib.find(self, name, d)
        if h is not None:
            return ('sum', h)
        if name in self.m.ftext:
            return ('body',)
        tx = self.m.gtext.get(name)
        if tx and ' alias ' in ' ' + tx:
            tgt = re.search(r'ptr @("[^"]+"|[\w.$]+)', tx).group(1).strip('"')
            return self.lookup(tgt)
        raise Unsupported('external function ' + d)


class Fork(Exception):
    def __init__(self, c):
        self.c = c


class ForkVal(Exception):
    def __init__(self, t):
        self.t = t


class Enum(Exception):
    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi


class Branch(Exception):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class BackEdge(Exception):
    def __init__(self, lab, fr):
        self.lab, self.fr = lab, fr


class LoopEntry(Exception):
    def __init__(self, lab):
        self.lab = lab


class NeedCut(Exception):
    """this loop has a symbolic trip count: restart and cut it"""
    def __init__(self, key):
        self.key = key


class ByteOf:
    """byte i of the representation of a double"""
    __slots__ = ('v', 'i')

    def __init__(self, v, i):
        self.v, self.i = v, i

    def __repr__(self):
        return 'byte%d(%s)' % (self.i, self.v)


class _Done:
    pass


DONE = _Done()
