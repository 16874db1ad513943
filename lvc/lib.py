"""Contracts (summaries) assumed for the C/C++ library, and the harness intrinsics.

Everything in this file is part of the trusted base and is listed in the evidence.
"""
import re
from fractions import Fraction
from . import terms as tm, ir, smt
from .terms import T
from . import sx
from .sx import UNDEF, ZERO, Ptr, PIte, NULL, PathEnd, Unsupported, Fork, Enum, DONE, Undef

USED = {}


def use(name):
    USED[name] = USED.get(name, 0) + 1


# ------------------------------------------------------------------ helpers
def cstr(ex, st, p):
    m = ex.region(st, p.r)
    s = ''
    o = p.off
    while True:
        c = m.cells.get(o)
        if c is None or c[1] == 0:
            break
        s += chr(c[1] & 255)
        o += 1
    return s


def uniq(st, name):
    k = ('n', name)
    c = st.ghost.get(k, 0)
    st.ghost[k] = c + 1
    return name if c == 0 else '%s.%d' % (name, c)


def i_real(ex, st, fr, ins, a):
    name = uniq(st, cstr(ex, st, a[0]))
    v = tm.rvar(name)
    st.inputs.append(('r', v))
    # the range only guides native sampling; it is no assumption of the proof
    return v


def i_int(ex, st, fr, ins, a):
    lo, hi = a[1], a[2]
    l0, _ = tm.irange(lo)
    _, h1 = tm.irange(hi)
    name = uniq(st, cstr(ex, st, a[0]))
    if isinstance(lo, int) and isinstance(hi, int) and lo > hi:
        raise PathEnd('empty range')
    if isinstance(lo, int) and isinstance(hi, int) and lo == hi:
        st.inputs.append(('i', lo))
        return lo
    # the bounds of a variable are global facts of its name: make the name bound specific
    v = tm.ivar('%s@%s:%s' % (name, l0, h1), l0, h1)
    st.inputs.append(('i', v))
    if not isinstance(lo, int):
        ex.add_pc(st, tm.ile(lo, v))
    if not isinstance(hi, int):
        ex.add_pc(st, tm.ile(v, hi))
    return v


def i_enum(ex, st, fr, ins, a):
    if not (isinstance(a[1], int) and isinstance(a[2], int)):
        raise Unsupported('vc_enum bounds')
    if a[1] > a[2]:
        raise PathEnd('empty enum')
    over = ex.opts.get('enum', {}).get(cstr(ex, st, a[0]))
    lo, hi = a[1], a[2]
    if over is not None:
        lo, hi = max(lo, over[0]), min(hi, over[1])
        if lo > hi:
            raise PathEnd('empty enum')
    raise Enum(cstr(ex, st, a[0]), lo, hi)


def i_fork(ex, st, fr, ins, a):
    """both values, without recording an input: the body of a VC_FORALL is a side path that ends after it"""
    raise Enum('', 0, 1)


def i_assume(ex, st, fr, ins, a):
    c = a[0]
    if isinstance(c, Undef):
        raise Unsupported('assume undef')
    if not isinstance(c, (bool, T)):
        c = c != 0
    if c is False:
        raise PathEnd('assume false')
    if c is not True:
        cs, _ = smt.cone(st.pc, smt.atoms(c))
        if smt.query(cs + [c], ex.opts['feas_timeout']) == 'unsat':
            raise PathEnd('infeasible')
    ex.add_pc(st, c)
    return None


def reach(ex, label, st):
    ex.reached.add(label)


def i_check(ex, st, fr, ins, a):
    label = cstr(ex, st, a[1])
    reach(ex, label, st)
    c = a[0]
    if isinstance(c, Undef):
        c = False
    if ex.obligation(st, c, label):
        if not isinstance(c, bool):
            learn(ex, st, c)
    else:
        if isinstance(c, T):
            ex.add_pc(st, c) if ex.quiet else None
    return None


def learn(ex, st, c):
    """a proved fact may be used afterwards"""
    if isinstance(c, bool):
        return
    st.ghost['facts'] = frozenset(st.ghost.get('facts', ())) | {c}
    if c.op in ('ile0', 'ieq0'):
        ex.add_pc(st, c)


def i_check_eq(ex, st, fr, ins, a):
    label = cstr(ex, st, a[2])
    reach(ex, label, st)
    x, y = a[0], a[1]
    if isinstance(x, Undef) or isinstance(y, Undef):
        ex.obligation(st, False, label)
        return None
    g = tm.req(x, y)
    ex.obligation(st, g, label)
    return None


def i_check_le(ex, st, fr, ins, a):
    label = cstr(ex, st, a[2])
    reach(ex, label, st)
    if isinstance(a[0], Undef) or isinstance(a[1], Undef):
        ex.obligation(st, False, label)
        return None
    g = tm.rle(a[0], a[1])
    if ex.obligation(st, g, label):
        learn(ex, st, g)
    return None


def i_check_lt(ex, st, fr, ins, a):
    label = cstr(ex, st, a[2])
    reach(ex, label, st)
    if isinstance(a[0], Undef) or isinstance(a[1], Undef):
        ex.obligation(st, False, label)
        return None
    g = tm.rlt(a[0], a[1])
    if ex.obligation(st, g, label):
        learn(ex, st, g)
    return None


def i_sym_vec(ex, st, fr, ins, a):
    """vc_sym_vec(void* vec, long n, long doubles_per_elem, name, lo, hi, flags)
    makes *vec a vector of n elements, each `d` doubles wide, with arbitrary contents.
    flags bit0: nondecreasing"""
    vec, n, d, nm, lo, hi, flags = a
    name = uniq(st, cstr(ex, st, nm))
    cnt = tm.imul(n, d)
    size = tm.imulc(cnt, 8)
    # the facts about an array are global facts of its name: make the name specific
    key = '%s/%d@%s' % (name, flags, cnt if isinstance(cnt, int) else cnt.id)
    r = ex.new_region(st, size, 'heap', name, ('real', key))
    m = st.mem[r]
    m.elem = 8
    ex.store(st, ir.PTR, Ptr(r, 0), vec)
    ex.store(st, ir.PTR, Ptr(r, size), ex.padd(vec, 8))
    ex.store(st, ir.PTR, Ptr(r, size), ex.padd(vec, 16))
    if flags & 1:
        smt.SORTED[key] = (0, cnt)
    st.inputs.append(('a', key, cnt, 's' if flags & 1 else ''))
    return None


def i_sym_vec_in(ex, st, fr, ins, a):
    """vc_sym_vec_in(void* vec, long n, long d, name, const double* lo, const double* hi): like
    vc_sym_vec, component c of every element lies in [lo[c], hi[c]]"""
    vec, n, d, nm, lo, hi = a
    name = uniq(st, cstr(ex, st, nm))
    cnt = tm.imul(n, d)
    size = tm.imulc(cnt, 8)
    los = [ex.load(st, ir.DBL, ex.padd(lo, 8 * c)) for c in range(d)]
    his = [ex.load(st, ir.DBL, ex.padd(hi, 8 * c)) for c in range(d)]
    key = '%s/in@%s,%s' % (name, cnt if isinstance(cnt, int) else cnt.id, ','.join(str(x.id) for x in los + his))
    r = ex.new_region(st, size, 'heap', name, ('real', key))
    st.mem[r].elem = 8
    ex.store(st, ir.PTR, Ptr(r, 0), vec)
    ex.store(st, ir.PTR, Ptr(r, size), ex.padd(vec, 8))
    ex.store(st, ir.PTR, Ptr(r, size), ex.padd(vec, 16))

    def facts(x):
        i = x.args[1]
        c = tm.imodc(i, d)
        if isinstance(c, int):
            return [tm.rle(los[c], x), tm.rle(x, his[c])]
        return [tm.bimp(tm.ieq(c, j), tm.band(tm.rle(los[j], x), tm.rle(x, his[j]))) for j in range(d)]
    smt.BOUNDS[key] = facts
    if any(x is y for x, y in zip(los, his)):
        def known(i):
            c = tm.imodc(i, d)
            return los[c] if isinstance(c, int) and los[c] is his[c] else None
        tm.CONSTSEL[key] = known
    for x in los + his:
        if x not in smt.PIVOTS:
            smt.PIVOTS.append(x)
    st.inputs.append(('a', key, cnt, ''))
    return None


def i_strict(ex, st, fr, ins, a):
    """vc_strict(void* vec, long gap, long lo, long hi): assume vec[i] < vec[j] for lo <= i, i + gap <= j < hi"""
    vec, g, lo, hi = a
    b = ex.load(st, ir.PTR, vec)
    init = st.mem[b.r].base
    if init[0] != 'real' or init[1] not in smt.SORTED:
        raise Unsupported('vc_strict on something that is not a sorted symbolic vector')
    if smt.GAPS.setdefault(init[1], (g, lo, hi)) != (g, lo, hi):
        raise Unsupported('two different vc_strict on one vector')
    return None


def i_hint_run(ex, st, fr, ins, a):
    """vc_hint_run(A, B): a candidate for loop invariants only"""
    if (a[0], a[1]) not in smt.RUNS:
        smt.RUNS.append((a[0], a[1]))
    return None


def i_sym_rows(ex, st, fr, ins, a):
    """vc_sym_rows(void* vv, long n, long m, long d, name): a vector of n vectors of m elements of d doubles"""
    from .sx import ROWSTRIDE
    vec, n, m_, d, nm = a
    name = uniq(st, cstr(ex, st, nm))
    cnt = tm.imul(m_, d)
    rb = tm.imulc(cnt, 8)
    key = '%s/rows@%s,%s' % (name, n if isinstance(n, int) else n.id, cnt if isinstance(cnt, int) else cnt.id)
    data = ex.new_region(st, tm.imulc(n, ROWSTRIDE), 'heap', name, ('realrows', key, n, rb, ROWSTRIDE))
    st.mem[data].elem = 8
    size = tm.imulc(n, 24)
    r = ex.new_region(st, size, 'heap', name + ' rows', ('rows', data, n, rb, ROWSTRIDE))
    ex.store(st, ir.PTR, Ptr(r, 0), vec)
    ex.store(st, ir.PTR, Ptr(r, size), ex.padd(vec, 8))
    ex.store(st, ir.PTR, Ptr(r, size), ex.padd(vec, 16))
    st.inputs.append(('rows', key, n, cnt))
    return None


def i_row_weights(ex, st, fr, ins, a):
    """vc_row_weights(void* vv, double lo, double hi): the last component of every element (of 4 doubles) lies in [lo, hi]"""
    vec, lo, hi = a
    b = st.mem[ex.load(st, ir.PTR, vec).r].base
    if b[0] != 'rows':
        raise Unsupported('vc_row_weights on something that is not a symbolic vector of rows')
    key = st.mem[b[1]].base[1]

    def facts(x):
        c = tm.imodc(x.args[1], 4)
        f = tm.band(tm.rle(lo, x), tm.rle(x, hi))
        if isinstance(c, int):
            return [f] if c == 3 else []
        return [tm.bimp(tm.ieq(c, 3), f)]
    if key in smt.BOUNDS and smt.BOUNDS[key].rows != (lo, hi):
        raise Unsupported('two bounds on one symbolic array')
    facts.rows = (lo, hi)
    smt.BOUNDS[key] = facts
    return None


def i_sym_block(ex, st, fr, ins, a):
    """vc_sym_block(double* p, long n, name): n arbitrary doubles stored from p"""
    p, n, nm = a
    name = uniq(st, cstr(ex, st, nm))
    for i in range(n):
        v = tm.rvar('%s_%d' % (name, i))
        st.inputs.append(('r', v))
        ex.store(st, ir.DBL, v, ex.padd(p, 8 * i))
    return None


def i_uf(ex, st, fr, ins, a):
    """uninterpreted total function of reals"""
    return tm.ruf('h_' + cstr(ex, st, a[0]), *a[1:])


def i_quantity(ex, st, fr, ins, a):
    """vc_quantity(name, value): a ghost quantity nonlinear facts may be expressed in"""
    if isinstance(a[1], T):
        st.ghost['defs'] = st.ghost.get('defs', ()) + ((cstr(ex, st, a[0]), a[1]),)
    return None


def i_bpred(ex, st, fr, ins, a):
    return tm.mk('buf', ('p_' + cstr(ex, st, a[0]),) + tuple(a[1:]))


def i_lemma(ex, st, fr, ins, a):
    return None


def i_symbolic(ex, st, fr, ins, a):
    return True


def i_witness(ex, st, fr, ins, a):
    reach(ex, cstr(ex, st, a[0]), st)
    return None


def i_dump(ex, st, fr, ins, a):
    print('DUMP', cstr(ex, st, a[0]), a[1])
    return None


def i_gen(ex, st, fr, ins, a):
    """generalisation: an arbitrary real in place of a computed one (only ever makes a goal stronger)"""
    return tm.rvar(tm.fresh_name('gen'))


def add_stub(ex, rx, target):
    """recursive calls matching rx (made while the real function is active) go to the contract `target`;
    with a leading ! every call does (the callee is verified against its contract elsewhere)"""
    always = target.startswith('!')
    target = target.lstrip('!')
    r = re.compile(rx)
    tgt = [n for n in ex.m.ftext if n == target or ex.dem.get(n, '').startswith(target + '(')]
    if not tgt:
        raise Unsupported('no contract function ' + target)

    def h(ex, st, fr, ins, a):
        if not always and not any(r.search(ex.dem.get(f.fn.name, f.fn.name)) for f in st.frames):
            return NotImplemented
        use('contract: ' + target)
        if ins[0] == 'invoke':
            ex.enter(st, tgt[0], a, ins[1], (ins[6], ins[7]))
        else:
            fr.ip += 1
            ex.enter(st, tgt[0], a, ins[1], None)
        return DONE
    ex.stubs.append((r, h))


INTR = {
    'vc_gen': i_gen,
    'vc_real': i_real, 'vc_int': i_int, 'vc_enum': i_enum, 'vc_fork': i_fork, 'vc_assume': i_assume, 'vc_check': i_check,
    'vc_check_eq': i_check_eq, 'vc_check_le': i_check_le, 'vc_check_lt': i_check_lt, 'vc_sym_vec': i_sym_vec, 'vc_quantity': i_quantity, 'vc_sym_rows': i_sym_rows, 'vc_row_weights': i_row_weights, 'vc_hint_run': i_hint_run, 'vc_strict': i_strict, 'vc_sym_vec_in': i_sym_vec_in,
    'vc_sym_block': i_sym_block, 'vc_uf1': i_uf, 'vc_uf2': i_uf, 'vc_uf3': i_uf, 'vc_uf9': i_uf, 'vc_pred1': i_bpred,
    'vc_pred2': i_bpred, 'vc_predr2': i_bpred, 'vc_symbolic': i_symbolic, 'vc_witness': i_witness, 'vc_dump': i_dump,
    'vc_dumpi': i_dump,
}


# ------------------------------------------------------------------ libm / llvm intrinsics
def real1(f):
    def h(ex, st, fr, ins, a):
        if isinstance(a[0], Undef):
            return UNDEF
        return f(ex, st, a[0])
    return h


def f_abs(ex, st, x):
    if x.op == 'rc':
        return tm.rc(abs(x.args[0]))
    return tm.rite(tm.rlt(x, tm.R0), tm.rneg(x), x)


def f_sqrt(ex, st, x):
    if x.op == 'rc':
        f = x.args[0]
        if f >= 0:
            import math
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return tm.rc(Fraction(n, d))
    return tm.ruf('sqrt', x)


def ax_sqrt(t):
    x = t.args[1]
    return [tm.rle(tm.R0, t), tm.bimp(tm.rle(tm.R0, x), tm.req(tm.rmul(t, t), x))]


smt.AXUF['sqrt'] = ax_sqrt


def ax_acos(t):
    return [tm.rle(tm.R0, t), tm.rle(t, tm.rc(Fraction(31416, 10000)))]


smt.AXUF['acos'] = ax_acos


def ax_cos(t):
    return [tm.rle(tm.RM1, t), tm.rle(t, tm.R1)]


smt.AXUF['cos'] = ax_cos
smt.AXUF['sin'] = ax_cos


def ax_trunc(t):
    x = t.args[1]
    return []


def fmin(ex, st, fr, ins, a):
    if isinstance(a[0], Undef) or isinstance(a[1], Undef):
        return UNDEF
    return tm.rite(tm.rlt(a[1], a[0]), a[1], a[0])


def fmax(ex, st, fr, ins, a):
    if isinstance(a[0], Undef) or isinstance(a[1], Undef):
        return UNDEF
    return tm.rite(tm.rlt(a[0], a[1]), a[1], a[0])


def f_pow(ex, st, fr, ins, a):
    x, y = a
    if isinstance(y, T) and y.op == 'rc':
        f = y.args[0]
        if f.denominator == 1 and 0 <= f <= 12:
            r = tm.R1
            for _ in range(int(f)):
                r = tm.rmul(r, x)
            return r
        if f == Fraction(1, 2):
            return f_sqrt(ex, st, x)
    return tm.ruf('pow', x, y)


def f_powi(ex, st, fr, ins, a):
    if isinstance(a[1], int) and 0 <= a[1] <= 12:
        r = tm.R1
        for _ in range(a[1]):
            r = tm.rmul(r, a[0])
        return r
    raise Unsupported('powi')


def uf1(n):
    return real1(lambda ex, st, x: tm.ruf(n, x))


def f_floor(ex, st, x):
    if x.op == 'rc':
        import math
        return tm.rc(math.floor(x.args[0]))
    if x.op == 'i2r':
        return x
    return tm.ruf('floor', x)


def ax_floor(t):
    x = t.args[1]
    return [tm.rle(t, x), tm.rlt(x, tm.radd(t, tm.R1))]


smt.AXUF['floor'] = ax_floor


def ax_ceil(t):
    x = t.args[1]
    return [tm.rle(x, t), tm.rlt(t, tm.radd(x, tm.R1))]


smt.AXUF['ceil'] = ax_ceil

LIBM = {
    'fabs': real1(f_abs), 'sqrt': real1(f_sqrt), 'floor': real1(f_floor), 'ceil': uf1('ceil'), 'sin': uf1('sin'),
    'cos': uf1('cos'), 'tan': uf1('tan'), 'acos': uf1('acos'), 'asin': uf1('asin'), 'atan': uf1('atan'),
    'exp': uf1('exp'), 'log': uf1('log'), 'log2': uf1('log2'), 'log10': uf1('log10'), 'cbrt': uf1('cbrt'), 'trunc': uf1('trunc'), 'round': uf1('round'),
    'fmin': fmin, 'fmax': fmax, 'pow': f_pow, 'atan2': lambda ex, st, fr, ins, a: tm.ruf('atan2', a[0], a[1]),
    'hypot': lambda ex, st, fr, ins, a: f_sqrt(ex, st, tm.radd(tm.rmul(a[0], a[0]), tm.rmul(a[1], a[1]))),
    'copysign': lambda ex, st, fr, ins, a: tm.rite(tm.rlt(a[1], tm.R0), tm.rneg(f_abs(ex, st, a[0])), f_abs(ex, st, a[0])),
    'fmod': lambda ex, st, fr, ins, a: tm.ruf('fmod', a[0], a[1]),
    'sqrtf': real1(lambda ex, st, x: ex.f32(f_sqrt(ex, st, x))),
    'fabsf': real1(f_abs),
    'fma': lambda ex, st, fr, ins, a: tm.radd(tm.rmul(a[0], a[1]), a[2]),
    'ldexp': lambda ex, st, fr, ins, a: tm.rmul(a[0], tm.rc(Fraction(2) ** a[1])) if isinstance(a[1], int) else tm.ruf('ldexp', a[0], tm.i2r(a[1])),
}


def ll_minmax(op):
    def h(ex, st, fr, ins, a):
        t = ins[2]
        x, y = a
        if isinstance(x, Undef) or isinstance(y, Undef):
            return UNDEF
        c = ex.icmp(st, {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[op], t, x, y)
        # keep results concrete / linear when the comparison is decidable
        if not isinstance(c, bool):
            d = ex.decide(st, c)
            if d is not None:
                c = d
        return ex.mkite(st, c, x, y, t)
    return h


def ll_abs(ex, st, fr, ins, a):
    x = a[0]
    if isinstance(x, int):
        return abs(x)
    return tm.iite(tm.ilt(x, 0), tm.imulc(x, -1), x)


def ll_memcpy(ex, st, fr, ins, a):
    ex.memcpy(st, a[0], a[1], a[2])
    return None


def ll_memset(ex, st, fr, ins, a):
    ex.memset(st, a[0], a[1], a[2])
    return None


def c_memcpy(ex, st, fr, ins, a):
    ex.memcpy(st, a[0], a[1], a[2])
    return a[0]


def c_memset(ex, st, fr, ins, a):
    ex.memset(st, a[0], a[1] & 255 if isinstance(a[1], int) else a[1], a[2])
    return a[0]


def nop(ex, st, fr, ins, a):
    return None


def ret0(ex, st, fr, ins, a):
    return a[0] if a else None


def ll_ovf(op):
    def h(ex, st, fr, ins, a):
        n = ins[4][0][0][1]
        x, y = a
        if op[0] == 'u':
            x, y = ex.unsigned(st, x, n), ex.unsigned(st, y, n)
        f = {'add': tm.iadd, 'sub': tm.isub, 'mul': tm.imul}[op[1:]]
        r = f(x, y)
        if op[0] == 'u':
            c = tm.bor(tm.ilt(r, 0), tm.ile(1 << n, r))
        else:
            c = tm.bor(tm.ilt(r, -(1 << (n - 1))), tm.ile(1 << (n - 1), r))
        d = ex.decide(st, c)
        if d is not None:
            c = d
        return (ex.wrap(st, r, n), c)
    return h


def ll_expect(ex, st, fr, ins, a):
    return a[0]


def ll_assume(ex, st, fr, ins, a):
    return None


def ll_typeid(ex, st, fr, ins, a):
    return ex.typeid(a[0])


def ll_fpclass(ex, st, fr, ins, a):
    # nan / inf classes (mask bits 0,1,2,9) are excluded by the finite-real model
    mask = a[1]
    fin = 0x1f8
    if mask & fin == 0:
        return False
    if mask & fin == fin:
        return True
    x = a[0]
    r = False
    if mask & (0x8 | 0x10):
        r = tm.bor(r, tm.rlt(x, tm.R0))
    if mask & (0x100 | 0x80):
        r = tm.bor(r, tm.rlt(tm.R0, x))
    if mask & (0x20 | 0x40):
        r = tm.bor(r, tm.req(x, tm.R0))
    return r


def ll_ctlz(ex, st, fr, ins, a):
    n = ins[2][1]
    x = a[0]
    if isinstance(x, int):
        x &= (1 << n) - 1
        return n - x.bit_length()
    raise sx.ForkVal(x)


def ll_cttz(ex, st, fr, ins, a):
    n = ins[2][1]
    x = a[0]
    if isinstance(x, int):
        x &= (1 << n) - 1
        return n if x == 0 else (x & -x).bit_length() - 1
    raise sx.ForkVal(x)


def ll_ctpop(ex, st, fr, ins, a):
    n = ins[2][1]
    if isinstance(a[0], int):
        return bin(a[0] & ((1 << n) - 1)).count('1')
    raise sx.ForkVal(a[0])


def ll_const(v):
    return lambda ex, st, fr, ins, a: v


LLVM = [
    (re.compile(r'llvm\.(lifetime|dbg|donothing|experimental\.noalias|invariant|prefetch|var\.annotation|trap)'), nop),
    (re.compile(r'llvm\.memcpy|llvm\.memmove'), ll_memcpy),
    (re.compile(r'llvm\.memset'), ll_memset),
    (re.compile(r'llvm\.umax'), ll_minmax('umax')), (re.compile(r'llvm\.umin'), ll_minmax('umin')),
    (re.compile(r'llvm\.smax'), ll_minmax('smax')), (re.compile(r'llvm\.smin'), ll_minmax('smin')),
    (re.compile(r'llvm\.abs'), ll_abs),
    (re.compile(r'llvm\.fmuladd|llvm\.fma\.'), lambda ex, st, fr, ins, a: UNDEF if any(isinstance(x, Undef) for x in a) else tm.radd(tm.rmul(a[0], a[1]), a[2])),
    (re.compile(r'llvm\.fabs'), LIBM['fabs']), (re.compile(r'llvm\.sqrt\.f32'), LIBM['sqrtf']),
    (re.compile(r'llvm\.sqrt'), LIBM['sqrt']),
    (re.compile(r'llvm\.floor'), LIBM['floor']), (re.compile(r'llvm\.ceil'), LIBM['ceil']),
    (re.compile(r'llvm\.trunc\.f'), LIBM['trunc']), (re.compile(r'llvm\.round\.f'), LIBM['round']),
    (re.compile(r'llvm\.maxnum|llvm\.maximum'), fmax), (re.compile(r'llvm\.minnum|llvm\.minimum'), fmin),
    (re.compile(r'llvm\.copysign'), LIBM['copysign']), (re.compile(r'llvm\.pow\.'), f_pow),
    (re.compile(r'llvm\.powi'), f_powi), (re.compile(r'llvm\.sin'), LIBM['sin']), (re.compile(r'llvm\.cos'), LIBM['cos']),
    (re.compile(r'llvm\.exp\.'), LIBM['exp']), (re.compile(r'llvm\.log\.'), LIBM['log']), (re.compile(r'llvm\.log2\.'), LIBM['log2']), (re.compile(r'llvm\.log10\.'), LIBM['log10']),
    (re.compile(r'llvm\.expect'), ll_expect), (re.compile(r'llvm\.assume'), ll_assume),
    (re.compile(r'llvm\.eh\.typeid\.for'), ll_typeid), (re.compile(r'llvm\.is\.fpclass'), ll_fpclass),
    (re.compile(r'llvm\.ctlz'), ll_ctlz), (re.compile(r'llvm\.cttz'), ll_cttz), (re.compile(r'llvm\.ctpop'), ll_ctpop),
    (re.compile(r'llvm\.is\.constant'), ll_const(False)),
    (re.compile(r'llvm\.objectsize'), ll_const(-1)),
    (re.compile(r'llvm\.stacksave'), lambda ex, st, fr, ins, a: NULL), (re.compile(r'llvm\.stackrestore'), nop),
    (re.compile(r'llvm\.(launder|strip)\.invariant'), ret0),
]
for _o in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
    LLVM.append((re.compile(r'llvm\.%s\.with\.overflow' % _o), ll_ovf(_o)))


def ll_sat(ex, st, fr, ins, a):
    n = ins[2][1]
    x, y = ex.unsigned(st, a[0], n), ex.unsigned(st, a[1], n)
    return tm.iite(tm.ilt(x, y), 0, tm.isub(x, y))


LLVM.append((re.compile(r'llvm\.usub\.sat'), ll_sat))


# ------------------------------------------------------------------ allocation, exceptions
def op_new(ex, st, fr, ins, a):
    r = ex.new_region(st, a[0], 'heap', 'new')
    return Ptr(r, 0)


def op_delete(ex, st, fr, ins, a):
    p = a[0]
    if isinstance(p, PIte):
        d = ex.decide(st, p.c)
        if d is None:
            raise Fork(p.c)
        p = p.a if d else p.b
    if isinstance(p, Undef):
        ex.obligation(st, False, 'memory-safety')
        raise PathEnd('delete undef')
    if p.r == 0:
        return None
    m = ex.region(st, p.r)
    if m.freed:
        ex.obligation(st, False, 'memory-safety')
        raise PathEnd('double free')
    m = ex.wmem(st, p.r)
    m.freed = True
    m.cells = {}
    return None


def cxa_alloc(ex, st, fr, ins, a):
    return Ptr(ex.new_region(st, 128, 'heap', 'exception'), 0)


def cxa_throw(ex, st, fr, ins, a):
    ti = a[1].r[1] if isinstance(a[1].r, tuple) else 'unknown'
    ex.throw_here(st, fr, ins, (ti, a[0].r))
    return DONE


def cxa_rethrow(ex, st, fr, ins, a):
    ex.throw_here(st, fr, ins, fr.exc)
    return DONE


def throw_std(ti):
    def h(ex, st, fr, ins, a):
        ex.throw_here(st, fr, ins, (ti, ex.new_region(st, 128, 'heap', 'exception')))
        return DONE
    return h


def abort(label):
    def h(ex, st, fr, ins, a):
        ex.obligation(st, False, label)
        raise PathEnd(label)
    return h


def f_malloc(ex, st, fr, ins, a):
    return Ptr(ex.new_region(st, a[0], 'heap', 'malloc'), 0)


def f_memcmp(ex, st, fr, ins, a, sign=True):
    """equality of two byte ranges (concrete length): whole words where both sides can be read as words, bytes elsewhere.
    The sign of memcmp is only given for concrete bytes."""
    n = a[2]
    if not isinstance(n, int):
        raise Unsupported('memcmp of a symbolic length')
    if n % 8 == 0:
        try:
            eq = True
            for i in range(0, n, 8):
                eq = tm.band(eq, tm.ieq(ex.load(st, ('i', 64), ex.padd(a[0], i)), ex.load(st, ('i', 64), ex.padd(a[1], i))))
            if eq is True:
                return 0
            if not sign:
                return tm.iite(eq, 0, 1)
        except Unsupported:
            pass
    for i in range(n):
        x, y = ex.load(st, ('i', 8), ex.padd(a[0], i)), ex.load(st, ('i', 8), ex.padd(a[1], i))
        if not isinstance(x, int) or not isinstance(y, int):
            raise Unsupported('memcmp of symbolic bytes')
        if (x ^ y) & 255:
            return -1 if (x & 255) < (y & 255) else 1
    return 0


def f_bcmp(ex, st, fr, ins, a):
    return f_memcmp(ex, st, fr, ins, a, False)


def f_strlen(ex, st, fr, ins, a):
    if isinstance(a[0], Ptr) and isinstance(a[0].off, int):
        return len(cstr(ex, st, a[0]))
    raise Unsupported('strlen')


def f_clock(ex, st, fr, ins, a):
    return tm.ivar(tm.fresh_name('clock'), 0, 1 << 60)


C = {
    '_Znwm': op_new, '_Znam': op_new, '_ZnwmSt11align_val_t': op_new, '_ZdlPv': op_delete, '_ZdaPv': op_delete,
    '_ZdlPvm': op_delete, '_ZdaPvm': op_delete, '_ZdlPvSt11align_val_t': op_delete, '_ZdlPvmSt11align_val_t': op_delete,
    '_ZnwmRKSt9nothrow_t': op_new, '_ZdlPvRKSt9nothrow_t': op_delete,
    'malloc': f_malloc, 'free': op_delete, 'memcpy': c_memcpy, 'memmove': c_memcpy, 'memset': c_memset,
    'strlen': f_strlen, 'memcmp': f_memcmp, 'bcmp': f_bcmp,
    '__cxa_allocate_exception': cxa_alloc, '__cxa_free_exception': nop, '__cxa_throw': cxa_throw,
    '__cxa_rethrow': cxa_rethrow, '__cxa_begin_catch': ret0, '__cxa_end_catch': nop, '__cxa_get_exception_ptr': ret0,
    '__cxa_guard_acquire': ll_const(1), '__cxa_guard_release': nop, '__cxa_atexit': ll_const(0),
    '__assert_fail': abort('no-assertion-failure'), 'abort': abort('no-abort'), '_ZSt9terminatev': abort('no-terminate'),
    '__clang_call_terminate': abort('no-terminate'), '__cxa_pure_virtual': abort('no-abort'),
    '_ZNSt3__122__libcpp_verbose_abortEPKcz': abort('no-abort'),
    'printf': ll_const(0), 'puts': ll_const(0), 'fprintf': ll_const(0), 'putchar': ll_const(0),
    '_ZNSt3__16chrono12steady_clock3nowEv': f_clock, '_ZNSt3__16chrono12system_clock3nowEv': f_clock,
    '_ZNSt3__119__shared_weak_count14__release_weakEv': nop,
    '_ZNSt3__119__shared_weak_countD2Ev': nop, '_ZNSt3__114__shared_countD2Ev': nop, '_ZNSt9exceptionD2Ev': nop,
}

def text(ex, st, fr, ins, a):
    """a string whose contents are not modelled: the text of messages; represented by the empty string"""
    return c_memset(ex, st, fr, ins, [a[0], 0, 24, 0])


STDX = [
    (re.compile(r'^std::__1::to_string\('), text),
    (re.compile(r'^std::__1::basic_string<char.*>::(insert|append)\(unsigned long, char const\*\)|^std::__1::basic_string<char.*>::append\(char const\*'), lambda ex, st, fr, ins, a: a[0]),
    (re.compile(r'std::__1::__throw_length_error|::__throw_length_error'), throw_std('_ZTISt12length_error')),
    (re.compile(r'__throw_out_of_range'), throw_std('_ZTISt12out_of_range')),
    (re.compile(r'std::__throw_bad_array_new_length|__throw_bad_alloc'), throw_std('_ZTISt9bad_alloc')),
    (re.compile(r'__throw_bad_function_call'), throw_std('_ZTINSt3__117bad_function_callE')),
    (re.compile(r'__throw_'), throw_std('unknown')),
    (re.compile(r'^std::(runtime_error|logic_error|invalid_argument|out_of_range|length_error|domain_error|exception)::'), nop),
    (re.compile(r'basic_ostream<.*operator<<|std::__1::operator<<|basic_ostream<.*::(flush|put|write)|^std::__1::basic_ostream.* std::__1::endl|__put_character_sequence'), ret0),
    (re.compile(r'^std::__1::ios_base::|^std::__1::basic_ios<'), ret0),
]


# ------------------------------------------------------------------ std::vector over trivially copyable elements
ESZ = {'double': 8, 'int': 4, 'unsigned long': 8, 'long': 8, 'unsigned char': 1, 'char': 1, 'unsigned int': 4, 'float': 4}
TRIV_STRUCT = {'cmmcore::vec2', 'cmmcore::vec3', 'cmmcore::vec4', 'cmmcore::AABB'}


def elem(ex, t):
    t = t.strip()
    if t in ESZ:
        return ESZ[t]
    if t.startswith('cmmcore::vec') and t in TRIV_STRUCT:
        for pre in ('struct.', 'class.'):
            if pre + t in ex.m.structs:
                return ex.m.size(ex.m.structs[pre + t])
        return {'cmmcore::vec2': 16, 'cmmcore::vec3': 24, 'cmmcore::vec4': 32}.get(t)
    return None


VEC = re.compile(r'^(?:.*? )?std::__1::vector<(.*), std::__1::allocator<\1>>::([~\w=]+|operator=)(<.*>)?\((.*)\)$')


def vparts(ex, st, v):
    b = ex.load(st, ir.PTR, v)
    e = ex.load(st, ir.PTR, ex.padd(v, 8))
    if isinstance(b, PIte) or isinstance(e, PIte):
        raise Unsupported('ite vector')
    if b.r == 0:
        return b, 0
    return b, tm.isub(e.off, b.off)


def setvec(ex, st, v, r, n):
    ex.store(st, ir.PTR, Ptr(r, 0), v)
    ex.store(st, ir.PTR, Ptr(r, n), ex.padd(v, 8))
    ex.store(st, ir.PTR, Ptr(r, n), ex.padd(v, 16))


def newdata(ex, st, n, esz):
    r = ex.new_region(st, n, 'heap', 'vecdata')
    if esz % 8 == 0:
        st.mem[r].elem = 8
    else:
        st.mem[r].elem = None
    return r


def issym(*xs):
    return any(isinstance(x, T) for x in xs)


def fork_sign(ex, st, c):
    d = ex.decide(st, c)
    if d is None:
        raise Fork(c)
    return d


def v_copy_ctor(esz):
    def h(ex, st, fr, ins, a):
        if a[1].r == a[0].r and a[0].off == a[1].off:
            return NotImplemented
        b, n = vparts(ex, st, a[1])
        if not issym(n, b.off):
            return NotImplemented
        use('std::vector copy')
        r = newdata(ex, st, n, esz)
        ex.memcpy(st, Ptr(r, 0), b, n)
        setvec(ex, st, a[0], r, n)
        return None
    return h


def v_copy_assign(esz):
    def h(ex, st, fr, ins, a):
        b, n = vparts(ex, st, a[1])
        b0, n0 = vparts(ex, st, a[0])
        if not issym(n, n0):
            return NotImplemented
        if a[0].r == a[1].r and a[0].off == a[1].off:
            return a[0]
        use('std::vector copy assignment')
        r = newdata(ex, st, n, esz)
        ex.memcpy(st, Ptr(r, 0), b, n)
        setvec(ex, st, a[0], r, n)
        return a[0]
    return h


def v_resize(esz):
    def h(ex, st, fr, ins, a):
        b0, n0 = vparts(ex, st, a[0])
        n = tm.imulc(a[1], esz)
        if not issym(n, n0):
            return NotImplemented
        use('std::vector::resize')
        grow = fork_sign(ex, st, tm.ile(n0, n))
        if grow:
            r = newdata(ex, st, n, esz)
            if len(a) > 2:
                raise Unsupported('resize with value')
            ex.memset(st, Ptr(r, 0), 0, n)
            ex.memcpy(st, Ptr(r, 0), b0, n0)
            setvec(ex, st, a[0], r, n)
        else:
            ex.store(st, ir.PTR, Ptr(b0.r, tm.iadd(b0.off, n)), ex.padd(a[0], 8))
        return None
    return h


def v_ctor_n(esz):
    def h(ex, st, fr, ins, a):
        n = tm.imulc(a[1], esz)
        if not issym(n):
            return NotImplemented
        use('std::vector(n)')
        r = newdata(ex, st, n, esz)
        ex.memset(st, Ptr(r, 0), 0, n)
        setvec(ex, st, a[0], r, n)
        return None
    return h


def v_ctor_nv(esz):
    def h(ex, st, fr, ins, a):
        n = tm.imulc(a[1], esz)
        if not issym(n):
            return NotImplemented
        use('std::vector(n, value)')
        r = newdata(ex, st, n, esz)
        zero = True
        for i in range(0, esz, 8):
            if esz % 8:
                raise Unsupported('vector(n,v) of small elements')
            x = ex.load(st, ir.DBL, ex.padd(a[2], i))
            if x is not tm.R0:
                zero = False
        if not zero:
            raise Unsupported('symbolic-length vector(n, nonzero)')
        ex.memset(st, Ptr(r, 0), 0, n)
        setvec(ex, st, a[0], r, n)
        return None
    return h


def copy_elem(ex, st, dst, src, esz):
    ex.memcpy(st, dst, src, esz)


def v_push(esz):
    def h(ex, st, fr, ins, a):
        b0, n0 = vparts(ex, st, a[0])
        if not issym(n0) and not (b0.r and st.mem[b0.r].name == 'vecgrow'):
            return NotImplemented
        use('std::vector::push_back')
        n = tm.iadd(n0, esz)
        m = ex.wmem(st, b0.r)
        m.size = n
        ex.memcpy(st, Ptr(b0.r, n0), a[1], esz)
        setvec(ex, st, a[0], b0.r, n)
        return Ptr(b0.r, n0)
    return h


def v_insert1(esz):
    def h(ex, st, fr, ins, a):
        b0, n0 = vparts(ex, st, a[0])
        pos = a[1]
        if not issym(n0, pos.off):
            return NotImplemented
        use('std::vector::insert')
        k = tm.isub(pos.off, b0.off)
        ex.obligation(st, tm.band(tm.ile(0, k), tm.ile(k, n0)), 'memory-safety')
        n = tm.iadd(n0, esz)
        r = newdata(ex, st, n, esz)
        ex.memcpy(st, Ptr(r, 0), b0, k)
        ex.memcpy(st, Ptr(r, tm.iadd(k, esz)), ex.padd(b0, k), tm.isub(n0, k))
        ex.memcpy(st, Ptr(r, k), a[2], esz)
        setvec(ex, st, a[0], r, n)
        return Ptr(r, k)
    return h


def v_insert_n(esz):
    def h(ex, st, fr, ins, a):
        b0, n0 = vparts(ex, st, a[0])
        pos = a[1]
        if not issym(n0, pos.off, a[2]):
            return NotImplemented
        if not isinstance(a[2], int):
            raise sx.ForkVal(a[2])
        use('std::vector::insert')
        k = tm.isub(pos.off, b0.off)
        ex.obligation(st, tm.band(tm.ile(0, k), tm.ile(k, n0)), 'memory-safety')
        w = esz * a[2]
        n = tm.iadd(n0, w)
        r = newdata(ex, st, n, esz)
        ex.memcpy(st, Ptr(r, 0), b0, k)
        ex.memcpy(st, Ptr(r, tm.iadd(k, w)), ex.padd(b0, k), tm.isub(n0, k))
        for i in range(a[2]):
            ex.memcpy(st, Ptr(r, tm.iadd(k, i * esz)), a[3], esz)
        setvec(ex, st, a[0], r, n)
        return Ptr(r, k)
    return h


def v_insert_range(esz):
    def h(ex, st, fr, ins, a):
        b0, n0 = vparts(ex, st, a[0])
        pos = a[1]
        if not issym(n0, pos.off, a[2].off, a[3].off):
            return NotImplemented
        use('std::vector::insert')
        k = tm.isub(pos.off, b0.off) if pos.r else 0
        w = tm.isub(a[3].off, a[2].off)
        ex.obligation(st, tm.band(tm.ile(0, k), tm.ile(k, n0)), 'memory-safety')
        n = tm.iadd(n0, w)
        r = newdata(ex, st, n, esz)
        ex.memcpy(st, Ptr(r, 0), b0, k)
        ex.memcpy(st, Ptr(r, k), a[2], w)
        ex.memcpy(st, Ptr(r, tm.iadd(k, w)), ex.padd(b0, k), tm.isub(n0, k))
        setvec(ex, st, a[0], r, n)
        return Ptr(r, k)
    return h


def v_range_ctor(esz):
    def h(ex, st, fr, ins, a):
        if not issym(a[1].off, a[2].off):
            return NotImplemented
        use('std::vector(first,last)')
        n = tm.isub(a[2].off, a[1].off)
        ex.obligation(st, tm.ile(0, n), 'memory-safety')
        r = newdata(ex, st, n, esz)
        ex.memcpy(st, Ptr(r, 0), a[1], n)
        setvec(ex, st, a[0], r, n)
        return None
    return h


def v_clear(esz):
    def h(ex, st, fr, ins, a):
        b0, n0 = vparts(ex, st, a[0])
        if not issym(n0):
            return NotImplemented
        ex.store(st, ir.PTR, b0, ex.padd(a[0], 8))
        return None
    return h


def v_dtor(esz):
    def h(ex, st, fr, ins, a):
        b = ex.load(st, ir.PTR, a[0])
        if isinstance(b, Ptr):
            if b.r:
                op_delete(ex, st, fr, ins, [Ptr(b.r, 0)])
            return None
        return NotImplemented
    return h


def v_reserve(esz):
    def h(ex, st, fr, ins, a):
        # capacity is not observable through the contracts used here; growth is modelled on demand
        b0, n0 = vparts(ex, st, a[0])
        if issym(n0, a[1]):
            use('std::vector::reserve')
            if not issym(n0) and esz % 8 == 0:      # filled in a loop: from now on an array that grows in place
                r = newdata(ex, st, n0, esz)
                st.mem[r].name = 'vecgrow'
                for i in range(0, n0, 8):
                    ex.memcpy(st, Ptr(r, i), ex.padd(b0, i), 8)
                setvec(ex, st, a[0], r, n0)
            return None
        return NotImplemented
    return h


def v_erase(esz):
    def h(ex, st, fr, ins, a):
        b0, n0 = vparts(ex, st, a[0])
        f = a[1]
        l = a[2] if len(a) > 2 else Ptr(f.r, tm.iadd(f.off, esz))
        if not issym(n0, f.off, l.off):
            return NotImplemented
        use('std::vector::erase')
        k, k2 = tm.isub(f.off, b0.off), tm.isub(l.off, b0.off)
        ex.obligation(st, tm.band(tm.ile(0, k), tm.band(tm.ile(k, k2), tm.ile(k2, n0))), 'memory-safety')
        n = tm.isub(n0, tm.isub(k2, k))
        r = newdata(ex, st, n, esz)
        ex.memcpy(st, Ptr(r, 0), b0, k)
        ex.memcpy(st, Ptr(r, k), ex.padd(b0, k2), tm.isub(n0, k2))
        setvec(ex, st, a[0], r, n)
        return Ptr(r, k)
    return h


def v_assign(esz):
    def h(ex, st, fr, ins, a):
        if isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and issym(a[1].off, a[2].off):
            use('std::vector::assign')
            n = tm.isub(a[2].off, a[1].off)
            r = newdata(ex, st, n, esz)
            ex.memcpy(st, Ptr(r, 0), a[1], n)
            setvec(ex, st, a[0], r, n)
            return None
        return NotImplemented
    return h


def s_copy(esz):
    def h(ex, st, fr, ins, a):
        if not all(isinstance(x, Ptr) for x in a[:3]):
            return NotImplemented
        if a[0].r != a[1].r:
            return NotImplemented
        n = tm.isub(a[1].off, a[0].off)
        if isinstance(n, int):
            if n < 0:
                ex.obligation(st, False, 'memory-safety')
                raise PathEnd('reversed range')
            if n // esz > 64:
                return NotImplemented
            for i in range(0, n, esz):
                ex.memcpy(st, ex.padd(a[2], i), ex.padd(a[0], i), esz)
            return ex.padd(a[2], n)
        use('std::copy')
        ex.obligation(st, tm.ile(0, n), 'memory-safety')
        ex.memcpy(st, a[2], a[0], n)
        return ex.padd(a[2], n)
    return h


COPY = re.compile(r'^(?:.*? )?std::__1::copy<(.*)>\((.*)\)$')


def find(ex, name, d):
    if name in INTR:
        return INTR[name]
    if name.startswith('llvm.'):
        for rx, h in LLVM:
            if rx.match(name):
                return h
        raise Unsupported('intrinsic ' + name)
    if name in C:
        return C[name]
    if name in LIBM:
        return LIBM[name]
    m = VEC.match(d)
    if m:
        esz = elem(ex, m.group(1))
        fn, targs, params = m.group(2), m.group(3), m.group(4)
        if esz:
            T0 = m.group(1)
            if fn == 'vector':
                if params.startswith('std::__1::vector<') and params.endswith(' const&'):
                    return v_copy_ctor(esz)
                if params == 'unsigned long':
                    return v_ctor_n(esz)
                if params == 'unsigned long, %s const&' % T0:
                    return v_ctor_nv(esz)
                if targs:
                    return v_range_ctor(esz)
                return None
            if fn == 'operator=' and params.endswith(' const&'):
                return v_copy_assign(esz)
            if fn == 'resize' and params == 'unsigned long':
                return v_resize(esz)
            if fn in ('push_back', 'emplace_back') and params.count(',') == 0 and (params.startswith(T0 + ' const&') or params.startswith(T0 + '&')):
                return v_push(esz)
            if fn == 'insert':
                if targs:
                    return v_insert_range(esz)
                if params.count('unsigned long,') == 1 and T0 != 'unsigned long':
                    return v_insert_n(esz)
                if params.startswith('std::__1::__wrap_iter<') and params.endswith('&') or params.endswith('&&'):
                    return v_insert1(esz)
            if fn == 'clear':
                return v_clear(esz)
            if fn == '~vector':
                return v_dtor(esz)
            if fn == 'reserve':
                return v_reserve(esz)
            if fn == 'erase':
                return v_erase(esz)
            if fn == 'assign' and targs:
                return v_assign(esz)
        return None
    m = COPY.match(d)
    if m:
        for t in ('double', 'cmmcore::vec4', 'cmmcore::vec3', 'int', 'unsigned long', 'unsigned char'):
            ps = m.group(2)
            if re.search(r'(<|^|, )%s( const)?\*' % re.escape(t), ps):
                return s_copy(elem(ex, t))
    if name in ex.m.ftext and not d.startswith('std::'):
        return None
    for rx, h in STDX:
        if rx.search(d):
            return h
    return None
