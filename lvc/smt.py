"""z3 back end: translation of terms, cached queries with cone-of-influence slicing."""
import time, subprocess, operator, tempfile
import z3
from . import terms as tm
from .terms import T

STAT = {'queries': 0, 'time': 0.0, 'unknown': 0, 'cvc5': 0, 'cvc5_time': 0.0}
_sel = {}
_uf = {}
TWO64 = 1 << 64


def zarr(name, real=True):
    k = (name, real)
    f = _sel.get(k)
    if f is None:
        f = _sel[k] = z3.Function('A_' + name, z3.IntSort(), z3.RealSort() if real else z3.IntSort())
    return f


def zuf(name, n):
    k = (name, n)
    f = _uf.get(k)
    if f is None:
        f = _uf[k] = z3.Function('F_' + name, *([z3.RealSort()] * (n + 1)))
    return f


def zint(x):
    return z3.IntVal(x) if isinstance(x, int) else tr(x)


def zbool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else tr(x)


def tr(t):
    if t.z is not None:
        return t.z
    # iterative post-order to avoid deep recursion
    stack = [t]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop()
            continue
        todo = [c for c in tm.children(x) if c.z is None]
        if todo:
            stack.extend(todo)
            continue
        x.z = tr1(x)
        stack.pop()
    return t.z


def tr1(t):
    op, a = t.op, t.args
    if op == 'rc':
        return z3.RealVal(a[0])
    if op == 'rv':
        return z3.Real('r_' + a[0])
    if op == 'iv':
        return z3.Int('i_' + a[0])
    if op == 'bv':
        return z3.Bool('b_' + a[0])
    if op == 'lin':
        c, items = a
        r = z3.IntVal(c)
        return z3.Sum([x.z * k if k != 1 else x.z for x, k in items] + ([r] if c else []))
    if op == 'imul':
        return a[0].z * a[1].z
    if op == 'idiv':
        return zint(a[0]) / z3.IntVal(a[1])
    if op == 'imod':
        return zint(a[0]) % z3.IntVal(a[1])
    if op == 'iite':
        return z3.If(zbool(a[0]), zint(a[1]), zint(a[2]))
    if op == 'iuf':
        f = _uf.get((a[0], 'i', len(a)))
        if f is None:
            f = _uf[(a[0], 'i', len(a))] = z3.Function('I_' + a[0], *([z3.IntSort()] * len(a)))
        return f(*[zint(x) for x in a[1:]])
    if op == 'buf':
        srt = lambda x: z3.IntSort() if isinstance(x, int) or x.op in ('iv', 'lin', 'isel', 'imul', 'idiv', 'imod', 'iite', 'iuf', 'r2i') else z3.RealSort()
        k = (a[0], 'b') + tuple(str(srt(x)) for x in a[1:])
        f = _uf.get(k)
        if f is None:
            f = _uf[k] = z3.Function('B_' + a[0], *([srt(x) for x in a[1:]] + [z3.BoolSort()]))
        return f(*[zint(x) for x in a[1:]])
    if op == 'ile0':
        return zint(a[0]) <= 0
    if op == 'ieq0':
        return zint(a[0]) == 0
    if op == 'not':
        return z3.Not(zbool(a[0]))
    if op == 'and':
        return z3.And(zbool(a[0]), zbool(a[1]))
    if op == 'or':
        return z3.Or(zbool(a[0]), zbool(a[1]))
    if op == 'iff':
        return zbool(a[0]) == zbool(a[1])
    if op == 'radd':
        return a[0].z + a[1].z
    if op == 'rmul':
        return a[0].z * a[1].z
    if op == 'rdiv':
        return a[0].z / a[1].z
    if op == 'rite':
        return z3.If(zbool(a[0]), a[1].z, a[2].z)
    if op == 'rlt':
        return a[0].z < a[1].z
    if op == 'rle':
        return a[0].z <= a[1].z
    if op == 'req':
        return a[0].z == a[1].z
    if op == 'i2r':
        return z3.ToReal(zint(a[0]))
    if op == 'r2i':
        x = a[0].z
        return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    if op == 'uf':
        return zuf(a[0], len(a) - 1)(*[x.z for x in a[1:]])
    if op == 'rsel':
        return zarr(a[0])(zint(a[1]))
    if op == 'isel':
        return zarr(a[0], False)(zint(a[1]))
    raise Exception('tr ' + op)


# ---------------------------------------------------------------- side facts
_atoms = {}


def atoms(t):
    """frozenset of leaf keys of a term (for the cone of influence)"""
    r = _atoms.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _atoms:
            stack.pop()
            continue
        ch = tm.children(x)
        todo = [c for c in ch if c not in _atoms]
        if todo:
            stack.extend(todo)
            continue
        if x.op in ('rv', 'iv', 'bv', 'rsel', 'isel'):
            s = frozenset((x,)).union(*[_atoms[c] for c in ch]) if ch else frozenset((x,))
        elif x.op == 'uf' or x.op == 'iuf' or x.op == 'buf':
            s = frozenset((x,)).union(*[_atoms[c] for c in ch]) if ch else frozenset((x,))
        elif not ch:
            s = frozenset()
        elif len(ch) == 1:
            s = _atoms[ch[0]]
        else:
            s = frozenset().union(*[_atoms[c] for c in ch])
        _atoms[x] = s
        stack.pop()
    return _atoms[t]


SORTED = {}     # array name -> (lo, hi): nondecreasing on [lo, hi)
BOUNDS = {}     # array name -> (lo, hi) real bounds on elements, or callable(idx term)->list of Bool terms
GAPS = {}       # array name -> (gap, lo, hi): a[i] < a[j] for lo <= i, i + gap <= j, j < hi
RUNS = []      # (A, B): counters of the iterations A <= k < B are tried as loop invariants
PIVOTS = []    # real terms loop variables are compared with (candidates only)
AXUF = {}       # uf name -> callable(term) -> list of Bool terms


def side_facts(ats):
    """ground instances of the assumed quantified facts, for the atoms that occur"""
    out = []
    byarr = {}
    for x in sorted(ats, key=_id):
        if x.op == 'rsel':
            byarr.setdefault(x.args[0], []).append(x)
            b = BOUNDS.get(x.args[0])
            if b is not None:
                if callable(b):
                    out.extend(b(x))
                else:
                    if b[0] is not None:
                        out.append(tm.rle(tm.rc(b[0]), x))
                    if b[1] is not None:
                        out.append(tm.rle(x, tm.rc(b[1])))
        elif x.op == 'uf':
            f = AXUF.get(x.args[0])
            if f:
                out.extend(f(x))
        elif x.op in ('iv', 'isel', 'imul', 'idiv', 'imod'):
            pass
    for a, xs in byarr.items():
        if a in SORTED:
            lo, hi = SORTED[a]
            xs = sorted(xs, key=lambda x: x.id)
            inr = {}
            for x in xs:
                inr[x] = tm.band(tm.ile(lo, x.args[1]), tm.ilt(x.args[1], hi))
            for i in range(len(xs)):
                for j in range(len(xs)):
                    if i == j:
                        continue
                    x, y = xs[i], xs[j]
                    le = tm.ile(x.args[1], y.args[1])
                    if le is False:
                        continue
                    out.append(tm.bimp(tm.band(le, tm.band(inr[x], inr[y])), tm.rle(x, y)))
            if a in GAPS:
                g, lo, hi = GAPS[a]
                for x in xs:
                    for y in xs:
                        far = tm.ile(tm.iadd(x.args[1], g), y.args[1])
                        if x is y or far is False:
                            continue
                        out.append(tm.bimp(tm.band(far, tm.band(tm.ile(lo, x.args[1]), tm.ilt(y.args[1], hi))), tm.rlt(x, y)))
    return [o for o in out if o is not True]


def int_bounds(ats):
    out = []
    for x in sorted(ats, key=_id):
        if x.op in ('iv', 'isel', 'iuf'):
            if x.lo != -tm.INF:
                out.append(x.z_() >= x.lo if False else tr(x) >= int(x.lo))
            if x.hi != tm.INF:
                out.append(tr(x) <= int(x.hi))
    return out


def cone(pc, goal_atoms, limit=None):
    """constraints of pc connected to the goal's atoms"""
    todo = [(c, atoms(c)) for c in pc if not isinstance(c, bool)]
    cur = set(goal_atoms)
    for x in goal_atoms:
        b = BOUNDS.get(x.args[0]) if x.op == 'rsel' else None
        if b is not None and callable(b):
            for f in b(x):
                if not isinstance(f, bool):
                    cur |= atoms(f)
    # array cells of the same array are connected through sortedness
    arrs = {x.args[0] for x in cur if x.op == 'rsel'}
    out = []
    changed = True
    while changed and todo:
        changed = False
        rest = []
        for c, s in todo:
            if (not s) or not cur.isdisjoint(s):
                out.append(c)
                if not s <= cur:
                    cur |= s
                changed = True
            else:
                hit = False
                for x in s:
                    if x.op == 'rsel':
                        if x.args[0] in SORTED:
                            if any(y.op == 'rsel' and y.args[0] == x.args[0] for y in cur):
                                hit = True
                                break
                        elif any(y.op == 'rsel' and y.args[0] == x.args[0] and tm.ieq(x.args[1], y.args[1]) is not False for y in cur):
                            hit = True
                            break
                if hit:
                    out.append(c)
                    cur |= s
                    changed = True
                else:
                    rest.append((c, s))
        todo = rest
    return out, cur


def is_nl(cs):
    seen = set()
    for c in cs:
        st = [c]
        while st:
            x = st.pop()
            if x in seen or not isinstance(x, T):
                continue
            seen.add(x)
            if x.op == 'rmul' and x.args[0].op != 'rc':
                return True
            if x.op in ('rdiv', 'imul'):
                return True
            st.extend(tm.children(x))
    return False


_cache = {}
_id = operator.attrgetter('id')


def query(cs, timeout=5000, want_model=False, extra_facts=()):
    """satisfiability of the conjunction -> 'sat' | 'unsat' | 'unknown' (, model)"""
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs):
        return ('unsat', None) if want_model else 'unsat'
    key = frozenset(c.id for c in cs)
    if not want_model:
        r = _cache.get(key)
        if r is not None and not (r[0] == 'unknown' and r[1] < timeout):
            return r[0]
    ats = set()
    for c in cs:
        ats |= atoms(c)
    facts = side_facts(ats)
    for f in facts:
        if f is False:
            return ('unsat', None) if want_model else 'unsat'
        ats |= atoms(f)
    # second round (facts may mention new atoms)
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in cs:
        s.add(tr(c))
    for f in facts:
        s.add(tr(f))
    for b in int_bounds(ats):
        s.add(b)
    t0 = time.time()
    STAT['queries'] += 1
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STAT['time'] += time.time() - t0
    r = str(r)
    if r == 'unknown':
        STAT['unknown'] += 1
    _cache[key] = (r, timeout)
    if want_model:
        return r, (s.model() if r == 'sat' else None)
    return r


def cvc5_check(cs, timeout_s=20):
    cs = [c for c in cs if c is not True]
    ats = set()
    for c in cs:
        ats |= atoms(c)
    facts = side_facts(ats)
    for f in facts:
        ats |= atoms(f)
    s = z3.Solver()
    for c in cs + facts:
        s.add(tr(c))
    for b in int_bounds(ats):
        s.add(b)
    txt = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
    t0 = time.time()
    STAT['cvc5'] += 1
    try:
        r = subprocess.run(['cvc5', '--lang', 'smt2', '-q', '--tlimit=%d' % (timeout_s * 1000)],
                           input=txt, capture_output=True, text=True, timeout=timeout_s + 5)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except Exception:
        o = 'unknown'
    STAT['cvc5_time'] += time.time() - t0
    return o if o in ('sat', 'unsat') else 'unknown'


PORTFOLIO = [['z3', '-in', '-T:%d'], ['z3', '-in', '-T:%d', 'smt.random_seed=7', 'nlsat.seed=7'],
             ['z3', '-in', '-T:%d', 'smt.random_seed=23', 'smt.arith.nl.order=true'],
             ['z3-new', '-in', '-T:%d'], ['z3-new', '-in', '-T:%d', 'smt.random_seed=11', 'nlsat.seed=11'],
             ['cvc5', '--lang', 'smt2', '-q', '--tlimit=%d000'], ['cvc5', '--lang', 'smt2', '-q', '--tlimit=%d000', '--nl-cov']]


def _smt2(cs):
    cs = [c for c in cs if c is not True]
    ats = set()
    for c in cs:
        ats |= atoms(c)
    facts = side_facts(ats)
    for f in facts:
        ats |= atoms(f)
    s = z3.Solver()
    for c in cs + facts:
        s.add(tr(c))
    for b in int_bounds(ats):
        s.add(b)
    return s.sexpr() + '\n(check-sat)\n'


def portfolio(near, full, secs=40):
    """last resort for an obligation no back end decided: several solvers, versions and seeds side by side, outside this
    process; near: the constraints connected to the goal, full: all of them"""
    txts = [_smt2(near)]
    if len(full) > len(near):
        txts.append(_smt2(full))
    t0 = time.time()
    STAT['portfolio'] = STAT.get('portfolio', 0) + 1
    ps = []
    res = 'unknown'
    with tempfile.TemporaryDirectory() as d:
        for k, txt in enumerate(txts):
            for i, c in enumerate(PORTFOLIO[k * 3:] if k else PORTFOLIO):
                f = '%s/%d_%d.smt2' % (d, k, i)
                open(f, 'w').write(('(set-logic ALL)\n' if c[0] == 'cvc5' else '') + txt)
                try:
                    ps.append((k, subprocess.Popen([a % secs if '%d' in a else a for a in c], stdin=open(f), stdout=open(f + '.out', 'w'), stderr=subprocess.DEVNULL), f + '.out', i + k * 3))
                except OSError:
                    pass
        live = list(ps)
        while live and res == 'unknown' and time.time() - t0 < secs + 5:
            time.sleep(0.1)
            for x in list(live):
                if x[1].poll() is not None:
                    live.remove(x)
                    o = open(x[2]).read().strip().split('\n')[0]
                    if o == 'unsat' or o == 'sat' and x[0] == len(txts) - 1:
                        res = o
                        w = 'portfolio ' + PORTFOLIO[x[3]][0] + ' %d' % x[3]
                        STAT[w] = STAT.get(w, 0) + 1
                        break
        for x in ps:
            if x[1].poll() is None:
                x[1].kill()
            x[1].wait()
    STAT['portfolio_time'] = STAT.get('portfolio_time', 0) + time.time() - t0
    return res
